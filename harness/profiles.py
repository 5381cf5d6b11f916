"""What the random histories for each property consist of (weights; see gen.PROFILE)."""
from .gen import profile, TOPICS, DOLLAR, ODD
from .wire import NEVER, NOLIM

TWO5 = [("p", 5), ("q", 5)]
P455 = [("p", 5), ("q", 5), ("r", 4)]
P4 = [("p", 4), ("q", 4), ("r", 4)]
P5 = [("p", 5), ("q", 5), ("r", 5)]
MIXED = [P455, P5, P4, [("p", 4), ("q", 5)], [("p", 5), ("q", 4), ("r", 4), ("t", 5)]]
FEW = [["a"], ["b"]]
SPECIAL = [["test", "nosubscribe"], ["test", "QoS 1 only"], ["test", "QoS 0 only"], ["test"], ["test", "QoS 0 only", "x"]]

PROFILES = {
    "mix": profile(),
    "mixed": profile(clientsets=MIXED, opts={"pubrel": [False, False, True], "single": [True, True, False], "drop0": [True, False],
                                             "ta": [0, 2, 5], "rm": [1, 2, 10], "mps": [256, 256, 128]},
                     tamax=[0, 1, 3], extra=DOLLAR + ODD, share=0.05),
    "B01": profile(clientsets=MIXED, topics=TOPICS, extra=DOLLAR + ODD, extrap=0.35, wild=0.65, q=[0, 0, 0, 1], sq=[0, 0, 1, 2],
                   w={"subscribe": 9, "unsubscribe": 4, "publish": 22, "republish": 0, "tick": 0.5, "badack": 0, "pubrel": 1, "sn": 1},
                   will=0.1, mexp=0.02, ret=0.1, nl=0.05, rmax=[65535], nsubs=[1, 2, 3], pr=0.4, len=(16, 36)),
    "B02": profile(clientsets=MIXED, opts={"pubrel": [False, True], "rm": [2, 3, 10]}, q=[1, 2, 2, 2], sq=[0, 1, 2, 2], topics=FEW, clean=0.15,
                   sexp=[30, NEVER, NEVER, 0], will=0.1, mexp=0.03, wild=0.3,
                   w={"publish": 12, "republish": 8, "pubrel": 10, "drop": 3, "disconnect": 1, "connect": 7, "subscribe": 2, "tick": 1}),
    "B03": profile(clientsets=MIXED, q=[1, 2, 2], sq=[1, 2, 2], topics=FEW, clean=0.15, sexp=[30, NEVER], will=0.05, mexp=0,
                   opts={"rm": [10]}, ret=0.1, w={"publish": 14, "ack": 16, "badack": 9, "drop": 1, "tick": 0.5, "pubrel": 4}),
    "B04": profile(clientsets=MIXED, q=[1, 2, 2], sq=[1, 2, 2], topics=FEW, clean=0.05, sexp=[NEVER, 30], will=0.05, mexp=0.05,
                   opts={"rm": [10]}, w={"publish": 14, "ack": 8, "badack": 1, "drop": 5, "disconnect": 2, "connect": 12, "tick": 0.5, "pubrel": 3},
                   takeover=0.25, len=(18, 40)),
    "B05": profile(clientsets=MIXED, q=[0, 1, 1, 2, 2], sq=[1, 2, 2], topics=FEW, clean=0.08, sexp=[NEVER, 30], will=0, mexp=0.05,
                   rmax=[1, 2, 3, 65535], opts={"rm": [20], "drop0": [True, False]},
                   w={"publish": 10, "burst": 4, "ack": 12, "drop": 3, "connect": 9, "pubrel": 2, "tick": 0.5}),
    "B06": profile(clientsets=MIXED, q=[1, 2], sq=[1, 2, 2], topics=FEW, clean=0.05, sexp=[NEVER], will=0, mexp=0.1, exps=[1, 2],
                   rmax=[1, 2, 3, 65535, 65535], opts={"rm": [20]},
                   w={"publish": 12, "burst": 2, "ack": 9, "badack": 2, "drop": 4, "connect": 9, "pubrel": 2, "tick": 2}),
    "B07": profile(clientsets=MIXED, clean=0.4, sexp=[0, 0, 30, NEVER], topics=FEW, q=[0, 1, 2], sq=[0, 1, 2], will=0.1, mexp=0,
                   w={"connect": 14, "drop": 5, "disconnect": 5, "publish": 12, "subscribe": 6, "unsubscribe": 2, "tick": 1, "ack": 6, "republish": 3},
                   takeover=0.25, disc_exp=0.3),
    "B08": profile(clientsets=[P5, TWO5, P455], clean=0.2, sexp=[0, 1, 2, 3, 5, NEVER], topics=FEW, q=[0, 1, 2], sq=[1, 2], will=0.1, mexp=0,
                   w={"connect": 11, "drop": 5, "disconnect": 6, "publish": 8, "subscribe": 5, "tick": 12, "ack": 5}, ticks=[1, 1, 2, 3, 4],
                   disc_exp=0.5, len=(20, 40)),
    "B09": profile(clientsets=MIXED, clean=0.08, sexp=[NEVER, 30], topics=FEW, q=[0, 1, 2], sq=[0, 1, 2, 2], will=0.1, mexp=0.05,
                   opts={"drop0": [True, False, False], "rm": [10]}, rmax=[65535, 65535, 1, 2],
                   w={"connect": 9, "drop": 4, "disconnect": 3, "publish": 16, "burst": 2, "ack": 6, "subscribe": 4, "pubrel": 2}),
    "B10": profile(clientsets=[P5, TWO5, P455], clean=0.08, sexp=[NEVER, 30], topics=FEW, q=[0, 1, 2, 2], sq=[1, 2, 2], will=0.05, mexp=0.08,
                   exps=[1, 2, 3], opts={"rm": [1, 2, 3, 5]}, rmax=[1, 2, 3, 4], over=0.12,
                   w={"publish": 16, "burst": 2, "republish": 6, "ack": 12, "badack": 1.5, "pubrel": 7, "drop": 3, "connect": 9, "tick": 2}),
    "B11": profile(clientsets=MIXED, topics=TOPICS, extra=DOLLAR + ODD, ret=0.7, empty=0.25, wild=0.5, rap=0.4, rh=[0, 0, 1, 1, 2], share=0.08,
                   q=[0, 1, 2], sq=[0, 1, 2], will=0.3, wret=0.6, mexp=0.1, rmax=[65535, 65535, 2],
                   w={"publish": 14, "subscribe": 12, "unsubscribe": 3, "drop": 2, "connect": 7, "sn": 2, "tick": 1.5}),
    "B12": profile(clientsets=MIXED, topics=TOPICS[:4], extra=SPECIAL, extrap=0.25, wild=0.4, nsubs=[1, 2, 3, 4], q=[0, 1, 2], sq=[0, 1, 2],
                   w={"subscribe": 14, "unsubscribe": 9, "publish": 12, "drop": 1, "tick": 0.5, "violate": 0.8}, will=0.05, mexp=0, share=0.15),
    "B13": profile(clientsets=MIXED, opts={"single": [True, False]}, topics=TOPICS[:4], wild=0.7, nl=0.3, rap=0.4, sid=0.6, nsubs=[1, 2, 3],
                   q=[0, 1, 2], sq=[0, 1, 2], mexp=0.05, will=0.1, clean=0.15,
                   w={"subscribe": 12, "unsubscribe": 2, "publish": 18, "tick": 0.5, "republish": 1}),
    "B14": profile(clientsets=[P5, P455, [("p", 5), ("q", 5), ("r", 5), ("t", 4)], TWO5], topics=TOPICS[:3], wild=0.5, share=0.6, nl=0.1, sid=0.4,
                   q=[0, 0, 1, 2], sq=[0, 1, 2], clean=0.3, sexp=[0, 0, 0, NEVER], will=0.1, mexp=0.03, opts={"drop0": [True, True, True, False], "single": [True, True, False]},
                   rmax=[65535, 65535, 65535, 2], len=(12, 26),
                   w={"subscribe": 10, "unsubscribe": 3, "publish": 14, "drop": 1.5, "disconnect": 0.5, "connect": 8, "tick": 1, "ack": 14}),
    "B15": profile(clientsets=MIXED, will=0.9, wdelay=[0], topics=FEW, takeover=0.35, q=[0, 1], sq=[0, 1, 2], disc_rc=[0, 0, 4, 4, 0x80],
                   ka=[0, 0, 2, 3], ticks=[1, 2, 5], clean=0.4, wret=0.4,
                   w={"connect": 12, "drop": 5, "disconnect": 6, "bad": 1.5, "violate": 1.5, "tick": 4, "publish": 4, "subscribe": 8}),
    "B16": profile(clientsets=[P5, TWO5, P455], will=0.9, wdelay=[0, 1, 2, 3, 5], sexp=[0, 1, 2, 4, NEVER, NEVER], topics=FEW, takeover=0.25,
                   q=[0], sq=[0, 1], disc_rc=[0, 4, 4], disc_exp=0.25, clean=0.25, ticks=[1, 1, 2, 3], wret=0.3, mexp=0.3,
                   w={"connect": 12, "drop": 6, "disconnect": 4, "bad": 0.5, "tick": 14, "publish": 2, "subscribe": 6, "ack": 3}, len=(20, 40)),
    "B17": profile(clientsets=MIXED, takeover=0.8, will=0.5, wdelay=[0, 0, 2], topics=FEW, clean=0.3, sexp=[0, 30, NEVER], q=[0, 1, 2], sq=[1, 2],
                   w={"connect": 14, "publish": 12, "subscribe": 6, "ack": 6, "tick": 1.5, "drop": 1, "republish": 3}),
    "B18": profile(clientsets=[P5, TWO5, P455], opts={"ta": [0, 1, 2, 5], "rm": [2, 10], "pubrel": [False, True]}, tamax=[0, 1, 2, 5], alias=0.75, topics=TOPICS[:5],
                   clean=0.1, sexp=[NEVER], q=[0, 1, 2], sq=[0, 1, 2], wild=0.7, rmax=[65535, 1, 2], mexp=0.1,
                   w={"publish": 20, "violate": 1, "drop": 3, "connect": 9, "ack": 8, "tick": 1, "republish": 3}),
    "B19": profile(clientsets=[P5, TWO5, P455], mexp=0.75, exps=[1, 2, 3, 4], ticks=[1, 1, 2], topics=FEW, clean=0.08, sexp=[NEVER], q=[0, 1, 2], sq=[1, 2],
                   ret=0.3, rmax=[1, 2, 65535], will=0.2, opts={"drop0": [True, False], "rm": [10]},
                   w={"publish": 14, "tick": 9, "drop": 4, "connect": 9, "ack": 9, "subscribe": 5, "pubrel": 2}),
    "B20": profile(clientsets=[P5, TWO5, P455], mps=[24, 30, 45, 60, NOLIM], paylen=[0, 0, 5, 10, 20, 40, 120], opts={"mps": [128, 256], "rm": [10]},
                   topics=TOPICS[:3], clean=0.1, sexp=[NEVER], q=[0, 1, 2], sq=[0, 1, 2], will=0.2, pr=0.4, sid=0.3, tamax=[0, 1, 2], rmax=[65535, 1, 2],
                   anon=0, w={"publish": 18, "violate": 2.5, "drop": 3, "connect": 9, "ack": 9, "tick": 1}),
    "B21": profile(clientsets=[P5, P455], pr=0.85, topics=FEW, clean=0.1, sexp=[NEVER], q=[0, 1, 2], sq=[0, 1, 2], sid=0.5, will=0.4, ret=0.4, alias=0.4,
                   tamax=[0, 2], rmax=[65535, 1, 2], opts={"rm": [10], "single": [True, False]}, mexp=0.2, wild=0.6,
                   w={"publish": 16, "drop": 3, "connect": 9, "subscribe": 7, "ack": 9, "tick": 1.5}),
    "B22": profile(clientsets=[P455, [("p", 4), ("q", 5)], [("p", 5), ("q", 4), ("r", 4), ("t", 5)]], topics=TOPICS[:3] + [["aa"], ["sn"]], q=[0, 1, 2], sq=[0, 1, 2],
                   sid=0.4, rap=0.3, ret=0.4, will=0.4, clean=0.2, sexp=[0, NEVER], pr=0.5, opts={"single": [True, False], "drop0": [True, False], "rm": [10]},
                   w={"publish": 14, "sn": 5, "drop": 3, "connect": 9, "subscribe": 7}),
    "B23": profile(clientsets=MIXED, ka=[0, 1, 2, 3, 4, 100], opts={"ska": [2, 3, 60]}, ticks=[1, 1, 1, 2, 2, 3], will=0.5, topics=FEW, q=[0, 1], sq=[0, 1],
                   w={"tick": 22, "ping": 8, "publish": 6, "connect": 9, "ack": 3, "drop": 1, "republish": 1, "subscribe": 4}, takeover=0.1, len=(20, 44)),
    "B24": profile(clientsets=MIXED, will=0.5, topics=FEW + [["a", "b"]], q=[0, 1, 2], sq=[0, 1, 2], clean=0.2, opts={"rm": [2, 10]},
                   w={"bad": 6, "violate": 6, "connect": 12, "publish": 10, "subscribe": 5, "ack": 6, "tick": 1}),
    "B25": profile(clientsets=MIXED, anon=0.3, opts={"zlc": [True, False], "ta": [0, 2, 7], "mps": [64, 256, 1000], "rm": [1, 2, 100], "ska": [5, 60]},
                   ka=[0, 3, 30, 100], rmax=[65535, 0, 1], mps=[NOLIM, NOLIM, 0], topics=FEW, clean=0.5, will=0.2, takeover=0.2,
                   w={"connect": 16, "drop": 4, "disconnect": 4, "ping": 6, "publish": 6, "subscribe": 4, "violate": 1, "tick": 2}),
    "L02": profile(clientsets=MIXED, topics=FEW, clean=0.15, sexp=[NEVER, 30, 2, 1], q=[0, 1, 2], sq=[1, 2, 2], opts={"rm": [10]}, will=0.5, mexp=0, ka=[0], wdelay=[0, 1, 1, 2], tickpair=0.35,
                   wret=0.4, w={"pair": 22, "publish": 6, "ack": 4, "connect": 9, "tick": 0.5, "drop": 5}, len=(14, 32)),
    "L01": profile(clientsets=MIXED, topics=FEW + [["a", "b"]], clean=0.2, sexp=[NEVER, 30], q=[0, 1, 2], sq=[0, 1, 2], ka=[0], wdelay=[0], mexp=0, anon=0.02, takeover=0.2,
                   opts={"rm": [10], "mps": [256, 256, 200000], "ta": [0, 2]}, paylen=[0, 0, 0, 30, 118, 119, 120, 121, 122, 123, 124, 125, 126, 128, 150, 1100, 65530, 70000],
                   w={"batch": 14, "stall": 4, "halfconnect": 1.5, "goon": 6, "badframe": 0.6, "junk": 0.4, "bad": 0.3, "violate": 0.3, "publish": 8, "ack": 8, "subscribe": 3,
                      "connect": 5, "drop": 2.5, "disconnect": 1.5, "tick": 0, "sn": 0.4, "pubrel": 3, "republish": 1}, len=(10, 24)),
    "S01": profile(clientsets=MIXED, opts={"pers": [True, True, False]}, topics=TOPICS[:5], ret=0.5, empty=0.2, clean=0.2, sexp=[0, 5, NEVER], will=0.2, wret=0.5,
                   w={"restart": 2.5, "publish": 12, "subscribe": 7, "unsubscribe": 2, "connect": 12, "sn": 1}, pr=0.4, mexp=0.1, share=0.1),
    "S02": profile(clientsets=MIXED, opts={"ta": [0, 2, 7], "mps": [128, 256, 1000], "rm": [1, 2, 100], "ska": [5, 60], "single": [True, False], "drop0": [True, False],
                                           "pubrel": [True, False]}, topics=FEW, ret=0.4, clean=0.2, sexp=[0, NEVER], will=0.3,
                   w={"reinit": 2.5, "publish": 12, "subscribe": 7, "connect": 12, "sn": 1, "violate": 1}, wdelay=[0, 2]),
    "H01": profile(clientsets=MIXED, topics=TOPICS[:6], extra=DOLLAR + ODD, anon=0, ret=0.6, clean=0.4, sexp=[0, 2, NEVER], share=0.15, mexp=0.15, takeover=0.2, will=0.2, wret=0.5,
                   opts={"pers": [False, True], "single": [True, False]},
                   w={"http": 14, "pair": 6, "publish": 14, "subscribe": 8, "unsubscribe": 3, "connect": 7, "drop": 3, "disconnect": 3, "tick": 2, "reinit": 0.3, "restart": 0.3, "sn": 1}),
    "PH1": profile(clientsets=MIXED, topics=TOPICS[:6], extra=DOLLAR + ODD, anon=0, ret=0.6, clean=0.4, sexp=[0, NEVER], share=0.15, mexp=0, takeover=0.2, will=0.2, wret=0.5, wdelay=[0], ka=[0],
                   opts={"pers": [False, True]}, len=(14, 24),
                   w={"http": 14, "publish": 12, "subscribe": 8, "unsubscribe": 3, "connect": 7, "drop": 3, "disconnect": 3, "tick": 0, "restart": 0.7, "sn": 1, "bad": 0.2}),
    "V01": profile(clientsets=[P5, TWO5, P455, [("p", 4), ("q", 5)]], topics=TOPICS[:5], q=[0, 1, 2], sq=[0, 1, 2], ret=0.3, clean=0.3, sexp=[0, 2, NEVER], will=0.3, wdelay=[0, 1], mexp=0.2, pr=0.4,
                   share=0.1, sid=0.3, tamax=[0, 2], alias=0.3, takeover=0.2, rmax=[65535, 2], mps=[NOLIM, NOLIM, 40], disc_rc=[0, 4, 0x80], opts={"rm": [2, 10], "ta": [0, 2], "drop0": [True, False]},
                   anon=0.1, ka=[0, 0, 3], len=(14, 30),
                   w={"publish": 12, "subscribe": 6, "unsubscribe": 3, "ack": 9, "badack": 2, "ping": 2, "pubrel": 3, "disconnect": 3, "drop": 2, "bad": 1, "violate": 1.5, "pair": 3, "sn": 0.5}),
    "PV1": dict(profile(clientsets=[P5, TWO5, P455], topics=TOPICS[:5], q=[0, 1, 2], sq=[0, 1, 2], ret=0.3, clean=0.3, sexp=[0, NEVER], will=0.3, wdelay=[0], mexp=0, ka=[0], pr=0.3,
                   sid=0.2, tamax=[0, 2], alias=0.2, takeover=0.2, rmax=[65535, 2], opts={"rm": [10], "ta": [0, 2], "pers": [False, True]}, anon=0.05, len=(14, 24),
                   w={"publish": 14, "subscribe": 6, "unsubscribe": 2, "ack": 9, "ping": 0, "pubrel": 3, "disconnect": 3, "drop": 2, "bad": 0, "violate": 0, "tick": 0, "restart": 0.6, "sn": 0.5, "http": 0}), visual=True),
    "P01": profile(clientsets=MIXED, opts={"pers": [True, True, False], "ta": [0, 2, 7], "mps": [128, 256, 1000, 200000], "rm": [1, 2, 100]}, topics=TOPICS[:5], ret=0.5, empty=0.2, paylen=[0, 0, 0, 0, 100, 200, 900, 70000],
                   clean=0.3, sexp=[0, 0, NEVER], will=0.2, wret=0.5, wdelay=[0], ka=[0], mexp=0, anon=0.05, nsubs=[1, 2, 3],
                   w={"restart": 2.5, "publish": 12, "subscribe": 7, "unsubscribe": 2, "connect": 12, "sn": 1, "violate": 1, "tick": 0, "bad": 0.2, "http": 0}, pr=0.4, share=0.1, len=(14, 26)),
}
