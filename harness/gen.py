"""Seeded random histories for the broker, weighted by a profile (profiles.py)."""
import random
from . import wire
from .run import Run, Hang, opts, sub, will
from .wire import NEVER, NOLIM

TOPICS = [["a"], ["a", "b"], ["a", "c"], ["b"], ["a", "b", "c"], ["d", ""], ["", "a"]]
DOLLAR = [["$d"], ["$d", "a"]]
ODD = [["a\u00e9", "b"], ["a.b"], ["A"], ["a", "", "c"], ["x(y", "z|"], ["\u65e5\u672c"]]

# bytes that are not an acceptable packet from a connected client (both versions, or one)
_F = lambda ty, fl, body: wire.frame(ty, fl, body).hex()
_A = wire.utf8("a")
BAD_BOTH = [_F(3, 6, _A + b"\0\1\0x"),                     # PUBLISH with QoS 3
            "0000", "00020000",                            # type 0
            _F(8, 0, b"\0\1\0" + _A + b"\0"), _F(10, 0, b"\0\1\0" + _A),   # wrong fixed header flags
            _F(6, 0, b"\0\1"), _F(4, 2, b"\0\1"), _F(7, 1, b"\0\1"), "c100", "e100",
            _F(8, 2, b"\0\1\0\0\5a\0"),                    # string longer than the packet
            _F(3, 0, b"\0\5a"), _F(3, 2, _A + b"\1"),      # PUBLISH cut short
            _F(3, 0, b"\0\2\xc3\x28\0x"), _F(3, 0, b"\0\1\xff\0x"),   # invalid UTF-8
            "c20100".replace("c201", "c001"),              # PINGREQ with a body
            _F(2, 0, b"\0\0\0"), "d000", _F(9, 0, b"\0\1\0\0"), _F(11, 0, b"\0\1\0\0"),   # only a server sends these
            "ffffffffff7f", "30ffffffff7f00"]              # remaining length of five bytes
BAD5 = [_F(3, 0, _A + b"\2\x7f\0x"),                       # unknown property
        _F(3, 0, _A + b"\3\1\1\x23"), _F(3, 0, _A + b"\x20\1\1x"),   # property cut short, properties too long
        _F(3, 0, _A + b"\4\1\1\1\1x"),                    # payload format indicator twice
        _F(3, 0, _A + b"\2\1\2x"),                         # payload format indicator 2
        _F(3, 0, _A + b"\5\x11\0\0\0\1x"),                # a property that does not belong here
        _F(8, 2, b"\0\1\0" + _A + b"\xc0"), _F(8, 2, b"\0\1\0" + _A + b"\3"), _F(8, 2, b"\0\1\0" + _A + b"\x30"),
        _F(8, 2, b"\0\1\2\x0b\0" + _A + b"\0"),            # subscription identifier 0
        _F(8, 2, b"\0\1\0"), _F(10, 2, b"\0\1\0"),        # no filters
        _F(14, 0, b"\0\5\x11\0"),
        "f000", _F(15, 0, b"\x18\0")]                      # AUTH without authentication
BAD4 = ["f000", _F(8, 2, b"\0\1" + _A + b"\3"), _F(8, 2, b"\0\1"), _F(10, 2, b"\0\1"), _F(4, 0, b"\0\1\0"),
        _F(14, 0, b"\0")]


PROFILE = {
    "opts": {},
    "clients": [("p", 5), ("q", 5), ("r", 4)],
    "topics": TOPICS[:4], "extra": [], "extrap": 0.1,
    "len": (14, 34),
    "w": {"connect": 6, "drop": 2, "disconnect": 2, "subscribe": 6, "unsubscribe": 2, "publish": 14, "republish": 2,
          "pubrel": 5, "ack": 10, "badack": 1, "ping": 1, "bad": 0.3, "tick": 3, "sn": 0.5, "pair": 0, "violate": 0.2,
          "restart": 0, "reinit": 0, "burst": 0},
    "clean": 0.3, "sexp": [0, 5, 30, NEVER], "ka": [0, 0, 0, 100], "rmax": [65535, 65535, 1, 2, 3], "mps": [NOLIM],
    "tamax": [0, 0, 1, 2], "will": 0.3, "wdelay": [0, 0, 2, 4], "wq": [0, 1, 2], "wret": 0.2,
    "q": [0, 1, 2], "sq": [0, 1, 2, 2], "ret": 0.25, "empty": 0.2, "pr": 0.3, "mexp": 0.2, "exps": [1, 2, 3, 5], "alias": 0.2,
    "share": 0.0, "nl": 0.15, "rap": 0.2, "sid": 0.3, "nsubs": [1, 1, 1, 2, 3], "rh": [0, 0, 0, 1, 2], "wild": 0.45,
    "ticks": [1, 1, 2, 3], "takeover": 0.15, "disc_rc": [0, 0, 4], "disc_exp": 0.2, "paylen": [0], "anon": 0.05,
    "epilogue": True, "start": 3, "connall": 0.85, "over": 0.03, "fullsub": 0.85, "minsub": 0, "tickpair": 0,
}


def profile(**kw):
    p = dict(PROFILE)
    for k, v in kw.items():
        p[k] = dict(p[k], **v) if k in ("w",) else v
    return p


PRS = [[("user", ("k", "v"))], [("user", ("k", "v")), ("user", ("a", "1")), ("user", ("k", "v"))], [("ctype", "t/x")],
       [("pfi", 1), ("ctype", "json")], [("rtopic", "re/ply"), ("cdata", "\x00\x01\xff")], [("pfi", 0)],
       [("user", ("\u00e9", "")), ("rtopic", "r"), ("cdata", "")], [("pfi", 1), ("user", ("z", "y")), ("ctype", "c"), ("cdata", "id7")]]


class Gen:
    def __init__(self, name, seed, prof, make=True):
        self.r = random.Random(seed)
        self.p = prof
        o = {}
        for k, v in prof["opts"].items():
            o[k] = self.r.choice(v) if isinstance(v, list) else v
        self.options = opts(**o)
        self.run = Run(name, self.options) if make else None
        self.n = 0
        self.pid = 0
        self.sn = {}
        if "clientsets" in prof:
            prof = self.p = dict(prof, clients=self.r.choice(prof["clientsets"]))
        self.ver = dict(prof["clients"])

    # ------------------------------------------------ parts
    def chance(self, x):
        return self.r.random() < x

    def topic(self):
        if self.p["extra"] and self.chance(self.p["extrap"]):
            return list(self.r.choice(self.p["extra"]))
        return list(self.r.choice(self.p["topics"]))

    def filt(self):
        t = self.topic()
        if self.chance(self.p["wild"]):
            x = self.r.random()
            if x < 0.35:
                return t[:self.r.randrange(0, len(t))] + ["#"]
            if x < 0.5:
                return t + ["#"]
            if x < 0.6:
                return ["#"]
            i = self.r.randrange(len(t))
            t[i] = "+"
            if self.chance(0.2):
                t[self.r.randrange(len(t))] = "+"
        return t

    def payload(self):
        self.n += 1
        s = "m%d" % self.n
        k = self.r.choice(self.p["paylen"])
        if k + 60 > self.run.opt["mps"] and k > 200 and not self.chance(0.03):
            k = 0
        if k >= 1000:
            return "#%d:%s#" % (k, s)
        return s + "x" * max(0, k - len(s))

    def props(self):
        return wire.canon(self.r.choice(PRS)) if self.chance(self.p["pr"]) else ""

    def nextid(self, c):
        while True:
            self.pid = self.pid % 60 + 1
            if self.pid not in c.sent:
                return self.pid

    def conns(self):
        return self.run.live()

    # ------------------------------------------------ actions: -> event or None
    def connect(self, cid=None):
        r, p = self.r, self.p
        on = {c.cid for c in self.conns()}
        if cid is None:
            off = [c for c in self.ver if c not in on]
            if off and not self.chance(p["takeover"]):
                cid = r.choice(off)
            elif self.chance(p["takeover"] * 2):
                cid = r.choice(list(self.ver))
            else:
                return None
        ver = self.ver[cid]
        if self.chance(p["anon"]):
            cid = ""
        w = {"on": False}
        if self.chance(p["will"]):
            w = will(self.topic(), "w" + self.payload(), r.choice(p["wq"]), int(self.chance(p["wret"])),
                     self.props() if ver == 5 else "",
                     r.choice(p["exps"]) if ver == 5 and self.chance(p["mexp"]) else -1,
                     r.choice(p["wdelay"]) if ver == 5 else 0)
        self.run.nk += 1
        ev = dict(e="CONNECT", k=self.run.nk, ver=ver, cid=cid, clean=self.chance(p["clean"]), ka=r.choice(p["ka"]),
                  exp=r.choice(p["sexp"]), rmax=r.choice(p["rmax"]), mps=r.choice(p["mps"]), tamax=r.choice(p["tamax"]),
                  will=w)
        if cid == "":
            ev["mps"] = NOLIM
        if self.chance(0.12):       # nobody asks for them; they must do no harm
            ev["user"], ev["pass"] = r.choice([("u", ""), ("\u00e9", "pw"), ("name", "\x00\xff")])
        return ev

    def drop(self, c):
        return dict(e="DROP", k=c.k)

    def disconnect(self, c):
        ev = dict(e="DISCONNECT", k=c.k)
        if c.ver == 5:
            ev["rc"] = self.r.choice(self.p["disc_rc"])
            if self.chance(self.p["disc_exp"]):
                ev["exp"] = self.r.choice([x for x in self.p["sexp"]])
        return ev

    def one_sub(self, c):
        p = self.p
        sh = ""
        if c.ver == 5 and self.chance(p["share"]):
            sh = self.r.choice(["s1", "s1", "s2"])
        return sub(self.filt(), self.r.choice(p["sq"]), share=sh, nl=not sh and self.chance(p["nl"]),
                   rap=self.chance(p["rap"]), rh=self.r.choice(p["rh"]))

    def subscribe(self, c):
        ev = dict(e="SUBSCRIBE", k=c.k, id=self.nextid(c))
        n = self.r.choice(self.p["nsubs"])
        ev["subs"] = [self.one_sub(c) for _ in range(n)]
        if c.ver == 5 and self.chance(self.p["sid"]):
            ev["sid"] = self.r.choice([1, 2, 127, 128, 300])
        return ev

    def unsubscribe(self, c):
        ev = dict(e="UNSUBSCRIBE", k=c.k, id=self.nextid(c))
        mine = [x for s in self.run.steps if s["ev"]["e"] == "SUBSCRIBE" and
                self.run.conns[s["ev"]["k"]].cid == c.cid for x in s["ev"]["subs"]]
        ev["subs"] = [dict(self.r.choice(mine)) if mine and self.chance(0.75) else self.one_sub(c)
                      for _ in range(self.r.choice(self.p["nsubs"]))]
        return ev

    def publish(self, c):
        r, p = self.r, self.p
        q = r.choice(p["q"])
        if c.ver == 5 and q > 0 and len(c.sent) >= self.run.opt["rm"]:
            q = 0 if not self.chance(p["over"]) else q
        ev = dict(e="PUBLISH", k=c.k, t=self.topic(), q=q, r=int(self.chance(p["ret"])), pay=self.payload())
        if ev["r"] and self.chance(p["empty"]):
            ev["pay"] = ""
        if q:
            ev["id"] = self.nextid(c)
        if c.ver == 5:
            ev["pr"] = self.props()
            if self.chance(p["mexp"]):
                ev["exp"] = r.choice(p["exps"])
            if self.run.opt["ta"] > 0 and self.chance(p["alias"]):
                a = r.randint(1, self.run.opt["ta"])
                ev["al"] = a
                if a in c.aliases and self.chance(0.7):
                    ev["t"] = []
                else:
                    c.aliases[a] = ev["t"]
        if q:
            c.sent[ev["id"]] = ("pub", q, dict(ev))
        return ev

    def republish(self, c):
        l = [i for i in c.sent if c.sent[i][1] == 2] + [i for i in c.sent if c.sent[i][1] == 1]
        if not l:
            return None
        ev = dict(c.sent[self.r.choice(l)][2], d=int(self.chance(0.8)))
        ev["k"] = c.k
        if ev["t"] == [] and ev.get("al", -1) not in c.aliases:
            return None
        ev.pop("len", None)
        return ev

    def pubrel(self, c):
        l = [i for i in c.sent if c.sent[i][1] == 2 and (c.sent[i][0] == "rec" or self.chance(0.1))]
        if l and not self.chance(0.06):
            i = self.r.choice(l)
        else:
            i = self.r.randint(1, 60)
        return dict(e="PUBREL", k=c.k, id=i)

    def ack(self, c):
        if not c.todo:
            return None
        i = 0 if self.chance(0.7) else self.r.randrange(len(c.todo))
        t, n = c.todo.pop(i)
        ev = dict(e=t, k=c.k, id=n)
        if c.ver == 5 and t == "PUBREC" and self.chance(0.08):
            ev["rc"] = 0x80
        elif c.ver == 5 and t in ("PUBACK", "PUBREC") and self.chance(0.1):
            ev["rc"] = 16
        elif c.ver == 5 and t == "PUBACK" and self.chance(0.05):
            ev["rc"] = 0x97
        return ev

    def badack(self, c):
        ids = [n for t, n in c.todo] + [self.r.randint(1, 20), 65535]
        return dict(e=self.r.choice(["PUBACK", "PUBREC", "PUBCOMP"]), k=c.k, id=self.r.choice(ids))

    def ping(self, c):
        return dict(e="PINGREQ", k=c.k)

    def bad(self, c):
        return dict(e="BAD", k=c.k, raw=self.r.choice(BAD_BOTH + (BAD5 if c.ver == 5 else BAD4)))

    def violate(self, c):
        "well-formed, but not allowed"
        x = self.r.randrange(7)
        if x == 0:
            ev = self.publish(c)
            ev.update(t=self.r.choice([["a", "+"], ["#"], ["a+"], ["a", "b#"]]))
            return ev
        if x == 1:
            return dict(e="SUBSCRIBE", k=c.k, id=self.nextid(c), subs=[self.one_sub(c), sub(self.r.choice(
                [["#", "a"], ["a#"], ["+a"], ["a", "b+", "c"], ["a", "#", "b"]]), 1)])
        if x == 2:
            self.run.nk += 0
            return dict(e="CONNECT", k=c.k, ver=c.ver, cid=self.r.choice([x for x in self.ver if self.ver[x] == c.ver] + ["zz" + str(c.ver)]), clean=self.chance(0.5), ka=0,
                        rmax=65535, mps=NOLIM, tamax=0, will={"on": False})
        if x == 3 and c.ver == 5:
            return dict(e="PUBLISH", k=c.k, t=self.r.choice([[], ["a"]]), al=self.r.choice([0, self.run.opt["ta"] + 1, 65535]),
                        q=0, pay=self.payload())
        if x == 4 and c.ver == 5:
            ev = self.publish(c)
            if "id" in ev and not self.chance(0.5):
                return ev
            ev["pay"] = "y" * (self.run.opt["mps"] + self.r.choice([-30, 0, 1, 40]))
            return ev
        if x == 5:
            return dict(e="UNSUBSCRIBE", k=c.k, id=self.nextid(c), subs=[sub(["a#"])])
        if x == 6:
            return dict(e="PUBLISH", k=c.k, t=[], q=0, pay=self.payload())
        return None

    # ------------------------------------------------ the walk
    def event(self, kind):
        if kind == "connect":
            return self.connect()
        if kind == "tick":
            return dict(e="TICK", d=self.r.choice(self.p["ticks"]))
        if kind == "sn":
            k = 901 + self.r.randrange(2)
            if self.r.random() < 0.3:
                cid = "sn%d" % self.r.randrange(2)
                if k not in self.sn and cid not in self.sn.values():
                    self.sn[k] = cid
                    return dict(e="SNCONN", k=k, cid=cid)
            return dict(e="SNPUB", k=k, t=[self.r.choice(["sn", "ab"])] if self.chance(0.5) else
                        self.r.choice([["a", ""], ["", "a"], ["d", ""], ["aa"]]),
                        pay=self.payload()[:90].strip("#"), r=int(self.chance(self.p["ret"])), q=self.r.choice([3, 3, 0]))
        if kind == "http":
            what = self.r.choice(["retained", "subscriptions", "clients", "client", "other"])
            cid = self.r.choice(list(self.ver) + ["zz"]) if what == "client" else self.r.choice(["", "x", "clients/", "Retained", "retained/a"]) if what == "other" else ""
            return dict(e="HTTP", k=950, pay=what, cid=cid, pr=self.r.choice(["DELETE", "PUT", "POST", "PATCH"]) if self.chance(0.1) else "")
        if kind in ("restart", "reinit"):
            return dict(e=kind.upper())
        cs = self.conns()
        if not cs:
            return self.connect()
        if kind == "ack":
            cs = [c for c in cs if c.todo] or cs
        c = self.r.choice(cs)
        return getattr(self, kind)(c)

    def pair(self):
        kinds = ["publish", "subscribe", "unsubscribe", "ack", "pubrel", "drop", "disconnect", "connect", "republish", "ping", "sn"]
        ws = [8, 2, 1, 6, 3, 1, 1, 2, 1, 1, 2 if self.p["tickpair"] else 0]
        a = self.event(self.r.choices(kinds, ws)[0] if not self.p["w"].get("http") or self.chance(0.3) else "http")
        if not a:
            return None
        if a["e"] == "CONNECT" and a["cid"] == "":
            return None
        if a["e"] not in ("HTTP", "CONNECT", "DROP", "DISCONNECT") and self.chance(self.p["tickpair"]):
            return dict(e="PAIR", a=a, b=dict(e="TICK", d=1), line=int(2 ** self.r.uniform(0, 9)))
        for _ in range(5):
            b = self.event(self.r.choices(kinds, ws)[0])
            if b and b["k"] != a["k"] and not (b["e"] == "CONNECT" and (a["e"] == "CONNECT" or b["cid"] == "")):
                # a packet on a connection that the other may close is a different thing
                x, y = (a, b) if a["e"] == "CONNECT" else (b, a)
                if x["e"] == "CONNECT" and y["e"] not in ("HTTP", "SNPUB", "SNCONN") and self.run.conns[y["k"]].cid == x["cid"]:
                    return a
                ev = dict(e="PAIR", a=a, b=b, at=self.r.choice([0, 0, 1, 2]))
                if a["e"] == "HTTP" or self.chance(0.5):
                    ev["line"] = int(2 ** self.r.uniform(0, 9))
                return ev
        return a

    def walk(self):
        p, r = self.p, self.r
        run = self.run
        for cid, ver in p["clients"][:p["start"]]:
            if self.chance(p["connall"]):
                ev = self.connect(cid)
                run.step(ev)
                c = run.conns[ev["k"]]
                if c.open and self.chance(p["fullsub"]):
                    run.step(self.subscribe(c))
        kinds = list(p["w"])
        ws = [p["w"][k] for k in kinds]
        n = r.randint(*p["len"])
        for _ in range(n):
            kind = r.choices(kinds, ws)[0]
            if kind == "burst":
                cs = self.conns()
                if cs:
                    c = r.choice(cs)
                    for _ in range(r.randint(3, 6)):
                        if c.open:
                            run.step(self.publish(c))
                continue
            ev = self.pair() if kind == "pair" else self.event(kind)
            if ev:
                run.step(ev)
        if p["epilogue"]:
            self.epilogue()

    def epilogue(self):
        "bring everything that is still owed to light"
        run = self.run
        run.drain()
        for cid, ver in self.p["clients"]:
            if cid not in {c.cid for c in self.conns()}:
                self.run.connect(cid, ver, clean=False, exp=NEVER)
                run.drain()
        k = run.connect("\u00a7z", 5)
        run.do("SUBSCRIBE", k=k, id=1, subs=[sub(["#"], 2)])
        run.do("SUBSCRIBE", k=k, id=1, subs=[sub(["$d", "#"], 2)])
        run.drain()
        # which subscriptions are still there
        for t in self.p["topics"][:5]:
            run.do("PUBLISH", k=k, t=t, q=0, pay="end" + "/".join(t))
        run.drain()


def generate(name, seed, prof):
    "-> trace (dict), or raises"
    g = Gen(name, seed, prof)
    try:
        g.walk()
    except Hang as e:
        t = g.run.trace()
        t["error"] = "hang: %s" % e
        return t
    finally:
        g.run.close()
    return g.run.trace()
