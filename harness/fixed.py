"""Hand-written histories: long ones, recorded in short."""
from . import run
from .run import Run, opts, sub
from .wire import encode, decode
from .run import FIELDS

T, U = ["t"], ["u"]


def wrap(name, vs, vp, n=65600):
    "more messages than there are packet ids, while some are unfinished all the time"
    r = Run(name, opts(rm=65535, mps=256))
    s = r.connect("s", vs)
    p = r.connect("p", vp)
    r.do("SUBSCRIBE", k=s, id=1, subs=[sub(T, 2)])
    for j, q in enumerate((2, 1, 2)):
        r.do("PUBLISH", k=p, t=T, pay="held%d" % j, q=q, id=j + 1 if q else 0)
        if q == 2:
            r.do("PUBREL", k=p, id=j + 1)
    r.do("PUBREC", k=s, id=r.conns[s].todo[0][1])      # the first: half way
    ids, bad = [], ""
    for j in range(n):
        i = 10 + j % 60000
        ev = dict(FIELDS, e="PUBLISH", k=p, t=T, pay="m", q=1, id=i)
        r.w.feed(p, encode(ev, vp))
        out, closed = r.w.output()
        got = decode(out.get(s, b""), vs)
        back = decode(out.get(p, b""), vp)
        if closed or set(out) - {s, p} or len(got) != 1 or got[0]["p"] != "PUBLISH" or got[0]["pay"] != "m" or got[0]["q"] != 1 or got[0]["d"] \
           or len(back) != 1 or back[0]["p"] != "PUBACK" or back[0]["id"] != i:
            bad = "message %d: subscriber %s, publisher %s" % (j, got, back)
            break
        ids.append(got[0]["id"])
        r.w.feed(s, encode(dict(FIELDS, e="PUBACK", k=s, id=got[0]["id"], rc=0), vs))
        if r.w.output() != ({}, []):
            bad = "message %d: something follows its PUBACK" % j
            break
    r.steps.append({"ev": {"e": "MANY", "cid": "s", "ids": ids if not bad else [0], "why": bad}, "out": [], "cl": []})
    r.drain()
    r.do("PUBLISH", k=p, t=T, pay="last", q=2, id=5)
    r.drain()
    t = r.trace()
    r.close()
    return t


def shared(name, vs, vp, n=90):
    "many messages for one group"
    r = Run(name, opts())
    ks = [r.connect("m%d" % j, v) for j, v in enumerate(vs)]
    for k in ks:
        r.do("SUBSCRIBE", k=k, id=1, subs=[sub(T, 0, share="g")])
    p = r.connect("p", vp)
    who, bad = [], ""
    for j in range(n):
        r.w.feed(p, encode(dict(FIELDS, e="PUBLISH", k=p, t=T, pay="m%d" % j, q=0), vp))
        out, closed = r.w.output()
        if closed or len(out) != 1 or list(out)[0] not in ks:
            bad = "message %d went to %s" % (j, list(out))
            break
        k = list(out)[0]
        got = decode(out[k], r.conns[k].ver)
        if len(got) != 1 or got[0]["pay"] != "m%d" % j:
            bad = "message %d: %s" % (j, got)
            break
        who.append("m%d" % ks.index(k))
    r.steps.append({"ev": {"e": "SPREAD", "who": who if not bad else [], "members": ["m%d" % j for j in range(len(vs))], "why": bad}, "out": [], "cl": []})
    t = r.trace()
    r.close()
    return t


HISTORIES = {"wrap5": lambda n: wrap(n, 5, 4), "wrap4": lambda n: wrap(n, 4, 5),
             "shared5": lambda n: shared(n, (5, 5, 5), 5), "shared5b": lambda n: shared(n, (5, 5), 4)}
OF = {"B06": ["wrap5", "wrap4"], "B14": ["shared5", "shared5b"]}
