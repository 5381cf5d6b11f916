"""Replays histories written by TLC (MCBroker in simulation mode, or a counterexample) into the real brokers.

The packet ids, and what exactly is sent, are the implementation's: the events of the history are
mapped to what they mean in the run, and TraceBroker then judges the run.
"""
import random
from . import wire
from .run import Run, Hang
from .gen import BAD_BOTH, BAD5, BAD4


class Replay:
    def __init__(self, name, arg, seed=0):
        self.run = Run(name, arg["opt"])
        self.events = arg["events"]
        self.r = random.Random(seed)
        self.k = {}         # connection in the model -> connection in the run
        self.pids = {}      # model: client id -> in use (events name ids only as far as they are wrong)

    def find(self, c, pay):
        "the id with which the client last received the message `pay`"
        for x in reversed(self.run.steps):
            for o in x["out"]:
                d = self.run.conns.get(o["k"])
                if d is None or d.cid != c.cid:
                    continue
                for p in reversed(o["pk"]):
                    if p["p"] == "PUBLISH" and p["q"] > 0 and p["pay"] == pay:
                        return p["id"]
        return 0

    def event(self, e):
        ev = {k: v for k, v in e.items() if k not in ("want", "acid", "prl")}
        kind = e["e"]
        if kind in ("TICK", "RESTART", "REINIT", "SNPUB", "SNCONN", "HTTP"):
            return ev
        if kind == "CONNECT":
            if e["k"] in self.k and self.run.conns[self.k[e["k"]]].open:
                ev["k"] = self.k[e["k"]]
            else:
                self.run.nk += 1
                self.k[e["k"]] = ev["k"] = self.run.nk
            ev.pop("len", None)
            if ev["will"].get("on"):
                ev["will"] = dict(ev["will"], prl=wire.app_len(ev["will"]["pr"]))
            return ev
        k = self.k.get(e["k"])
        if k is None or not self.run.conns[k].open:
            return None
        c = self.run.conns[k]
        ev["k"] = k
        ev.pop("len", None)
        if kind == "BAD":
            return {"e": "BAD", "k": k, "raw": self.r.choice(BAD_BOTH + (BAD5 if c.ver == 5 else BAD4))}
        if kind in ("PUBACK", "PUBREC", "PUBCOMP") and e.get("want"):
            ev["id"] = self.find(c, e["want"])
            if ev["id"] == 0:
                return None
        if kind == "DISCONNECT" and c.ver == 4:
            ev = {"e": kind, "k": k}
        if kind == "PUBLISH" and e["len"] > 20:     # a packet of exactly this size
            full = dict(ev)
            data = wire.encode(dict(self.fields(), **full), c.ver)
            short = e["len"] - len(data)
            if short > 0:
                ev["pay"] += "x" * short
                over = len(wire.encode(dict(self.fields(), **ev), c.ver)) - e["len"]
                if over > 0:
                    ev["pay"] = ev["pay"][:-over]
        return ev

    def fields(self):
        from .run import FIELDS
        return FIELDS

    def go(self):
        for e in self.events:
            if e["e"] == "PAIR":
                a, b = self.event(e["a"]), self.event(e["b"])
                ev = {"e": "PAIR", "a": a, "b": b, "at": e.get("at", 0)} if a and b else a or b
            else:
                ev = self.event(e)
            if ev:
                self.run.step(ev)


def replay(name, arg, seed=0):
    "a history of the specification"
    g = Replay(name, arg, seed)
    try:
        g.go()
    except Hang as e:
        return dict(g.run.trace(), error="hang: %s" % e)
    finally:
        g.run.close()
    return g.run.trace()


def run_events(name, arg):
    "the events of a recorded run (a counterexample), as they are"
    r = Run(name, arg["opt"])
    try:
        for ev in arg["events"]:
            r.nk = max(r.nk, ev.get("k", 0) if ev.get("k", 0) < 900 else 0)
            r.step(dict(ev))
    finally:
        r.close()
    return r.trace()
