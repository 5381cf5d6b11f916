"""Recording of histories: Run executes events on a World and records them with what came back."""
import os, sys, threading
from . import wire, world
from .wire import NEVER, NOLIM

DEF = {"pubrel": False, "single": True, "drop0": True, "ta": 2, "mps": 256, "rm": 2, "ska": 60, "zlc": True,
       "pers": False}
FIELDS = {"e": "", "k": 0, "ver": 0, "cid": "", "acid": "", "clean": False, "ka": 0, "exp": -1, "rmax": 65535,
          "mps": NOLIM, "tamax": 0, "will": {"on": False}, "id": 0, "subs": [], "sid": 0, "t": [], "al": -1, "pay": "",
          "q": 0, "d": 0, "r": 0, "pr": "", "prl": 0, "len": 0, "rc": 0, "dt": 0, "user": "", "pass": ""}


def opts(**kw):
    return dict(DEF, **kw)


def will(t, pay, q=0, r=0, pr="", exp=-1, delay=0):
    return {"on": True, "t": t, "pay": pay, "q": q, "r": r, "pr": pr, "prl": wire.app_len(pr), "exp": exp, "delay": delay}


def sub(f, q=0, share="", nl=False, rap=False, rh=0):
    return {"share": share, "f": f, "q": q, "nl": nl, "rap": rap, "rh": rh}


class Conn:
    def __init__(self, k, ver, cid):
        self.k, self.ver, self.cid = k, ver, cid
        self.todo = []      # packets received that call for an acknowledgement: (type, id)
        self.sent = {}      # ids of our own unfinished QoS 1/2 publications -> (q, state, event)
        self.open = True
        self.got = []       # everything received
        self.aliases = {}   # aliases we introduced


class Run:
    def __init__(self, name, opt):
        self.name, self.opt = name, opt
        self.w = world.World(opt)
        self.steps = []
        self.conns = {}
        self.nk = 0
        self.serial = 0
        self.anon = 0

    # ------------------------------------------------------------------ executing
    def do(self, e, **kw):
        ev = dict(kw, e=e)
        return self.step(ev)

    def prepare(self, ev):
        "complete the event; -> bytes to feed or None"
        e = ev["e"]
        if e == "CONNECT":
            ev.setdefault("exp", 0)
            if ev["k"] not in self.conns:
                self.conns[ev["k"]] = Conn(ev["k"], ev["ver"], ev["cid"])
                self.w.open(ev["k"], ev["ver"])
            if ev["ver"] == 4:
                ev.update(exp=0, rmax=65535, mps=NOLIM, tamax=0)
        if e in ("TICK", "RESTART", "REINIT"):
            return None
        if e == "HTTP":
            return wire.http_url(ev)
        if e == "SNCONN":
            body = bytes([0x04, 4, 1, 0, 60]) + ev["cid"].encode()
            return bytes([len(body) + 1]) + body
        if e == "SNPUB":
            t = wire.tstr(ev["t"]).encode()
            ev.setdefault("r", 0)
            fl = (ev["q"] << 5) | (0x10 if ev["r"] else 0) | 2
            body = bytes([0x0c, fl]) + t + b"\0\0" + wire.paybytes(ev["pay"])
            return bytes([len(body) + 1]) + body
        ver = self.conns[ev["k"]].ver
        if e in ("SUBSCRIBE", "UNSUBSCRIBE"):
            ev["ver"] = ver
        if e == "PUBLISH" and ver == 4:
            ev.update(pr="", exp=-1, al=-1)
        full = dict(FIELDS, **ev)
        if e == "BAD":
            data = bytes.fromhex(ev["raw"])
        elif e == "DROP":
            data = None
        else:
            data = wire.encode(full, ver)
        if data is not None and e != "BAD":
            ev["len"] = len(data)
        if e == "PUBLISH":
            ev["prl"] = wire.app_len(full["pr"])
        return data

    def perform(self, ev, data):
        e = ev["e"]
        if e == "TICK":
            for _ in range(ev["d"]):
                self.w.second()
        elif e in ("SNPUB", "SNCONN"):
            self.w.sn(ev["k"], data)
        elif e == "HTTP":
            self.w.snout[ev["k"]] = (ev,) + self.w.http(data, ev.get("pr", ""))
        elif e == "REINIT":
            self.w.reinit()
        elif e == "RESTART":
            self.restart()
        elif e == "DROP":
            self.w.eof(ev["k"])
        else:
            self.w.feed(ev["k"], data)

    def restart(self):
        self.w.stop()
        shared = self.w.shared if self.opt["pers"] else None
        if shared is not None:
            import copy
            shared = copy.deepcopy(shared)
        old = self.w
        self.w = world.World(self.opt, shared)
        self.w.conns, self.w.order, self.w.gone = old.conns, old.order, old.gone

    def step(self, ev):
        if ev["e"] == "PAIR":
            self.pair(ev)
        else:
            data = self.prepare(ev)
            self.perform(ev, data)
        return self.observe(ev)

    def pair(self, ev):
        """Two packets at the same time: the first one's handling is interrupted at its n-th write, or before
        the n-th line of the brokers it executes, where the second is handed to a second thread; both must end."""
        a, b = ev["a"], ev["b"]
        da, db = self.prepare(a), self.prepare(b)
        n, line = ev.pop("at", 0), ev.pop("line", None)
        state = {"n": n if line is None else line, "t": None}

        def other():
            world.clock.main2 = threading.get_ident()
            self.perform(b, db)

        def hook(sock):
            if state["t"] is None and threading.get_ident() == world.clock.main:
                if state["n"] > 0:
                    state["n"] -= 1
                    return
                if b["e"] == "TICK":        # the timer threads wake up; they go on only if they need nothing that we hold
                    state["t"] = True
                    world.clock.advance(1)
                    world.clock.settle(self.w.threads, 0.004)
                    return
                state["t"] = t = threading.Thread(target=other, daemon=True)
                t._vp_own = True
                t.start()
                t.join(0.004)       # it ends only if it needs nothing that we hold
        where = os.path.join(world.REPO, "interoperability", "mqtt", "brokers")

        def lines(frame, what, arg):
            if what == "line" and state["t"] is None:
                hook(None)
            return lines if state["t"] is None else None

        def calls(frame, what, arg):
            return lines if state["t"] is None and frame.f_code.co_filename.startswith(where) else None
        if line is None:
            for c in self.w.conns.values():
                c[0].hook = hook
        else:
            sys.settrace(calls)
        try:
            self.perform(a, da)
        finally:
            sys.settrace(None)
            for c in self.w.conns.values():
                c[0].hook = None
        if state["t"] is None:
            other()
        elif state["t"] is True:
            self.w.rest()
        else:
            state["t"].join(10)
            if state["t"].is_alive():
                raise Hang("second request did not end")

    def observe(self, ev):
        out, closed = self.w.output()
        step = {"ev": ev, "out": [], "cl": closed}
        for k, data in out.items():
            if k >= 950:
                step["out"].append({"k": k, "pk": [wire.parse_http(*data)]})
                continue
            if k >= 900:
                step["out"].append({"k": k, "pk": [wire.parse_sn(data)]})
                continue
            pk = wire.decode(data, self.conns[k].ver)
            step["out"].append({"k": k, "pk": pk})
            self.received(self.conns[k], pk)
        evs = [ev["a"], ev["b"]] if ev["e"] == "PAIR" else ev["evs"] if ev["e"] == "BATCH" else [ev]
        for x in evs:
            if x["e"] == "CONNECT" and x["cid"] == "":
                acid = [p["acid"] for o in step["out"] if o["k"] == x["k"] for p in o["pk"] if p["p"] == "CONNACK"]
                if x["ver"] == 4:
                    self.anon += 1
                    x["acid"] = "\u00a7anon%d" % self.anon
                elif acid:
                    x["acid"] = acid[0]
                self.conns[x["k"]].cid = x.get("acid", "")
        for o in step["out"]:      # an absent server keep alive means the client's applies
            for p in o["pk"]:
                if p["p"] == "CONNACK" and p["lim"] and p["lim"][3] != -1:
                    for x in evs:
                        if x["e"] == "CONNECT" and x["k"] == o["k"] and p["lim"][3] == x["ka"]:
                            p["lim"][3] = -1
        for k in closed:
            self.conns[k].open = False
        self.steps.append(step)
        return step

    def received(self, c, pk):
        for p in pk:
            c.got.append(p)
            if p["p"] == "PUBLISH" and p["q"] > 0:
                t = "PUBACK" if p["q"] == 1 else "PUBREC"
                if (t, p["id"]) not in c.todo:
                    c.todo.append((t, p["id"]))
            elif p["p"] == "PUBREL":
                if ("PUBCOMP", p["id"]) not in c.todo:
                    c.todo.append(("PUBCOMP", p["id"]))
            elif p["p"] in ("PUBACK", "PUBCOMP"):
                c.sent.pop(p["id"], None)
            elif p["p"] == "PUBREC" and p["id"] in c.sent:
                if p["rc"] and p["rc"][0] >= 128:
                    c.sent.pop(p["id"], None)
                else:
                    c.sent[p["id"]] = ("rec",) + c.sent[p["id"]][1:]

    # ------------------------------------------------------------------ convenience
    def connect(self, cid, ver=5, k=None, **kw):
        if k is None:
            self.nk += 1
            k = self.nk
        ev = dict(FIELDSC, e="CONNECT", k=k, ver=ver, cid=cid)
        ev.update(kw)
        self.step(ev)
        return k

    def live(self):
        return [c for c in self.conns.values() if c.open]

    def ack(self, c, i=0, **kw):
        t, n = c.todo.pop(i)
        self.do(t, k=c.k, id=n, rc=kw.get("rc", 0))

    def drain(self, limit=400):
        "acknowledge everything, on every connection"
        n = 0
        while n < limit:
            busy = [c for c in self.live() if c.todo]
            if not busy:
                return
            self.ack(busy[0])
            n += 1

    def trace(self):
        steps = []
        for s in self.steps:
            ev = s["ev"]
            if ev["e"] == "PAIR":
                ev = {"e": "PAIR", "k": 0, "a": clean(ev["a"]), "b": clean(ev["b"])}
            elif ev["e"] == "BATCH":
                ev = {"e": "BATCH", "k": ev["k"], "evs": [clean(x) for x in ev["evs"]]}
            elif ev["e"] not in ("MANY", "SPREAD"):
                ev = clean(ev)
            steps.append({"ev": ev, "out": s["out"], "cl": s["cl"]})
        return {"name": self.name, "opt": self.opt, "steps": steps, "seen": self.seen()}

    def seen(self):
        "client id -> the PUBLISHes it received for the first time, in order, with the step"
        r = {}
        for i, s in enumerate(self.steps, 1):
            for o in s["out"]:
                cid = self.conns[o["k"]].cid if o["k"] in self.conns else None
                for p in o["pk"]:
                    if cid and p["p"] == "PUBLISH" and not p["d"]:
                        r.setdefault(cid, []).append({"i": i, "pay": p["pay"], "q": p["q"], "r": p["r"], "sids": p["sids"]})
        return r

    def close(self):
        self.w.stop()


FIELDSC = {"clean": True, "ka": 0, "exp": 0, "rmax": 65535, "mps": NOLIM, "tamax": 0, "will": {"on": False}, "acid": ""}


class Hang(Exception):
    pass


def clean(ev):
    "the event as the specification sees it: all fields, nothing else"
    r = {k: ev.get(k, v) for k, v in FIELDS.items() if k != "dt"}
    r["d"] = ev.get("d", 0)
    return r
