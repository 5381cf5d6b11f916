"""V01: monitoring.  Histories with `visual` on and observers of either protocol version, whose reports are judged by
TraceVisual, while the rest of the history has to be what it would be without (TraceBroker)."""
import ast, json, os, random, re
from . import broker, e2e, gen, process, replay, run, tcp, tlc, wire, world
from .e2e import plain, seen

TOPIC = "$SYS/clients-packets"
R0 = {"dir": "", "k": 0, "cid": "", "cls": "", "q": 0, "d": 0, "r": 0, "id": 0, "t": [], "pay": "", "rc": [], "al": 0, "exp": -1, "fs": [], "sp": 0, "pr": "", "sids": []}


def listed(x):
    return [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]


NAMES = {"ctype": "ContentType", "pfi": "PayloadFormatIndicator", "rtopic": "ResponseTopic", "cdata": "CorrelationData", "user": "UserProperty"}


def unbytes(x):
    "bytes, as Python shows them"
    return bytes(ast.literal_eval(re.fullmatch(r"(?:bytearray\()?(b.*?)\)?", x, re.S)[1]))


def apps(pr):
    "the properties an application may give"
    l = []
    for a in ("ctype", "pfi", "rtopic", "cdata"):
        if NAMES[a] in pr:
            v = pr[NAMES[a]]
            l.append((a, unbytes(v).decode("latin-1") if a == "cdata" else v))
    return wire.canon(l + [("user", tuple(v)) for v in pr.get("UserProperty", [])])


def report(text, conn_of):
    "a report as the specification sees it"
    try:
        j = json.loads(text)
        p = j["packet"]
        h = p["fh"]
        r = dict(R0, fs=[], dir=j["direction"], k=conn_of(j["socket"]), cid=j["clientid"], cls=h["PacketType"], q=h["QoS"], d=int(h["DUP"]), r=int(h["RETAIN"]))
        r["id"] = p.get("PacketId", 0)
        pr = p.get("Properties", {})
        if r["cls"] == "Publishes":
            r["t"] = p["TopicName"].split("/") if p["TopicName"] else []
            r["pay"] = wire.shortpay(unbytes(p["Payload"]))
            r["pr"], r["sids"] = apps(pr), sorted(pr.get("SubscriptionIdentifier", []))
            r["al"] = pr.get("TopicAlias", 0)
            r["exp"] = pr.get("MessageExpiryInterval", -1)
        elif r["cls"] == "Connects":
            if p["ClientId"] != r["cid"] and r["cid"]:
                r["pay"] = "ClientId " + p["ClientId"]
            r["sp"] = int(p["CleanStart"])
            if p["WillFlag"]:
                r.update(t=p["WillTopic"].split("/"), pay=r["pay"] + wire.shortpay(unbytes(p["WillMessage"])), q=p["WillQoS"], r=int(p["WillRETAIN"]), pr=apps(p["WillProperties"]))
            r["exp"] = -2 if pr.get("SessionExpiryInterval") == 0xffffffff else pr.get("SessionExpiryInterval", 0)
        elif r["cls"] == "Connacks":
            r["rc"], r["sp"] = [p["ReturnCode"]], int(p["SessionPresent"])
        elif r["cls"] == "Disconnects":
            r["rc"] = [p["ReasonCode"]]
        elif r["cls"] in ("Subacks", "Unsubacks"):
            r["rc"], r["pr"] = p["Reason codes"], apps(pr)
        elif r["cls"] in ("Subscribes", "Unsubscribes"):
            for x in p["Data"]:
                f, share = x[0] if r["cls"] == "Subscribes" else x, ""
                if f.startswith("$share/") and f.count("/") > 1:
                    _, share, f = f.split("/", 2)
                o = x[1] if r["cls"] == "Subscribes" else {"QoS": 0, "noLocal": False, "retainAsPublished": False, "retainHandling": 0}
                r["fs"].append({"share": share, "f": f.split("/"), "q": o["QoS"], "nl": o["noLocal"], "rap": o["retainAsPublished"], "rh": o["retainHandling"]})
            r["pr"], r["sids"] = apps(pr), pr.get("SubscriptionIdentifier", [])
        else:
            r["rc"] = [x for x in listed(p.get("Reason code")) if x != "Success"]
        return r
    except (ValueError, KeyError, TypeError, SyntaxError, AttributeError) as e:
        return dict(R0, dir="?", pay="%r in %s" % (e, text[:300]))


class VisWorld(world.World):
    def __init__(self, opt, shared=None, watchers=()):
        self.visual = bool(watchers)
        super().__init__(opt, shared)
        self.watchers = []
        for n, ver in enumerate(watchers):
            self.watchers.append((self.observer("watcher%d" % n, ver), ver))
        for s, ver in self.watchers:
            s.outbuf = bytearray()

    def observer(self, cid, ver):
        "a client which subscribes to the reports"
        s = world.Sock()
        b = self.b5 if ver == 5 else self.b3
        ev = dict(run.FIELDS, **dict(run.FIELDSC, e="CONNECT", k=0, ver=ver, cid=cid))
        for x in (ev, dict(run.FIELDS, e="SUBSCRIBE", k=0, ver=ver, id=1, subs=[run.sub(TOPIC.split("/"))])):
            s.inbuf += wire.encode(x, ver)
            while s.inbuf:
                b.handleRequest(s)
        return s

    def late(self):
        "what one who subscribes now gets: reports are not kept"
        if not self.visual:
            return []
        return [p["p"] for p in wire.decode(bytes(self.observer("late", 4).outbuf), 4)]

    def settings(self, o):
        return dict(o, visual=self.visual)

    def reports(self):
        "what each observer got since the last call"
        nos = {self.conns[k][0].no: k for k in self.order}
        all_ = []
        for s, ver in self.watchers:
            rs = []
            for p in wire.decode(bytes(s.outbuf), ver):
                if p["p"] == "PUBLISH" and p["t"] == TOPIC.split("/") and not (p["q"] or p["d"] or p["r"]):
                    rs.append(report(p["pay"].encode("latin-1").decode("utf-8", "replace"), lambda n: nos.get(n, -1)))
                else:
                    rs.append(dict(R0, dir="?", pay=json.dumps(p)[:300]))
            s.outbuf = bytearray()
            if s.isclosed:
                rs.append(dict(R0, dir="?", pay="observer disconnected"))
            all_.append(rs)
        return all_


class VisRun(run.Run):
    watchers = ()

    def __init__(self, name, opt):
        super().__init__(name, opt)
        self.w.stop()
        r = random.Random(name)
        self.w = VisWorld(opt, None, r.choice([(4,), (5,), (4, 5), (5, 5)]))

    def observe(self, ev):
        rep = self.w.reports()
        step = super().observe(ev)
        step["rep"] = rep
        return step

    def trace(self):
        t = run.Run.trace(self)
        for x, s in zip(t["steps"], self.steps):
            x["rep"] = s.get("rep", [])
        n = max([k for k in self.conns] + [0])
        t["late"] = self.w.late() if hasattr(self.w, "late") else []
        t["files"] = getattr(self.w, "files", [])
        t["vers"] = [self.conns[k].ver if k in self.conns else 0 for k in range(1, n + 1)]
        return t


class VisGen(gen.Gen):
    def __init__(self, name, seed, prof):
        super().__init__(name, seed, prof, make=False)
        self.run = VisRun(name, self.options)


def generate(name, seed, prof):
    g = VisGen(name, seed, prof)
    try:
        g.walk()
    except run.Hang as e:
        return dict(g.run.trace(), error="hang: %s" % e)
    finally:
        g.run.close()
    return g.run.trace()


def again(name, arg, seed, what):
    replay.Run = VisRun
    try:
        return what(name, arg, seed) if what is replay.replay else what(name, arg)
    finally:
        replay.Run = run.Run


# ------------------------------------------------------------------ with a broker process
LINE = re.compile(r"(?:client(\d+)=>broker|broker=>client(\d+))\[label=(\w+)\];")


class VisProcWorld(process.ProcWorld):
    def __init__(self, opt, rnd, kinds, patience):
        self.msc = rnd.random() < 0.5
        self.extra = (["visual true"] if rnd.random() < 0.75 else ["visual false"] if rnd.random() < 0.5 else []) + (["mscfile the.msc"] if self.msc else [])
        self.vers = rnd.choice([(4,), (4,), (5,), (4, 5)]) if not self.msc else (4,)
        self.on = "visual true" in self.extra
        super().__init__(opt, rnd, kinds, patience)
        self.sockets = {}       # number in the reports -> connection
        self.files = []
        self.watch()

    def watch(self):
        self.watchers = []
        for n, ver in enumerate(self.vers):
            l = tcp.Link("tcp", [dict(op="data", size=9, fin=1, cut=[])], self.rnd, self.patience, self.p.ports["tcp"])
            ev = dict(run.FIELDS, **dict(run.FIELDSC, e="CONNECT", k=0, ver=ver, cid="watcher%d" % n))
            l.send(wire.encode(ev, ver))
            l.send(wire.encode(dict(run.FIELDS, e="SUBSCRIBE", k=0, ver=ver, id=1, subs=[run.sub(TOPIC.split("/"))]), ver))
            l.barrier()
            self.watchers.append((l, ver))
        for l, ver in self.watchers:
            l.barrier()
            l.take()

    def reports(self, ev):
        all_ = []
        for l, ver in self.watchers:
            if not l.eof:
                l.barrier()
            l.read(0)
            rs = []
            for p in wire.decode(l.take(), ver):
                if p["p"] == "PUBLISH" and p["t"] == TOPIC.split("/") and not (p["q"] or p["d"] or p["r"]):
                    text = p["pay"].encode("latin-1").decode("utf-8", "replace")
                    try:
                        j = json.loads(text)
                        if ev["e"] == "CONNECT" and ev["ver"] == 5 and j["direction"] == "CtoS" and j["packet"]["fh"]["PacketType"] == "Connects":
                            self.sockets[j["socket"]] = ev["k"]
                    except (ValueError, KeyError, TypeError):
                        pass
                    r = report(text, lambda n: self.sockets.get(n, -1))
                    if r["cls"] not in ("Pingreqs", "Pingresps"):      # with these we wait
                        rs.append(r)
                else:
                    rs.append(dict(R0, dir="?", pay=json.dumps(p)[:300]))
            if l.eof and ev["e"] != "RESTART":
                rs.append(dict(R0, dir="?", pay="observer disconnected"))
            all_.append(rs)
        return all_ if self.on and ev["e"] != "RESTART" else []    # (observers then go with the others)

    def file(self):
        if not self.msc:
            return
        text = open(os.path.join(self.p.dir, "the.msc")).read()
        m = re.fullmatch(r"msc \{\n broker;\n(.*)", text, re.S)
        lines = []
        for x in (m[1].splitlines() if m else [text[:200]]):
            y = LINE.fullmatch(x)
            r = {"dir": "CtoS" if y[1] else "StoC", "fd": int(y[1] or y[2]), "cls": y[3]} if y else {"dir": "?", "fd": 0, "cls": x[:100]}
            if r["cls"] not in ("Pingreqs", "Pingresps"):
                lines.append(r)
        self.files.append(lines)

    def restart(self):
        if not self.p.stop():
            raise tcp.Fault("the broker does not end on SIGTERM:\n" + self.p.said()[-600:])
        self.file()
        self.sockets = {}
        for l, ver in self.watchers:
            l.close()
        super().restart()
        self.watch()

    def stop(self):
        for l, ver in self.watchers:
            l.close()
        super().stop()


class VisProcRun(process.ProcRun):
    World = VisProcWorld

    def observe(self, ev):
        step = super().observe(ev)
        step["rep"] = self.w.reports(ev)
        return step

    trace = VisRun.trace

    def finish(self):
        if self.w.msc:
            self.do("RESTART")      # so that the last lines are there


class VisProcGen(process.ProcGen):
    Run = VisProcRun

    def batch(self, c=None):
        return self.connect()


def judge(ctx, traces):
    good = [t for t in traces if not t.get("error")]
    for n in range(0, len(good), 600):
        some = good[n:n + 600]
        rej, g, dis = tlc.validate("TraceVisual", [seen(t) for t in some], hinted=False)
        ctx.part("reports judged", runs=len(some), reports=sum(len(r) for t in some for x in t["steps"] for r in x["rep"]), rejected=len(rej))
        ctx.states += dis
        ctx.transitions += g
        for t in some:
            if t["name"] in rej:
                step, exp = rej[t["name"]]
                step = step or len(t["steps"])
                ctx.violation("run %s: the reports of step %d are not those of its packets:\n  %s\n  specification wants: %s" % (
                    t["name"], step, json.dumps(e2e.told(t, step)[-1:])[:1200], exp[:900]),
                    {"kind": "visual", "trace": t["name"], "opt": t["opt"], "events": [x["ev"] for x in t["steps"]], "step": step,
                     "specification_wants": exp, "context": e2e.told(t, step)})
        if len(ctx.violations) > 3:
            return
    broker.judge(ctx, [plain(t) for t in traces])


CFG = "CONSTANTS Clients = {1, 2} Obs5 = {3, 4} Obs3 = {5} Steps = %d Own = %s\nINIT Init\nNEXT Next\nINVARIANTS Right Agree Ends\nCHECK_DEADLOCK FALSE\n"


def model(ctx):
    "how reports come about, and that reports of reports are seen to be wrong"
    r = tlc.check("MCVisual", CFG % (6 if ctx.thorough else 4, "FALSE"), timeout=600)
    if r["error"] or not r["complete"]:
        raise tlc.TLCError(r["error"] or "MCVisual: not finished")
    ctx.states += r["states"]
    ctx.transitions += r["transitions"]
    ctx.part("model MCVisual", states=r["states"], transitions=r["transitions"], complete=r["complete"])
    if not tlc.check("MCVisual", CFG % (2, "TRUE"), timeout=100)["error"]:
        raise tlc.TLCError("MCVisual: nothing is found wrong with reports of reports")


def check(ctx):
    model(ctx)
    sims = tlc.sim("B25", 60 if not ctx.thorough else 400, 28, ctx.base("sim") % 100000) + tlc.sim("B21", 40 if not ctx.thorough else 400, 28, ctx.base("sim2") % 100000)
    b = ctx.base("visual")
    jobs = [("V01-%d" % (b + j), b + j, "vis", "V01") for j in range(360 if not ctx.thorough else 6000)]
    jobs += [("V01-sim%d" % j, j, "vissim", h) for j, h in enumerate(sims)]
    traces = broker.run_jobs(ctx, jobs)
    ctx.log(len(traces), "histories with observers")
    judge(ctx, traces)
    if traces and not ctx.violations:
        ctx.sample({"reports": [r for x in traces[0]["steps"][:6] for r in x["rep"][:1]]})
    if not ctx.violations:
        e2e.check(ctx)
    ctx.assumptions += ["of refused packets a report may or may not be given"]
