"""M01: the model explorer (mbt/main.py): explorations of random models and replays of what was recorded."""
import json, logging, multiprocessing as mp, os, random, re, shutil, signal, sys, tempfile, traceback
from . import tlc

SHAPE = {"quick": dict(random=1600, sims=400, steps=(15, 70)), "thorough": dict(random=9000, sims=3000, steps=(20, 140))}


class Obj:
    "a handle: another one on every run"
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<obj %d>" % self.n

    def __eq__(self, other):
        return isinstance(other, Obj) and other.n == self.n

    def __hash__(self):
        return self.n


LIT = {"int": [0, 1, 7, 12], "str": ["a", "is not", "ab", "RESULT", "True"], "bytes": [b"", b"x"], "bool": [True, False], "tup": [(1, "p"), ()],
       "float": [1.5, 2.0]}


def mkspec(r):
    "a random model"
    types = ["t%d" % j for j in range(r.randint(1, 3))]
    kinds = {t: r.choice(list(LIT)) for t in types}
    spec = {"choices": {t: r.sample(LIT[kinds[t]], r.randint(1, min(3, len(LIT[kinds[t]])))) for t in types}, "fixed": [], "max": {}, "acts": [], "rets": {}}
    rets = ["r%d" % j for j in range(r.randint(1, 2))]
    for t in rets:
        spec["rets"][t] = "obj" if r.random() < 0.6 else r.choice(list(LIT))
        if r.random() < 0.4:
            spec["max"][t] = r.choice([1, 2, 2, 3])
    if r.random() < 0.3:
        spec["choices"]["o"] = r.sample(LIT["int"], 2)
        spec["fixed"].append("o")
        spec["rets"]["o"] = "int"
        rets = rets + ["o"]
    if r.random() < 0.25:
        spec["choices"]["cb"] = ["b1", "b2"][:r.choice([1, 2])]
        types.append("cb")
    ev = r.random() < 0.35
    if ev:
        spec["rets"]["ev"] = "ev"
    for j in range(r.randint(2, 5)):
        ps = [r.choice(types + rets + rets + (["ev"] if ev else [])) for _ in range(r.choice([0, 1, 1, 2, 2]))]
        ret = r.choice(rets + [""]) if j else r.choice(rets)
        if j == 0:
            ps = [p for p in ps if p in types]
        fin = [p not in spec["fixed"] and p != "cb" and r.random() < (0.45 if p in rets or p == "ev" else 0.08) for p in ps]
        spec["acts"].append({"n": "act%d" % j, "ps": ps, "ret": ret, "fin": fin})
    spec["deep"] = r.choice([2, 3, 3, 4, 5])
    spec["exc"] = r.choice([0, 0.08, 0.2])
    spec["obs"] = r.choice([0, 0.3]) if not ev else 0.5
    return spec


SPECS = {"handles": ([["create", [], "h", []], ["use", ["h", "v"], "", [False, False]], ["destroy", ["h"], "", [True]]], 3),
         "codes": ([["ask", ["v"], "code", [False]], ["tell", ["code"], "", [False]]], 2),
         "join": ([["create", [], "h", []], ["join", ["h", "h"], "h", [False, True]]], 4)}


def fixedspec(name, big):
    "a model of MCExplorer"
    acts, deep = SPECS[name]
    return {"choices": {"v": ["1", "2"] if big else ["2"], "code": ["0", "5"]}, "fixed": ["code"], "max": {"h": 2}, "rets": {"h": "obj", "code": "str"}, "exc": 0, "obs": 0,
            "deep": 5 if big and name == "join" else deep, "acts": [dict(zip(("n", "ps", "ret", "fin"), a)) for a in acts], "model": name}


def mcsys(path, n, args, deep):
    "the system of MCExplorer"
    if len(path) >= deep - 1 or (n == "use" and args[1] == "2" and any(p[0] == "destroy" for p in path)):
        return "exc", None
    if n in ("create", "join"):
        return "val", Obj(1 + sum(p[0] in ("create", "join") for p in path))
    if n == "ask":
        return "val", "0" if args[0] == "1" else "5"
    return "none", None


class System:
    """what the model is a model of: the same history gives the same result, unless it is fickle or changed"""
    def __init__(self, spec, seed, base=0, fickle=False, change=()):
        self.spec, self.seed, self.base, self.change = spec, seed, base, set(change)
        self.hist, self.objs, self.calls, self.restarts, self.late = [], 0, [], 0, []
        self.chosen = {}
        self.fickle = random.Random(seed) if fickle else None
        self.observe = lambda v: None
        self.put = lambda t, v: None

    def norm(self, v):
        return re.sub(r"<obj (\d+)>", lambda m: "<obj %d>" % (int(m[1]) - self.base), repr(v))

    def restart(self):
        self.hist, self.objs = [], 0
        self.restarts += 1
        self.late = []

    def call(self, act, kwargs):
        args = [kwargs["p%d" % j] for j in range(len(act["ps"]))]
        key = (act["n"], tuple(self.norm(a) for a in args))
        n = len(self.calls)
        r = self.fickle or random.Random("%s %s %s" % (self.seed, self.hist, key))
        rec = {"n": act["n"], "args": args, "rc": ("none", None), "came": [], "lates": []}
        self.calls.append(rec)
        if "model" in self.spec:
            kind, v = mcsys(self.hist, key[0], args, self.spec["deep"])
        else:
            x = r.random()
            kind = "exc" if len(self.hist) + 1 >= self.spec["deep"] or x < self.spec["exc"] else "none" if (not act["ret"] and x < 0.9) or x > 0.85 else "val"
            v = None
            if kind == "val":
                k = self.spec["rets"].get(act["ret"], "int")
                if k == "obj":
                    if self.objs and r.random() < 0.25:
                        v = Obj(r.randint(1, self.objs))
                    else:
                        v = Obj(self.objs + 1)
                else:
                    v = r.choice(LIT[k])
        if isinstance(v, Obj):
            self.objs = max(self.objs, v.n)
            v = Obj(v.n + self.base)
        self.hist = self.hist + [key]
        if r.random() < self.spec["obs"]:
            o = (Obj(r.randint(1, self.objs) + self.base) if self.objs and r.random() < 0.7 else 0, "m%d" % len(self.hist))
            how = random.Random("%s late %d" % (self.seed, n))
            late = how.choice([0, 0, 1, 3]) if self.base else 0
            if n in self.change and how.random() < 0.5:
                pass            # never comes
            else:
                rec["came"].append(o)
                if late:
                    self.late.append([late, o])
                else:
                    self.observe(o)
        if n in self.change:
            kind, v = ("val", "other") if kind != "val" else random.Random(n).choice([("exc", None), ("none", None), ("val", "other")])
        rec["rc"] = (kind, v)
        if kind == "exc":
            raise Exception("failed")
        return v

    def tick(self):
        for x in list(self.late):
            x[0] -= 1
            if x[0] <= 0:
                self.late.remove(x)
                self.observe(x[1])


def build(m, spec, system):
    "the model, as a user writes it"
    model = m.Models()
    fns = {}
    for a in spec["acts"]:
        env = {"system": system, "a": a}
        src = "def %s(%s)%s:\n  return system.call(a, dict(%s))\n" % (
            a["n"], ", ".join("p%d : %r" % (j, t) for j, t in enumerate(a["ps"])), " -> %r" % a["ret"] if a["ret"] else "",
            ", ".join("p%d=p%d" % (j, j) for j in range(len(a["ps"]))))
        exec(src, env)
        fns[a["n"]] = env[a["n"]]
        model.addAction(env[a["n"]])
    for t, vs in spec["choices"].items():
        model.addChoice(t, vs, output=t in spec["fixed"])
    for a in spec["acts"]:
        for j, f in enumerate(a["fin"]):
            if f:
                model.finishedWith(fns[a["n"]], "p%d" % j)
    if "ev" in spec["rets"]:
        model.addReturnType("ev")
    for t, n in spec["max"].items():
        model.maxobjects[t] = n
    model.restartCallback = system.restart
    if "cb" in spec["choices"]:
        def callback(action, kwargs):
            system.chosen = dict(kwargs)
            for name in kwargs:
                if action.getParmType(name) == "cb":
                    kwargs[name] = "called back"
            return action, kwargs
        model.callCallback = callback
    return model


def modelrec(spec):
    pools = {t: [repr(v) for v in vs] for t, vs in spec["choices"].items()}
    for t in list(spec["rets"]) + [a["ret"] for a in spec["acts"] if a["ret"]]:
        pools.setdefault(t, [])
    return {"acts": spec["acts"], "pools": pools, "fixed": spec["fixed"], "max": dict(spec["max"], **{"-": 1})}


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def explore(m, spec, seed, steps, fickle=False, script=None):
    "-> (steps for the specification, the record as text, the record as events)"
    r = random.Random(seed)
    random.seed(seed)
    system = System(spec, seed, 0, fickle)
    model = build(m, spec, system)
    ex = m.Executions(model)
    log = Log()
    m.logger.handlers = [log]
    m.logger.propagate = False
    m.logger.setLevel(logging.INFO)
    out, events = [], []
    puts = []

    def observe(o):
        ex.addObservation(o)
        events.append({"do": "OBSERVED", "v": val(o)})
        if "ev" in spec["rets"]:
            puts.append(o)
    system.observe = observe
    seen = {}
    want = [None]

    def select(frees):
        def conv(f):
            names = list(f[0].getParmNames())
            byname = {names[j]: ex.pools[f[1 + j][0]][f[1 + j][1]].value for j in range(len(names))}
            return [f[0].getName(), [repr(byname["p%d" % j]) for j in range(len(names))]]
        frees = sorted(frees, key=lambda f: repr(conv(f)))
        seen["asked"] = [conv(f) for f in frees]
        given = frees
        if want[0]:
            given = [f for f in frees if conv(f) == want[0]]
        elif r.random() < 0.3:
            given = r.sample(frees, r.randint(0 if r.random() < 0.2 else 1, len(frees)))
        seen["given"] = [conv(f) for f in given]
        return given
    callback = script is not None or r.random() < 0.7
    if callback:
        model.selectCallback = select
    idle = 0
    todo = list(script) if script is not None else None
    early = r.random() < 0.3
    for _ in range(len(todo) if todo is not None else r.randint(*steps)):
        if todo is not None:
            x = todo.pop(0)
            if x["do"] == "restart":
                ex.restart()
                out.append({"do": "restart"})
                events.append({"do": "RESTART"})
                continue
            want[0] = [x["call"][0], [repr(Obj(int(v[1:])) if re.match(r"h\d$", v) else v) for v in x["call"][1]]]
        n, nr = len(system.calls), system.restarts
        seen.clear()
        system.chosen = {}
        at = len(events)
        stop = bool(ex.step(False))
        s = {"do": "step", "call": [], "got": [], "rc": {"k": "none", "v": ""}, "stop": stop, "asked": seen.get("asked", []), "given": seen.get("given", [])}
        if len(system.calls) > n:
            c = system.calls[n]
            s["got"] = [c["n"], [repr(a) for a in c["args"]]]
            s["call"] = [c["n"], [repr(system.chosen["p%d" % j]) for j in range(len(c["args"]))]] if system.chosen else s["got"]
            s["rc"] = {"k": c["rc"][0], "v": repr(c["rc"][1]) if c["rc"][0] == "val" else ""}
            events.insert(at, {"do": "CALL", "n": c["n"], "args": [val(a) for a in c["args"]]})
            if c["rc"][0] != "none":
                events.append({"do": "RESULT", "v": val(c["rc"][1]) if c["rc"][0] == "val" else {"k": "exc", "t": ""}})
            if c["rc"][0] == "exc":
                events.append({"do": "RESTART"})
            if len(system.calls) != n + 1 or (system.restarts != nr) != (c["rc"][0] == "exc"):
                raise Exception("one step made %d calls, %d restarts" % (len(system.calls) - n, system.restarts - nr))
        out.append(s)
        for o in puts:      # as in the model of MQTT: what came is there to be answered
            if len(system.calls) > n and system.calls[n]["rc"][0] != "exc":
                if repr(o) not in [repr(c.value) for c in ex.pools["ev"]]:
                    ex.pools["ev"].append(m.Choices(o))
                    out.append({"do": "put", "t": "ev", "v": repr(o)})
        del puts[:]
        if s["call"] == [] or (early and todo is None and r.random() < 0.1):
            idle = idle + 1 if s["call"] == [] else 0
            if todo is None:
                ex.restart()
                out.append({"do": "restart"})
                events.append({"do": "RESTART"})
            if idle > 3:
                break
    return ({"kind": "explore", "model": modelrec(spec), "det": not fickle, "callback": callback, "steps": out}, log.lines, events)


def val(v):
    if isinstance(v, Obj):
        return {"k": "obj", "t": repr(v)}
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str) and v[1].startswith("m"):
        return {"k": "pair", "t": v[1], "o": val(v[0])}
    return {"k": "lit", "t": repr(v)}


class Clock:
    def __init__(self, system):
        self.system = system

    def sleep(self, s):
        self.system.tick()

    def __getattr__(self, name):
        import time
        return getattr(time, name)


def replay(m, spec, seed, lines, events, change, where):
    system = System(spec, seed, 100, False, change)
    model = build(m, spec, system)
    path = os.path.join(where, "record.log")
    with open(path, "w") as f:
        f.writelines(x if x.endswith("\n") else x + "\n" for x in lines)
    m.time = Clock(system)
    checks = {t: (lambda a, b: isinstance(a, Obj) and b.startswith("<obj") or str(a).startswith("exception") and b.startswith("exception")) for t, k in spec["rets"].items() if k == "obj"}
    checks["exception"] = lambda a, b: b.startswith("exception")
    t = m.Tests(model, path, checks, callCallback=model.callCallback)
    system.observe = t.addResult
    aborted = False
    try:
        t.run(stepping=False)
    except Exception:
        aborted = True
    out, n, restarts = [], 0, 0
    total = sum(e["do"] == "CALL" for e in events)
    for e in events:
        s = dict(e)
        if e["do"] == "CALL":
            if n >= len(system.calls):
                s.update(aborted=True, called=[], rc={"k": "none", "t": ""}, came=[])
                out.append(s if aborted else dict(s, aborted=False))
                break
            c = system.calls[n]
            n += 1
            rc = c["rc"]
            s.update(aborted=False, called=[c["n"], [val(a) for a in c["args"]]], came=[val(o) for o in c["came"]],
                     rc=val(rc[1]) if rc[0] == "val" else {"k": rc[0], "t": "" if rc[0] == "exc" else "None"})
        elif e["do"] == "RESTART":
            restarts += 1
            s["restarted"] = restarts <= system.restarts
        out.append(s)
    else:
        if aborted or n != len(system.calls) or restarts != system.restarts:
            out.append({"do": "CALL", "n": "", "args": [], "aborted": False, "called": ["unexpected", []], "rc": {"k": "none", "t": ""}, "came": []})
    out.append({"do": "END", "passes": t.passes, "failures": t.failures})
    return {"kind": "replay", "steps": out}


def _init():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(os.environ.get("VP_REPO", "/repo"), "interoperability"))
    sys.stdout = sys.stderr = open(os.devnull, "w")
    sys.stdin = open(os.devnull)


def _alarm(sig, frm):
    raise TimeoutError("takes too long")


def _one(job):
    name, seed, steps, script, big, d = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    out = []
    try:
        os.makedirs(os.path.join(d, str(os.getpid())), exist_ok=True)
        os.chdir(os.path.join(d, str(os.getpid())))
        import mbt.main as m
        m.test_logger.handlers = []
        m.test_logger.setLevel(logging.CRITICAL + 1)
        r = random.Random("spec %s" % seed)
        spec = fixedspec(script["model"], big) if script else mkspec(r)
        fickle = not script and r.random() < 0.15
        t, lines, events = explore(m, spec, seed, steps, fickle, script["hist"] if script else None)
        t["name"] = name
        out.append(t)
        if not fickle:
            n = sum(e["do"] == "CALL" for e in events)
            for j, change in enumerate([(), tuple(r.sample(range(n), min(n, r.choice([1, 1, 2]))))] if n else [()]):
                t = replay(m, spec, seed, lines, events, change, os.getcwd())
                t["name"] = "%s-replay%d" % (name, j)
                out.append(t)
    except BaseException:
        out.append({"name": name + "-err", "kind": "replay", "error": traceback.format_exc(), "steps": []})
    finally:
        signal.alarm(0)
    return out


def run(jobs, procs=8):
    d = tempfile.mkdtemp(prefix="vpm")
    here = os.getcwd()
    try:
        with mp.get_context("spawn").Pool(procs, _init) as p:
            return [t for ts in p.map(_one, [tuple(j) + (d,) for j in jobs], chunksize=4) for t in ts]
    finally:
        shutil.rmtree(d, ignore_errors=True)


CFG = 'CONSTANTS Model = "%s" Big = %s Early = %s Sim = %s MaxSteps = %d\nSPECIFICATION Spec\n'


def sims(num, seed):
    out = []
    for m in ("handles", "codes", "join"):
        for early in ("TRUE", "FALSE"):
            rc, text = tlc.tlc("MCExplorer", CFG % (m, "TRUE", early, "TRUE", 40) + "INVARIANTS Sound Complete Written\nCHECK_DEADLOCK FALSE\n",
                               ["-simulate", "num=%d" % (num // 3 + 20), "-depth", "60", "-seed", str(seed)], timeout=200, workers=1, heap="2g")
            hs = list(dict.fromkeys(re.findall(r'<<"HIST", ("(?:[^"\\]|\\.)*")>>', text)))
            if not hs:
                raise tlc.TLCError(text[-3000:])
            out += [{"model": m, "hist": json.loads(json.loads(h))} for h in hs[:num // 6]]
    return out


def judge(ts):
    bad, good = {}, []
    for t in ts:
        if t.get("error"):
            bad[t["name"]] = ("%s: %s" % (t["name"], t["error"][-900:]), {"error": t["error"]})
        else:
            good.append(t)
    rej, gen, dis = tlc.validate("TraceExplorer", good, hinted=False) if good else ({}, 0, 0)
    for n, (step, exp) in rej.items():
        t = next(t for t in good if t["name"] == n)
        step = step or len(t["steps"])
        bad[n] = ("%s %s is not a behaviour of the specification at step %d: %s\n  specification: %s" % (
            "exploration" if t["kind"] == "explore" else "replay", n, step, json.dumps(t["steps"][step - 1])[:900], exp[:900]),
            {"step": step, "recorded": t["steps"][:step + 2], "model": t.get("model"), "specification": exp})
    return bad, gen, dis, good


def check(ctx):
    from concurrent.futures import ThreadPoolExecutor
    sh = SHAPE[ctx.tier]
    ex = ThreadPoolExecutor(3)
    models = [(m, "FALSE", e) for m in ("handles", "codes", "join") for e in ("FALSE", "TRUE")] + [("join", "TRUE", "TRUE")]
    if ctx.thorough:
        models += [(m, "TRUE", e) for m in ("handles", "codes") for e in ("FALSE", "TRUE")]
    mc = [(k, ex.submit(tlc.check, "MCExplorer", CFG % (k[0], k[1], k[2], "FALSE", 1000) + "INVARIANTS Sound Complete Replays Notices\nPROPERTY Finishes\nVIEW View\nCHECK_DEADLOCK FALSE\n",
                        timeout=2500, workers=2)) for k in models]
    b = ctx.base("mbt")
    jobs = [("M01-sim%d" % j, b + j, None, h, True) for j, h in enumerate(sims(sh["sims"], ctx.base("sim") % 100000))]
    jobs += [("M01-%d" % (b + j), b + j, sh["steps"], None, False) for j in range(sh["random"])]
    ts = run(jobs)
    ctx.log(len(ts), "explorations and replays run")
    bad, gen, dis, good = judge(ts)
    ctx.log("validated;", len(bad), "rejected")
    ctx.traces += len(good)
    ctx.steps += sum(len(t["steps"]) for t in good)
    ctx.states += dis
    ctx.transitions += gen
    ctx.part("trace validation", explorations=sum(t["kind"] == "explore" for t in good), replays=sum(t["kind"] == "replay" for t in good),
             of_the_specification=sum(bool(j[3]) for j in jobs), rejected=len(bad),
             replays_with_failures=sum(t["kind"] == "replay" and t["steps"][-1].get("failures", 0) > 0 for t in good))
    for name in list(bad)[:3]:
        job = next(j for j in jobs if name == j[0] or name.startswith(j[0] + "-"))
        ctx.violation(bad[name][0], dict({"kind": "mbt", "job": list(job)}, **bad[name][1]))
    if not ctx.violations:
        for k, f in mc:
            r = f.result()
            if r["error"]:
                raise tlc.TLCError(r["error"])
            ctx.states += r["states"]
            ctx.transitions += r["transitions"]
            ctx.part("model MCExplorer", states=r["states"], transitions=r["transitions"], complete=r["complete"])
    if good:
        ctx.sample({"run": good[0]["name"], "steps": good[0]["steps"][:5]})
    ctx.assumptions += ["the order of exploration is compared with the specification only where the same calls have the same results (15 % of the models are fickle: there only soundness is judged)",
                        "waiting for an observation is simulated: up to 3 waits until it comes"]
