"""The checks of the broker properties: specification scopes, replayed behaviours, random histories."""
import json, time
from concurrent.futures import ThreadPoolExecutor
from . import tlc, pool, fixed

# property: scopes checked exhaustively and replayed
SCOPES = {"B02": ["B02", "B02r"], "B09": ["B09", "B09k"], "B13": ["B13", "B13m"], "S01": ["S01", "S01n"], "L02": ["B24"], "L01": ["B25"]}
SHAPE = {"quick": dict(own=450, mixed=220, mix=80, sims=40, depth=28),
         "thorough": dict(own=6000, mixed=3000, mix=1000, sims=400, depth=34)}


def describe(t, step, expected):
    lo = max(0, step - 6)
    show = []
    for j, x in enumerate(t["steps"][lo:step], lo + 1):
        ev = {k: v for k, v in x["ev"].items() if v not in (0, "", [], False, -1, 268435460, 65535, {"on": False})}
        show.append({"step": j, "event": ev, "sent": [{"conn": o["k"], "packets": [
            {k: v for k, v in p.items() if v not in (0, "", [], -1) or k == "rc"} for p in o["pk"]]} for o in x["out"]], "closed": x["cl"]})
    return show


def describe_any(t, step):
    return [{"step": j, "event": x["ev"] if x["ev"]["e"] == "BATCH" else brief(x["ev"]), "sent": x["out"], "closed": x["cl"]}
            for j, x in enumerate(t["steps"][max(0, step - 5):step], max(0, step - 5) + 1)]


def brief(ev):
    return {k: v for k, v in ev.items() if v not in (0, "", [], False, -1, 268435460, 65535, {"on": False})}


def judge(ctx, traces, module="TraceBroker", hinted=True):
    "validate runs of the implementation; record what is rejected"
    good = []
    for t in traces:
        if t.get("error"):
            ctx.violation("run %s: the implementation failed:\n%s" % (t["name"], t["error"][-1200:]),
                          {"kind": "run", "trace": t["name"], "error": t["error"], "opt": t["opt"], "events": [x["ev"] for x in t["steps"]],
                           "steps": t["steps"][-8:]})
        else:
            good.append(t)
    if not good:
        return
    rej, gen, dis = tlc.validate(module, good, hinted)
    ctx.traces += len(good)
    n = sum(len(t["steps"]) for t in good)
    ctx.steps += n
    ctx.part("trace validation", runs=len(good), steps=n, states=dis, transitions=gen, rejected=len(rej))
    for t in good:
        if t["name"] in rej:
            step, exp = rej[t["name"]]
            step = step or len(t["steps"])
            ctx.violation("run %s is not a behaviour of the specification at step %d:\n  %s\n  specification allows: %s" % (
                t["name"], step, json.dumps(describe(t, step, exp)[-1:])[:900], exp[:900]),
                {"kind": "run", "trace": t["name"], "opt": t["opt"], "step": step, "specification_allows": exp,
                 "context": describe(t, step, exp), "events": [x["ev"] for x in t["steps"]], "recorded": t["steps"]})
    for t in good[:1]:
        ctx.sample({"run": t["name"], "events": [x["ev"]["e"] for x in t["steps"]], "last": describe(t, len(t["steps"]), "")[-1:]})


def model(ctx, scope, extra=0, timeout=500):
    r = tlc.mc(scope, extra, timeout=timeout)
    ctx.states += r["states"]
    ctx.transitions += r["transitions"]
    ctx.part("model " + scope + ("+%d" % extra if extra else ""), states=r["states"], transitions=r["transitions"], complete=r["complete"])
    ctx.log("model", scope, extra, r["states"], "states", "complete" if r["complete"] else "NOT complete")
    if r["error"]:
        raise tlc.TLCError("the specification itself violates an invariant in scope %s:\n%s" % (scope, r["error"]))


def run_jobs(ctx, jobs):
    tr = pool.run_jobs(jobs)
    hung = [j for j, t in zip(jobs, tr) if "hang" in str(t.get("error", ""))[:4]]
    if hung:    # once more, in case the machine was busy
        again = {t["name"]: t for t in pool.run_jobs(hung[:6], procs=2)}
        tr = [again.get(t["name"], t) for t in tr]
    return tr


def check(ctx, extra=None):
    p = ctx.prop
    sh = SHAPE[ctx.tier]
    scopes = SCOPES.get(p, [p])
    ex = ThreadPoolExecutor(4)
    sims = {x: ex.submit(tlc.sim, x, max(10, sh["sims"] // len(scopes)), sh["depth"], ctx.base("sim" + x) % 100000) for x in scopes}
    jobs = [("%s-%s" % (p, x), 0, "fixed", x) for x in fixed.OF.get(p, [])]
    for prof, n in ((p, sh["own"]), ("mixed", sh["mixed"]), ("mix", sh["mix"])):
        b = ctx.base(prof)
        jobs += [("%s-%d" % (prof, b + j), b + j, "gen", prof) for j in range(n)]
    jobs = jobs[:]
    random_traces = run_jobs(ctx, jobs)
    ctx.log(len(random_traces), "random histories run")
    simjobs = []
    for x in scopes:
        hs = sims[x].result()
        ctx.part("behaviours of the specification replayed", **{x: len(hs)})
        simjobs += [("%s-sim%d" % (x, j), j, "sim", h) for j, h in enumerate(hs)]
    sim_traces = run_jobs(ctx, simjobs)
    ctx.log(len(sim_traces), "behaviours of the specification replayed")
    n = 1500
    every = sim_traces + random_traces
    for j in range(0, len(every), n):
        judge(ctx, every[j:j + n])
        if len(ctx.violations) > 3:
            break
    ctx.log("validated; %d rejected" % len(ctx.violations))
    if not ctx.violations:
        if extra:
            extra(ctx)
        for x in scopes:
            model(ctx, x, timeout=400 if not ctx.thorough else 2000)
            if ctx.thorough:
                model(ctx, x, 1, timeout=2000)
    ctx.assumptions += [
        "the brokers are driven through the entry points of the listeners, with byte-level fake sockets and a virtual clock",
        "a client id is used by one protocol version only",
        "exhaustive exploration is bounded by the scope (clients, messages, reconnections: spec/MCScopes.tla)"]
