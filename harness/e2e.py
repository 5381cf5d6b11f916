"""S01, S02, H01: besides the histories in one process under the virtual clock (broker.py), histories with the
broker as a process with a configuration file, stopped and started again (process.py)."""
import json
from . import broker, pool, tlc
from .broker import describe_any

SHAPE = {"S01": ("P01", 64), "S02": ("P01", 64), "H01": ("PH1", 48), "V01": ("PV1", 64)}


def check(ctx):
    prof, n = SHAPE[ctx.prop]
    n *= 12 if ctx.thorough else 1
    b = ctx.base("proc")
    jobs = [("%s-%d" % (prof, b + j), b + j, "proc", (prof,)) for j in range(n)]
    traces = pool.run_jobs(jobs)
    ctx.log(len(traces), "histories run with a broker process")
    sus = {j[0]: j for j, t in zip(jobs, traces) if t.get("error")}
    good = [t for t in traces if not t.get("error")]
    rej, gen, dis = tlc.validate("TraceBroker", [plain(t) for t in good]) if good else ({}, 0, 0)
    if good and "vers" in good[0]:      # V01: the reports, too
        r, g, d = tlc.validate("TraceVisual", [seen(t) for t in good], hinted=False)
        rej, gen, dis = dict(r, **rej), gen + g, dis + d
        ctx.part("reports judged", runs=len(good), reports=sum(len(r) for t in good for x in t["steps"] for r in x["rep"]), lines_of_files=sum(len(f) for t in good for f in t["files"]), rejected=len(r))
    sus.update({n: next(j for j in jobs if j[0] == n) for n in rej})
    steps = sum(len(t["steps"]) for t in good)
    ctx.traces += len(good)
    ctx.steps += steps
    ctx.states += dis
    ctx.transitions += gen
    ctx.part("broker processes", histories=len(good), steps=steps, restarts=sum(x["ev"]["e"] == "RESTART" for t in good for x in t["steps"]), rejected=len(sus))
    for job in list(sus.values())[:6]:
        r = judge(job)
        if r:
            ctx.violation(r[0], dict({"kind": "proc", "job": list(job)}, **r[1]))
        else:
            ctx.log("history", job[0], "is accepted when run again")
            ctx.part("histories accepted only when run again", n=1)
        if len(ctx.violations) > 1:
            break
    if good:
        ctx.sample({"configuration": good[0]["config"]})
    ctx.assumptions += ["with a broker process: the answer to a PINGREQ shows that what was sent before it on the connection has been dealt with; a stop is a SIGTERM"]
    if not ctx.violations and ctx.prop != "V01":
        broker.check(ctx)


def plain(t):
    "the run without its reports"
    return {k: ([{y: z for y, z in x.items() if y != "rep"} for x in v] if k == "steps" else "" if k == "config" else v) for k, v in t.items() if k not in ("vers", "files", "late")}


def seen(t):
    "the run's reports"
    return {"name": t["name"], "vers": t["vers"], "files": t["files"], "late": t["late"], "steps": t["steps"]}


def told(t, step):
    return [{"step": j, "event": x["ev"] if x["ev"]["e"] in ("PAIR", "BATCH") else broker.brief(x["ev"]), "sent": x["out"], "closed": x["cl"], "reports": x.get("rep")}
            for j, x in enumerate(t["steps"][max(0, step - 3):step], max(0, step - 3) + 1)]


def judge(job):
    "one history, with patience: -> (what is wrong, details) or None"
    t = pool.run_jobs([(job[0], job[1], "proc", tuple(job[3]) + (6,))], 1)[0]
    if t.get("error"):
        return "run %s with a broker process: %s" % (t["name"], t["error"][-1200:]), {"steps": t["steps"][-8:]}
    if "vers" in t:
        for n, (step, exp) in tlc.validate("TraceVisual", [seen(t)], hinted=False)[0].items():
            step = step or len(t["steps"])
            return ("run %s with a broker process: the reports of step %d are not those of its packets:\n  %s\n  specification wants: %s\n  configuration:\n%s" % (
                n, step, json.dumps(told(t, step)[-1:])[:1200], exp[:900], t["config"]),
                {"step": step, "specification_wants": exp, "context": told(t, step), "recorded": t["steps"], "config": t["config"]})
    rej = tlc.validate("TraceBroker", [plain(t)])[0]
    for n, (step, exp) in rej.items():
        step = step or len(t["steps"])
        return ("run %s with a broker process is not a behaviour of the specification at step %d:\n  %s\n  specification allows: %s\n  configuration:\n%s" % (
            n, step, json.dumps(describe_any(t, step)[-1:])[:900], exp[:900], t["config"]),
            {"step": step, "specification_allows": exp, "context": describe_any(t, step), "recorded": t["steps"], "config": t["config"]})
    return None
