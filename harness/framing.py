"""L01: how the bytes of connections are cut into frames and segments does not matter."""
import json, re
from concurrent.futures import ThreadPoolExecutor
from . import tlc, pool, broker

SHAPE = {"quick": dict(random=260, plans=80, budget=2, wire=350), "thorough": dict(random=3000, plans=1200, budget=3, wire=4000)}
INVS = "Exact Answer Alive Whole Refused"


def plans(num, seed):
    "ways of framing and cutting, from behaviours of MCFrame"
    cfg = 'CONSTANTS Ws = TRUE Sim = TRUE Budget = 7 Script = "long"\nINIT Init\nNEXT Next\nINVARIANTS %s Written\nCHECK_DEADLOCK FALSE\n' % INVS
    rc, text = tlc.tlc("MCFrame", cfg, ["-simulate", "num=%d" % (num * 3), "-depth", "40", "-seed", str(seed)], timeout=200, workers=1, heap="2g")
    hs = list(dict.fromkeys(re.findall(r'<<"HIST", ("(?:[^"\\]|\\.)*")>>', text)))
    if not hs:
        raise tlc.TLCError(text[-3000:])
    return [json.loads(json.loads(h)) for h in hs][:num]


def check(ctx):
    from . import tcp
    sh = SHAPE[ctx.tier]
    ex = ThreadPoolExecutor(2)
    mc = [ex.submit(tlc.check, "MCFrame", 'CONSTANTS Ws = %s Sim = FALSE Budget = %d Script = "%s"\nINIT Init\nNEXT Next\nVIEW View\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
                    % (ws, b, sc, INVS), timeout=1500, workers=2) for ws, b, sc in (("FALSE", 0, "long"), ("TRUE", sh["budget"], "short"))]
    pl = [tcp.script_plan(x) for x in plans(sh["plans"], ctx.base("plans") % 100000)]
    ctx.part("ways of framing from behaviours of the specification", n=len(pl))
    b = ctx.base("tcp")
    jobs = [("L01-%d" % (b + j), b + j, "tcp", ("L01", pl[j % len(pl):j % len(pl) + 4] if j % 3 == 0 else None)) for j in range(sh["random"])]
    traces = pool.run_jobs(jobs)
    ctx.log(len(traces), "histories run through the listener")
    sus = {j[0]: j for j, t in zip(jobs, traces) if t.get("error")}
    good = [t for t in traces if not t.get("error")]
    wires = [w for t in good for w in t["wire"]][:sh["wire"]]
    shown = [{k: v for k, v in t.items() if k != "wire"} for t in good]
    rej, gen, dis = tlc.validate("TraceBroker", shown) if shown else ({}, 0, 0)
    rejw, genw, disw = tlc.validate("TraceFrame", wires, hinted=False) if wires else ({}, 0, 0)
    for n in list(rej) + [x.split("/")[0] for x in rejw]:
        sus[n] = next(j for j in jobs if j[0] == n)
    ctx.traces += len(good) + len(wires)
    ctx.steps += sum(len(t["steps"]) for t in good) + sum(len(w["log"]) for w in wires)
    ctx.states += dis + disw
    ctx.transitions += gen + genw
    ctx.part("trace validation", histories=len(good), connections_byte_by_byte=len(wires), rejected=len(sus))
    ctx.log("validated; %d suspicious" % len(sus))
    for name, job in list(sus.items())[:6]:      # once more, with time to spare: was it the machine?
        again(ctx, job)
        if len(ctx.violations) > 1:
            break
    if not ctx.violations:
        for f in mc:
            r = f.result()
            if r["error"]:
                raise tlc.TLCError(r["error"])
            ctx.states += r["states"]
            ctx.transitions += r["transitions"]
            ctx.part("model MCFrame", states=r["states"], transitions=r["transitions"], complete=r["complete"])
    ctx.sample({"plan": pl[0]})
    ctx.assumptions += ["the answer to a PINGREQ shows that what was sent before it on the connection has been dealt with",
                        "connections of more than 1400 bytes are judged by the events only, not byte by byte"]


def judge(job):
    "one history, with patience: -> (what is wrong, details) or None"
    t = pool.run_jobs([(job[0], job[1], "tcp", tuple(job[3]) + (6,))], 1)[0]
    if t.get("error"):
        return "run %s: %s" % (t["name"], t["error"][-1200:]), {"steps": t["steps"][-8:]}
    w = t.pop("wire")
    rej = tlc.validate("TraceBroker", [t])[0]
    for n, (step, exp) in rej.items():
        step = step or len(t["steps"])
        return ("run %s through the listener is not a behaviour of the specification at step %d:\n  %s\n  specification allows: %s" % (
            n, step, json.dumps(broker.describe_any(t, step)[-1:])[:900], exp[:900]),
            {"step": step, "specification_allows": exp, "context": broker.describe_any(t, step), "recorded": t["steps"]})
    rej = tlc.validate("TraceFrame", w, hinted=False)[0] if w else {}
    for n, (step, exp) in rej.items():
        x = next(x for x in w if x["name"] == n)
        return ("connection %s is not as the specification of the framing has it, at piece %d: %s" % (n, step, exp[:900]), {"connection": x, "at": step, "expected": exp})
    return None


def again(ctx, job):
    r = judge(job)
    if r:
        ctx.violation(r[0], dict({"kind": "tcp", "job": list(job)}, **r[1]))
    else:
        ctx.log("history", job[0], "is accepted when run again")
        ctx.part("histories accepted only when run again", n=1)
