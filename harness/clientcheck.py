"""The checks of the client library: spec/Client.tla against mqtt.clients."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from . import clientlib, tlc

SHAPE = {"quick": dict(gen=110, sims=60), "thorough": dict(gen=2500, sims=1500)}
WEIGHT = {"C01": (0.6, 0.15, 0.1), "C02": (0.2, 0.4, 0.25)}
INVS = "AtMostOnce Reported Unfinished Distinct"


def cfg(ver, rogue, tags, ops, width, sim=0):
    props = "" if sim else "PROPERTIES %s TellsOnce\nVIEW View\n" % ("" if rogue else "Released")
    invs = ("Unfinished Distinct" if rogue else INVS) + (" Written" if sim else "")
    return ("CONSTANTS Ver = %d Rogue = %s Tags = {%s} Ops = %d Width = %d Sim = %s Depth = %d MaxId = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
            "INVARIANTS %s\n%s" % (ver, str(rogue).upper(), ", ".join(str(x + 1) for x in range(tags)), ops, width, str(sim > 0).upper(), sim,
                                   6 if sim else max(2, ops), invs, props))


def model(ver, rogue, tags, ops, width, timeout=600):
    r = tlc.check("MCClient", cfg(ver, rogue, tags, ops, width), timeout=timeout, workers=4)
    if r["error"]:
        raise tlc.TLCError("the specification itself violates a property:\n" + r["error"])
    return r


def sims(ver, rogue, num, depth, seed):
    rc, text = tlc.tlc("MCClient", cfg(ver, rogue, 4, 6, 3, depth), ["-simulate", "num=%d" % num, "-depth", "120", "-seed", str(seed)], timeout=300, workers=1, heap="3g")
    if "Error:" in text and "Invariant" in text:
        raise tlc.TLCError(text[-4000:])
    hs = list(dict.fromkeys(re.findall(r'<<"HIST", ("(?:[^"\\]|\\.)*")>>', text)))
    if not hs:
        raise tlc.TLCError(text[-4000:])
    return [json.loads(json.loads(h)) for h in hs]


def kinds(step):
    "which property a step is about"
    types = {x["b"][0] >> 4 for x in step["ins"][:-1] if x["b"]}
    k = set()
    if types & {3, 6}:
        k.add("C01")
    if step["op"] not in ("none", "pause", "resume") or types - {3, 6}:
        k.add("C02")
    return k or {"C01", "C02"}


def judge(ctx, jobs, traces, label):
    byjob = {j[1]: j for j in jobs}

    def reject(ts):
        bad = {}
        for t in ts:
            if t.get("error"):
                bad[t["name"]] = (0, t["error"])
        good = [t for t in ts if not t.get("error") and t["steps"]]
        parts = [good[j:j + 400] for j in range(0, len(good), 400)]
        with ThreadPoolExecutor(2) as ex:
            for rej, gen, dis in ex.map(lambda c: tlc.validate("TraceClient", c, hinted=False, workers=4, timeout=500), parts):
                bad.update(rej)
                ctx.states += dis
                ctx.transitions += gen
        return bad, good
    bad, good = reject(traces)
    first = {t["name"]: t for t in traces}
    if bad:     # once more and with patience: was the machine just slow?
        again = clientlib.run([byjob[n] for n in list(bad)[:12]], 2, patience=4)
        bad2, _ = reject(again)
        second = {t["name"]: t for t in again}
        bad = {n: bad2[n] for n in bad2}
        first.update(second)
    for n, (step, exp) in bad.items():
        t = first[n]
        if not t["steps"] or not step:
            ctx.violation("%s: %s" % (n, exp[-1200:]), {"kind": "client", "job": byjob[n]})
            continue
        x = t["steps"][step - 1]
        if ctx.prop not in kinds(x):
            continue
        if len(ctx.violations) < 6:
            ctx.violation("history %s (version %d) is not a behaviour of the specification at step %d:\n  %s\n  specification: %s" % (
                n, t["ver"], step, json.dumps({k: str(v)[:700] for k, v in x.items()}), exp[:1200]),
                {"kind": "client", "job": byjob[n], "step": step, "specification": exp, "context": t["steps"][max(0, step - 4):step]})
    ctx.traces += len(good)
    n = sum(len(t["steps"]) for t in good)
    ctx.steps += n
    ctx.part(label, histories=len(good), steps=n, rejected=len(bad))
    for t in good[:1]:
        ctx.sample({"history": t["name"], "ops": [s["op"] for s in t["steps"]][:30], "first": {k: str(v)[:200] for k, v in t["steps"][-1].items()}})
    ctx.log(label, len(good), "histories,", n, "steps;", len(bad), "rejected")


def check(ctx):
    p, sh = ctx.prop, SHAPE[ctx.tier]
    ex = ThreadPoolExecutor(3)
    hs = {(v, rg): ex.submit(sims, v, rg, sh["sims"], 25, ctx.base("sim%d%s" % (v, rg)) % 100000) for v in (5, 4) for rg in (False, True)}
    jobs = []
    if p == "C02":
        jobs += [("wrap", "%s-wrap%d" % (p, v), 1, v, 65600) for v in (5, 4)]
    for v in (5, 4):
        b = ctx.base("gen%d" % v)
        jobs += [("gen", "%s-v%d.%d" % (p, v, b + j), b + j, v, WEIGHT[p]) for j in range(sh["gen"])]
    judge(ctx, jobs, clientlib.run(jobs), "random histories")
    if ctx.violations:
        return
    jobs = []
    for (v, rg), f in hs.items():
        jobs += [("sim", "%s-sim%d%s.%d" % (p, v, "r" if rg else "", j), ctx.base("simrun") + j, v, h) for j, h in enumerate(f.result()[:sh["sims"]])]
    judge(ctx, jobs, clientlib.run(jobs), "behaviours of the specification")
    if ctx.violations:
        return
    scopes = [(5, False, 2, 1, 2), (4, False, 1, 1, 3), (5, True, 1, 1, 2)]
    if ctx.thorough:
        scopes += [(4, False, 1, 2, 2), (4, False, 2, 1, 2), (5, False, 1, 2, 3), (5, False, 2, 2, 2), (4, True, 1, 2, 2), (5, False, 3, 1, 2)]
    for sc, r in zip(scopes, ThreadPoolExecutor(2).map(lambda a: model(*a, timeout=2000), scopes)):
        ctx.states += r["states"]
        ctx.transitions += r["transitions"]
        ctx.part("model version %d%s, %d messages, %d operations, channels of %d" % (sc[0], " with stray acknowledgements" if sc[1] else "", *sc[2:]),
                 states=r["states"], transitions=r["transitions"], complete=r["complete"])
    ctx.log("models done")
    ctx.assumptions += ["the application uses callbacks (receive() by hand, as some tests do, acknowledges nothing with QoS 1)",
                        "one thread of the application uses the client",
                        "the client never resends by itself after reconnecting: there is nothing in the specification that makes it"]
