"""property -> check"""
import json
from . import broker, wireformat, clientcheck, framing, proxies, explorer, e2e, visual, doors

CHECKS = {}
for _p in ["B%02d" % i for i in range(1, 26)] + ["L02"]:
    CHECKS[_p] = broker.check
for _p in ["F01", "F02", "F03", "F04"]:
    CHECKS[_p] = wireformat.check
for _p in ["C01", "C02"]:
    CHECKS[_p] = clientcheck.check
for _p in e2e.SHAPE:
    CHECKS[_p] = e2e.check
CHECKS["V01"] = visual.check
CHECKS["N01"] = doors.check
CHECKS["L01"] = framing.check
CHECKS["R01"] = proxies.check
CHECKS["M01"] = explorer.check


def replay(path):
    r = json.load(open(path))
    if r.get("kind") == "run":
        from . import tlc
        t = broker.pool.run_jobs([(r["trace"], 0, "events", {"opt": r["opt"], "events": r["events"]})], 1)[0]
        if t.get("error"):
            print(t["error"])
            return 1
        rej = tlc.validate("TraceBroker", [t])[0]
        for n, (step, exp) in rej.items():
            for x in broker.describe(t, step, exp):
                print(json.dumps(x))
            print("specification allows:", exp)
        print("rejected" if rej else "accepted")
        return 1 if rej else 0
    if r.get("kind") == "visual":
        t = broker.pool.run_jobs([(r["trace"], 0, "visevents", {"opt": r["opt"], "events": r["events"]})], 1)[0]
        if t.get("error"):
            print(t["error"])
            return 1
        from . import tlc
        rej = tlc.validate("TraceVisual", [e2e.seen(t)], hinted=False)[0]
        for n, (step, exp) in rej.items():
            for x in e2e.told(t, step or len(t["steps"])):
                print(json.dumps(x))
            print("specification wants:", exp)
        print("rejected" if rej else "accepted")
        return 1 if rej else 0
    if r.get("kind") == "codec" and "b" in r.get("case", {}):
        from . import codec, tlc
        x = r["case"]
        kind, arg = ("bytes", [x["b"]]) if x["do"] == "unpack" else ("spec", [{"pkt": x["pkt"], "b": x["b"], "long": x["b"]}])
        cs = codec.run([(kind, "replay", x["ver"], arg)], 1)
        rej = tlc.validate("TraceCodec", [c for c in cs if "fail" not in c], hinted=False)[0]
        for c in cs:
            print(json.dumps(c)[:2000])
        for n, (_, exp) in rej.items():
            print("rejected", n, "specification:", exp)
        return 1 if rej or any("fail" in c for c in cs) else 0
    if r.get("kind") == "tcp":
        x = framing.judge(r["job"])
        print(x[0] if x else "accepted")
        return 1 if x else 0
    if r.get("kind") == "proc":
        x = e2e.judge(r["job"])
        print(x[0] if x else "accepted")
        return 1 if x else 0
    if r.get("kind") == "doors":
        x = doors.judge(r["job"])
        print(x[0] if x else "accepted")
        return 1 if x else 0
    if r.get("kind") == "proxy":
        job = tuple(r["job"])
        bad = proxies.judge([job], proxies.run([job], 1))[0]
        print(bad[job[0]][0] if bad else "accepted")
        return 1 if bad else 0
    if r.get("kind") == "mbt":
        for _ in range(5):      # the order of exploration is random
            bad = explorer.judge(explorer.run([tuple(r["job"])], 1))[0]
            if bad:
                break
        for x in bad.values():
            print(x[0])
        return 1 if bad else 0
    if r.get("kind") == "client":
        from . import clientlib, tlc
        t = clientlib.run([tuple(r["job"])], 1)[0]
        rej = {t["name"]: (0, t["error"])} if t.get("error") else tlc.validate("TraceClient", [t], hinted=False)[0]
        for n, (step, exp) in rej.items():
            print(json.dumps(t["steps"][max(0, step - 3):step])[:5000])
            print("rejected at step", step, exp)
        return 1 if rej else 0
    print(json.dumps(r, indent=1)[:20000])
    return 2
