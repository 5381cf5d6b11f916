"""Runs TLC: exhaustive checks of a scope, behaviours for replay, validation of recorded traces."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STATE_INVS = "Good Exact InFlight NotIdle Ids Connections Window SubsLive SubsSame RetSame"


class TLCError(Exception):
    pass


def tlc(module, cfg, args=(), env=None, timeout=600, workers=8, heap="8g"):
    "(exit code, or None if it ran out of time; output)"
    d = tempfile.mkdtemp(prefix="vptlc")
    try:
        path = os.path.join(d, "M.cfg")
        with open(path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config", path] + list(args) + [module + ".tla"]
        out = open(os.path.join(d, "out"), "w+", errors="replace")
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=out, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        out.seek(0)
        return rc, out.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def counts(text):
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", text)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)


def check(module, cfg, **kw):
    "an exhaustive check: dict(states, transitions, complete, error)"
    rc, text = tlc(module, cfg, **kw)
    gen, dis = counts(text)
    res = {"states": dis, "transitions": gen, "complete": rc == 0 and "Model checking completed. No error" in text, "error": None}
    if rc is not None and not res["complete"]:
        m = re.search(r"Error:.*", text, re.S)
        res["error"] = (m.group(0) if m else text)[-6000:]
    return res


def mc(scope, extra=0, timeout=600, workers=8):
    cfg = ('CONSTANTS Scope = "%s" Extra = %d Sim = FALSE Depth = 0\nINIT Init\nNEXT Next\nVIEW View\n'
           'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (scope, extra, STATE_INVS))
    return check("MCBroker", cfg, timeout=timeout, workers=workers)


def sim(scope, num, depth, seed, extra=0, timeout=300):
    "histories {opt, events} of the specification"
    cfg = ('CONSTANTS Scope = "%s" Extra = %d Sim = TRUE Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS Good NotIdle Written\n'
           'CHECK_DEADLOCK FALSE\n' % (scope, extra, depth))
    rc, text = tlc("MCBroker", cfg, ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)],
                   timeout=timeout, workers=1, heap="3g")
    if "Error:" in text and "Invariant" in text:
        raise TLCError(text[-4000:])
    hs, seen = [], set()
    for m in re.findall(r'<<"HIST", ("(?:[^"\\]|\\.)*")>>', text):
        if m not in seen:
            seen.add(m)
            hs.append(json.loads(json.loads(m)))
    if not hs:
        raise TLCError(text[-4000:])
    return hs


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def _validate(module, traces, cfg, timeout, workers, heap="8g"):
    d = tempfile.mkdtemp(prefix="vptr")
    try:
        path = os.path.join(d, "t.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        rc, text = tlc(module, cfg, env={"TRACES": path}, timeout=timeout, workers=workers, heap=heap)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    accepted = set(re.findall(r'"ACCEPT", "([^"]*)"', text))
    stuck = {}
    for m in re.finditer(r'<<\s*"STUCK",\s*"([^"]*)",\s*(\d+),?(.*?)(?=<<\s*"(?:STUCK|ACCEPT)"|\n\S+ states generated|\nModel checking|\nProgress)', text, re.S):
        if m[1] not in stuck or stuck[m[1]][0] < int(m[2]):
            stuck[m[1]] = (int(m[2]), re.sub(r"\s+", " ", m[3])[:3000])
    gen, dis = counts(text)
    ok = rc is None or "Model checking completed. No error" in text
    if not ok:
        m = re.search(r"Error:.*", text, re.S)
        raise TLCError((m.group(0) if m else text)[:5000])
    return accepted, stuck, gen, dis, rc is not None


def validate(module, traces, hinted=True, timeout=500, workers=8, extra_cfg="", heap="8g"):
    """Which of the traces are behaviours of the specification?  A trace not accepted in the (fast) pass
    with hints is tried again without them.  Returns (rejected names -> (step, expected), transitions, states)."""
    if not traces:
        return {}, 0, 0
    cfg = CFG + extra_cfg
    acc, stuck, gen, dis, done = _validate(module, traces, cfg + ("CONSTANT Orders <- TraceOrders\n" if hinted else ""), timeout, workers, heap)
    if not done:
        raise TLCError("trace validation did not finish")
    bad = [t for t in traces if t["name"] not in acc]
    if bad and hinted:
        for t in bad[:12]:
            a, st, g, di, done = _validate(module, [t], cfg, 40, workers)
            gen, dis = gen + g, dis + di
            acc |= a
            if not stuck.get(t["name"]) and st.get(t["name"]):
                stuck[t["name"]] = st[t["name"]]
    return {t["name"]: stuck.get(t["name"], (0, "")) for t in bad if t["name"] not in acc}, gen, dis
