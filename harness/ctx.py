"""What every check has in common: seeds, counts, violations, evidence."""
import hashlib, json, os, sys, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.parts = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.exhaustive = []
        self.cases = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def base(self, label):
        "a starting seed for the random part `label`"
        return zlib.crc32(("%d/%s/%s" % (self.seed, self.prop, label)).encode()) % 1000000000

    def log(self, *a):
        print("[%6.1f]" % self.elapsed(), *a, flush=True)

    def part(self, name, **kw):
        d = self.parts.setdefault(name, {})
        for k, v in kw.items():
            d[k] = d[k] + v if k in d and isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, what, replay, key=None):
        "something the code does that the specification does not allow"
        if key is not None and key in findings(self.prop):
            self.known.append(findings(self.prop)[key])
            return
        self.violations.append((what, replay))

    def finish(self):
        d = os.path.join(VERIF, "replays")
        paths = []
        if self.violations:
            os.makedirs(d, exist_ok=True)
            for n, (what, replay) in enumerate(self.violations[:10]):
                path = os.path.join(d, "%s-%d-%s-%d.json" % (self.prop, self.seed, self.tier, n))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, what=what, **replay), f, indent=1, default=str)
                paths.append(path)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "steps_of_the_implementation_judged": self.steps, "samples": self.samples or ["none"], "parts": self.parts}
        if self.cases:
            cov["evaluations"] = self.cases
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in dict.fromkeys(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for (what, _), path in zip(self.violations, paths):
            print(what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("OK property=%s: %d states, %d transitions, %d runs of the implementation judged (%d steps), %.0f s"
                  % (self.prop, self.states, self.transitions, self.traces, self.steps, self.elapsed()))
        sys.stdout.flush()
        return 1 if self.violations else 0


_findings = None


def findings(prop):
    "known findings of the property: key -> text"
    global _findings
    if _findings is None:
        _findings = {}
        try:
            for line in open(os.path.join(VERIF, "known_findings.txt")):
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1].startswith("property=") and w[2].startswith("key="):
                    _findings.setdefault(w[1][9:], {})[w[2][4:]] = w[3]
        except FileNotFoundError:
            pass
    return _findings.get(prop, {})
