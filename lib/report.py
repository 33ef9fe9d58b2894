"""Verdicts, known findings and evidence files."""
import json, os, re, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = {}
        self.cov = {}
        self.assume = []
        self.rule = ""
        self.obligations = 0
        self.discharged = 0
        self.samples = []

    def violate(self, key, msg):
        """key: stable identity of the construct (no line numbers); msg: diagnosis with the location."""
        self.viol.setdefault(norm(key), msg)

    def oblige(self, ok, key, msg):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violate(key, msg)
        return ok

    def floor(self, name, n, least):
        """Fail closed: fewer instances than confirmed by hand."""
        self.cov.setdefault("instances", {})[name] = n
        if n < least:
            self.violate("floor:" + name, "only %d instances of '%s' were found, at least %d are expected" % (n, name, least))

    def need(self, cond, key, msg):
        if not cond:
            self.violate("anchor:" + key, msg)
        return cond

    def finish(self):
        known = load_known(self.prop)
        new, seen = [], []
        for k, m in sorted(self.viol.items()):
            (seen if k in known else new).append((k, m))
        cov = dict(self.cov)
        cov["rule"] = self.rule
        cov["obligations"] = self.obligations
        cov["discharged"] = self.discharged
        cov["checker_cmd"] = "python3 check.py " + self.prop
        cov["trusted_base"] = self.assume or ["rustc MIR construction and trait resolution", "the fact extractor in /verif/driver"]
        cov["explanation"] = self.rule
        cov["samples"] = self.samples[:40]
        if self.viol:
            cov["violating_constructs"] = [{"key": k, "detail": m} for k, m in sorted(self.viol.items())]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL.get(self.prop, "other"), "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        tmp = path + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, path)
        for k, m in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        for k, m in new:
            print("  [%s] %s" % (k, m))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s obligations=%d discharged=%d wall=%.1fs" % (self.prop, self.obligations, self.discharged, time.time() - self.t0))
        return 0


LEVEL = {}


def norm(k):
    """Construct names without positions."""
    k = re.sub(r"\{closure@[^}]*\}", "{closure}", k)
    return re.sub(r"\s+", " ", k)


def load_known(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {x["key"]: x["what"] for x in d.get("findings", []) if x["property"] == prop}
