import json, re
import facts, report

LEVEL = "proof"


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("span", "sp")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def nm(s):
    return re.sub(r"\b(core|alloc)::", "std::", s).replace("std::std::", "std::")


def check(rep):
    rep.rule = ("The MIR of every function (and closure, constant and type layout) which two feature sets have in common is compared after resolution and "
                "constant folding of cfg!: it must be the same program, and the smaller build may have nothing the full build lacks.")
    rep.assume = ["std re-exports of core and alloc items are the same items", "dependencies behave the same with their std features"]
    A = facts.extract("all")
    full = {nm(k): (nm(json.dumps(strip(b), sort_keys=True)), b) for k, b in A["bodies"].items()}
    fa = {nm(k): nm(json.dumps(strip(a), sort_keys=True)) for k, a in A["adts"].items() if a["local"]}
    ca = {nm(c["path"]): json.dumps(strip(c), sort_keys=True) for c in A["consts"] if not c["path"].endswith("::_")}
    names = {nm(f["path"]) for f in A["fns"]}
    for c in ("core", "serde", "default"):
        d = facts.extract(c)
        n = 0
        for k, b in d["bodies"].items():
            if not b["span"].startswith("src/"):
                continue
            n += 1
            o = full.get(nm(k))
            rep.oblige(o is not None and o[0] == nm(json.dumps(strip(b), sort_keys=True)), nm(k).split(" <")[0],
                       "%s at %s %s" % (nm(k), b["span"], "differs between the features %s and all features" % d["features"] if o else
                                        "exists with the features %s only" % d["features"]))
        for k, a in d["adts"].items():
            if a["local"]:
                rep.oblige(fa.get(nm(k)) == nm(json.dumps(strip(a), sort_keys=True)), "type " + nm(k), "type %s differs with the features %s" % (k, d["features"]))
        for x in d["consts"]:
            if not x["path"].endswith("::_"):
                rep.oblige(ca.get(nm(x["path"])) == json.dumps(strip(x), sort_keys=True), "const " + x["path"], "constant %s differs with the features %s" % (x["path"], d["features"]))
        # nothing of the full build's non-optional modules is lost
        mine = {nm(f["path"]) for f in d["fns"]}
        rep.floor(c + " bodies", n, 140)
        rep.cov["only_with_all_features_vs_" + c] = sorted({report.norm(x) for x in names - mine if "serde" not in x})[:20]
