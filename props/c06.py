import absint, engine, facts

LEVEL = "proof"
# one call right after another on the same value, by serde's contract: (trait, first, second, what the first answered)
STEPS = [("serde::ser::SerializeMap", "serialize_key", "serialize_value", lambda v: not failed(v)),
         ("serde::de::MapAccess", "next_key_seed", "next_value_seed", lambda v: not failed(v) and not nothing(v))]


def failed(v):
    """A value which is certainly an Err."""
    return v[0] == "e" and all(i == 1 for i, _ in v[2])


def nothing(v):
    """A value which is certainly Ok(None)."""
    if v[0] != "e":
        return False
    return all(i == 1 or (fs and fs[0][0] == "e" and all(j == 0 for j, _ in fs[0][2])) for i, fs in v[2])


def keyed(c, bb, kind, what):
    """A foreign map serializer gets a value: on every way there the last thing it got is a key."""
    if not what.endswith("SerializeMap::serialize_value") or not engine.local(c):
        return False
    bi, seen, todo = c.body, set(), [bb]
    pred = {}
    for u, vs in enumerate(bi.succ):
        for v in vs:
            pred.setdefault(v, []).append(u)
    while todo:
        x = todo.pop()
        if x == 0 or not pred.get(x):
            return False
        for u in pred[x]:
            t = bi.b["blocks"][u]["t"]
            f = str(t.get("f")) if t["k"] == "call" else ""
            if "serialize_key" in f:
                continue
            if "SerializeMap" in f or "Serializer::" in f:
                return False
            if u not in seen:
                seen.add(u)
                todo.append(u)
    return True


def check(rep):
    rep.rule = ("Abstract interpretation of the MIR reachable from every serde entry point and every method of the crate's serializers, deserializers, accessors and visitors "
                "on unknown arguments and receivers: every possible panic is an obligation. A map value is asked for or given right after its key, as serde's contract says: "
                "these methods are run on every state the key method leaves.")
    rep.assume = engine.ASSUME + ["callers follow serde's contract: a map value is asked for or given only after its key", "code of the caller (Serialize, Deserialize, Visitor) does not panic"]
    d = facts.extract("all")
    an = absint.Analysis(d)
    fs = engine.public(d, r"src/serde/")
    roots, ops, skip = [], 0, {}
    for tr, a, b, more in STEPS:
        for f in fs:
            if f.get("trait", "").split("<")[0] != tr or f["name"] != b:
                continue
            g = [x for x in fs if x.get("trait") == f["trait"] and x["name"] == a and x.get("impl_self") == f.get("impl_self")]
            if rep.need(len(g) == 1, f["key"], "%s comes without %s" % (f["key"], a)):
                n = engine.protocol(an, d, g[0]["key"], f["key"], more)
                rep.need(n, f["key"], "%s never leads to %s in the analysis" % (g[0]["key"], b))
                skip[f["key"]] = n
                roots += [c for c in an.ctxs.values() if c.key in (g[0]["key"], f["key"])]
    for f in fs:
        if f["key"] in skip:
            continue
        if rep.need(f["key"] in d["bodies"] and "blocks" in d["bodies"][f["key"]], f["key"], "%s has no body to analyse" % f["key"]):
            roots += an.root(f["key"])
            ops += 1
    cs = engine.live(an, roots)
    engine.panics(rep, an, cs, keyed)
    rep.cov["operations"] = ops
    rep.cov["after_a_key"] = sorted(skip)
    rep.cov["contexts"] = len(cs)
    rep.cov["functions"] = len({c.key for c in cs})
    rep.cov["unmodelled_std_functions"] = dict(an.models.unmodelled)
    rep.floor("operations analysed", ops, 100)
    rep.floor("map values after their keys", len(skip), 2)
    rep.floor("panic obligations", rep.obligations, 60)
