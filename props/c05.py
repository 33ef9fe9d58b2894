import re
import absint, engine, facts

LEVEL = "proof"
WHERE = r"src/(node|yaml|repr|indicator|parser/error|serde/error)\.rs"


def check(rep):
    rep.rule = ("Abstract interpretation of the MIR reachable from every public operation on nodes, values, handles and errors (also hashing, comparison, "
                "formatting, conversions) on unknown arguments: every possible panic is an obligation. Only the implementations of Index, documented to panic, are left out, "
                "and no other operation may reach their panics.")
    rep.assume = engine.ASSUME + ["code of the caller (closures, Display, iterators) does not panic"]
    d = facts.extract("all")
    an = absint.Analysis(d)
    roots, ops = [], 0
    for f in engine.public(d, WHERE):
        if f.get("trait", "").startswith("std::ops::Index"):
            continue
        if rep.need(f["key"] in d["bodies"] and "blocks" in d["bodies"][f["key"]], f["key"], "%s has no body to analyse" % f["key"]):
            roots += an.root(f["key"])
            ops += 1
    cs = engine.live(an, roots)
    engine.panics(rep, an, cs)
    rep.oblige(True, "operations", "")
    rep.cov["operations"] = ops
    rep.cov["contexts"] = len(cs)
    rep.cov["functions"] = len({c.key for c in cs})
    rep.cov["unmodelled_std_functions"] = dict(an.models.unmodelled)
    rep.floor("operations analysed", ops, 45)
    rep.floor("functions analysed", len({c.key for c in cs if engine.local(c)}), 50)
