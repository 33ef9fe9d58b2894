import absint, engine, facts

LEVEL = "proof"


def check(rep):
    rep.rule = ("For every loop of the MIR reachable from the parsing entry points, in every calling context, a lexicographic measure is found which never goes back, "
                "progresses by at least one on each way around the loop, and is bounded by a value the loop does not change; no repetition runs over an endless iterator.")
    rep.assume = engine.ASSUME + ["the parser's own recursion ends: C03"]
    d = facts.extract("all")
    an = absint.Analysis(d)
    roots = []
    for k in ("parser::parse <R>", "parser::parse_cyclic <R>"):
        if rep.need(k in d["bodies"], k, "entry point %s is missing" % k):
            roots += an.root(k)
    cs = engine.live(an, roots)
    n = engine.loops(rep, an, cs)
    seen = {(engine.name(c.key), h) for c in cs for h in c.loops}
    # a loop which no way around was found for never repeats
    for c in cs:
        for (bb, kind, what), (ok, note) in c.obl.items():
            if kind == "loop":
                rep.obligations += 1
                rep.discharged += bool(ok)
                if not ok:
                    for fn, sp, via in engine.sites(c, bb):
                        rep.violate("%s:loop:%s" % (fn, what), "%s at %s: %s %s%s" % (fn, sp, what, note, via))
    rep.cov["loops_in_contexts"] = n
    rep.cov["loops"] = len(seen)
    rep.cov["functions_with_loops"] = sorted({f for f, _ in seen})
    rep.cov["functions"] = len({c.key for c in cs})
    rep.floor("loops measured", len(seen), 12)
    rep.floor("functions analysed", len({c.key for c in cs if engine.local(c)}), 60)
