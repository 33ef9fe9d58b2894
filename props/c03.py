import absint, engine, facts

LEVEL = "proof"


def check(rep):
    rep.rule = ("Every cycle of the final call graph of parsing has a counter, a field of the parser's own state, which never goes back from a "
                "caller to its callee, and changes, within fixed bounds, somewhere on every cycle; every function which gets the counter returns "
                "it as it was, whether it fails or not.")
    rep.assume = engine.ASSUME
    d = facts.extract("all")
    an = absint.Analysis(d)
    roots = []
    for k in ("parser::parse <R>", "parser::parse_cyclic <R>"):
        if rep.need(k in d["bodies"], k, "entry point %s is missing" % k):
            roots += an.root(k)
    cs = engine.live(an, roots)
    g = engine.calls(cs)
    used, bad = engine.descent(g)
    calls = sum(len(es) for _, es in engine.cycles(g))
    rep.obligations += calls
    rep.discharged += calls - sum(len(es) for _, es in bad)
    for comp, es in bad:
        names = sorted({engine.name(c.key) for c in comp if engine.local(c)})
        a, b, _ = min(es, key=lambda e: (engine.name(e[0].key), engine.name(e[1].key)))
        rep.violate("%s:nesting" % names[0], "the recursion through %s is not bounded: no counter is both kept from going back and changed within bounds on every "
                    "round; one of its calls is from %s to %s" % (", ".join(names[:6]), engine.name(a.key), engine.name(b.key)))
    for k in sorted({k for k, _ in used}, key=repr):
        rep.samples.append("counter: field %d of %s" % (k[1], k[0]))
        for c in sorted(cs, key=lambda c: (engine.name(c.key), c.id)):
            e = absint.counters(c.regs).get(k)
            if e is None:
                continue
            for x in c.exits.values():
                o = absint.counters([v for _, v in x["regs"]]).get(k)
                i = absint.lsubst(e, {j + 1: y for j, y in enumerate(x["ins"])})
                ds = [x["st"].zone.sup(absint.ladd(p, q, -1)) for p, q in ((o, i), (i, o))] if o is not None else [None]
                ok = all(y is not None and y <= 0 for y in ds)
                rep.oblige(ok, "%s:kept" % engine.name(c.key), "%s at %s: a path on which it returns is not shown to give back the nesting depth (field %d of %s) as it was"
                           % (engine.name(c.key), c.body.b["span"], k[1], k[0]))
    fs = {c.key for c in cs if engine.local(c)}
    rep.cov["contexts"] = len(cs)
    rep.cov["functions"] = len(fs)
    rep.cov["recursive calls"] = calls
    rep.floor("functions analysed", len(fs), 60)
    rep.floor("recursive calls", calls, 10)
