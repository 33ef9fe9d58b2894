import absint, engine, facts

LEVEL = "proof"


def check(rep):
    rep.rule = ("Abstract interpretation of the MIR reachable from the parsing entry points: every bounds check, arithmetic overflow check, "
                "slice, unwrap, map index and explicit panic on every path is an obligation which must be discharged for all documents.")
    rep.assume = engine.ASSUME
    d = facts.extract("all")
    an = absint.Analysis(d)
    roots = []
    for k in ("parser::parse <R>", "parser::parse_cyclic <R>"):
        if rep.need(k in d["bodies"], k, "entry point %s is missing" % k):
            roots += an.root(k)
    cs = engine.live(an, roots)
    engine.panics(rep, an, cs)
    rep.cov["contexts"] = len(cs)
    rep.cov["functions"] = len({c.key for c in cs})
    rep.cov["unmodelled_std_functions"] = dict(an.models.unmodelled) if hasattr(an.models, "unmodelled") else {}
    rep.floor("functions analysed", len({c.key for c in cs if engine.local(c)}), 60)
    rep.floor("panic obligations", rep.obligations, 60)
