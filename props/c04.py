import absint, engine, facts

LEVEL = "proof"


def check(rep):
    rep.rule = ("Abstract interpretation of the MIR reachable from dumping: every bounds check, arithmetic overflow check, slice, truncation, "
                "unwrap and explicit panic on every path is an obligation which must be discharged for all nodes and anchor tables.")
    rep.assume = engine.ASSUME
    d = facts.extract("all")
    an = absint.Analysis(d)
    roots = []
    k = "dumper::dump <R>"
    if rep.need(k in d["bodies"], k, "entry point %s is missing" % k):
        roots += an.root(k)
    cs = engine.live(an, roots)
    engine.panics(rep, an, cs)
    ks = {c.key for c in cs if engine.local(c)}
    mine = [c for c in ks if d["bodies"][c]["span"].startswith("src/dumper.rs")]
    rep.need(any(k.startswith("dumper::Dumper") and "::dump" in k and "closure" not in k for k in ks), "Dumper::dump", "dump does not reach Dumper::dump: nothing is decided")
    rep.cov["contexts"] = len(cs)
    rep.cov["functions"] = len(ks)
    rep.cov["dumper_functions"] = sorted(mine)
    rep.cov["unmodelled_std_functions"] = dict(an.models.unmodelled)
    rep.floor("dumper functions analysed", len(mine), 3)
    rep.floor("panic obligations", rep.obligations, 10)
