import facts, witness

LEVEL = "proof"
HEAD = """#![allow(dead_code, unused)]
fn threads<T: Send + Sync + 'static>() {}
"""
POS = ["yaml_peg::NodeArc", "yaml_peg::YamlArc", "yaml_peg::Node<yaml_peg::repr::ArcRepr>", "yaml_peg::Yaml<yaml_peg::repr::ArcRepr>",
       "yaml_peg::Seq<yaml_peg::repr::ArcRepr>", "yaml_peg::Map<yaml_peg::repr::ArcRepr>",
       "yaml_peg::parser::Anchors<yaml_peg::repr::ArcRepr>",
       "<yaml_peg::repr::ArcRepr as yaml_peg::repr::Repr>::Rc"]
NEG = ["yaml_peg::NodeRc", "yaml_peg::YamlRc", "yaml_peg::Node<yaml_peg::repr::RcRepr>", "yaml_peg::Seq<yaml_peg::repr::RcRepr>",
       "yaml_peg::Map<yaml_peg::repr::RcRepr>", "<yaml_peg::repr::RcRepr as yaml_peg::repr::Repr>::Rc"]


def check(rep):
    rep.rule = ("Type-level witnesses against the crate as it is now: each multi-threaded type must satisfy Send + Sync, each single-threaded one "
                "must be rejected for either; plus a scan of every impl for hand written (unsafe) or negative Send/Sync impls.")
    rep.assume = ["rustc's auto trait resolution", "std: Rc is not thread safe, Arc is"]
    lines = HEAD.count("\n")
    src = HEAD
    for i, t in enumerate(POS):
        src += "fn p%d() { threads::<%s>() }\n" % (i, t)
    ok, errs, log = witness.check("c15pos", src)
    bad = {l - lines - 1 for _, l, _ in errs}
    if not ok and not any(0 <= b < len(POS) for b in bad):
        rep.violate("witness", "the Send + Sync witness does not type check: " + log[-800:])
    for i, t in enumerate(POS):
        e = [m for _, l, m in errs if l - lines - 1 == i]
        rep.oblige(i not in bad, t, "%s is not Send + Sync: %s" % (t, "; ".join(e[:3])))
        rep.samples.append("%s: Send + Sync" % t)
    for tr in ("Send", "Sync"):
        src = "#![allow(dead_code, unused)]\nfn one<T: %s>() {}\n" % tr
        for i, t in enumerate(NEG):
            src += "fn n%d() { one::<%s>() }\n" % (i, t)
        ok, errs, log = witness.check("c15neg", src)
        got = {l - 3 for c, l, _ in errs if c == "E0277"}
        for i, t in enumerate(NEG):
            rep.oblige(i in got, "%s:%s" % (t, tr), "%s implements %s although it shares non-atomic reference counts" % (t, tr))
            rep.samples.append("%s: not %s (rejected)" % (t, tr))
    d = facts.extract("all")
    n = 0
    for im in d["impls"]:
        n += 1
        if im.get("trait") in ("std::marker::Send", "std::marker::Sync", "core::marker::Send", "core::marker::Sync"):
            rep.violate("impl %s for %s" % (im["trait"], im["self"]), "%s: hand written %s impl for %s overrides the derived thread safety" % (im["span"], im["trait"], im["self"]))
    rep.floor("impls scanned", n, 60)
    rep.floor("types", len(POS) + len(NEG), 10)
