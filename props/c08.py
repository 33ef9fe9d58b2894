import facts
from tables import *
import c07

LEVEL = "proof"


def check(rep):
    rep.rule = ("Provenance dataflow of node equality and hashing: the result, every condition on the way and everything fed to the hasher may be made of the "
                "contents of the nodes only, and equality must compare exactly the two contents (so that position and tag cannot matter, also as map keys).")
    rep.assume = ["Rc and Arc compare and hash what they point to", "rustc's MIR"]
    d = facts.extract("all")
    m = Model(rep, d)
    ke, kh = m.key("<node::Node<R> as std::cmp::PartialEq>::eq"), m.key("<node::Node<R> as std::hash::Hash>::hash")
    if not (m.ok and rep.need(ke, "eq", "node equality is missing") and rep.need(kh, "hash", "node hashing is missing")):
        return
    # the comparison of contents is one primitive here (C07 decides it)
    F = Flow(d, opaque=(r"^<yaml::Yaml<R> as ",))
    n = 0
    allowed = {("a", m.yaml), ("b", m.yaml)}
    for cs, x, _, ev in F.run(ke, [IN("a"), IN("b")]):
        n += 1
        for part, what in [(x, "result")] + [(V(c), "condition") for c, _ in cs]:
            bad = {".".join(p) for p in inputs(part) if p[:2] not in allowed}
            rep.oblige(not bad and not unknown(part), "eq:" + what, "%s: the %s %s depends on %s" % (where(d, ke), what, show(part), sorted(bad) or "something unknown"))
        ok = x == F.eqterm(IN("a", m.yaml), IN("b", m.yaml)) and not cs
        if not ok and x in (C(True), C(False)):
            # split on the same comparison
            t = F.eqterm(IN("a", m.yaml), IN("b", m.yaml))
            ok = {(V(c), w) for c, w in cs} == {(t, x == C(True))}
        rep.oblige(ok, "eq:whole", "%s: nodes are equal when %s (under %s), not when their contents are" % (where(d, ke), show(x), conds(cs)))
    for name, impl in (("ne", "<node::Node<R> as std::cmp::PartialEq>::ne"), ("ne", "<yaml::Yaml<R> as std::cmp::PartialEq>::ne")):
        k = m.key(impl)
        if k:
            rep.oblige(False, impl, "%s overrides the negation of equality" % where(d, k))
    fed = 0
    for cs, ev in c07.feeds(F, kh, IN("a"), {}):
        n += 1
        for c, _ in cs:
            bad = {".".join(p) for p in inputs(V(c)) if p[:2] not in allowed}
            rep.oblige(not bad, "hash:condition", "%s: hashing depends on %s" % (where(d, kh), sorted(bad)))
        for e in ev:
            fed += 1
            bad = {".".join(p) for p in inputs(e[2]) if p[:2] not in allowed}
            rep.oblige(not bad and not unknown(e[2]), "hash:feeds", "%s: %s is fed to the hasher" % (where(d, kh), show(e[2])))
        rep.oblige(any(e[2] == IN("a", m.yaml) for e in ev) or not ev, "hash:content", "%s: the content is not hashed as a whole" % where(d, kh))
    rep.floor("cases", n, 2)
    rep.cov["fed"] = fed
    for a in ("yaml::Yaml", "node::Node"):
        for im in d["impls"]:
            if im["self"].startswith(a + "<") and (im.get("trait") or "").endswith(("Borrow", "PartialOrd", "Ord")):
                rep.cov.setdefault("other_order_impls", []).append(im.get("trait_ref"))
