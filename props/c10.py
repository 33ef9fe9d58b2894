import facts
from serdet import *

LEVEL = "proof"


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    rep.rule = ("Provenance dataflow of every method of the node's deserializer, and of the contents of enum variants, per kind of node: whatever error the method makes itself "
                "must carry exactly the position of the node which is read (for enum variants, of their content; without content, of the name).")
    rep.assume = ["rustc's MIR", "errors which visitors and foreign types make have no position of their own"]
    n = made = 0
    methods = sorted({g.group(1) for k in d["bodies"] for g in [re.search(r"serde::Deserializer<'\w+> for node::Node<R>>::(deserialize_\w+)( <|$)", k)] if g})
    rep.floor("methods", len(methods), 31)
    enums = set()
    for w in methods:
        key = m.de_key(w)
        for v in m.variants:
            n += 1
            for cs, o, x in m.rows(w, v):
                at = "%s on a %s node" % (where(d, key), v)
                if o[0] == "err":
                    made += 1
                    p = m.norm(o[1])
                    rep.oblige(p == m.P(), "%s:%s" % (w, v), "%s fails with the position %s instead of the node's own (when %s)" % (at, show(p, 120), conds(cs)))
                elif o[0] == "errx":
                    rep.oblige(False, "%s:%s" % (w, v), "%s fails with %s, whose position is not the node's own (when %s)" % (at, show(o[1], 120), conds(cs)))
                elif o[0] == "call" and o[1] == "visit_enum":
                    enums.add((v, m.norm(o[2][1])))
                elif o[0] == "call" and o[1] in ("visit_seq", "visit_map"):
                    n += access(rep, m, o[2][1], o[1], at)
    rep.floor("errors", made, 150)
    # enum variants
    kinds = 0
    for v, h in sorted(enums, key=repr):
        es = {V(a) for a in atoms(h) if type(a) is tuple and a[0] == "pj" and a[2] == "1" and pj(V(a), "Some", "0", "1")}
        content = es.pop() if len(es) == 1 else None
        bad, g = m.variant(h, None, content)
        if g is None:
            rep.oblige(False, "enum:" + v, "the content of a variant from a %s node cannot be followed" % v)
            continue
        for meth, args in (("unit_variant", []), ("newtype_variant_seed", [IN("seed")]), ("tuple_variant", [IN("len"), IN("visitor")]), ("struct_variant", [IN("fields"), IN("visitor")])):
            a = single(g)
            key = type(a) is tuple and a[0] == "adt" and m.find("serde::de::VariantAccess", a[1], meth)
            if not rep.need(key, meth, "%s of the enum variant is missing" % meth):
                continue
            for kv in m.variants if content is not None else [None]:
                n += 1
                want = m.P("content") if content is not None else m.P()
                for cs, x, _, _ in m.F.run(key, [g] + args, m.assume(kv, "content") if kv else None):
                    o = outcome(m, x)
                    at = "%s with %s" % (where(d, key), "a %s content" % kv if kv else "no content")
                    if o[0] == "err":
                        kinds += 1
                        rep.oblige(m.norm(o[1]) == want, "enum:%s:%s" % (meth, kv), "%s fails with the position %s instead of %s (when %s)" % (at, show(m.norm(o[1]), 120), "the content's" if kv else "the node's", conds(cs)))
                    elif o[0] == "errx":
                        rep.oblige(False, "enum:%s:%s" % (meth, kv), "%s fails with %s" % (at, show(o[1], 120)))
    rep.floor("variant errors", kinds, 17)
    rep.cov.update(combinations=n, errors=made + kinds, functions=len(m.F.visited))
    rep.samples = sorted(m.F.visited)[:6]


def access(rep, m, h, visit, at):
    """Access types must not make errors of their own without a position."""
    n = 0
    trait, meths = ("serde::de::SeqAccess", ["next_element_seed"]) if visit == "visit_seq" else ("serde::de::MapAccess", ["next_key_seed"])
    for meth in meths:
        for cs, x, h2 in m.step(trait, meth, h, [IN("seed")]) or []:
            n += 1
            o = outcome(m, x)
            rep.oblige(o[0] not in ("err", "errx"), "access:" + meth, "%s: an element fails with %s (when %s)" % (at, show(x, 120), conds(cs)))
    return n
