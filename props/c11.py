import facts
from tables import *

LEVEL = "proof"


def check(rep):
    rep.rule = ("Provenance dataflow of each accessor for each variant of the content, through every helper it calls: the successful value must be made of the "
                "variant's own payload (and nothing else), every other variant must give an error made of exactly the node's own position.")
    rep.assume = ["rustc's MIR", "std combinators analysed from their MIR", "str::parse and from_str_radix convert digits", "shared pointers are transparent"]
    d = facts.extract("all")
    m = Model(rep, d)
    if not m.ok:
        return
    F = Flow(d)
    pos = m.P()

    def whole(v):
        return lambda x, cs: x == m.payload(v)

    def made(v, casts=(), kinds=()):
        def f(x, cs):
            ok = inputs(x) == {("self", m.yaml, v, "0")} and not unknown(x)
            ok = ok and all(not o.startswith("cast:") or o in casts for o in opsof(x))
            return ok and pj(x, "Ok", "0") is not None or ok and any(pj(V(a), "Ok", "0") is not None or pj(V(a), "Some", "0") is not None for a in atoms(x))
        return f

    def const(c):
        return lambda x, cs: x == C(c)

    def boolword(x, cs):
        b = [w for c, w in cs if V(c) == m.payload("Bool")]
        return b in ([True], [False]) and x == C("true" if b[0] else "false")
    spec = {
        "as_bool": {"Bool": whole("Bool")},
        "as_int": {"Int": made("Int")},
        "as_float": {"Float": made("Float")},
        "as_number": {"Int": made("Int", ("cast:i64->f64",)), "Float": made("Float")},
        "as_str": {"Str": whole("Str"), "Null": const("")},
        "as_value": {"Str": whole("Str"), "Int": whole("Int"), "Float": whole("Float"), "Null": const(""), "Bool": boolword},
        "as_seq": {"Seq": whole("Seq")},
        "as_map": {"Map": whole("Map")},
    }
    failing = {("as_int", "Int"), ("as_float", "Float"), ("as_number", "Int"), ("as_number", "Float")}
    n = 0
    for name, tab in spec.items():
        key = m.key("node::Node::<R>::" + name)
        if not rep.need(key, name, "accessor %s is missing" % name):
            continue
        for v in m.variants:
            res = F.run(key, [m.node()], m.assume(v))
            n += 1
            good = v in tab
            oks = 0
            for cs, x, _, _ in res:
                e, o = Err(x), Ok(x)
                if e is not None:
                    rep.oblige(e == pos, "%s:%s:position" % (name, v), "%s on a %s node fails with %s instead of the node's own position (when %s)" % (where(d, key), v, show(e), conds(cs)))
                    rep.oblige(not good or (name, v) in failing, "%s:%s:fails" % (name, v), "%s fails on a %s node (when %s)" % (where(d, key), v, conds(cs)))
                elif o is not None and good:
                    oks += 1
                    rep.oblige(tab[v](o, cs), "%s:%s:value" % (name, v), "%s on a %s node gives %s, which is not its content (when %s)" % (where(d, key), v, show(o), conds(cs)))
                else:
                    rep.oblige(False, "%s:%s:result" % (name, v), "%s on a %s node gives %s, an error with the node's position was expected (when %s)" % (where(d, key), v, show(x), conds(cs)))
            rep.oblige(oks > 0 if good else True, "%s:%s:never" % (name, v), "%s never succeeds on a %s node" % (where(d, key), v))
            if len(rep.samples) < 40:
                rep.samples.append("%s on %s: %s" % (name, v, " | ".join(show(x, 90) for _, x, _, _ in res[:3])))
    def absent(cs, container):
        """The entry is known not to be there."""
        for c, w in cs:
            if type(c) is not tuple or c[0] != "op":
                continue
            if c[1] == "discr" and w == "None":
                x = isop(c[2][0], "get")
                if x and (x[0] == container or x[0] == IN("anchors")):
                    return True
            if c[1] in ("Lt", "Le", "Gt", "Ge") and type(w) is bool:
                a, b = c[2]
                n, i = (isop(a, "len"), b) if isop(a, "len") else (isop(b, "len"), a)
                less = {"Lt": "Lt", "Ge": "Ge", "Gt": "Gt", "Le": "Le"}[c[1]] if n == isop(b, "len") else {"Gt": "Lt", "Le": "Ge", "Lt": "Gt", "Ge": "Le"}[c[1]]
                if n and n[0] == container and i == IN("key", "0") and (less, w) in (("Lt", False), ("Ge", True)):
                    return True
        return False

    # lookups
    def lookup(name, args, variant, arg, how, other=None):
        nonlocal n
        key = m.key("node::Node::<R>::" + name)
        if not rep.need(key, name, "accessor %s is missing" % name):
            return
        for v in m.variants:
            n += 1
            hits = 0
            for cs, x, _, _ in F.run(key, [m.node()] + args, m.assume(v)):
                e, o = Err(x), Ok(x)
                found = [a for c, w in cs for a in [c] if w == "Some" for a in [c[2][0]]]
                if e is not None:
                    rep.oblige(e == pos and (v != variant or not found) and (v == variant or other is None), "%s:%s:position" % (name, v),
                               "%s on a %s node fails with %s (when %s)" % (where(d, key), v, show(e), conds(cs)))
                    rep.oblige(v != variant or absent(cs, m.payload(v)), "%s:%s:refused" % (name, v), "%s on a %s node fails though the entry may be there (when %s)" % (where(d, key), v, conds(cs)))
                elif v == variant:
                    ok, h = how(x, o, cs)
                    hits += h
                    rep.oblige(ok, "%s:%s:value" % (name, v), "%s on a %s node gives %s, which is not the entry asked for (when %s)" % (where(d, key), v, show(x), conds(cs)))
                else:
                    rep.oblige(other is not None and o == other, "%s:%s:result" % (name, v), "%s on a %s node gives %s (when %s)" % (where(d, key), v, show(x), conds(cs)))
            if v == variant:
                rep.oblige(hits > 0, "%s:%s:never" % (name, v), "%s never gives the entry asked for" % where(d, key))

    def entry(container, key):
        def f(x, o, cs):
            if o is None:
                return False, 0
            g = pj(o, "Some", "0")
            g = isop(g, "get") if g else isop(o, "index")
            ok = bool(g) and g[0] == container and (g[1] == key or isop(g[1], "into") == (key,))
            return ok, 1 if ok else 0
        return f
    lookup("get", [IN("key")], "Map", None, entry(m.payload("Map"), IN("key")))
    lookup("get_ind", [IN("key")], "Seq", None, entry(m.payload("Seq"), IN("key", "0")))

    def anchor(x, o, cs):
        g = o and pj(o, "Some", "0")
        g = g and isop(g, "get")
        ok = g is not None and g[0] == IN("anchors") and g[1] == m.payload("Alias")
        return ok, 1 if ok else 0
    lookup("as_anchor", [IN("anchors")], "Alias", None, anchor, other=m.node())

    def default(x, o, cs):
        if o is not None:
            none = any(w == "None" for c, w in cs)
            return o == IN("default") and none, 0
        c = isop(x, "callv") or (next(iter(x))[2] if len(x) == 1 and next(iter(x)) != "?" and next(iter(x))[0] == "op" and next(iter(x))[1] == "callv" else None)
        g = c and c[0] == IN("factory") and pj(c[1], "Some", "0")
        g = g and isop(g, "get")
        ok = bool(g) and g[0] == m.payload("Map")
        return ok, 1 if ok else 0
    lookup("get_default", [IN("key"), IN("default"), IN("factory")], "Map", None, default)
    # is_null
    key = m.key("node::Node::<R>::is_null")
    if rep.need(key, "is_null", "is_null is missing"):
        for v in m.variants:
            n += 1
            got = {x for _, x, _, _ in F.run(key, [m.node()], m.assume(v))}
            rep.oblige(got == {C(v == "Null")}, "is_null:" + v, "%s on a %s node gives %s" % (where(d, key), v, " | ".join(map(show, got))))
    rep.floor("accessor and variant pairs", n, 13 * 8 - 8)
    rep.cov["functions"] = len(F.visited)
