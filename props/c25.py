import facts
from floats import *
from serdet import *

LEVEL = "proof"
INT = ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128")


def de(rep, m):
    d, F = m.d, m.F
    P = m.payload

    def visit(*names, **kw):
        """visit_<name>(arg) where arg satisfies the test."""
        def f(v, name, args, cs):
            if name not in names:
                return "calls %s" % name
            if args[0] != IN("visitor"):
                return "calls %s of %s" % (name, show(args[0], 60))
            t = kw.get("arg")
            if t is None:
                return None if len(args) == 1 else "hands over %s" % show(args[1], 120)
            r = t(v, args[1], cs)
            return r if type(r) is str or r is None else None if r else "hands over %s" % show(args[1], 200)
        return f

    def whole(v, x, cs):
        return x == P(v)

    def const(c):
        return lambda v, x, cs: x == C(c)

    def bool_(v, x, cs):
        """The payload, or the constant it is known to be."""
        b = {w for c, w in cs if V(c) == P("Bool")}
        return x == P(v) or len(b) == 1 and b <= {True, False} and x == C(b.pop())

    def boolword(v, x, cs):
        b = {w for c, w in cs if V(c) == P("Bool")}
        return len(b) == 1 and x == C("true" if b == {True} else "false")

    def selfnode(v, x, cs):
        return m.norm(x) == m.node()

    def integer(v, x, cs):
        # which conversions are sound is decided elsewhere: here it must be made of the text
        return inputs(x) == {next(iter(P(v)))[1]} and not unknown(x)

    def char(v, x, cs):
        return onechar(x, P(v), cs)

    def seq(v, x, cs):
        return m.seqholder(x, P(v))

    def map_(v, x, cs):
        return m.mapholder(x, P(v))

    enums = []

    def enum(v, x, cs):
        x = m.norm(x)
        if v == "Str":
            bad, g = m.variant(x, m.node(), None)
            enums.append((v, None, g))
            return "; ".join(bad) or None
        ns = {pj(V(a), "Some", "0") and a for a in atoms(x) if type(a) is tuple and a[0] == "pj" and a[2] == "0" and m.item(V(a), P("Map"), 0)} - {None}
        if len(ns) != 1:
            return "the variant is not the entry of the map: %s" % show(x, 120)
        e = ns.pop()
        k, c = V(("pj", e, "0")), V(("pj", e, "1"))
        one = any(w is True and type(z) is tuple and z[0] == "op" and z[1] in ("eq",) and C(1) in z[2] and any(isop(y, "len") == (P("Map"),) for y in z[2]) for z, w in cs)
        nx = next(iter(pj(V(e), "Some", "0")))
        one = one or any(w == "None" and any(n[1] == nx[1] and single(n[2][0]) == ("op", nx[1] + "!0", nx[2]) for n in m.nexts(V(z))) for z, w in cs)
        if not one:
            return "the map may have other than one entry (when %s)" % conds(cs)
        bad, g = m.variant(x, k, c)
        enums.append((v, c, g))
        return "; ".join(bad) or None
    spec = {
        "bool": {"Bool": visit("visit_bool", arg=bool_)},
        "char": {v: visit("visit_char", arg=char) for v in ("Str", "Int")},
        "identifier": {"Str": visit("visit_str", "visit_string", "visit_borrowed_str", arg=whole)},
        "option": {v: visit("visit_none") if v == "Null" else visit("visit_some", arg=selfnode) for v in m.variants},
        "unit": {"Null": visit("visit_unit")},
        "unit_struct": {"Null": visit("visit_unit")},
        "newtype_struct": {v: visit("visit_newtype_struct", arg=selfnode) for v in m.variants},
        "seq": {"Seq": visit("visit_seq", arg=seq)},
        "tuple": {"Seq": visit("visit_seq", arg=seq)},
        "tuple_struct": {"Seq": visit("visit_seq", arg=seq)},
        "map": {"Map": visit("visit_map", arg=map_)},
        "struct": {"Seq": visit("visit_seq", arg=seq), "Map": visit("visit_map", arg=map_)},
        "enum": {"Str": visit("visit_enum", arg=enum), "Map": visit("visit_enum", arg=enum)},
        "ignored_any": {v: visit("visit_unit") for v in m.variants},
        "any": {"Null": visit("visit_unit"), "Bool": visit("visit_bool", arg=bool_), "Int": visit(*["visit_" + w for w in INT], arg=integer),
                "Float": visit("visit_f64", "visit_f32", arg=integer), "Str": visit("visit_str", "visit_string", arg=whole),
                "Seq": visit("visit_seq", arg=seq), "Map": visit("visit_map", arg=map_)},
    }
    for w in INT:
        spec[w] = {"Int": visit("visit_" + w, arg=integer)}
    for w in ("f32", "f64"):
        spec[w] = {"Float": visit("visit_" + w, arg=integer), "Int": visit("visit_" + w, arg=integer)}
    text = ("visit_str", "visit_string")
    for w in ("str", "string"):
        spec[w] = {"Str": visit(*text, arg=whole), "Int": visit(*text, arg=whole), "Float": visit(*text, arg=whole), "Bool": visit(*text, arg=boolword), "Null": visit(*text, arg=const("null"))}
    for w in ("bytes", "byte_buf"):
        spec[w] = {"Str": visit(*text, arg=whole), "Seq": visit("visit_seq", arg=seq)}
    # what fails for a value of the right kind needs a reason in the value
    failing = {(w, "Int") for w in INT + ("f32", "f64", "any", "char")} | {(w, "Float") for w in ("f32", "f64", "any")} | {("char", "Str"), ("enum", "Map")}
    n = 0
    for w, tab in spec.items():
        key = m.de_key("deserialize_" + w)
        if not rep.need(key, "deserialize_" + w, "deserialize_%s of the node is missing" % w):
            continue
        for v in m.variants:
            good = 0
            rows = m.rows("deserialize_" + w, v)
            n += 1
            for cs, o, x in rows:
                at = "%s on a %s node" % (where(d, key), v)
                if o[0] == "call":
                    if v not in tab:
                        rep.oblige(False, "%s:%s:rejects" % (w, v), "%s does not fail but calls %s(%s) (when %s)" % (at, o[1], ", ".join(show(a, 80) for a in o[2][1:]), conds(cs)))
                        continue
                    bad = tab[v](v, o[1], o[2], cs)
                    rep.oblige(bad is None, "%s:%s:value" % (w, v), "%s: %s (when %s)" % (at, bad, conds(cs)))
                    good += bad is None
                elif o[0] in ("err", "errx"):
                    rep.oblige(v not in tab or (w, v) in failing and bool(cs), "%s:%s:fails" % (w, v), "%s fails (when %s)" % (at, conds(cs)))
                else:
                    rep.oblige(False, "%s:%s" % (w, v), "%s gives %s" % (at, show(x, 150)))
            rep.oblige(not (v in tab) or good > 0, "%s:%s:some" % (w, v), "%s never gives the value on a %s node" % (where(d, key), v))
            rep.oblige(bool(rows), "%s:%s:any" % (w, v), "%s never returns on a %s node" % (where(d, key), v))
    # the content of enum variants
    for src, c, g in enums:
        if g is None:
            continue
        for meth, args, kinds in (("unit_variant", [], None), ("newtype_variant_seed", [IN("seed")], None), ("tuple_variant", [IN("len"), IN("visitor")], ("Seq", "visit_seq", m.seqholder)),
                                  ("struct_variant", [IN("fields"), IN("visitor")], ("Map", "visit_map", m.mapholder))):
            for v in (m.variants if c is not None else [None]):
                if v is not None and not kinds and v != m.variants[0]:
                    continue
                fs = m.F.assume if False else None
                a = single(g)
                key = type(a) is tuple and a[0] == "adt" and m.find("serde::de::VariantAccess", a[1], meth)
                if not rep.need(key, meth, "%s of the enum variant is missing" % meth):
                    continue
                rows = m.F.run(key, [g] + args, m.assume(v, "content") if v and kinds else None)
                n += 1
                good = 0
                for cs, x, _, _ in rows:
                    o = outcome(m, x)
                    at = "%s with %s" % (where(d, key), "no content" if c is None else "a %s content" % v if kinds else "a content")
                    if c is None:
                        ok = Ok(x) == UNIT if meth == "unit_variant" else o[0] in ("err", "errx")
                        rep.oblige(ok, "enum:%s:none" % meth, "%s gives %s" % (at, show(x, 150)))
                        good += 1
                    elif not kinds:
                        want = [m.node("content")] if meth == "unit_variant" else [IN("seed"), m.node("content")]
                        ok = o[0] == "call" and o[1] == "deserialize" and [m.norm(z) for z in o[2]] == want
                        rep.oblige(ok, "enum:%s:content" % meth, "%s gives %s" % (at, show(x, 150)))
                        good += ok
                    elif v == kinds[0]:
                        ok = o[0] == "call" and o[1] == kinds[1] and o[2][0] == IN("visitor")
                        bad = kinds[2](o[2][1], m.payload(v, "content")) if ok else "it gives %s" % show(x, 150)
                        rep.oblige(bad is None, "enum:%s:%s" % (meth, v), "%s: %s" % (at, bad))
                        good += bad is None
                    else:
                        rep.oblige(o[0] in ("err", "errx") or Err(x) is not None, "enum:%s:%s" % (meth, v), "%s gives %s" % (at, show(x, 150)))
                        good += 1
                rep.oblige(good > 0, "enum:%s:%s:some" % (meth, v), "%s never returns a value" % where(d, key))
    return n


SER = "serde::Serializer"


def scalar(v, kind, test):
    """The value is a node of the kind holding what the test accepts."""
    n = nodeof(v)
    return n is not None and n[0] == kind and (not n[1] if test is None else len(n[1]) == 1 and test(n[1][0]))


def floaty(t, cs):
    """The number's text, or the spelling of what it is known to be."""
    return inputs(t) == {("v",)} and not unknown(t) or ctext(t) is not None and known(cs) == ctext(t)


def whole(x):
    return lambda v: v == x


def text(x):
    return lambda v: textof(v) == x


def ser(rep, m):
    d, F = m.d, m.F
    holder = next((k for k in d["bodies"] if re.search(r"^<serde::ser::\w+<R> as serde::Serializer>::serialize_bool", k)), None)
    if not rep.need(holder, "serializer", "the serializer of nodes is missing"):
        return 0
    ty = re.match(r"^<([\w:]+)<R>", holder).group(1)
    n = 0

    def key(meth):
        k = m.find(SER, ty + "<R>", meth)
        rep.need(k, meth, "%s of the serializer is missing" % meth)
        return k

    def served(v, x):
        """v is what serializing x into a node gives, when that succeeds."""
        y = pj(v, "Ok", "0")
        z = y and single(y)
        if not z:
            return False
        return type(z) is tuple and z[0] == "op" and oname(z) == "serialize" and len(z[2]) == 2 and z[2][0] == x and isser(z[2][1])

    def isser(v):
        return v == IN("self") or adt(v, ty) is not None

    def name(v, x):
        """A text in key position: made directly, or serialized."""
        return scalar(v, "Str", whole(x)) or served(v, x)

    def failed(x):
        """An error of a serialize call handed on."""
        e = external(x)
        return Err(x) is not None and e is not None and oname(e) == "serialize"

    def rows(k, args, mem=None):
        nonlocal n
        n += 1
        return [(cs, x, mm) for cs, x, mm, _ in F.run(k, args, mem=mem)]

    def one(meth, extra, test, what):
        k = key(meth)
        if not k:
            return
        good = 0
        for cs, x, _ in rows(k, [IN("self")] + extra):
            if failed(x) and meth.endswith("variant"):
                continue
            o = Ok(x)
            ok = o is not None and test(o, cs)
            rep.oblige(ok, meth, "%s gives %s instead of %s (when %s)" % (where(d, k), show(x, 200), what, conds(cs)))
            good += ok
        rep.oblige(good > 0, meth + ":some", "%s never succeeds" % where(d, k))
    v = IN("v")
    one("serialize_bool", [v], lambda o, cs: scalar(o, "Bool", whole(v)), "the boolean")
    for w in INT:
        one("serialize_" + w, [v], lambda o, cs: scalar(o, "Int", text(v)), "the integer in decimal")
    for w in ("f32", "f64"):
        one("serialize_" + w, [v], lambda o, cs: scalar(o, "Float", lambda t: floaty(t, cs)), "the float")
    one("serialize_char", [v], lambda o, cs: scalar(o, "Str", text(v)), "a string of the character")
    one("serialize_str", [v], lambda o, cs: scalar(o, "Str", whole(v)), "the string")
    one("serialize_none", [], lambda o, cs: scalar(o, "Null", None), "null")
    one("serialize_unit", [], lambda o, cs: scalar(o, "Null", None), "null")
    one("serialize_unit_struct", [IN("name")], lambda o, cs: scalar(o, "Null", None), "null")
    one("serialize_unit_variant", [IN("name"), IN("index"), IN("variant")], lambda o, cs: scalar(o, "Str", whole(IN("variant"))), "the name of the variant")

    def bytes_(o, cs):
        y = nodeof(o)
        if not y or y[0] != "Seq":
            return False
        r = each(F, y[1][0], cs)
        return r is not None and r[0] == v and len(r[1]) == 1 and scalar(r[1][0], "Int", text(IN("*")))
    one("serialize_bytes", [v], bytes_, "a sequence of every byte in order")

    def newtype(o, cs):
        y = nodeof(o)
        if not y or y[0] != "Map":
            return False
        es = entries(y[1][0])
        return es is not None and len(es) == 1 and name(es[0][0], IN("variant")) and served(es[0][1], v)
    one("serialize_newtype_variant", [IN("name"), IN("index"), IN("variant"), v], newtype, "a map of the variant's name to the content")
    for meth, extra in (("serialize_some", []), ("serialize_newtype_struct", [IN("name")])):
        k = key(meth)
        for cs, x, _ in rows(k, [IN("self")] + extra + [v]) if k else []:
            e = external(x)
            rep.oblige(e is not None and oname(e) == "serialize" and e[2][0] == v and isser(e[2][1]), meth, "%s gives %s instead of the content's own form" % (where(d, k), show(x, 200)))

    # compound types: begin, some elements, end
    def compound(meth, extra, trait, steps, result, what):
        """steps: alternative [(method, args per element)] to add an element."""
        nonlocal n
        k = key(meth)
        if not k:
            return
        for count in (0, 1, 2):
            for alt in steps:
                hs = set()
                for cs, x, _ in rows(k, [IN("self")] + extra):
                    h = Ok(x)
                    if rep.oblige(h is not None and adt(h, getattr(next(iter(h)), "x", single(h)[1] if type(single(h)) is tuple else None)) is not None, meth, "%s gives %s" % (where(d, k), show(x, 120))):
                        hs.add(h)
                for i in range(count):
                    for sm, args in alt:
                        nx = set()
                        for h in hs:
                            r = m.step(trait, sm, h, [IN("%s%d" % (a, i)) for a in args])
                            if r is None:
                                # the default method of the trait: it calls the others
                                nx = None
                                break
                            n += 1
                            for cs, x, h2 in r:
                                if failed(x):
                                    continue
                                if Ok(x) == UNIT:
                                    nx.add(h2)
                                    continue
                                rep.oblige(False, "%s:%s" % (meth, sm), "%s of %s gives %s (when %s)" % (sm, what, show(x, 120), conds(cs)))
                        if nx is None:
                            break
                        hs = nx
                    if nx is None:
                        break
                else:
                    ends = 0
                    for h in hs:
                        for cs, x in m.consume(trait, "end", h, []) or []:
                            o = Ok(x)
                            bad = result(o, count) if o is not None else "it fails"
                            rep.oblige(bad is None, "%s:end" % meth, "%s with %d elements ends as %s: %s" % (what, count, show(x, 200), bad))
                            ends += 1
                    rep.oblige(ends > 0, "%s:ends" % meth, "%s never ends" % what)

    def seqn(o, count):
        y = nodeof(o)
        its = y and y[0] == "Seq" and pushes(y[1][0])
        if its is None or its is False:
            return "it is no sequence of what was added"
        ok = len(its) == count and all(served(x, IN("e%d" % i)) for i, x in enumerate(its))
        return None if ok else "its elements are not what was added, in order"

    def mapn(o, count):
        y = nodeof(o)
        es = y and y[0] == "Map" and entries(y[1][0])
        if es is None or es is False:
            return "it is no map of what was added"
        ok = len(es) == count and all(name(x, IN("k%d" % i)) and served(z, IN("v%d" % i)) for i, (x, z) in enumerate(es))
        return None if ok else "its entries are not what was added, in order"

    def under(f):
        def g(o, count):
            y = nodeof(o)
            es = y and y[0] == "Map" and entries(y[1][0])
            if not es or len(es) != 1 or not name(es[0][0], IN("variant")):
                return "it is no map of the variant's name to the content"
            return f(es[0][1], count)
        return g
    el = lambda meth: [[(meth, ["e"])]]
    fl = [[("serialize_field", ["k", "v"])]]
    var = [IN("name"), IN("index"), IN("variant"), IN("len")]
    S = "serde::ser::"
    compound("serialize_seq", [IN("len")], S + "SerializeSeq", el("serialize_element"), seqn, "a sequence")
    compound("serialize_tuple", [IN("len")], S + "SerializeTuple", el("serialize_element"), seqn, "a tuple")
    compound("serialize_tuple_struct", [IN("name"), IN("len")], S + "SerializeTupleStruct", el("serialize_field"), seqn, "a tuple struct")
    compound("serialize_tuple_variant", var, S + "SerializeTupleVariant", el("serialize_field"), under(seqn), "a tuple variant")
    compound("serialize_map", [IN("len")], S + "SerializeMap", [[("serialize_key", ["k"]), ("serialize_value", ["v"])], [("serialize_entry", ["k", "v"])]], mapn, "a map")
    compound("serialize_struct", [IN("name"), IN("len")], S + "SerializeStruct", fl, mapn, "a struct")
    compound("serialize_struct_variant", var, S + "SerializeStructVariant", fl, under(mapn), "a struct variant")
    return n


def fromnode(rep, m):
    """How a node is serialized into another format."""
    d, F = m.d, m.F
    ks = [k for k in d["bodies"] if re.search(r"serde::Serialize for node::Node<R>>::serialize( <|$)", k)]
    if not rep.need(ks, "Node::serialize", "the node's Serialize is missing"):
        return 0
    k, S = ks[0], IN("ser")
    plain = {"Null": "serialize_unit", "Bool": "serialize_bool", "Str": "serialize_str"}
    n = 0
    for v in m.variants:
        good = 0
        for cs, x, _, _ in F.run(k, [m.node(), S], m.assume(v)):
            n += 1
            at = "%s of a %s node" % (where(d, k), v)
            e = external(x)
            if e is None and Err(x) is not None:
                rep.oblige(v == "Alias" or v in ("Int", "Float") and bool(cs), "out:%s:fails" % v, "%s fails (when %s)" % (at, conds(cs)))
                good += v == "Alias"
                continue
            ok, w = False, e and oname(e)
            if e is None:
                pass
            elif v in plain:
                ok = w == plain[v] and e[2] == ((S,) if v == "Null" else (S, m.payload(v)))
            elif v == "Int":
                ok = w in ["serialize_" + i for i in INT] and e[2][0] == S and inputs(e[2][1]) == {single(m.payload(v))[1]} and not unknown(e[2][1])
            elif v == "Float":
                ok = w in ("serialize_f64",) and e[2][0] == S and inputs(e[2][1]) == {single(m.payload(v))[1]} and not unknown(e[2][1])
            elif v in ("Seq", "Map"):
                if w == "serialize":
                    ok = v == "Seq" and e[2] == (m.payload(v), S)
                elif w == "collect_" + v.lower():
                    ok = e[2][0] == S and m.onward(e[2][1], m.payload(v))
                elif w == "end":
                    st = "serialize_" + v.lower()

                    def begun(i):
                        y = pj(i, "Ok", "0")
                        z = y and external(y)
                        return z is not None and oname(z) == st and z[2][0] == S
                    r = each(F, e[2][0], cs, begun)
                    item = IN("*") if v == "Seq" else V(("adt", "tuple", None, (IN("*", "0"), IN("*", "1"))))
                    ok = r is not None and m.onward(r[0], m.payload(v)) and r[1] == [item]
                else:
                    # an error of a part
                    ok = Err(x) is not None and w in ("serialize_seq", "serialize_map", "serialize_entry", "serialize_element", "serialize_key", "serialize_value")
                    if ok:
                        continue
            rep.oblige(ok, "out:%s" % v, "%s gives %s (when %s)" % (at, show(x, 200), conds(cs)))
            good += ok
        rep.oblige(good > 0, "out:%s:some" % v, "%s never gives the value of a %s node" % (where(d, k), v))
    return n


def tonode(rep, m):
    """How a node is made from another format."""
    d, F = m.d, m.F
    vis = {}
    for k in d["bodies"]:
        g = re.match(r"^<([\w:]+)<R> as serde::de::Visitor<'\w+>>::(visit_\w+)( <|$)", k)
        if g and "node::Node<R>" in d["bodies"][k]["locals"][0]["ty"]:
            vis[g.group(2)] = k
    V1 = IN("v")
    spec = {"visit_bool": ("Bool", whole(V1)), "visit_f64": ("Float", None), "visit_str": ("Str", whole(V1)), "visit_none": ("Null", None), "visit_unit": ("Null", None)}
    for w in ("i64", "u64", "i128", "u128"):
        spec["visit_" + w] = ("Int", text(V1))
    n = 0
    for w, (kind, test) in spec.items():
        k = vis.get(w)
        if not rep.need(k, w, "a node cannot be made by %s" % w):
            continue
        for cs, x, _, _ in F.run(k, [IN("self"), V1]):
            n += 1
            rep.oblige(Ok(x) is not None and scalar(Ok(x), kind, test if kind != "Float" else lambda t: floaty(t, cs)), "in:" + w, "%s gives %s" % (where(d, k), show(x, 200)))
    k = vis.get("visit_some")
    if rep.need(k, "visit_some", "a node cannot be made of an optional value"):
        for cs, x, _, _ in F.run(k, [IN("self"), V1]):
            n += 1
            e = external(x)
            ok = e is not None and (oname(e) == "deserialize" and e[2] == (V1,) or oname(e) == "deserialize_any" and e[2][0] == V1)
            rep.oblige(ok, "in:visit_some", "%s gives %s" % (where(d, k), show(x, 200)))
    for w, kind in (("visit_seq", "Seq"), ("visit_map", "Map")):
        k = vis.get(w)
        if not rep.need(k, w, "a node cannot be made by %s" % w):
            continue
        good = 0
        for cs, x, _, _ in F.run(k, [IN("self"), V1]):
            n += 1
            if Err(x) is not None and external(x) is not None:
                continue
            o = Ok(x) and nodeof(Ok(x))
            r = o and o[0] == kind and each(F, o[1][0], cs)
            item = IN("*") if kind == "Seq" else V(("adt", "tuple", None, (IN("*", "0"), IN("*", "1"))))
            ok = bool(r) and r[0] == V1 and r[1] == [item]
            rep.oblige(ok, "in:" + w, "%s does not keep every element in order: %s (when %s)" % (where(d, k), show(x, 200), conds(cs)))
            good += ok
        rep.oblige(good > 0, "in:%s:some" % w, "%s never succeeds" % where(d, k))
    return n


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    rep.rule = ("Provenance dataflow of every method of the deserializer and the serializer per kind of node: the visitor call, the value it gets and the elements which "
                "the access types hand out one after the other are compared with the documented table.")
    rep.assume = ["rustc's MIR", "std and ritelinked iterators yield every element in order", "serde's derive calls these methods as documented"]
    n = de(rep, m) + ser(rep, m) + fromnode(rep, m) + tonode(rep, m)
    rep.floor("combinations", n, 300)
    rep.cov.update(combinations=n, functions=len(m.F.visited))
    rep.samples = sorted(m.F.visited)[:6]
