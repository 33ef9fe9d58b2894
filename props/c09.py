import facts
from serdet import *
import c25

LEVEL = "proof"
INT = c25.INT


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    F = m.F
    rep.rule = ("Provenance dataflow of every integer on its way out of and into a node: from the digits to the visitor or serializer only checked conversions (parsing, "
                "from_str_radix, TryInto) and widening casts; from a number to the digits nothing but its own decimal form.")
    rep.assume = ["rustc's MIR", "str::parse, from_str_radix and TryFrom of the integers fail instead of changing the number", "Display of the integers is exact"]
    n = 0
    P = single(m.payload("Int"))[1]
    for w in INT + ("any",):
        key = m.de_key("deserialize_" + w)
        if not rep.need(key, w, "deserialize_%s is missing" % w):
            continue
        good = 0
        for cs, o, x in m.rows("deserialize_" + w, "Int"):
            n += 1
            if o[0] == "call":
                if not re.match(r"visit_[iu]\d+$", o[1]):
                    ok = w != "any" and False or o[1] in ("visit_str", "visit_string") and o[2][1] == m.payload("Int")
                else:
                    ok = len(o[2]) == 2 and intvalue(o[2][1], P)
                rep.oblige(ok, "de:" + w, "%s hands over %s(%s), which may not be the number in the node (when %s)" % (where(d, key), o[1], ", ".join(show(a, 200) for a in o[2][1:]), conds(cs)))
                good += ok
        rep.oblige(good > 0, "de:%s:some" % w, "%s never hands over a number" % where(d, key))
    # into a node
    for k in sorted(d["bodies"]):
        g = re.search(r"^<[\w:]+<R> as serde::Serializer>::serialize_([iu]\d+)( <|$)|^<[\w:]+<R> as serde::de::Visitor<'\w+>>::visit_([iu]\d+)( <|$)", k)
        if not g or "node::Node<R>" not in d["bodies"][k]["locals"][0]["ty"] and g.group(3):
            continue
        for cs, x, _, _ in F.run(k, [IN("self"), IN("v")]):
            n += 1
            if Err(x) is not None:
                continue
            y = Ok(x) and nodeof(Ok(x))
            ok = bool(y) and y[0] == "Int" and exact(y[1][0], "v")
            rep.oblige(ok, "ser:" + k.split("::")[-1].split(" <")[0], "%s makes %s, which may not be the number (when %s)" % (where(d, k), show(x, 200), conds(cs)))
    # out of a node
    ks = [k for k in d["bodies"] if re.search(r"serde::Serialize for node::Node<R>>::serialize( <|$)", k)]
    if rep.need(ks, "Node::serialize", "the node's Serialize is missing"):
        for cs, x, _, _ in F.run(ks[0], [m.node(), IN("ser")], m.assume("Int")):
            n += 1
            e = external(x)
            if e is None and Err(x) is not None:
                continue
            ok = e is not None and (re.match(r"serialize_[iu]\d+$", oname(e)) and len(e[2]) == 2 and intvalue(e[2][1], P))
            rep.oblige(bool(ok), "out", "%s gives %s, which may not be the number in the node (when %s)" % (where(d, ks[0]), show(x, 250), conds(cs)))
    rep.floor("conversions", n, 80)
    rep.cov.update(conversions=n, functions=len(F.visited))
    rep.samples = sorted(F.visited)[:6]


def exact(v, name):
    """The decimal text of the number itself, or of it widened."""
    t = textof(v)
    if t is None:
        return False
    a = single(t)
    while type(a) is tuple and a[0] == "op" and a[1] in LOSSLESS:
        a = single(a[2][0])
    return a == ("in", (name,))
