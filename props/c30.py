import facts
from tables import *

LEVEL = "proof"
NAMES = {"Null": "null", "Bool": "bool", "Int": "int", "Float": "float", "Str": "str", "Seq": "seq", "Map": "map"}


def check(rep):
    rep.rule = ("Provenance dataflow of the tag accessor for each variant of the content: the empty tag must select the core schema name of that very variant "
                "(nothing for an alias), any other tag must come back verbatim; constructors, setters and clones must store exactly the parts they are given.")
    rep.assume = ["rustc's MIR", "shared pointers are transparent"]
    d = facts.extract("all")
    m = Model(rep, d)
    if not m.ok:
        return
    F = Flow(d)
    n = 0
    key = m.key("node::Node::<R>::tag")
    if rep.need(key, "tag", "the tag accessor is missing"):
        for v in m.variants:
            n += 1
            want = C("tag:yaml.org,2002:" + NAMES[v]) if v in NAMES else C("")
            dflt = own = 0
            for cs, x, _, _ in F.run(key, [m.node()], m.assume(v)):
                emp = empty(cs, m.T())
                if emp is True:
                    dflt += 1
                    rep.oblige(x == want or (v not in NAMES and x == m.T()), "tag:%s:default" % v, "%s of a %s node without a tag gives %s instead of %s" % (where(d, key), v, show(x), show(want)))
                elif emp is False:
                    own += 1
                    rep.oblige(x == m.T(), "tag:%s:own" % v, "%s of a %s node with a tag gives %s (when %s)" % (where(d, key), v, show(x), conds(cs)))
                else:
                    rep.oblige(x == m.T() and v not in NAMES, "tag:%s" % v, "%s of a %s node gives %s whether or not it has a tag (when %s)" % (where(d, key), v, show(x), conds(cs)))
                    own += 1
            rep.oblige(own and (dflt or v not in NAMES), "tag:%s:cases" % v, "%s of a %s node does not tell an empty tag from a given one" % (where(d, key), v))
            rep.samples.append("tag of %s: %s" % (v, show(want)))
    # constructors and setters
    def parts(x):
        if len(x) == 1:
            a = next(iter(x))
            if type(a) is tuple and a[0] == "adt" and a[1] == NODE:
                fl = [f["name"] for f in d["adts"][NODE]["variants"][0]["fields"]]
                return dict(zip(fl, a[3]))
        return None
    for name, args, want in (("new", [IN("yaml"), IN("pos"), IN("tag")], None), ("new_repr", [IN("yaml"), IN("pos"), IN("tag")], None)):
        key = m.key("node::Node::<R>::" + name)
        if not rep.need(key, name, "constructor %s is missing" % name):
            continue
        for cs, x, _, _ in F.run(key, args):
            n += 1
            p = parts(x)
            ok = p and p[m.pos] == IN("pos") and (p[m.tag] == IN("tag") or isop(p[m.tag], "to_string", "to_owned") == (IN("tag"),)) and \
                (p[m.yaml] == IN("yaml") or isop(p[m.yaml], "into") == (IN("yaml"),))
            rep.oblige(ok, name, "%s gives %s, which is not made of the content, position and tag it was given" % (where(d, key), show(x)))
    key = m.key("<node::Node<R> as std::clone::Clone>::clone")
    if rep.need(key, "clone", "Clone is missing"):
        for cs, x, _, _ in F.run(key, [m.node()]):
            n += 1
            p = parts(x)
            ok = x == m.node() or p and p[m.pos] == m.P() and p[m.tag] == m.T() and p[m.yaml] == m.Y()
            rep.oblige(ok, "clone", "%s gives %s, which is not a copy of every part" % (where(d, key), show(x)))
    for name in ("set_yaml", "set_repr"):
        key = m.key("node::Node::<R>::" + name)
        if not rep.need(key, name, "setter %s is missing" % name):
            continue
        for cs, x, mem, _ in F.run(key, [V(("mut", ("A", 0), ())), IN("yaml")], mem={("A", 0): m.node()}):
            n += 1
            p = parts(mem[("A", 0)])
            ok = p and p[m.pos] == m.P() and p[m.tag] == m.T() and (p[m.yaml] == IN("yaml") or isop(p[m.yaml], "into") == (IN("yaml"),))
            rep.oblige(ok, name, "%s leaves %s: it must replace the content and keep position and tag" % (where(d, key), show(mem[("A", 0)])))
    for name, want in (("pos", m.P()), ("yaml", m.Y()), ("clone_yaml", m.Y()), ("rc_ref", m.Y())):
        key = m.key("node::Node::<R>::" + name)
        if rep.need(key, name, "accessor %s is missing" % name):
            for cs, x, _, _ in F.run(key, [m.node()]):
                n += 1
                rep.oblige(x == want, name, "%s gives %s" % (where(d, key), show(x)))
    # cloning the content keeps the variant and the payload
    key = m.key("<yaml::Yaml<R> as std::clone::Clone>::clone")
    if rep.need(key, "clone_yaml", "Clone of the content is missing"):
        for v in m.variants:
            n += 1
            for cs, x, _, _ in F.run(key, [IN("self")], {("self",): v}):
                f = adt(x, YAML, v)
                pl = d["adts"][YAML]["variants"][m.variants.index(v)]["fields"]
                rep.oblige(x == IN("self") or f is not None and all(y == IN("self", v, str(i)) for i, y in enumerate(f)) and len(f) == len(pl),
                           "clone:" + v, "%s of %s gives %s" % (where(d, key), v, show(x)))
    rep.floor("cases", n, 25)


def empty(cs, tag):
    """Whether the conditions say that the tag is empty."""
    for c, w in cs:
        if type(c) is tuple and c[0] == "op":
            if c[1] == "eq" and tag in c[2] and C("") in c[2]:
                return w
            if c[1].endswith("::is_empty") and c[2] == (tag,):
                return w
            if c[1] in ("Eq", "eq") and C(0) in c[2] and any(isop(x, "len") == (tag,) for x in c[2]):
                return w
    return None
