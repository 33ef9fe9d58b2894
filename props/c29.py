import facts
from grammar import *
from floats import *
from strings import *

LEVEL = "proof"
CANON = ("NaN", "inf", "-inf")
DOCUMENTED = {p + w: s for s, p, ws in (("NaN", "", (".nan", ".NaN", ".NAN")), ("inf", "", (".inf", ".Inf", ".INF")), ("-inf", "-", (".inf", ".Inf", ".INF"))) for w in ws}
ALSO = {"+.inf": "inf", "+.Inf": "inf", "+.INF": "inf"}
SPECIAL = re.compile(r"^[-+]?\.?(nan|inf|infinity)$", re.I)


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    m = Serde(rep, d)
    if not g.ok or not m.ok or not all(g.key(x) for x in ("scalar_term", "string_plain", "float", "sci_float")):
        return
    rep.rule = ("The spelling tables are extracted from the dataflow of each direction and compared: a text read as a special float is stored under the spelling of std's float formatting, "
                "which is what the constructors and serde store; dumping such a value writes a text which the reading table maps back; each reader parses the stored spelling itself.")
    rep.assume = ["rustc's MIR", "std formats the special floats as NaN, inf and -inf, and parses these texts back"]
    table = read(rep, g)
    dump(rep, m, table)
    n = write(rep, m)
    k = back(rep, m)
    rep.cov.update(read=len(table), writers=n, readers=k)
    rep.samples = ["%s is stored as %s" % x for x in sorted(table.items())]


def compared(cs, what):
    """{literal: outcome} of the comparisons with a text."""
    out = {}
    for c, w in cs:
        if type(c) is tuple and c[0] == "op" and c[1] == "eq" and type(w) is bool:
            for i in (0, 1):
                t = ctext(c[2][i])
                if t is not None and what(c[2][1 - i]):
                    out[t] = w
    return out


def read(rep, g):
    F, rows = g.run("scalar_term")
    at = g.where("scalar_term")
    table = {}
    n = strs = 0

    def plain(v):
        a = single(v)
        return type(a) is tuple and a[0] == "pj" and type(a[1]) is tuple and a[1][0] == "pj" and oname(a[1][1]) == "string_plain"
    for cs, x, end, ev in rows:
        ok = Ok(x)
        y = ok is not None and nodeyaml(F, ok)
        if not y:
            continue
        n += 1
        cmp_ = compared(cs, plain)
        if y[2] == "Float":
            lit = ctext(y[3][0])
            a = single(y[3][0])
            if lit is None:
                good = type(a) is tuple and a[0] == "pj" and type(a[1]) is tuple and a[1][0] == "pj" and oname(a[1][1]) in ("float", "sci_float") and a[1][2] == "Ok"
                rep.oblige(good, "number", "%s reads the float %s" % (at, show(y[3][0], 100)))
                continue
            yes = [t for t, w in cmp_.items() if w]
            want = DOCUMENTED.get(yes[0], ALSO.get(yes[0])) if len(yes) == 1 else None
            rep.oblige(want == lit, "read:%s" % (yes[0] if len(yes) == 1 else lit), "%s reads %s as the float %s" % (at, yes or "texts (when %s)" % conds(cs), lit))
            for t in yes:
                table[t] = lit
        else:
            yes = [t for t, w in cmp_.items() if w and (t in DOCUMENTED)]
            rep.oblige(not yes, "kind:" + "".join(yes), "%s reads %s as %s" % (at, yes, y[2]))
            if y[2] == "Str" and plain(y[3][0]):
                strs += 1
                left = [t for t in DOCUMENTED if cmp_.get(t) is not False]
                rep.oblige(not left, "plain", "%s reads %s as a string" % (at, left))
    for t, s in DOCUMENTED.items():
        rep.oblige(table.get(t) == s, "table:" + t, "%s does not read %s as %s" % (at, t, s))
    rep.floor("cases", n, 8)
    rep.floor("plain strings", strs, 1)
    return table


def nodeyaml(F, v):
    """The content value of a pointer to content."""
    a = single(F.unfold(v))
    for _ in range(6):
        if type(a) is tuple and a[0] == "adt" and a[1] == YAML:
            return a
        if type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and re.search(r"new_rc|::new|::into|::from", a[1]):
            a = single(F.unfold(a[2][0]))
        else:
            return None
    return None


def special(s):
    """A node of the special float."""
    return V(("adt", YAML, "Float", (C(s),)))


def node(m, s):
    fs = m.d["adts"][NODE]["variants"][0]["fields"]
    return V(("adt", NODE, None, tuple(special(s) if f["name"] == m.yaml else IN("self", f["name"]) for f in fs)))


def dump(rep, m, table):
    k = next((k for k in m.d["bodies"] if re.match(r"^dumper::Dumper::<'a, R>::dump( <R>|$)", k)), None)
    if not rep.need(k, "dump", "the dumper is missing"):
        return
    F = Flow(m.d, opaque=[r"(?:Parser::<[^<>]*>|Parser<[^<>]*>>|Loader::<[^<>]*>|Loader<[^<>]*>>)::(?!(err|indicator|pos)\b)\w+( <|$)", r"dumper::(is_plain|quote|is_block)"])
    fs = [a for a in m.d["adts"] if re.search(r"dumper::Dumper$", a)]
    if not rep.need(fs, "Dumper", "the dumper's type is missing"):
        return
    at = where(m.d, k)
    names = [f["name"] for f in m.d["adts"][fs[0]]["variants"][0]["fields"]]
    holder = [f["name"] for f in m.d["adts"][fs[0]]["variants"][0]["fields"] if "Node<" in f["ty"] and "Map" not in f["ty"] and "[" not in f["ty"]]
    if not rep.need(len(holder) == 1, "Dumper.node", "the dumper's node is not recognised"):
        return
    n = 0
    for s in CANON:
        me = V(("adt", fs[0], None, tuple(node(m, s) if f == holder[0] else IN("self", f) for f in names)))
        for cs, x, mem, ev in F.run(k, [me]):
            n += 1
            ps = pieces(F, x)
            t = last(ps)
            rep.oblige(t is not None and table.get(t) == s, "dump:" + s, "%s writes %s for %s, which is read as %s" % (at, repr(t) if t is not None else show(x, 120), s, table.get(t, "something else")))
    # the others are never written like a special one
    for v in ("Float", "Int", "Bool", "Null"):
        for cs, x, mem, ev in F.run(k, [IN("self")], {("self", holder[0], m.yaml): v, ("self", holder[0]): v}):
            n += 1
            t = last(pieces(F, x))
            p = IN("self", holder[0], m.yaml, v, "0")
            yes = {a for a, w in compared(cs, lambda y: y == p).items() if w}
            if t in DOCUMENTED or t in ALSO:
                rep.oblige(v == "Float" and yes == {table.get(t)}, "dump other:" + v, "%s writes %s for a %s which is %s" % (at, t, v, yes or "not known to be special"))
    rep.floor("dumped cases", n, 20)


def last(ps):
    """What is written for the value: the end of the text."""
    if not ps:
        return None
    return re.split(r"[ \n]", ps[-1])[-1] if type(ps[-1]) is str else None


def stored(v, source):
    """A stored float is the formatted source."""
    for a in v:
        if type(a) is not tuple or a[0] != "op" or not re.search(r"to_string", a[1]) or len(a[2]) != 1:
            return False
        b = single(a[2][0])
        while type(b) is tuple and b[0] == "op" and re.search(r"^cast:f(32|64)->f64$|::from$|::into$", b[1]):
            b = single(b[2][0])
        if b != single(source):
            return False
    return bool(v)


def write(rep, m):
    """Constructors and serializers store the text of the number."""
    d, n = m.d, 0
    todo = []
    for ty in ("f32", "f64"):
        for what, pat in (("From<%s>" % ty, r"^<%s<R> as std::convert::From<%s>>::from( <|$)" % (re.escape(YAML), ty)),
                          ("serialize_" + ty, r"^<serde::ser::\w+<R> as serde::Serializer>::serialize_%s( <|$)" % ty)):
            ks = [k for k in d["bodies"] if re.search(pat, k)]
            if rep.need(ks, what, "%s is missing" % what):
                todo += [(what, k) for k in ks]
    vis = [k for k in d["bodies"] if re.search(r"as serde::de::Visitor<'\w+>>::visit_f64( <|$)", k) and "Yaml" not in k and d["bodies"][k].get("span", "").startswith("src/") and "NodeVisitor" in k]
    vis = vis or [k for k in d["bodies"] if re.search(r"as serde::de::Visitor<'\w+>>::visit_f64( <|$)", k) and d["bodies"][k].get("span", "").startswith("src/serde/de")]
    if rep.need(vis, "visit_f64", "the node's visitor is missing"):
        todo.append(("visit_f64", vis[0]))
    for what, k in todo:
        b = d["bodies"][k]
        args = [IN("v")] if b["argc"] == 1 else [IN("self"), IN("v")]
        F = m.F
        for cs, x, _, _ in F.run(k, args):
            n += 1
            nd = nodeof(Ok(x) or x)
            if nd is None:
                a = single(Ok(x) or x)
                nd = (a[2], a[3]) if type(a) is tuple and a[0] == "adt" and a[1] == YAML else None
            if not rep.oblige(nd is not None and nd[0] == "Float", what + ":kind", "%s gives %s for a float" % (where(d, k), show(x, 120))):
                continue
            v = nd[1][0]
            t = ctext(v)
            if t is not None:
                rep.oblige(known(cs) == t, what, "%s stores %s (when %s)" % (where(d, k), t, conds(cs)))
            else:
                ps = pieces(F, v)
                good = stored(v, IN("v")) or ps is not None and len(ps) == 1 and ps[0] == single(IN("v"))
                rep.oblige(good, what, "%s stores %s, not the formatted number (when %s)" % (where(d, k), show(v, 100), conds(cs)))
    rep.floor("writers", n, 5)
    return n


def back(rep, m):
    """Whoever turns a stored float into a number parses the stored text."""
    d, n = m.d, 0
    todo = [(x, m.key("node::Node::<R>::" + x), 1) for x in ("as_float", "as_number")]
    todo += [("deserialize_" + x, m.de_key("deserialize_" + x), 2) for x in ("any", "f32", "f64")]
    ser = next((k for k in d["bodies"] if re.match(r"^<node::Node<R> as serde::Serialize>::serialize( <|$)|^serde::ser_node::<impl serde::Serialize for node::Node<R>>::serialize( <|$)", k)), None)
    todo.append(("serialize", ser, 2))
    for what, k, argc in todo:
        if not rep.need(k, what, "%s is missing" % what):
            continue
        for s in CANON:
            good = 0
            for cs, x, _, ev in m.F.run(k, [node(m, s), IN("visitor")][:d["bodies"][k]["argc"]]):
                n += 1
                ps = [(c, w) for c, w in tested(cs).items() if parse(c) is not None]
                if any(parse(c) == s and w == "Err" for c, w in ps):
                    continue            # std parses the special ones
                # where the number goes: the result itself, or the call it is
                e = external(x)
                vals = list(e[2]) if e else [Ok(x)] if Ok(x) is not None else []
                nums = set()
                for v in vals:
                    for a in atoms(v):
                        if type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Ok" and parse(a[1][1]) is not None:
                            nums.add(parse(a[1][1]))
                        if type(a) is tuple and a[0] == "c" and fconst(V(a)) is not None:
                            nums.add(fconst(V(a)))
                if nums == {s}:
                    good += 1
                rep.oblige(nums == {s}, "%s:%s" % (what, s), "%s gives %s for %s (when %s)" % (where(d, k), show(x, 160), s, conds(cs)))
            rep.oblige(good, "%s:%s:some" % (what, s), "%s never gives %s" % (where(d, k), s))
    rep.floor("readers", n, 15)
    return n


def parse(c):
    """The text which a call parses as a float."""
    if type(c) is tuple and c[0] == "op" and re.search(r"::parse <f(32|64)>|f(32|64) as std::str::FromStr>::from_str|f(32|64)>>::from_str", c[1]) and len(c[2]) == 1:
        return ctext(c[2][0])
    return None
