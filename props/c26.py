import facts
from serdet import *

LEVEL = "proof"
INT = ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128")
FAMILIES = [("the texts", ("str", "string")), ("the byte strings", ("bytes", "byte_buf")), ("the floats", ("f32", "f64")), ("the integers", INT),
            ("the sequences", ("seq", "tuple", "tuple_struct")), ("the units", ("unit", "unit_struct"))]
SER = [("the integers", INT), ("the floats", ("f32", "f64")), ("the units", ("unit", "unit_struct", "none")), ("the sequences", ("seq", "tuple", "tuple_struct")),
       ("the transparent wrappers", ("some", "newtype_struct"))]


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    rep.rule = ("The table 'kind of node -> accepted or rejected, and what is handed over' is extracted from the dataflow of each conversion method; "
                "the tables of the methods of one family must be equal.")
    rep.assume = ["rustc's MIR"]
    n = 0

    def sig(meth, v):
        """Accepted, rejected, and the values which are handed over unchanged."""
        acc, rej, vals = False, False, set()
        for cs, o, x in m.rows("deserialize_" + meth, v):
            if o[0] == "call":
                acc = True
                name = re.sub(r"_(i|u|f)(8|16|32|64|128)$|_(borrowed_str|string)$", lambda g: "_" + (g.group(1) or "str"), o[1]).replace("_u", "_i") if not o[1].startswith("visit_unit") else o[1]
                vals.add(name)
                for a in o[2][1:]:
                    a = m.norm(a)
                    vals |= {show(V(z), 80) for z in a if type(z) is tuple and z[0] in ("c", "in")}
                    # what the conversion reads
                    vals |= {".".join(i) for i in inputs(a)}
            else:
                rej = True
        return acc, rej, frozenset(vals)
    for what, fam in FAMILIES:
        keys = {w: m.de_key("deserialize_" + w) for w in fam}
        if not all(rep.need(k, "deserialize_" + w, "deserialize_%s of the node is missing" % w) for w, k in keys.items()):
            continue
        for v in m.variants:
            tab = {w: sig(w, v) for w in fam}
            # the odd one out, if any
            cnt = {}
            for w in fam:
                cnt.setdefault(tab[w], []).append(w)
            n += len(fam)
            major = max(cnt, key=lambda s: len(cnt[s]))
            for w in fam:
                a, b = tab[w], major
                diff = "" if a == b else "it %s%s while deserialize_%s %s%s" % (word(a), show_set(a[2] - b[2]), cnt[major][0], word(b), show_set(b[2] - a[2]))
                rep.oblige(a == b, "%s:%s" % (w, v), "%s treats a %s node unlike %s: %s" % (where(d, keys[w]), v, what, diff))
    ser(rep, m)
    rep.floor("tables", n, 120)
    rep.cov.update(tables=n, functions=len(m.F.visited))
    rep.samples = sorted(m.F.visited)[:6]


def word(s):
    return "sometimes fails" if s[0] and s[1] else "takes it" if s[0] else "rejects it"


def show_set(s):
    return " (%s)" % ", ".join(sorted(s)) if s else ""


def ser(rep, m):
    d = m.d
    holder = next((k for k in d["bodies"] if re.search(r"^<serde::ser::\w+<R> as serde::Serializer>::serialize_bool", k)), None)
    if not rep.need(holder, "serializer", "the serializer of nodes is missing"):
        return
    ty = re.match(r"^<([\w:]+<R>)", holder).group(1)
    for what, fam in SER:
        tab = {}
        for w in fam:
            k = m.find("serde::Serializer", ty, "serialize_" + w)
            if not rep.need(k, "serialize_" + w, "serialize_%s is missing" % w):
                continue
            b = d["bodies"][k]
            # the arguments by the type: names, lengths, the value
            args = [IN("self")] + [IN("name") if "static str" in l["ty"] else IN("len") if "usize" in l["ty"] else IN("v") for l in b["locals"][2:b["argc"] + 1]]
            out = set()
            for cs, x, _, _ in m.F.run(k, args):
                o = Ok(x)
                e = external(x)
                nd = o and nodeof(o)
                if nd:
                    out.add(("node", nd[0], frozenset(inputs(z) for z in [y for y in nd[1]]) if False else tuple(sorted(map(str, set().union(*[inputs(y) for y in nd[1]]) if nd[1] else set())))))
                elif e:
                    out.add(("call", oname(e), tuple(show(z, 60) for z in e[2])))
                elif o is not None and type(single(o)) is tuple and single(o)[0] == "adt":
                    out.add(("holder", single(o)[1]))
                else:
                    out.add(("other", show(x, 80)))
            tab[w] = frozenset(out)
        cnt = {}
        for w in tab:
            cnt.setdefault(tab[w], []).append(w)
        major = max(cnt, key=lambda s: len(cnt[s])) if cnt else None
        for w in tab:
            rep.oblige(tab[w] == major, "serialize_" + w, "serialize_%s differs from serialize_%s of %s: %s and %s" % (w, cnt[major][0], what, sorted(tab[w]), sorted(major)))
