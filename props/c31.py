import facts
from serdet import *
import strings

LEVEL = "proof"
OPT, LST, STR = "serde::optional::Optional", "serde::inline_list::InlineList", "serde::stringify::Stringify"
# type: payloads in the order in which they are tried
ORDER = {OPT: ["Bool", "Some"], LST: ["List", "Inline"], STR: ["Bool", "Int", "Float", "Str"]}


def shape(rep, m, ty):
    """Serialized as the content itself, read back by trying the payloads in order."""
    d, F = m.d, m.F
    short = ty.split("::")[-1]
    k = next((k for k in d["bodies"] if re.search(r"serde::Serialize for %s(<T>)?>::serialize( <|$)" % ty, k) or re.match(r"^<%s(<T>)? as serde::Serialize>::serialize( <|$)" % ty, k)), None)
    if rep.need(k, short + " serialize", "%s has no Serialize" % ty):
        seen = set()
        for cs, x, _, _ in F.run(k, [IN("self"), IN("ser")]):
            e = external(x)
            vs = [w for c, w in cs if c == ("op", "discr", (IN("self"),))]
            ok = e is not None and len(vs) == 1 and oname(e) in ("serialize", "serialize_bool", "serialize_i32", "serialize_f32", "serialize_str") and (
                e[2] == (IN("self", vs[0], "0"), IN("ser")) or oname(e) != "serialize" and e[2] == (IN("ser"), IN("self", vs[0], "0")))
            rep.oblige(ok, short + ":out", "%s gives %s (when %s)" % (where(d, k), show(x, 200), conds(cs)))
            seen |= set(vs)
        rep.oblige(seen == set(ORDER[ty]), short + ":out:all", "%s serializes %s only" % (where(d, k), sorted(seen)))
    k = next((k for k in d["bodies"] if re.search(r"serde::Deserialize<'\w+> for %s(<T>)?>::deserialize( <|$)" % ty, k) or re.match(r"^<%s(<T>)? as serde::Deserialize<'\w+>>::deserialize( <|$)" % ty, k)), None)
    if not rep.need(k, short + " deserialize", "%s has no Deserialize" % ty):
        return
    got, rows = {}, F.run(k, [IN("de")])
    for cs, x, _, _ in rows:
        o = Ok(x)
        a = o and single(o)
        if not a:
            rep.oblige(Err(x) is not None, short + ":in:result", "%s gives %s" % (where(d, k), show(x, 200)))
            continue
        src = type(a) is tuple and a[0] == "adt" and a[1] == ty and len(a[3]) == 1 and pj(a[3][0], "Ok", "0")
        src = src and single(src)
        content = type(src) is tuple and src[0] == "op" and oname(src) == "deserialize" and inputs(V(src)) == {("de",)} and not unknown(V(src)) and isop(src[2][0], "new")
        ok = rep.oblige(bool(content), short + ":in:value", "%s gives %s, which is not its content as it was read" % (where(d, k), show(o, 200)))
        if ok:
            got.setdefault(a[2], []).append((src, content[0], cs))
    rep.oblige(sorted(got) == sorted(ORDER[ty]), short + ":in:all", "%s can give %s only" % (where(d, k), sorted(got)))
    if sorted(got) != sorted(ORDER[ty]):
        return
    cont = {c for l in got.values() for _, c, _ in l}
    rep.oblige(len(cont) == 1, short + ":in:one", "%s reads its alternatives from different contents" % where(d, k))
    deser = {v: {s for s, _, _ in l} for v, l in got.items()}
    for v, l in got.items():
        for s, _, cs in l:
            failed = {c[2][0] for c, w in cs if w == "Err" and c[0] == "op" and c[1].startswith("discr")}
            want = {V(z) for u in ORDER[ty][:ORDER[ty].index(v)] for z in deser[u]}
            rep.oblige(want <= failed and not (failed - want), short + ":in:order", "%s gives %s when %s" % (where(d, k), v, conds(cs)))
    for cs, x, _, _ in rows:
        if Err(x) is None:
            continue
        failed = {c[2][0] for c, w in cs if w == "Err" and c[0] == "op" and c[1].startswith("discr")}
        both = all({V(z) for z in deser[v]} <= failed for v in deser)
        nocontent = any(inputs(f) == {("de",)} and all(f != V(z) for l in deser.values() for z in l) for f in failed)
        rep.oblige(both or nocontent, short + ":in:err", "%s fails when %s" % (where(d, k), conds(cs)))


def display(rep, m):
    """The text of a Stringify is the text of its value."""
    d = m.d
    k = next((k for k in d["bodies"] if re.match(r"^<%s as std::fmt::Display>::fmt( <|$)" % STR, k)), None)
    if not rep.need(k, "Stringify text", "Stringify has no Display"):
        return
    F = strings.Flow(d)
    seen = set()
    for cs, x, mem, ev in F.run(k, [IN("self"), IN("f")]):
        v = next((w for c, w in cs if c == ("op", "discr", (IN("self"),))), None)
        b = next((w for c, w in cs if c == ("in", ("self", "Bool", "0"))), None)
        a = single(x)
        n = oname(a) if type(a) is tuple and a[0] == "op" else ""
        p = None
        if n in ("write_fmt", "write_str", "pad") and len(a[2]) == 2 and a[2][0] == IN("f"):
            y = single(F.unfold(a[2][1]))
            p = strings.template(F, y, 0) if n == "write_fmt" and type(y) is tuple and y[0] == "op" else strings.pieces(F, a[2][1])
        elif n == "fmt" and len(a[2]) == 2 and a[2][1] == IN("f") and re.search(r"Display", a[1]):
            p = strings.pieces(F, a[2][0])
        pay = ("in", ("self", v, "0"))
        ok = p is not None and (p == [pay] or v == "Bool" and b is not None and p == [str(b).lower()])
        rep.oblige(ok, "Stringify:text:%s" % v, "%s writes %s (when %s)" % (where(d, k), show(x, 160), conds(cs)))
        seen.add(v)
    rep.oblige(seen == set(ORDER[STR]), "Stringify:text:all", "%s writes %s only" % (where(d, k), sorted(map(str, seen))))


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    F = m.F
    rep.rule = ("Provenance dataflow of the conversions of Optional and InlineList (the derived serde code included): what they hold is what was read, alternatives are tried in "
                "the documented order, and every accessor gives the held value, the default or nothing as documented.")
    rep.assume = ["rustc's MIR", "serde's buffered content and its reference deserializer keep the value", "Vec and slice iterators"]
    for ty in (OPT, LST, STR):
        shape(rep, m, ty)
    S = IN("self")

    def rows(name, args):
        k = next((k for k in d["bodies"] if k.split(" <T")[0] in (name.replace("%", OPT + "::<T>"), name.replace("%", LST + "::<T>"), name)), None)
        if not rep.need(k, name, "%s is missing" % name):
            return None, []
        return where(d, k), F.run(k, args)

    def kind(cs):
        return [w for c, w in cs if c == ("op", "discr", (S,))]

    # Optional: off, default or given
    for meth, args, dflt, off in (("ok", ["ok"], None, None), ("ok_instead", ["ok", "default"], "default", None), ("ok_or", ["ok", "or"], None, "or"), ("ok_or_instead", ["ok", "default", "or"], "default", "or")):
        at, rs = rows(OPT + "::<T>::" + meth, [S] + [IN(a) for a in args])
        seen = set()
        for cs, x, _, ev in rs:
            ks = kind(cs)
            b = [w for c, w in cs if c == ("in", ("self", "Bool", "0"))]
            calls = [e[1] for e in ev if e[0] == "callv"]
            if ks == ["Some"]:
                w, want = "given", (IN("ok"), IN("self", "Some", "0"))
            elif ks == ["Bool"] and b == [True]:
                w, want = "default", (IN("ok"), IN("default"))
            elif ks == ["Bool"] and b == [False]:
                w, want = "off", (IN(off),) if off else None
            else:
                rep.oblige(False, meth, "%s depends on %s" % (at, conds(cs)))
                continue
            seen.add(w)
            if w == "default" and not dflt:
                ok = len(calls) == 1 and calls[0][0] == IN("ok") and len(calls[0]) == 2 and isop(calls[0][1], "default") == ()
            else:
                ok = calls == ([want] if want else [])
            if off:
                ok = ok and len(calls) == 1 and x == V(("op", "callv", calls[0]))
            rep.oblige(ok, "%s:%s" % (meth, w), "%s calls %s and gives %s when the value is %s" % (at, [[show(a, 60) for a in c] for c in calls], show(x, 100), w))
        rep.oblige(seen == {"given", "default", "off"}, meth + ":all", "%s handles %s only" % (at, sorted(seen)))

    # InlineList: one item or all of them
    one, many = IN("self", "Inline", "0"), IN("self", "List", "0")

    def items(x):
        """What the iterator walks over: 'one', 'many' or None."""
        y = start(x)
        if y == many:
            return "many"
        l = adt(y, "array")
        if l is not None and len(l) == 1 and l[0] == one:
            return "one"
        f = isop(y, "from_ref", "once")
        if f and f[0] == one:
            return "one"
        l = pushes(y)
        if l is not None and l == [one]:
            return "one"

    def value(v, n):
        """What a term about the number n of items is; None: unknown."""
        a = single(v)
        if type(a) is not tuple:
            return None
        if a[0] == "c":
            return a[1]
        if a[0] != "op":
            return None
        o, xs = oname(a), a[2]
        if o in ("len", "is_empty", "count") and len(xs) == 1 and items(xs[0]):
            return n if o != "is_empty" else n == 0
        if o in ("next", "first", "last", "next_back", "split_first") and items(xs[0]):
            return "Some" if n else "None"
        if o == "get" and len(xs) == 2 and items(xs[0]) and type(value(xs[1], n)) is int:
            return "Some" if value(xs[1], n) < n else "None"
        ys = [value(x, n) for x in xs]
        if None in ys:
            return None
        if a[1] == "discr:std::option::Option":
            return int(ys[0] == "Some")
        if a[1] == "discr":
            return ys[0]
        if o == "!":
            return not ys[0]
        f = {"eq": lambda p, q: p == q, "Lt": lambda p, q: p < q, "Le": lambda p, q: p <= q, "Gt": lambda p, q: p > q, "Ge": lambda p, q: p >= q, "Ne": lambda p, q: p != q, "Eq": lambda p, q: p == q,
             "BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "min": min, "max": max}.get(o)
        return f(*ys) if f and len(ys) == 2 else None

    def decide(rs, v, n):
        """What the rows give for a list of n items."""
        out = set()
        for cs, x in rs:
            taken = [w == value(V(c), n) if value(V(c), n) is not None else None for c, w in cs if c != ("op", "discr", (S,))]
            if False in taken:
                continue
            out.add(value(x, n) if None not in taken else None)
        return out
    # for a list, up to 3 items stand for every number: no constant above 2 is compared with the length
    num = {"len": lambda n: n, "is_empty": lambda n: n == 0, "is_single": lambda n: n == 1}
    for name, f in num.items():
        at, rs = rows(LST + "::<T>::" + name, [S])
        for v, ns in (("Inline", [1]), ("List", [0, 1, 2, 3])):
            mine = [(cs, x) for cs, x, _, _ in rs if v in kind(cs) or not kind(cs)]
            big = [a for cs, x in mine for t in [x] + [V(c) for c, w in cs] for a in atoms(t) if type(a) is tuple and a[0] == "c" and type(a[1]) is int and a[1] > 2]
            ok = not big and all(decide(mine, v, n) == {f(n)} for n in ns)
            rep.oblige(ok, "%s:%s" % (name, v), "%s gives %s for %s" % (at, "; ".join("%s (when %s)" % (show(x, 80), conds(cs)) for cs, x in mine), v))
    tests = {"iter": lambda x, k: items(x) == k}
    for name, t in list(tests.items()) + [("<%s<T> as std::iter::IntoIterator>::into_iter" % LST, tests["iter"])]:
        at, rs = rows(name if name[0] == "<" else LST + "::<T>::" + name, [S])
        short = name.split("::")[-1]
        for v, k in (("Inline", "one"), ("List", "many")):
            mine = [(cs, x) for cs, x, _, _ in rs if v in kind(cs)]
            rep.oblige(bool(mine), "%s:%s" % (short, v), "%s gives nothing for %s" % (at, v))
            for cs, x in mine:
                rep.oblige(len(cs) == 1 and t(x, k), "%s:%s" % (short, v), "%s gives %s for %s" % (at, show(x, 120), v))
        rep.oblige(all(len(kind(cs)) == 1 for cs, _, _, _ in rs), short, "%s does not tell its kinds apart" % at)
    at, rs = rows("<%s<T> as std::default::Default>::default" % OPT, [])
    for cs, x, _, _ in rs:
        rep.oblige(adt(x, OPT, "Bool") == (C(True),), "Optional:default", "%s gives %s" % (at, show(x, 100)))
    at, rs = rows("<%s<T> as std::default::Default>::default" % LST, [])
    for cs, x, _, _ in rs:
        l = adt(x, LST, "List")
        rep.oblige(l is not None and l and empty(l[0]), "InlineList:default", "%s gives %s" % (at, show(x, 100)))
    display(rep, m)
    rep.floor("obligations", rep.obligations, 60)
    rep.samples = sorted(F.visited)[:6]
    rep.cov.update(functions=len(F.visited))
