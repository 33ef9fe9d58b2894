import facts
from grammar import *
from preds import Preds
from strings import *

LEVEL = "proof"
PREFIX = "tag:yaml.org,2002:"


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("tag", "directive", "text", "identifier", "sym")):
        return
    rep.rule = ("Provenance dataflow of the text of a tag: it is the entry of the table of handles under exactly the handle that was read, followed by the identifier after it; "
                "without an entry the result is a definite error. The table holds the declared pairs: each insertion puts the prefix text under the handle text. "
                "Effect analysis: nothing else changes the table.")
    rep.assume = ["rustc's MIR", "BTreeMap keeps what is inserted"]
    n = tag(rep, g)
    m = declare(rep, g)
    start(rep, g, d)
    rep.cov.update(tag_paths=n, directive_paths=m)


def chain(F, v):
    """The calls of the parser which led to a state, the latest last."""
    out = []
    a = single(F.unfold(v))
    for _ in range(400):
        if type(a) is not tuple:
            break
        if a[0] == "op" and a[1].endswith("!0"):
            x = ("op", a[1][:-2], a[2])
            out.append((oname(x), x))
            a = single(F.unfold(a[2][0]))
        elif a[0] == "adt":
            # a state with some fields set: by its position
            ps = [single(y) for y in a[3]]
            ps = [y for y in ps if type(y) is tuple and y[0] == "pj" and y[2] == "pos"]
            out.append(("set", None))
            a = single(F.unfold(V(ps[0][1]))) if ps else None
        else:
            break
    return out[::-1]


def span(F, v):
    """The calls since the text began, when it is a text of the parser."""
    a = single(v)
    if type(a) is not tuple or a[0] != "op" or oname(a) != "text":
        return None
    cs = [c for c in chain(F, a[2][0]) if c[0] != "text"]
    last = max([i for i, c in enumerate(cs) if c[0] in ("forward", "consume")], default=-1)
    return (cs[:last], cs[last + 1:]) if last >= 0 else None


def marks(F, t, byte):
    """Successful matches of one symbol."""
    return [c for c, w in t.items() if w == "Ok" and oname(c) in ("sym", "sym_seq", "sym_set") and sameb(c[2][1], byte)]


def sameb(v, byte):
    v = single(v)
    if type(v) is not tuple:
        return False
    if v[0] == "c":
        return v[1] in (byte, bytes([byte]), chr(byte))
    return v[0] == "adt" and v[1] == "array" and len(v[3]) == 1 and sameb(v[3][0], byte)


def steps(F, v):
    """What a state went through, by the symbols that matched."""
    return [n for n, _ in chain(F, v)]


def lookup(F, g, p):
    """(table, key) of a value taken out of a map."""
    a = p if type(p) is tuple else None
    if a is None:
        return None
    if a[0] == "pj" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Some":
        a = a[1][1]
        if type(a) is tuple and a[0] == "op" and re.search(r"::(cloned|copied|as_deref)$", a[1]):
            a = single(F.unfold(a[2][0]))
    if type(a) is tuple and a[0] == "op" and re.search(r"::(get|index)$", re.sub(r" <.*$", "", a[1])) and len(a[2]) == 2:
        return a[2]
    return None


def tag(rep, g):
    F, rows = g.run("tag")
    at = g.where("tag")
    n = unknown = 0
    kinds = {}
    for cs, x, end, ev in rows:
        n += 1
        t = tested(cs)
        misses = [c for c, w in t.items() if w == "None" and re.search(r"::get$", re.sub(r" <.*$", "", c[1]))]
        if misses:
            unknown += 1
            e = Err(x)
            rep.oblige(bool(e) and all(type(a) is tuple and a[0] == "adt" and a[2] == "Terminate" for a in e), "unknown", "%s gives %s for a handle without an entry (when %s)" % (at, show(x, 120), conds(cs)))
            continue
        ok = Ok(x)
        if ok is None:
            rep.oblige(Err(x) is not None, "result", "%s gives %s" % (at, show(x, 100)))
            continue
        ps = pieces(F, ok)
        if not rep.oblige(bool(ps) and len(ps) <= 2 and not any(type(p) is str for p in ps), "pieces", "%s gives %s, not a prefix and a suffix (when %s)" % (at, [p if type(p) is str else show(V(p), 60) for p in ps or []] or show(ok, 200), conds(cs))):
            continue
        bangs = marks(F, t, 33)
        rep.oblige(len(bangs) in (1, 2), "marks", "%s reads %d marks" % (at, len(bangs)))
        empty = None
        for c, w in cs:
            if type(c) is tuple and c[0] == "op" and c[1].endswith("is_empty") and type(w) is bool:
                s = span(F, c[2][0])
                if s is not None and first(s):
                    empty = w
        ids = [(c, w) for c, w in t.items() if oname(c) == "identifier" and w in ("Ok", "Err") and "forward" in steps(F, c[2][0]) and steps(F, c[2][0]).count("sym") == 1]
        for c, w in ids:
            empty = (w == "Err") if empty is None else empty
        p, rest = ps[0], ps[1:]
        lk = lookup(F, g, p)
        angle = marks(F, t, 60)
        if angle:
            kind = "full"
            s = span(F, V(p))
            rep.oblige(lk is None and s is not None and [c for c, _ in s[1]] == ["take_while"] and bool(marks(F, t, 62)) and empty is not False and runs(g, F, s[1][0][1], {62}), "full", "%s gives %s for a full tag (when %s)" % (at, show(V(p), 120), conds(cs)))
        else:
            if not rep.oblige(lk is not None, "lookup", "%s gives the prefix %s, not an entry of the table (when %s)" % (at, show(V(p), 120), conds(cs))):
                continue
            rep.oblige(g.trace(F, lk[0], None) is not None and table(g, F, lk[0]), "table", "%s looks into %s" % (at, show(lk[0], 100)))
            key = pieces(F, lk[1]) or []
            if len(bangs) == 1:
                kind, good = "primary", key == ["!"]
            elif empty is False:
                kind = "named"
                s = len(key) == 1 and type(key[0]) is tuple and span(F, V(key[0]))
                good = bool(s) and first(s)
            else:
                kind, good = "secondary", key == ["!!"] and empty is True
            rep.oblige(good, kind, "%s takes the prefix of %s for a %s handle (when %s)" % (at, [k if type(k) is str else show(V(k), 60) for k in key], kind, conds(cs)))
        kinds[kind] = kinds.get(kind, 0) + 1
        for q in rest:
            s = span(F, V(q))
            rep.oblige(bool(s) and [c for c, _ in s[1]] == ["identifier"] and not first(s), "suffix", "%s adds %s to the prefix" % (at, show(V(q), 100)))
        if not rest:
            # nothing after the prefix: there was no identifier
            last = [w for c, w in t.items() if oname(c) == "identifier" and steps(F, c[2][0]).count("forward") + steps(F, c[2][0]).count("consume") >= 2]
            rep.oblige("Err" in last and "Ok" not in last, "suffix", "%s leaves the suffix away (when %s)" % (at, conds(cs)))
    for k in ("primary", "secondary", "named", "full"):
        rep.floor(k + " tags", kinds.get(k, 0), 1)
    rep.floor("unknown handles", unknown, 1)
    rep.samples = sorted(kinds)
    return n


def runs(g, F, c, ends):
    """The text runs up to a space, a line break or one of the given symbols."""
    P = g.preds = getattr(g, "preds", None) or Preds(g.d)
    sure, may = P.sat(P.value(F, c[2][1]))
    return not may & ({10, 13, 32} | ends) and sure >= set(range(33, 127)) - {60, 62} and sure >= set(range(128, 256)) and (ends or sure >= {60, 62})


def first(s):
    """The text directly after the first mark."""
    return [c for c, _ in s[1]] == ["identifier"] and [c for c, _ in s[0] if c in ("sym", "identifier", "take_while", "sym_set", "sym_seq")][-1:] in (["sym"], ["sym_set"], ["sym_seq"]) and not any(c == "identifier" for c, _ in s[0])


def table(g, F, v):
    """The value is the parser's table of handles, unchanged."""
    return g.trace(F, V(single(v)[1]) if type(single(v)) is tuple and single(v)[0] == "pj" and single(v)[2] == "tag" else v, "tag") == IN("self", "tag") or v == IN("self", "tag")


def declare(rep, g):
    F, rows = g.run("directive")
    at = g.where("directive")
    n = 0
    kinds = {}
    for cs, x, end, ev in rows:
        n += 1
        t = tested(cs)
        last = g.trace(F, end, "tag")
        ins = [e for e in ev if re.search(r"::insert$", re.sub(r" <.*$", "", e[0])) and len(e[1]) == 3]
        is_tag = any(oname(c) == "sym_seq" and w == "Ok" and lit(c[2][1]) == "TAG" for c, w in t.items())
        if not is_tag:
            rep.oblige(last == IN("self", "tag") and not ins, "other", "%s changes the table of handles without a declaration (when %s)" % (at, conds(cs)))
            continue
        if Ok(x) is None:
            rep.oblige(Err(x) is not None, "result", "%s gives %s" % (at, show(x, 100)))
            continue
        if not rep.oblige(len(ins) == 1, "insert", "%s makes %d entries for a declaration (when %s)" % (at, len(ins), conds(cs))):
            continue
        m, k, v = ins[0][1]
        rep.oblige(table(g, F, m), "target", "%s puts the declaration into %s" % (at, show(m, 100)))
        a = single(F.unfold(last))
        rep.oblige(type(a) is tuple and a[0] == "op" and a[1].endswith("insert!0") and a[2][1:] == (k, v), "kept", "%s ends with the table %s" % (at, show(last, 160)))
        bangs = marks(F, t, 33)
        ids = [w for c, w in t.items() if oname(c) == "identifier"]
        key, val = pieces(F, k) or [], pieces(F, v) or []
        if len(bangs) == 1:
            kind, good = "primary", key == ["!"] and ids == ["Err"]
        elif ids == ["Ok"]:
            kind = "named"
            s = len(key) == 1 and type(key[0]) is tuple and span(F, V(key[0]))
            good = bool(s) and first(s)
        else:
            kind, good = "secondary", key == ["!!"] and ids == ["Err"]
        kinds[kind] = kinds.get(kind, 0) + 1
        rep.oblige(good and len(bangs) in (1, 2), "declare:" + kind, "%s declares %s for a %s handle (when %s)" % (at, [q if type(q) is str else show(V(q), 60) for q in key], kind, conds(cs)))
        s = len(val) == 1 and type(val[0]) is tuple and span(F, V(val[0]))
        # the text after the space which follows the marks
        good = bool(s) and [c for c, _ in s[1]] == ["take_while"] and [c for c, _ in s[0] if c not in ("set", "forward")][-1:] == ["ws"] and [c for c, _ in s[0]].count("sym") >= len(bangs) and runs(g, F, s[1][0][1], set())
        rep.oblige(good, "prefix:" + kind, "%s declares the prefix %s" % (at, [q if type(q) is str else show(V(q), 100) for q in val]))
    for k in ("primary", "secondary", "named"):
        rep.floor(k + " declarations", kinds.get(k, 0), 1)
    return n


def entries(F, v):
    """The pairs of a map which was filled in one go."""
    a = single(F.unfold(v))
    out = []
    for _ in range(20):
        if type(a) is not tuple or a[0] != "op":
            return None
        s = re.sub(r" <.*$", "", a[1]).split("::")[-1]
        if s == "insert!0":
            out.append((pieces(F, a[2][1]), pieces(F, a[2][2])))
            a = single(F.unfold(a[2][0]))
        elif s in ("new", "default", "from", "from_iter", "collect", "into_iter", "extend!0", "into"):
            for x in a[2]:
                y = single(F.unfold(x))
                while type(y) is tuple and y[0] == "op" and re.sub(r" <.*$", "", y[1]).split("::")[-1] in ("into_iter", "iter", "cloned"):
                    y = single(F.unfold(y[2][0]))
                if type(y) is tuple and y[0] == "adt" and y[1] == "array":
                    for z in y[3][::-1]:
                        p = single(F.unfold(z))
                        if type(p) is not tuple or p[0] != "adt" or len(p[3]) != 2:
                            return None
                        out.append((pieces(F, p[3][0]), pieces(F, p[3][1])))
                elif s != "extend!0" or x is not a[2][0]:
                    return None
            if s != "extend!0":
                return out[::-1]
            a = single(F.unfold(a[2][0]))
        else:
            return None
    return None


def start(rep, g, d):
    k = next((k for k in d["bodies"] if re.match(r"^parser::base::Parser::<.*>::new$", k)), None)
    if not rep.need(k, "new", "the parser's constructor is missing"):
        return
    F = g.flow("new")
    for cs, x, mem, ev in F.run(k, [IN("doc")]):
        p = g.part(x, "tag")
        es = p is not None and entries(F, p)
        if not rep.oblige(es is not None and es is not False, "start", "%s starts with the handles %s" % (where(d, k), show(p or ANY, 200))):
            continue
        got = {}
        for a, b in es:
            got[tuple(a) if a is not None else None] = b
        rep.oblige(got == {("!",): [], ("!!",): [PREFIX]}, "start", "%s starts with the handles %s" % (where(d, k), got))
    seen = set(F.visited) | {k}
    for m in ("tag", "directive"):
        seen |= set(g.run(m)[0].visited) | {g.keys[m]}
    for k in sorted(g.writers("Parser", {"tag"})):
        rep.oblige(any(k.split(" <")[0] == v.split(" <")[0] for v in seen), "writes:" + k.split(" <")[0], "%s changes the table of handles" % where(d, k))


def lit(v):
    a = single(v)
    if type(a) is not tuple:
        return None
    if a[0] == "c":
        return a[1].decode("latin1") if type(a[1]) is bytes else a[1] if type(a[1]) is str else None
    if a[0] == "adt" and a[1] == "array":
        xs = [single(x) for x in a[3]]
        return "".join(chr(x[1]) for x in xs) if all(type(x) is tuple and x[0] == "c" and type(x[1]) is int for x in xs) else None
    return None
