import facts
from grammar import *
from floats import *
from preds import Preds
from ends import *
from c22 import DEC

LEVEL = "proof"
KEYWORDS = {w: k for k, ws in ((("Null",), ("~", "null", "Null", "NULL")), (("Bool", True), ("true", "True", "TRUE")), (("Bool", False), ("false", "False", "FALSE")),
                               (("Float", "NaN"), (".nan", ".NaN", ".NAN")), (("Float", "inf"), (".inf", ".Inf", ".INF")), (("Float", "-inf"), ("-.inf", "-.Inf", "-.INF"))) for w in ws}
# extensions the reader may have, the same ones C29 allows
ALSO = {"+.inf", "+.Inf", "+.INF"}
OTHER = ["", "a", "n", "N", "nul", "nullx", "xnull", "nUll", "NuLL", "none", "None", "nil", "tRue", "TrUe", "truex", "t", "T", "y", "Y", "yes", "Yes", "YES", "no", "No", "on", "On", "ON", "off",
         "fAlse", "FAlSE", "falsey", "f", "nan", "NaN", "inf", "Inf", "-inf", "infinity", ".infx", ".Nan", ".nAN", ".iNF", "-.nan", "--.inf", "~~", "-", "+", ".", "zz", "0", "1", "Null ", "null null"]
END = frozenset(b":{}[] ,\n\r")
SIGN, DOT, EXP, PM = frozenset(b"-"), frozenset(b"."), frozenset(b"eE"), frozenset(b"+-")
NUMBERS = {"float": [(SIGN, 0, 1), (DEC, 1, None), (DOT, 1, 1), (DEC, 0, None)],
           "sci_float": [(SIGN, 0, 1), (DEC, 1, None), (EXP, 1, 1), (PM, 0, 1), (DEC, 1, None)]}


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("scalar", "scalar_flow", "scalar_term", "float", "sci_float", "int", "bound", "string_plain", "string_quoted", "text")):
        return
    rep.rule = ("Provenance dataflow: every way of the scalar reader to a content is taken under the tests which the documented form of its kind needs; the spelling table is evaluated for every documented word and "
                "for words near to them; the texts of the number readers are compared as languages with the documented forms; what may follow a number is evaluated for gap, comment and boundary.")
    rep.assume = ["rustc's MIR", "comparisons and case conversions of std"]
    n = words(rep, g)
    order(rep, g)
    for m in NUMBERS:
        numbers(rep, g, m)
    for m in ("float", "sci_float", "int"):
        ends(rep, g, m)
    boundary(rep, g)
    rep.cov.update(words=len(KEYWORDS) + len(OTHER), contents=n)


# ---------------------------------------------------------------- words
class Open(Exception):
    pass


def plain(v):
    a = single(v)
    return type(a) is tuple and a[0] == "pj" and type(a[1]) is tuple and a[1][0] == "pj" and oname(a[1][1]) == "string_plain" and a[1][2] == "Ok"


def mentions(F, v, what):
    return any(what(V(a)) for a in subatoms(F, v))


def ev(F, v, w):
    """The value of a term in which the plain text is the word."""
    if plain(v):
        return w
    a = single(F.unfold(v))
    if type(a) is not tuple:
        raise Open()
    if a[0] == "c":
        x = a[1]
        return x.decode("latin1") if type(x) is bytes else x[1] if type(x) is tuple and x[:1] == ("char",) else x
    if a[0] == "adt" and a[1] in ("array", "tuple"):
        return [ev(F, x, w) for x in a[3]]
    if a[0] == "op":
        n = re.sub(r" <.*$", "", a[1]).split("::")[-1]
        xs = [ev(F, x, w) for x in a[2]]
        if n in ("as_str", "deref", "as_ref", "borrow", "clone", "to_string", "to_owned", "as_bytes", "into", "from", "as_slice", "iter"):
            return xs[0]
        if n in ("eq", "ne") and len(xs) == 2:
            return (xs[0] == xs[1]) == (n == "eq")
        if n == "eq_ignore_ascii_case":
            return xs[0].lower() == xs[1].lower()
        if n in ("to_lowercase", "to_ascii_lowercase"):
            return xs[0].lower()
        if n in ("to_uppercase", "to_ascii_uppercase"):
            return xs[0].upper()
        if n == "trim":
            return xs[0].strip(" ")
        if n == "contains" and type(xs[0]) is list or n == "contains" and type(xs[1]) is str:
            return xs[1] in xs[0]
        if n in ("starts_with", "ends_with") and type(xs[1]) is str:
            return xs[0].startswith(xs[1]) if n[0] == "s" else xs[0].endswith(xs[1])
        if n == "len":
            return len(xs[0])
        if n == "is_empty":
            return not xs[0]
        if n in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return {"Eq": xs[0] == xs[1], "Ne": xs[0] != xs[1], "Lt": xs[0] < xs[1], "Le": xs[0] <= xs[1], "Gt": xs[0] > xs[1], "Ge": xs[0] >= xs[1]}[n]
    raise Open()


def content(F, v):
    """The content value of a pointer to content."""
    for _ in range(8):
        a = single(F.unfold(v))
        if type(a) is tuple and a[0] == "adt" and a[1] == YAML:
            return a
        if type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and re.search(r"new_rc|::new|::into|::from", a[1]):
            v = a[2][0]
            continue
        return None


def kind(F, y, w):
    """What the content is when the plain text is w."""
    if y[2] == "Null":
        return ("Null",)
    try:
        x = ev(F, y[3][0], w)
    except Open:
        return (y[2], "?")
    return (y[2], x)


def words(rep, g):
    F, rows = g.run("scalar_term")
    at = g.where("scalar_term")
    n = 0
    cases = []
    for cs, x, end, e in rows:
        ok = Ok(x)
        if ok is None:
            continue
        t = tested(cs)
        y = content(F, ok)
        n += 1
        if any(oname(c) == "string_plain" and w == "Ok" for c, w in t.items()):
            if rep.oblige(y is not None, "content", "%s reads a plain text as %s (when %s)" % (at, show(ok, 80), conds(cs))):
                cases.append(([(c, w) for c, w in cs if type(w) is bool and mentions(F, V(c), plain)], y))
            continue
        if y is None:
            # an alias or a collection
            continue
        if y[2] in ("Null", "Bool"):
            rep.oblige(y[2] == "Null", "bool", "%s makes a boolean of no plain text (when %s)" % (at, conds(cs)))
            left = {oname(c) for c, w in t.items() if w in ("Err", "Mismatch")} | {oname(c) for c, w in t.items() if w == "Mismatch"}
            # nothing is there
            rep.oblige({"string_plain", "int", "float", "sci_float", "seq_flow", "map_flow"} <= left, "nothing", "%s reads null where %s was not tried" % (at, sorted({"string_plain", "int", "float", "sci_float", "seq_flow", "map_flow"} - left)))
        if any(oname(c) == "string_quoted" and w == "Ok" for c, w in t.items()):
            rep.oblige(y[2] == "Str", "quoted", "%s reads a quoted text as %s" % (at, y[2]))
            rep.oblige(y[2] != "Str" or mentions(F, y[3][0], lambda v: oname(single(v)) == "string_quoted"), "quoted text", "%s reads a quoted text as the string %s" % (at, show(y[3][0] if y[3] else V(y), 80)))
    rep.floor("plain contents", len(cases), 2)
    for w in list(KEYWORDS) + OTHER:
        got = set()
        for cs, y in cases:
            try:
                if all(ev(F, V(c), w) == o for c, o in cs):
                    got.add(kind(F, y, w))
            except Open:
                got.add("a test which is not decided")
        want = KEYWORDS.get(w, ("Str", w))
        rep.oblige(got == {want}, "word:" + w, "%s reads the plain text %r as %s, not as %s" % (at, w, sorted(map(str, got)), want))
    # words which are compared with and are not documented
    for cs, y in cases:
        for c, o in cs:
            for a in subatoms(F, V(c), stop=plain):
                w = ctext(V(a)) if a[0] == "c" else None
                if w is not None and o is True and w not in KEYWORDS and w not in ALSO:
                    try:
                        k = kind(F, y, w)
                    except Exception:
                        k = None
                    rep.oblige(k == ("Str", w), "undocumented:" + w, "%s reads the plain text %r as %s" % (at, w, k))
    rep.samples = ["%r is %s" % (w, k) for w, k in list(KEYWORDS.items())[:20]]
    return n


# ---------------------------------------------------------------- order
# what must have been refused before
FIRST = {"scalar_term": {"string_plain": {"float", "sci_float", "int", "anchor_use", "string_quoted:39", "string_quoted:34"}, "seq_flow": {"string_quoted:34"}, "map_flow": {"string_quoted:34"}},
         "scalar": {"scalar_term": {"string_literal", "string_folded", "seq", "map"}, "map": {"string_literal", "string_folded"}, "seq": {"string_literal", "string_folded"}}}


def order(rep, g):
    for m, need in FIRST.items():
        F, rows = g.run(m)
        n = 0
        for cs, x, end, e in rows:
            t = tested(cs)
            taken = {oname(c) for c, w in t.items() if w == "Ok"}
            refused = set()
            for c, w in t.items():
                if w in ("Err", "Mismatch"):
                    refused.add(oname(c))
                    if oname(c) == "string_quoted" and len(c[2]) > 1:
                        q = single(c[2][1])
                        if type(q) is tuple and q[0] == "c":
                            refused.add("string_quoted:%s" % (q[1],))
            for k, first in need.items():
                if k in taken:
                    n += 1
                    rep.oblige(first <= refused, "order:%s" % k, "%s takes the result of %s where %s was not refused before (when %s)" % (g.where(m), k, sorted(first - refused), conds(cs)))
            for k in ("string_literal", "string_folded"):
                if k in taken and Ok(x) is not None:
                    y = [a for a in subatoms(F, Ok(x)) if a[0] == "adt" and a[1] == YAML]
                    rep.oblige(bool(y) and all(a[2] == "Str" and mentions(F, a[3][0], lambda v: oname(single(v)) == k) for a in y), "block:%s" % k, "%s makes %s of a block text" % (g.where(m), [a[2] for a in y]))
        rep.floor("ways of %s" % m, n, 3)


# ---------------------------------------------------------------- numbers
def piece(P, F, tok):
    """(bytes, least, most) of a consumed piece."""
    m, c, w = tok
    if w != "Ok":
        return None
    if m == "take_while":
        sure, may = P.sat(P.value(F, c[2][1]))
        o = single(c[2][2])
        if sure != may or type(o) is not tuple or o[0] != "adt":
            return None
        ns = [single(x) for x in o[3]]
        if any(type(x) is not tuple or x[0] != "c" for x in ns):
            return None
        ns = [x[1] for x in ns]
        least, most = {"One": (1, 1), "More": (ns + [0])[:1] + [None], "Range": ns}[o[2]]
        return frozenset(sure), least, most
    if m in ("sym", "sym_set", "sym_seq"):
        x = P.value(F, c[2][1])
        if type(x) is int:
            return frozenset([x]), 1, 1
        if type(x) is tuple and all(type(b) is int for b in x):
            if m == "sym_set":
                return frozenset(x), 1, 1
            if len(x) == 1:
                return frozenset(x), 1, 1
    return None


class Nfa:
    """The union of sequences of (bytes, least, most)."""

    def __init__(self, seqs):
        self.step, self.eps, self.n = {}, {}, 1
        self.final = set()
        for s in seqs:
            at = 0
            for bs, lo, hi in s:
                for _ in range(lo):
                    at = self.go(at, bs)
                if hi is None:
                    new = self.new()
                    self.eps.setdefault(at, set()).add(new)
                    self.step.setdefault(new, []).append((bs, new))
                    at = new
                else:
                    out = self.new()
                    self.eps.setdefault(at, set()).add(out)
                    for _ in range(hi - lo):
                        at = self.go(at, bs)
                        self.eps.setdefault(at, set()).add(out)
                    at = out
            self.final.add(at)

    def new(self):
        self.n += 1
        return self.n

    def go(self, at, bs):
        x = self.new()
        self.step.setdefault(at, []).append((bs, x))
        return x

    def close(self, s):
        out, todo = set(s), list(s)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def next(self, s, b):
        return self.close({y for x in s for bs, y in self.step.get(x, ()) if b in bs})


def differ(a, b):
    """A text which only one of the two accepts."""
    bytes_ = sorted({x for n in (a, b) for l in n.step.values() for bs, _ in l for x in bs})
    # one byte of each class is enough
    cls = {}
    for x in bytes_:
        cls.setdefault(tuple(x in bs for n in (a, b) for l in n.step.values() for bs, _ in l), x)
    todo = [(a.close({0}), b.close({0}), b"")]
    seen = {todo[0][:2]}
    while todo:
        p, q, w = todo.pop(0)
        if bool(p & a.final) != bool(q & b.final):
            return w.decode("latin1"), bool(p & a.final)
        for x in cls.values():
            k = (a.next(p, x), b.next(q, x))
            if k not in seen:
                seen.add(k)
                todo.append(k + (w + bytes([x]),))
    return None


def numbers(rep, g, m):
    F, rows = g.run(m)
    P = Preds(g.d)
    at = g.where(m)
    seqs = []
    for cs, x, end, e in rows:
        ok = Ok(x)
        if ok is None:
            continue
        t = tested(cs)
        v = ok
        # 1.0 is kept as 1
        for _ in range(6):
            a = single(F.unfold(v))
            if type(a) is tuple and a[0] == "op" and oname(a) != "text" and (re.search(r"(to_string|to_owned|into|from|deref|as_str|clone|as_ref|borrow)( <|$)", a[1]) and len(a[2]) == 1 or
                                                                              re.search(r"trim_end_matches( <|$)", a[1]) and ctext(a[2][1]) == ".0"):
                v = a[2][0]
            else:
                break
        toks = g.textof(F, v, t)
        if not rep.oblige(toks is not None, "text:" + m, "%s gives %s, not the text it has read" % (at, show(ok, 120))):
            continue
        ps = [piece(P, F, k) for k in toks]
        if rep.oblige(None not in ps, "pieces:" + m, "%s reads %s" % (at, [k[0] for k, p in zip(toks, ps) if p is None])):
            seqs.append(ps)
    if rep.floor("texts of " + m, len(seqs), 1) is False or not seqs:
        return
    w = differ(Nfa(seqs), Nfa([NUMBERS[m]]))
    rep.oblige(w is None, "form:" + m, "%s %s the text %r" % (at, "reads" if w and w[1] else "does not read", w and w[0]))


# ---------------------------------------------------------------- what follows
def after(F, a, b):
    """The state atom a comes from b, over calls which move by blanks only: has it moved?"""
    moved = None
    for _ in range(60):
        if a == b:
            return moved or "start"
        x = single(F.unfold(V(a)))
        if type(x) is not tuple or x[0] != "op" or not x[1].endswith("!0"):
            return None
        if x == b:
            return moved or "start"
        n = oname(("op", x[1][:-2], x[2]))
        if n == "ws":
            moved = "gap"
        elif n == "count":
            moved = "gap"
        elif n not in ("text", "food", "food_str", "forward", "indicator"):
            return None
        a = single(x[2][0])
    return None


def ends(rep, g, m):
    """The number is taken exactly when a boundary, or a gap and a comment, follows."""
    F, rows = g.run(m, ("count",))
    at = g.where(m)
    F2 = {}
    count = {}
    for cs, x, end, e in rows:
        t = tested(cs)
        ok = Ok(x)
        f = {"gap": None, "hash": None, "bound": None}
        odd = False
        wsafter = None
        # the number has been read: a gap is looked for, or a boundary
        tail = [c for c, w in t.items() if oname(c) == "ws"]
        bounds = [(c, w) for c, w in t.items() if oname(c) == "bound"]
        if not tail and not bounds:
            if ok is not None:
                rep.oblige(False, "end:" + m, "%s accepts a number without looking where it ends (when %s)" % (at, conds(cs)))
            continue
        if any(w != "Ok" and mode(c) == 0 for c, w in t.items() if oname(c) == "ws"):
            # More(0) does not fail
            continue
        good = True
        for c, w in bounds:
            # the boundary is looked for behind the whole gap
            l = chain(F, c[2][0])
            seen = []
            for n, b, c2 in l:
                if n in ("ws",):
                    seen.append((n, c2))
                elif n in ("text", "food", "food_str", "forward", "indicator"):
                    continue
                else:
                    break
            rep.oblige(any(mode(c2) == 0 or mode(c2) == 1 for n, c2 in seen), "behind the gap:" + m, "%s looks for the boundary before the gap is read (when %s)" % (at, conds(cs)))
            f["bound"] = w == "Ok"
        for c, w in t.items():
            if oname(c) == "ws" and mode(c) == 1:
                f["gap"] = w == "Ok"
        for c, w in cs:
            k = gapof(F, c, w)
            if k is not None:
                f["gap"] = k
            k = hashof(F, c, w)
            if k is not None:
                f["hash"] = k
        # every case it stands for
        for gap in (True, False):
            for h in (True, False):
                for b in (True, False):
                    if any(f[k] is not None and f[k] != v for k, v in (("gap", gap), ("hash", h), ("bound", b))) or h and b:
                        # a comment sign is no boundary
                        continue
                    want = b or gap and h
                    got = ok is not None
                    count[gap, h, b] = count.get((gap, h, b), 0) + 1
                    rep.oblige(want == got, "follow:" + m, "%s %s a number with %s gap, %s and %s boundary behind it (when %s)" % (at, "accepts" if got else "refuses", "a" if gap else "no", "a comment sign" if h else "none", "a" if b else "no", conds(cs)))
    for c in ((True, True, False), (True, False, True), (False, False, True), (False, False, False)):
        rep.floor("%s followed by %s" % (m, c), count.get(c, 0), 1)


# ---------------------------------------------------------------- the boundary
def boundary(rep, g):
    F, rows = g.run("bound")
    P = Preds(g.d)
    at = g.where("bound")
    for b in [None] + list(range(256)):
        got = set()
        for cs, x, end, e in rows:
            sure = True
            fits = True
            for c, w in cs:
                v = nextis(P, F, c, w, b)
                if v is None and oname(c) != "ws" and not isws(c):
                    sure = False
                elif v is False:
                    fits = False
            if not fits:
                continue
            if not sure:
                got.add("?")
                continue
            a = single(x)
            ok = Ok(x) is not None or type(a) is tuple and a[0] == "op" and oname(a) in ("ws", "gap", "inv") and mode(a) == 0
            got.add(ok)
        want = b is None or b in END
        rep.oblige(got == {want}, "boundary:%s" % ("end" if b is None else chr(b)), "%s takes %s %sas a boundary" % (at, "the end of the text" if b is None else repr(chr(b)), "not " if want else ""))


def isws(c):
    x = single(c[2][0]) if type(c) is tuple and c[0] == "op" and c[1].startswith("discr") else None
    return type(x) is tuple and oname(x) in ("ws",) and mode(x) == 0


def nextis(P, F, c, w, b):
    """Does the condition hold when b is the next byte (None: the text is at its end)?"""
    if type(c) is not tuple or c[0] != "op":
        return None
    n = re.sub(r" <.*$", "", c[1]).split("::")[-1]
    if n == "is_empty" and oname(single(c[2][0])) in ("food", "food_str") and fresh(F, single(c[2][0])[2][0]):
        return (b is None) == w
    if c[1] == "discr":
        x = single(c[2][0])
        if type(x) is tuple and x[0] == "op" and oname(x) in ("sym", "sym_set") and fresh(F, x[2][0]):
            k = P.value(F, x[2][1])
            k = {k} if type(k) is int else set(k) if type(k) is tuple and all(type(z) is int for z in k) else None
            if k is not None:
                return (b in k) == (w == "Ok")
        if type(x) is tuple and x[0] == "op" and oname(x) == "take_while" and fresh(F, x[2][0]):
            p = piece(P, F, ("take_while", x, "Ok"))
            if p and p[1] == 1:
                return (b in p[0]) == (w == "Ok")
        # the first byte of the food
        if type(x) is tuple and x[0] == "op" and re.search(r"::(first|get|next)( <|$)", x[1]) and any(oname(a) == "food" for a in subatoms(F, V(x)) if a[0] == "op"):
            return (w == "Some") == (b is not None)
    if n in ("eq", "ne", "Eq", "Ne") and type(w) is bool:
        for i in (0, 1):
            k = single(c[2][i])
            if type(k) is tuple and k[0] == "c" and type(k[1]) is int and any(oname(a) == "food" for a in subatoms(F, c[2][1 - i]) if a[0] == "op"):
                return (b == k[1]) == (w == (n.lower() == "eq"))
    if n == "contains" and type(w) is bool:
        k = P.value(F, c[2][0])
        if type(k) is tuple and all(type(z) is int for z in k):
            return (b in k) == w
    return None


def fresh(F, v):
    """Nothing has been taken yet, on this way."""
    return all(n in ("sym", "sym_set", "take_while", "food", "food_str", "text") for n, _, _ in chain(F, v)) if single(F.unfold(v)) is not None else False
