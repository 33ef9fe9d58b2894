import facts
from grammar import *
from floats import *
from strings import *
from preds import Preds
import c23
import c29

LEVEL = "proof"
FLOAT = frozenset(b"0123456789+-.eE")          # what the text of a finite float is made of
WHOLE = frozenset(b"0123456789-")              # ... and what it needs more than to be read as a float
KINDS = ("Null", "Bool", "Int", "Float", "Str", "Alias")


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    rep.rule = ("Provenance dataflow of the text which is written for each kind of scalar: a string is put in as it is only where the reading of that very text, alone and as an "
                "item, is known to have given exactly this string; else all of it goes through the quoting function (C23), or it is known to have several lines. A float is put in "
                "as it is only where its text is known to have more than digits, and else gets a fraction; the other scalars are written as their stored text or keyword.")
    rep.assume = ["rustc's MIR", "what std's lines and formatting do", "the quoting function is inverted by reading (C23)", "the special floats are C29's"]
    k = next((k for k in d["bodies"] if re.match(r"^dumper::Dumper::<'a, R>::dump( <R>|$)", k)), None)
    adt = next((a for a in d["adts"] if re.search(r"dumper::Dumper$", a)), None)
    if not rep.need(k and adt, "dump", "the dumper is missing"):
        return
    holder = [f["name"] for f in d["adts"][adt]["variants"][0]["fields"] if "Node<" in f["ty"] and "Map" not in f["ty"] and "[" not in f["ty"]]
    quotes = list(c23.quoting(d))
    if not rep.need(len(holder) == 1 or None, "Dumper.node", "the dumper's node is not recognised") or not rep.need(quotes or None, "quote", "the quoting function is not recognised"):
        return
    opaque = [r"(?:Parser::<[^<>]*>|Parser<[^<>]*>>|Loader::<[^<>]*>|Loader<[^<>]*>>)::(?!(err|indicator|pos)\b)\w+( <|$)", r"^parser::parse( <|$)"] + ["^%s( <|$)" % re.escape(q) for q in quotes]
    at = where(d, k)
    P = Preds(d)
    n = {}
    for kind in KINDS:
        F = Flow(d, opaque=opaque)
        F.limit, F.parts, F.maxconds = 100000, 500, 80
        for cs, x, mem, ev in F.run(k, [IN("self")], {("self", holder[0], m.yaml): kind, ("self", holder[0]): kind}):
            ps = pieces(F, x)
            if not rep.oblige(bool(ps), kind, "%s writes %s for a %s" % (at, show(x, 120), kind)):
                continue
            val = ("in", ("self", holder[0], m.yaml, kind, "0"))
            way = globals()["a_" + kind.lower()](rep, F, P, at, cs, ps, val, quotes)
            n[way] = n.get(way, 0) + 1
    for w in ("plain", "quoted", "lines", "float", "fraction", "integer", "boolean", "null", "alias"):
        rep.floor(w, n.get(w, 0), 1)
    rep.cov.update(paths=sum(n.values()), ways=len(n))
    rep.samples = ["%s: %d paths" % x for x in sorted(n.items(), key=str)]


def apart(ps):
    """What is written before: an anchor and a tag, each with a blank after it."""
    if not ps:
        return True
    return type(ps[-1]) is str and ps[-1].endswith(" ") and not re.search(r"[\"'|]", "".join(p for p in ps if type(p) is str))


def a_null(rep, F, P, at, cs, ps, val, quotes):
    t = ps[-1].split(" ")[-1] if type(ps[-1]) is str else None
    rep.oblige(t in ("null", "~", "Null", "NULL"), "null", "%s writes %s for null" % (at, t))
    return "null"


def a_bool(rep, F, P, at, cs, ps, val, quotes):
    t = ps[-1].split(" ")[-1] if type(ps[-1]) is str else None
    known = [w for c, w in cs if c == val and type(w) is bool]
    good = ps[-1] == val and apart(ps[:-1]) or t in ("true", "false") and known == [t == "true"]
    rep.oblige(good, "boolean", "%s writes %s for a boolean which is %s" % (at, names(ps), known))
    return "boolean"


def a_int(rep, F, P, at, cs, ps, val, quotes):
    rep.oblige(ps[-1] == val and apart(ps[:-1]), "integer", "%s writes %s for an integer" % (at, names(ps)))
    return "integer"


def a_alias(rep, F, P, at, cs, ps, val, quotes):
    rep.oblige(ps[-1] == val and type(ps[-2]) is str and ps[-2].split(" ")[-1] == "*" if len(ps) > 1 else False, "alias", "%s writes %s for an alias" % (at, names(ps)))
    return "alias"


def a_float(rep, F, P, at, cs, ps, val, quotes):
    cmp_ = c29.compared(cs, lambda y: single(y) == val)
    if any(cmp_.get(s) for s in c29.CANON) or any(lettered(c, val) for c, w in cs if w is True):
        return "special"                        # C29
    # what is known of the text's bytes
    more = plain = False
    for c, w in cs:
        r = byclass(F, P, c, w, val)
        if r:
            more |= r[0]
            plain |= r[1]
    if ps[-1] == val:
        rep.oblige(apart(ps[:-1]) and more, "float", "%s writes a float as it is, which may be read as an integer (when %s)" % (at, conds(cs)))
        return "float"
    good = ps[-1] in (".0", ".") and ps[-2:-1] == [val] and apart(ps[:-2])
    rep.oblige(good and plain, "float", "%s writes %s for a float which %s (when %s)" % (at, names(ps), "has no fraction" if plain else "may have a fraction", conds(cs)))
    return "fraction"


def lettered(c, val):
    """The text has a letter which no finite number has."""
    if type(c) is tuple and c[0] == "op" and re.search(r"::(ends_with|starts_with|contains)( <.*)?$", c[1]) and len(c[2]) == 2 and single(c[2][0]) == val:
        t = ctext(c[2][1])
        return t is not None and not set(t.encode()) <= FLOAT
    return False


def byclass(F, P, c, w, val):
    """(some byte is outside of WHOLE, all are inside) from a test of the bytes or characters of the text."""
    if type(c) is not tuple or c[0] != "op" or type(w) is not bool or len(c[2]) != 2:
        return None
    nm = re.sub(r" <.*$", "", c[1]).split("::")[-1]
    src = single(F.unfold(c[2][0]))
    if nm in ("all", "any"):
        while type(src) is tuple and src[0] == "op" and re.search(r"(bytes|chars|into_iter|iter|as_bytes|copied|cloned|by_ref)(!0)?$", src[1].split(" <")[0]):
            src = single(F.unfold(src[2][0]))
        if src != val:
            return None
        sure, may = P.sat(P.value(F, c[2][1]))
    elif nm in ("contains", "starts_with", "ends_with") and src == val:
        p = single(F.unfold(c[2][1]))
        if type(p) is tuple and p[0] == "adt" and type(p[1]) is tuple:
            sure, may = P.sat(P.value(F, c[2][1]))
        else:
            xs = [p] if type(p) is tuple and p[0] == "c" else [single(q) for q in p[3]] if type(p) is tuple and p[0] == "adt" and p[1] == "array" else None
            xs = xs and [q[1][1] if type(q) is tuple and type(q[1]) is tuple else q[1] if type(q) is tuple else None for q in xs]
            if not xs or not all(type(q) is str and len(q) == 1 or type(q) is int for q in xs):
                return None
            sure = may = {ord(q) if type(q) is str else q for q in xs}
        if nm != "contains" and not w:
            return None
        nm = "any"
    else:
        return None
    sure, may = set(sure) & FLOAT, set(may) & FLOAT
    if nm == "all":
        return (True, False) if not w and WHOLE <= sure else (False, True) if w and may <= WHOLE else None
    return (True, False) if w and not may & WHOLE else (False, True) if not w and FLOAT - WHOLE - {43} <= sure else None


def a_str(rep, F, P, at, cs, ps, val, quotes):
    last = ps[-1]
    if last == val:
        back = [r for r in (readback(F, c, val) for c, w in cs if w is True) if r]
        # [document] in several comparisons
        back += piecewise(F, cs, val)
        rep.oblige(apart(ps[:-1]), "plain", "%s writes %s for a string" % (at, names(ps)))
        rep.oblige("root" in back, "root", "%s writes a string as it is without knowing that reading it alone gives the same string (when %s)" % (at, conds(cs)))
        rep.oblige("item" in back, "item", "%s writes a string as it is without knowing that reading it as an item gives the same string (when %s)" % (at, conds(cs)))
        return "plain"
    if type(last) is tuple and last[0] == "op" and any(last[1].split(" <")[0] == q.split(" <")[0] for q in quotes):
        rep.oblige(stem(F, last[2][0]) == val and apart(ps[:-1]), "quoted", "%s quotes %s, of a string" % (at, show(last[2][0], 100)))
        return "quoted"
    lit = "".join(p for p in ps if type(p) is str)
    rep.oblige(several(F, cs, val), "lines", "%s writes %s for a string which may have one line (when %s)" % (at, names(ps), conds(cs)))
    rep.oblige("|" in lit, "block", "%s writes %s for a string of several lines" % (at, names(ps)))
    return "lines"


def stem(F, v):
    a = single(F.unfold(v))
    while type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and re.match(SAME, re.sub(r" <.*$", "", a[1]).split("::")[-1]):
        a = single(F.unfold(a[2][0]))
    return a


def several(F, cs, val):
    """The string is known to have a line break in it."""
    for c, w in cs:
        if type(c) is not tuple or c[0] != "op":
            continue
        nm = re.sub(r" <.*$", "", c[1]).split("::")[-1]
        if c[1].startswith("discr") or nm == "discr":
            c = single(F.unfold(c[2][0]))
            if type(c) is not tuple or c[0] != "op":
                continue
            nm = re.sub(r" <.*$", "", c[1]).split("::")[-1]
        if nm in ("nth", "nth!0") and w in ("Some", True) and islines(F, c[2][0], val):
            k = single(c[2][1])
            if type(k) is tuple and k[0] == "c" and type(k[1]) is int and k[1] >= 1:
                return True
        nm = nm.lower()
        if nm in ("gt", "lt", "ge", "le"):
            for i in (0, 1):
                a, b = single(F.unfold(c[2][i])), single(c[2][1 - i])
                if type(a) is tuple and a[0] == "op" and re.search(r"::count( <.*)?$", a[1]) and islines(F, a[2][0], val) and type(b) is tuple and b[0] == "c" and type(b[1]) is int:
                    lo = {("gt", 0): b[1] + 1 if w else 0, ("ge", 0): b[1] if w else 0, ("lt", 1): b[1] + 1 if w else 0, ("le", 1): b[1] if w else 0,
                          ("lt", 0): 0 if w else b[1], ("le", 0): 0 if w else b[1] + 1, ("gt", 1): 0 if w else b[1], ("ge", 1): 0 if w else b[1] + 1}.get((nm, i), 0)
                    if lo >= 2:
                        return True
    return False


def islines(F, v, val):
    a = single(F.unfold(v))
    for _ in range(5):
        if type(a) is not tuple or a[0] != "op":
            return False
        nm = re.sub(r" <.*$", "", a[1]).split("::")[-1].rstrip("!0")
        if nm == "lines":
            return stem(F, a[2][0]) == val
        if nm not in ("into_iter", "by_ref", "fuse"):
            return False
        a = single(F.unfold(a[2][0]))
    return False


def doc(F, a, val):
    """("root" or "item") of the text given to a reading: the string, or the string as an item, and a line end."""
    if type(a) is not tuple or a[0] != "op" or oname(a) != "parse" or not a[2]:
        return None
    p = pieces(F, a[2][0])
    if p and p[-1:] == ["\n"]:
        p = p[:-1]
    return {1: "root", 2: "item"}.get(len(p)) if p and p[-1] == val and (len(p) == 1 or p[0] == "- ") else None


def result(F, v):
    """The reading whose documents these are."""
    a = single(F.unfold(v))
    return a[1][1] if type(a) is tuple and a[0] == "pj" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Ok" else None


def content(F, v):
    """The content of a node."""
    a = single(F.unfold(v))
    if type(a) is tuple and a[0] == "adt" and a[1] == NODE:
        ys = [c29.nodeyaml(F, x) for x in a[3]]
        ys = [y for y in ys if y]
        return ys[0] if len(ys) == 1 else None
    return None


def isnode(F, v, val, what):
    y = content(F, v) or c29.nodeyaml(F, v)
    if not y:
        return False
    if what == "root":
        return y[2] == "Str" and stem(F, y[3][0]) == val
    xs = arrayof(F, y[3][0]) if y[2] == "Seq" else None
    return bool(xs) and len(xs) == 1 and isnode(F, xs[0], val, "root")


def arrayof(F, v):
    a = single(F.unfold(v))
    for _ in range(4):
        if type(a) is tuple and a[0] == "adt" and a[1] == "array":
            return a[3]
        if type(a) is tuple and a[0] == "op" and len(a[2]) == 1:
            a = single(F.unfold(a[2][0]))
        else:
            return None
    return None


def readback(F, c, val):
    if type(c) is not tuple or c[0] != "op" or c[1] != "eq":
        return None
    for i in (0, 1):
        w = doc(F, result(F, c[2][i]), val)
        xs = w and arrayof(F, c[2][1 - i])
        if xs and len(xs) == 1 and isnode(F, xs[0], val, w):
            return w
    return None


def piecewise(F, cs, val):
    """One document, which is the string: two comparisons."""
    one, same = set(), set()
    for c, w in cs:
        if type(c) is not tuple or c[0] != "op" or c[1] != "eq" or w is not True:
            continue
        for i in (0, 1):
            a, o = single(F.unfold(c[2][i])), c[2][1 - i]
            if type(a) is tuple and a[0] == "op" and a[1].split(" <")[0].endswith("::len") and o == C(1):
                one.add(doc(F, result(F, a[2][0]), val))
            if type(a) is tuple and a[0] == "pj" and type(a[1]) is tuple and a[1][0] == "op":
                # equal nodes have equal contents
                a = a[1]
            if type(a) is tuple and a[0] == "op" and re.search(r"::index( <.*)?$", a[1]) and len(a[2]) == 2 and a[2][1] == C(0):
                k = doc(F, result(F, a[2][0]), val)
                if k and isnode(F, o, val, k):
                    same.add(k)
    return list(one & same)


def names(ps):
    return "[%s]" % ", ".join(repr(p) if type(p) is str else show(V(p), 60) for p in ps)
