import facts
from grammar import *
from preds import Preds
from ends import gapof, hashof

LEVEL = "proof"
DEC = frozenset(range(48, 58))
OCT = frozenset(range(48, 56))
HEX = frozenset(list(range(48, 58)) + list(range(65, 71)) + list(range(97, 103)))
INT = ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128")


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    m = Serde(rep, d)
    if not g.ok or not m.ok or not all(g.key(x) for x in ("int", "text", "sym", "take_while", "bound", "scalar_term")):
        return
    rep.rule = ("Provenance dataflow: the text of a recognised integer is made of one run of digits, with 0o or 0x before it exactly when the digits are of that base (the digit class is "
                "evaluated for all 256 bytes); each reader, given a text of the shape 0x.., 0o.. or plain, hands exactly the digits with that base to the conversion and keeps its value through checked conversions only.")
    rep.assume = ["rustc's MIR", "from_str_radix and parse of std read the digits of the base"]
    n = recognise(rep, g)
    k = readers(rep, m)
    rep.cov.update(forms=n, readings=k)


def bytesof(P, F, tok):
    """(set of bytes, is a run of at least one) of a consumed piece."""
    m, c, w = tok
    if m == "take_while":
        sure, may = P.sat(P.value(F, c[2][1]))
        o = single(c[2][2])
        if sure != may or type(o) is not tuple or o[0] != "adt":
            return None
        return frozenset(sure), o[2] == "More" and o[3] == (C(1),), o[2]
    if m in ("sym", "sym_set", "sym_seq"):
        x = P.value(F, c[2][1])
        return (frozenset([x] if type(x) is int else x), False, "One" if m != "sym_seq" or len(x) == 1 else "Seq") if type(x) in (int, tuple) and "?" not in (x if type(x) is tuple else ()) else None
    return None


def recognise(rep, g):
    F, rows = g.run("int")
    P = Preds(g.d)
    at = g.where("int")
    forms = {}
    for cs, x, end, ev in rows:
        ok = Ok(x)
        if ok is None:
            continue
        t = tested(cs)
        toks = g.textof(F, ok, t)
        if not rep.oblige(toks is not None, "text", "%s gives %s, not the text it has read" % (at, show(ok, 120))):
            continue
        toks = [bytesof(P, F, k) for k in toks]
        shape = None
        if None not in toks:
            body = toks[1:] if toks and toks[0][0] == {45} else toks
            if len(body) == 1 and body[0][:2] == (DEC, True):
                shape = "decimal"
            elif len(body) == 3 and body[0][:2] == (DEC, True) and body[1][2] == "One":
                want = {frozenset([111]): ("octal", OCT), frozenset([120]): ("hexadecimal", HEX)}.get(body[1][0])
                if want and body[2][:2] == (want[1], True) and zero(F, g, cs, t, body):
                    shape = want[0]
        rep.oblige(shape is not None, "form", "%s accepts %s (when %s)" % (at, [x and (classname(x[0]), x[2]) for x in toks], conds(cs)))
        if shape:
            forms[shape] = forms.get(shape, 0) + 1
        rep.oblige(any(oname(c) == "bound" and w == "Ok" for c, w in t.items()) or any(hashof(F, c, w) for c, w in cs) and any(gapof(F, c, w) for c, w in cs) or
                   any(hashof(F, c, w) for c, w in cs) and any(oname(c) == "count" and w == "Ok" for c, w in t.items()), "end", "%s accepts a number without looking where it ends (when %s)" % (at, conds(cs)))
    for f in ("decimal", "octal", "hexadecimal"):
        rep.floor(f + " forms", forms.get(f, 0), 1)
    # the integers of the grammar come from there
    S, srows = g.run("scalar_term")
    n = 0
    for cs, x, end, ev in srows:
        for a in (atoms(Ok(x)) if Ok(x) is not None else []):
            if type(a) is tuple and a[0] == "adt" and a[1] == YAML and a[2] == "Int":
                n += 1
                b = single(a[3][0])
                rep.oblige(type(b) is tuple and b[0] == "pj" and type(b[1]) is tuple and b[1][0] == "pj" and oname(b[1][1]) == "int" and b[1][2] == "Ok", "source", "%s makes the integer %s" % (g.where("scalar_term"), show(a[3][0], 100)))
    rep.floor("integers", n, 1)
    rep.samples = sorted(forms)
    return sum(forms.values())


def zero(F, g, cs, t, body):
    """The digits before the mark are known to be a single zero."""
    for c, w in cs:
        if type(c) is tuple and c[0] == "op" and c[1] == "eq" and w is True:
            for i in (0, 1):
                k = single(c[2][i])
                if type(k) is tuple and (k[0] == "c" and k[1] in ("0", b"0") or k[0] == "adt" and k[1] == "array" and k[3] == (C(48),)):
                    a = single(c[2][1 - i])
                    while type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and re.search(r"(as_bytes|as_str|deref|as_ref)$", a[1]):
                        a = single(a[2][0])
                    ts = type(a) is tuple and g.textof(F, V(a), t)
                    if ts and ts[-1][0] == "take_while" and len(ts) <= 2:
                        return True
    return False


def classname(s):
    return {DEC: "decimal digits", OCT: "octal digits", HEX: "hexadecimal digits"}.get(s) or "".join(map(chr, sorted(s)[:8]))


def hook(shape):
    """Operations on a text which is known to be a mark and digits."""
    mark = {"hex": "0x", "oct": "0o"}.get(shape)
    T, D, H = IN("text"), IN("digits"), IN("head")
    part = {"0x": "hex", "0o": "oct", "x": "hex", "o": "oct", "X": None, "O": None, "0X": None, "0O": None}

    def lit(v):
        a = single(v)
        if type(a) is tuple and a[0] == "c":
            return a[1].decode("latin1") if type(a[1]) is bytes else a[1][1] if type(a[1]) is tuple and a[1][0] == "char" else a[1]
        return None

    def f(F, st, f, args, t):
        nm = f.get("name") or (f.get("path") or "").split("::")[-1]
        args = [F.wname(st, a) for a in args]
        if nm in ("eq", "ne") and H in args and len(args) == 2:
            if any(lit(a) in part or lit(a) and not lit(a)[0].isdigit() for a in args):
                return [(st, C(nm == "ne"))]
        if not args or args[0] not in (T, D):
            return None
        own = args[0] == T
        if nm in ("get", "index", "split_at", "split_at_checked", "get_unchecked") and len(args) == 2 and own:
            r = single(args[1])
            two = type(r) is tuple and r[0] == "adt" and r[3] == (C(2),) and re.search(r"Range(To|From)\b", str(r[1])) or nm.startswith("split_at") and args[1] == C(2)
            if two:
                front = C(mark) if mark else H
                back = D if mark else IN("rest")
                v = V(("adt", "tuple", None, (front, back))) if nm.startswith("split_at") else front if "RangeTo" in str(r[1]) else back
                if nm in ("index", "split_at"):
                    return [(st, v)]
                some = V(("adt", "std::option::Option", "Some", (v,)))
                return [(st, some)] + ([] if mark else [(st, V(("adt", "std::option::Option", "None", ())))])
        if nm in ("contains", "starts_with") and len(args) == 2 and lit(args[1]) in part:
            p = lit(args[1])
            if not own or part[p] != shape:
                return [(st, C(False))]
            return [(st, C(nm == "contains" or len(p) == 2))]
        if nm in ("strip_prefix", "split_once") and len(args) == 2 and lit(args[1]) in part:
            p = lit(args[1])
            if own and part[p] == shape and nm == "strip_prefix" and len(p) == 2:
                return [(st, V(("adt", "std::option::Option", "Some", (D,))))]
            if own and part[p] == shape and nm == "split_once":
                left = C("") if len(p) == 2 else C("0")
                return [(st, V(("adt", "std::option::Option", "Some", (V(("adt", "tuple", None, (left, D))),))))]
            if nm == "strip_prefix" or part[p] != shape or not own:
                return [(st, V(("adt", "std::option::Option", "None", ())))]
        if nm in ("trim_start_matches", "replace", "replacen") and len(args) >= 2 and lit(args[1]) in ("0x", "0o"):
            hit = own and part[lit(args[1])] == shape and (nm == "trim_start_matches" or lit(args[2]) == "")
            return [(st, D if hit else args[0])]
        if nm == "index" and len(args) == 2:
            r = single(args[1])
            if type(r) is tuple and r[0] == "adt" and "RangeFrom" in str(r[1]) and r[3] == (C(2),) and own and mark:
                return [(st, D)]
        if nm in ("trim", "trim_start", "trim_end", "as_str", "to_lowercase", "to_ascii_lowercase", "deref", "as_ref") and len(args) == 1:
            return [(st, args[0])] if "lower" not in nm else None
        return None
    return f


def readers(rep, m):
    d, n = m.d, 0
    todo = [("as_int", m.key("node::Node::<R>::as_int")), ("as_number", m.key("node::Node::<R>::as_number"))]
    todo += [("deserialize_" + w, m.de_key("deserialize_" + w)) for w in INT + ("any", "f32", "f64")]
    ser = next((k for k in d["bodies"] if re.match(r"^<node::Node<R> as serde::Serialize>::serialize( <|$)|^serde::ser_node::<impl serde::Serialize for node::Node<R>>::serialize( <|$)", k)), None)
    todo.append(("serialize", ser))
    fs = d["adts"][NODE]["variants"][0]["fields"]
    node = V(("adt", NODE, None, tuple(V(("adt", YAML, "Int", (IN("text"),))) if f["name"] == m.yaml else IN("self", f["name"]) for f in fs)))
    for what, k in todo:
        if not rep.need(k, what, "%s is missing" % what):
            continue
        for shape, base, src in (("hex", 16, "digits"), ("oct", 8, "digits"), ("dec", 10, "text")):
            F = Flow(d)
            F.hook = hook(shape)
            good = 0
            for cs, x, _, ev in F.run(k, [node, IN("visitor")][:d["bodies"][k]["argc"]]):
                n += 1
                # each conversion gets these digits with this base
                for c in {a for v in [x] for a in atoms(v)} | {a for c, w in cs for a in atoms(V(c))}:
                    b = convert(c)
                    if b is not None:
                        rep.oblige(b == (src, base), "%s:%s" % (what, shape), "%s converts %s with base %s for a text which is %s" % (where(d, k), b[0], b[1], shape))
                e = external(x)
                vals = list(e[2])[1:] if e and re.search(r"visit_|serialize_", oname(e)) else [Ok(x)] if Ok(x) is not None else []
                if e and oname(e) in ("serialize_i64", "serialize_u64", "serialize_i128", "serialize_u128"):
                    vals = list(e[2])[1:]
                for v in vals:
                    v = strip(v)
                    ok = exact(v)
                    good += ok
                    rep.oblige(ok, "%s:%s:value" % (what, shape), "%s gives %s for an integer (when %s)" % (where(d, k), show(v, 140), conds(cs)))
                if not vals:
                    # it fails only when a conversion did
                    t = tested(cs)
                    bad = any(w in ("Err", "None") and (convert(c) is not None or re.search(r"try_into|try_from", c[1])) for c, w in t.items())
                    rep.oblige(bad or e is not None and "custom" not in str(e[1]), "%s:%s:fails" % (what, shape), "%s fails for an integer which is %s (when %s)" % (where(d, k), shape, conds(cs)))
            rep.oblige(good > 0, "%s:%s:some" % (what, shape), "%s never reads an integer which is %s" % (where(d, k), shape))
    rep.floor("readings", n, 60)
    return n


def convert(c):
    """(digits, base) of a conversion from text to integer."""
    if type(c) is not tuple or c[0] != "op":
        return None
    s = re.sub(r" <.*$", "", c[1])
    src = lambda v: ".".join(single(v)[1]) if type(single(v)) is tuple and single(v)[0] == "in" else show(v, 60)
    if s.endswith("from_str_radix") and len(c[2]) == 2:
        b = single(c[2][1])
        return src(c[2][0]), b[1] if type(b) is tuple and b[0] == "c" else None
    if re.search(r"::parse$|FromStr>?::from_str$", s) and not re.search(r"<f(32|64)>", c[1]):
        return src(c[2][0]), 10
    return None


def strip(v):
    a = single(v)
    while type(a) is tuple and a[0] == "op" and (a[1] in LOSSLESS or re.search(r"^cast:[iu](8|16|32|64|128)->f(32|64)$", a[1])):
        v = a[2][0]
        a = single(v)
    return v


def exact(v):
    """The value of a conversion which succeeded, changed by checked conversions only."""
    a = single(v)
    for _ in range(12):
        if type(a) is not tuple:
            return False
        if a[0] == "op" and a[1] in LOSSLESS:
            a = single(a[2][0])
        elif a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] in ("Ok", "Some"):
            c = a[1][1]
            if convert(c) is not None:
                return True
            if type(c) is tuple and c[0] == "op" and re.search(r"try_into|try_from", c[1]) and len(c[2]) == 1:
                a = single(c[2][0])
            else:
                return False
        else:
            return False
    return False
