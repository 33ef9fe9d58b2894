import facts
from grammar import *
from strings import *
from preds import Preds
import transduce as T

LEVEL = "proof"
# the escapes of the documentation; any other character stands for itself
TABLE = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(x) for x in ("string_quoted", "escape", "scalar_term", "take_while", "sym", "sym_seq", "text")):
        return
    rep.rule = ("The function which resolves escapes is a finite transducer read off its MIR (states: where the next character is asked for and what is remembered there; "
                "alphabet: each ASCII character and one symbol for all others); its product with the documented table is explored completely. The quoting functions of the "
                "dumper are read the same way and every output is put through the table, which has to give the character back. Provenance dataflow shows that a quoted text "
                "is handed to escape unit by unit as it was written, and that exactly the double-quoted texts go through escape.")
    rep.assume = ["rustc's MIR", "std's chars() gives the characters in order, push and push_str append"]
    n = escape(rep, g)
    k = quote(rep, g)
    calls = callers(rep, g)
    u = sum(content(rep, g, F, rows, sym, ign) for sym, ign, F, rows in calls)
    rep.cov.update(escape_states=n, quoted_characters=k, quoted_kinds=len(calls), units=u)


def escape(rep, g):
    m = T.Machine(g.d, g.keys["escape"])
    back, tab = 92, {ord(k): ord(v) for k, v in TABLE.items()}
    step = lambda q, c: ((tab.get(c, c),), 0) if q else ((), 1) if c == back else ((c,), 0)
    at = g.where("escape")
    try:
        n, bad = T.against(m, (0, step, lambda q: ()))
    except T.Unknown as e:
        rep.violate("escape", "%s is not a function of one character after the other which is understood: %s" % (at, e))
        return 0
    rep.oblige(not bad, "escape", "%s: %s" % (at, "; ".join("after %r it gives %r instead of %r" % (T.word(p), T.word(a), T.word(b)) for p, a, b in bad[:4])))
    rep.floor("escape states", n, 2)
    return n


def quoting(d):
    """The functions which the dumper puts a string through."""
    cand = [k for k, b in sorted(d["bodies"].items()) if b.get("argc") == 1 and "blocks" in b and b["locals"][1]["ty"] == "&str"
            and b["locals"][0]["ty"].endswith("string::String") and not b.get("closure") and not k.startswith("parser::")]
    k = next((k for k in d["bodies"] if re.match(r"^dumper::Dumper::<'a, R>::dump( <R>|$)", k)), None)
    adt = next((a for a in d["adts"] if re.search(r"dumper::Dumper$", a)), None)
    holder = [f["name"] for f in d["adts"][adt]["variants"][0]["fields"] if "Node<" in f["ty"] and "Map" not in f["ty"] and "[" not in f["ty"]] if adt else []
    if not k or len(holder) != 1:
        return []
    F = Flow(d, opaque=[OWNER + r"(?!(err|indicator|pos)\b)\w+( <|$)", r"^parser::parse( <|$)"] + ["^%s( <|$)" % re.escape(q) for q in cand])
    F.limit, F.parts, F.maxconds = 100000, 500, 80
    yaml = [f["name"] for f in d["adts"][NODE]["variants"][0]["fields"] if "Rc" in f["ty"]] or ["yaml"]
    out = set()
    for cs, x, mem, ev in F.run(k, [IN("self")], {("self", holder[0], yaml[0]): "Str", ("self", holder[0]): "Str"}):
        for p in pieces(F, x) or []:
            if type(p) is tuple and p[0] == "op":
                out |= {q for q in cand if p[1].split(" <")[0] == q.split(" <")[0]}
    return sorted(out)


def quote(rep, g):
    n = 0
    for k in quoting(g.d):
        at = where(g.d, k)
        try:
            # by memory: what a character becomes does not depend on those before
            first, last, outs = None, None, {}
            for path, s, c, o, s2 in T.states(T.Machine(g.d, k)):
                if c == "":
                    first = o
                elif c is None:
                    if last not in (None, o):
                        raise T.Unknown("the end depends on the text")
                    last = o
                else:
                    if outs.setdefault(c, o) != o:
                        raise T.Unknown("%r is written in several ways" % T.word([c]))
        except T.Unknown as e:
            rep.violate("quote", "%s is not a function of one character after the other which is understood: %s" % (at, e))
            continue
        rep.oblige(last[0] + first == (34,) and last[1] == (34,), "quotes", "%s writes %r before and %r after the text" % (at, T.word(last[0] + first), T.word(last[1])))
        for c in T.SIGMA:
            n += 1
            o = outs[c]
            r = unquote(o)
            rep.oblige(r == (c,), "quote:%s" % (c if c == T.NA else hex(c)), "%s writes %r for %r, which is read as %s" % (at, T.word(o), T.word([c]), "no text" if r is None else repr(T.word(r))))
    rep.floor("quoted characters", n, len(T.SIGMA))
    return n


def unquote(o):
    """What the text between double quotes is read as, on one line; None if it ends there or breaks."""
    out, i = [], 0
    tab = {ord(k): ord(v) for k, v in TABLE.items()}
    while i < len(o):
        if o[i] in (34, 10, 13):
            return None
        if o[i] == 92:
            if i + 1 == len(o) or o[i + 1] in (10, 13):
                return None
            out.append(tab.get(o[i + 1], o[i + 1]))
            i += 2
        else:
            out.append(o[i])
            i += 1
    return tuple(out)


def const(v):
    a = single(v)
    if type(a) is tuple and a[0] == "c":
        return a[1]
    if type(a) is tuple and a[0] == "adt" and a[1] == "array":
        xs = [single(x) for x in a[3]]
        if all(type(x) is tuple and x[0] == "c" and type(x[1]) is int for x in xs):
            return bytes(x[1] for x in xs)
    return None


def callers(rep, g):
    """The kinds of quoted texts, and what becomes of them."""
    F, rows = g.run("scalar_term")
    at = g.where("scalar_term")
    kinds = {}
    for cs, x, end, ev in rows:
        r = Ok(x)
        for a in (atoms(r) if r is not None else []):
            if type(a) is not tuple or a[0] != "adt" or a[1] != YAML:
                continue
            for v in a[3]:
                v, esc = single(F.unfold(v)), 0
                while type(v) is tuple and v[0] == "op" and len(v[2]) == 1:
                    nm = v[1].split(" <")[0].split("::")[-1]
                    if nm == "escape":
                        esc += 1
                    elif not re.match(SAME, nm):
                        break
                    v = single(F.unfold(v[2][0]))
                c = quoted(v)
                if c is None:
                    inner = [q for q in atoms(V(v)) if type(q) is tuple and q[0] == "op" and oname(q) == "string_quoted"] if type(v) is tuple else []
                    rep.oblige(not inner, "use", "%s makes %s of a quoted text" % (at, show(V(v), 120)))
                    continue
                sym, ign = const(c[2][1]), const(c[2][2])
                kinds.setdefault((sym, ign), set()).add((a[2], esc))
    for (sym, ign), uses in kinds.items():
        want = {("Str", 1 if sym == 34 else 0)}
        rep.oblige(uses == want, "use:%s" % sym, "%s: the text between %s becomes %s" % (at, chr(sym) if type(sym) is int else sym, sorted(uses)))
    rep.oblige({k[0] for k in kinds} == {34, 39}, "kinds", "%s reads the quotes %s" % (at, sorted(map(str, kinds))))
    rep.oblige(all(k[1] == (b'\\"' if k[0] == 34 else b"''") for k in kinds), "inner", "%s: inside the quotes, a quote is written as %s" % (at, sorted(map(str, kinds))))
    out = []
    for sym, ign in sorted(kinds, key=str):
        if type(sym) is int and type(ign) is bytes:
            F, rows = g.run("string_quoted", args=[C(sym), C(ign)])
            out.append((sym, ign, F, rows))
    return out


def quoted(v):
    if type(v) is tuple and v[0] == "pj" and type(v[1]) is tuple and v[1][0] == "pj" and v[1][2] in ("Ok", "Some"):
        c = v[1][1]
        for _ in range(4):
            if type(c) is tuple and c[0] == "op" and oname(c) == "string_quoted":
                return c
            if type(c) is tuple and c[0] == "pj" and type(c[1]) is tuple and c[1][0] == "pj":
                c = c[1][1]
    return None


def units(g, F, toks):
    """Consumed pieces as characters and runs."""
    out = []
    for m, c, w in toks:
        if w in ("Err", "Mismatch", "Terminate"):
            continue
        if m in ("sym", "sym_seq"):
            x = const(c[2][1])
            if type(x) is int:
                x = bytes([x])
            if x is None:
                return None
            out += [chr(b) for b in x]
        elif m in ("forward", "consume"):
            continue
        else:
            out.append((m, c))
    return out


def pushed(g, F, ps, t):
    out = []
    for p in ps:
        if type(p) is str:
            out += list(p)
            continue
        toks = g.textof(F, V(p), t)
        u = toks is not None and units(g, F, toks)
        if u is None or u is False:
            return None
        out += u
    return out


def content(rep, g, F, rows, sym, ign):
    """Each round of the loop puts in what it has consumed."""
    at = "%s, for %s" % (g.where("string_quoted"), chr(sym))
    P = Preds(g.d)
    n = 0
    inner = [chr(b) for b in ign]
    key = "'" if sym == 39 else '"'

    def same(toks, ps, t, closing, what):
        nonlocal n
        toks = [x for x in toks if x[0] != "?"]
        if any(m == "gap" and w == "Ok" for m, c, w in toks):
            return                      # a line break; how lines are put together is another matter
        n += 1
        have, put = units(g, F, toks), ps is not None and pushed(g, F, ps, t)
        if not rep.oblige(have is not None and put not in (None, False), what + key, "%s: what a round consumes or puts in is not understood (consumed %s)" % (at, [x[0] for x in toks])):
            return
        if closing:
            rep.oblige(have[-1:] == [chr(sym)], "end" + key, "%s: the text ends with %s" % (at, names(have[-1:])))
            have = have[:-1]
        swap = have[-len(inner):] == inner and put == have[:-len(inner)] + [chr(sym)]
        rep.oblige(have == put or swap, what + key, "%s: %s is read and %s is put in" % (at, names(have), names(put)))
        bad = [str(x) for x in have if type(x) is not str and not run(P, F, x, sym, what == "begin")]
        rep.oblige(not bad, "run" + key, "%s: a run goes over quotes, backslashes or line ends (%s)" % (at, bad[:1]))
        # where something shorter is read the longer unit was looked for
        tried = [const(c[2][1]) for c, w in t.items() if oname(c) == "sym_seq" and w == "Err"]
        if have and have[-1] == "\\" and have[-2:] != ["\\", "\\"] and sym == 34:
            rep.oblige(b"\\\\" in tried and ign in tried, "order" + key, "%s: a backslash is read alone without looking for %s first" % (at, "an escaped backslash" if ign in tried else "an escaped quote"))
        if closing:
            rep.oblige(sym != 39 or ign in tried, "order" + key, "%s: the text ends without looking for a doubled quote" % at)

    seen = False
    for (name, cs0), rec in F.loops.items():
        for cs, mem, ev in rec:
            if ("L", 0) not in mem:
                continue
            a, b = mem[("L", 0)]
            t = tested(frozenset(cs) | cs0)
            r = g.eaten(F, b, t)
            bufs = [(x, y) for k, (x, y) in mem.items() if k != ("L", 0) and isphi(F, x) and pieces(F, y) and pieces(F, y)[:1] == [single(F.unfold(x))]]
            if r is None or not any(c[0] == "take_while" for c in r[0]):
                continue
            seen = True
            if any(x[0] == "gap" and x[2] == "Ok" for x in r[0]):
                continue
            if rep.oblige(len(bufs) == 1, "round" + key, "%s: %d texts grow in a round" % (at, len(bufs))):
                same(r[0], pieces(F, bufs[0][1])[1:], t, False, "round")
                # the beginning
                i, j = single(F.unfold(a)), single(F.unfold(bufs[0][0]))
                if isphi(F, a):
                    t0 = tested(cs0)
                    q = g.eaten(F, i[2][2], t0)
                    p = pieces(F, j[2][2])
                    if rep.oblige(q is not None and p is not None and q[0][:1] and units(g, F, q[0][:1]) == [chr(sym)], "start" + key, "%s: it does not begin with the quote" % at):
                        same(q[0][1:], p, t0, False, "begin")
    rep.need(seen or None, "loop" + key, "%s: the loop over the text was not found" % at)
    k = 0
    for cs, x, end, ev in rows:
        r = Ok(x)
        if r is None:
            continue
        t = tested(cs)
        ps = pieces(F, r)
        e = g.eaten(F, end, t)
        if rep.oblige(ps and e is not None and isphi(F, V(ps[0])) if ps and type(ps[0]) is tuple else False, "result" + key, "%s gives %s" % (at, show(r, 160))):
            i = max((i for i, x in enumerate(e[0]) if x[0] == "?"), default=0)
            same(e[0][i:], ps[1:], t, True, "result")
            k += 1
    rep.floor("ends of the text " + key, k, 1)
    rep.floor("rounds " + key, n, 4)
    return n


def isphi(F, v):
    a = single(F.unfold(v))
    return type(a) is tuple and a[0] == "op" and a[1] == "phi"


def names(xs):
    return "[%s]" % ", ".join(repr(x) if type(x) is str else x[0] for x in xs)


def run(P, F, x, sym, begin):
    """A run may not go over the characters which mean something."""
    m, c = x
    if m == "ws":
        return True
    if m != "take_while":
        return False
    sure, may = P.sat(P.value(F, c[2][1]))
    return not may & {sym, 92, 10, 13}
