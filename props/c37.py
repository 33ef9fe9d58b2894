import facts
from grammar import *
from ends import *
from ends import oname

LEVEL = "proof"
# calls which do not read
STILL = ("forward", "text", "food", "food_str", "indicator", "backward", "err")
METHODS = ("seq", "map", "seq_flow", "map_flow")


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in METHODS + ("ind", "ind_define", "gap", "doc_end", "complex_mapping", "bound", "sym", "scalar", "scalar_flow")):
        return
    rep.rule = ("Provenance dataflow over parser states: the calls which read, with their outcomes, on every way from the beginning of a collection over its loop to a result make a regular language, "
                "which is compared with the documented layout of the collection; the primitives of the layout are decided on their own.")
    rep.assume = ["rustc's MIR", "std's collections and iterators"]
    n = 0
    for m in METHODS:
        for flag in ((True, False) if m in ("seq", "map") else (None,)):
            n += layout(rep, g, m, flag)
    primitives(rep, g)
    rep.cov.update(ways=n)


# ---------------------------------------------------------------- words
def state(g, F, v):
    """The state inside the wrapping."""
    for _ in range(50):
        x = single(F.unfold(v))
        if type(x) is not tuple:
            return None
        if x[0] == "adt" and x[1] in (g.loader, g.parser):
            if x[1] == g.loader:
                v = g.part(V(x), "parser")
                continue
            p = g.part(V(x), "pos")
            b = single(p)
            if type(b) is tuple and b[0] == "pj" and b[2] == "pos":
                v = V(b[1])
                continue
            return x
        if x[0] == "pj" and x[2] in ("parser", "pos"):
            v = V(x[1])
            continue
        return x
    return None


def chars(v):
    a = single(v)
    if type(a) is tuple and a[0] == "c":
        return chr(a[1]) if type(a[1]) is int else a[1].decode("latin1") if type(a[1]) is bytes else None
    return None


def argtext(F, v):
    """The form of an argument: level, level+1, a flag."""
    a = single(v)
    if type(a) is not tuple:
        return "?"
    if a[0] == "c":
        return {True: "T", False: "F"}.get(a[1], str(a[1])) if type(a[1]) is bool else str(a[1])
    if a[0] == "in":
        return a[1][-1]
    if a[0] == "op" and re.match(r"Add|.*::(\w+_)?add( |$)", a[1]) and len(a[2]) == 2:
        return "%s+%s" % (argtext(F, a[2][0]), argtext(F, a[2][1]))
    if a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "op" and "Add" in a[1][1]:
        return argtext(F, V(a[1]))
    if a[0] == "op" and a[1] == "phi":
        # kept by every turn
        return argtext(F, a[2][2])
    return "?"


def token(F, c, w):
    """One read, with its outcome; None: it does not matter."""
    n = oname(c)
    if n in STILL:
        return ()
    o = {"Ok": "+", "Err": "-", "Mismatch": "-", "Terminate": "!"}.get(w, "?")
    if n == "sym":
        return ("%s%s" % (chars(c[2][1]), o),)
    if n == "doc_end":
        return ("end" + {True: "+", False: "-"}.get(w, "?"),)
    if n in ("gap", "ind", "ind_define", "scalar", "scalar_flow"):
        return ("%s(%s)%s" % (n, ",".join(argtext(F, x) for x in c[2][1:]), o),)
    if n in ("bound", "complex_mapping"):
        return (n + o,)
    if n in ("inv", "ws"):
        k = single(c[2][1])
        every = type(k) is tuple and k[0] == "adt" and k[2] == "More" and k[3] == (C(0),)
        return (n + o if every else "%s of a number%s" % (n, o),)
    if n in ("context", "count"):
        return (n,)
    return ("%s%s" % (n, o),)


def way(g, F, v, t):
    """(the state it begins with, the reads up to v)."""
    out = []
    for _ in range(300):
        x = state(g, F, v)
        if type(x) is not tuple:
            return None
        if x[0] == "op" and x[1].endswith("!0"):
            c = ("op", x[1][:-2], x[2])
            out.append(token(F, c, t.get(c)))
            v = x[2][0]
            continue
        return x, tuple(y for ts in reversed(out) for y in ts)
    return None


def pending(g, F, v, t):
    """What was read since the beginning of the turn and not given back."""
    calls_ = []
    for _ in range(300):
        x = state(g, F, v)
        if type(x) is not tuple or x[0] != "op" or not x[1].endswith("!0"):
            break
        calls_.append(("op", x[1][:-2], x[2]))
        v = x[2][0]
    kept, some = [], []
    for c in reversed(calls_):
        n, w = oname(c), t.get(c)
        if n in ("forward", "consume"):
            kept, some = kept + some, []
        elif n == "backward":
            some = []
        elif n in STILL or n == "doc_end":
            continue
        elif w in ("Err", "Mismatch") and n in ("sym", "sym_seq", "sym_set", "take_while", "ws", "inv", "gap"):
            continue
        else:
            some.append(n)
    return kept + some


def outcomes(cs):
    t = tested(cs)
    for c, w in cs:
        if type(w) is bool and type(c) is tuple and c[0] == "op" and oname(c) == "doc_end":
            t[c] = w
    return t


def norm(word, flow):
    """Without what says nothing; None: it cannot be."""
    out = []
    for k in word:
        if flow and k[0] in "[]{},:" and k[1:] == "-":
            continue
        if k == "complex_mapping-":
            continue
        last = out[-1] if out else ""
        if k in ("inv+", "inv-", "inv?"):
            if last == "inv":
                continue
            k = "inv"
        if k in ("ws+", "ws-", "ws?"):
            k = "ws"
        if k.startswith("end") and last.startswith("end"):
            if k != last:
                return None
            continue
        out.append(k)
    return tuple(out)


# ---------------------------------------------------------------- the language of a method
class Lang:
    def __init__(self):
        self.edges, self.eps, self.n, self.final = {}, {}, 0, set()

    def new(self):
        self.n += 1
        return self.n

    def word(self, a, w, b):
        for k in w:
            x = self.new()
            self.edges.setdefault(a, []).append((k, x))
            a = x
        self.eps.setdefault(a, set()).add(b)

    def close(self, s):
        out, todo = set(s), list(s)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def next(self, s, k):
        return self.close({y for x in s for l, y in self.edges.get(x, ()) if l == k})


def build(rx):
    """The language of an expression: nested lists of ('seq', ..), ('alt', ..), ('star', x), token."""
    L = Lang()

    def go(a, x):
        if type(x) is str:
            b = L.new()
            L.edges.setdefault(a, []).append((x, b))
            return b
        if x[0] == "seq":
            for y in x[1:]:
                a = go(a, y)
            return a
        if x[0] == "alt":
            b = L.new()
            for y in x[1:]:
                L.eps.setdefault(go(a, y), set()).add(b)
            return b
        if x[0] == "star":
            b = L.new()
            L.eps.setdefault(a, set()).add(b)
            L.eps.setdefault(go(b, x[1]), set()).add(b)
            return b
    L.final.add(go(0, rx))
    return L


def S_(*x):
    return ("seq",) + x


def A_(*x):
    return ("alt",) + x


def opt(x):
    return ("alt", ("seq",), x)


def beyond(a, b):
    """A word of a which is not one of b."""
    ks = sorted({k for l in a.edges.values() for k, _ in l})
    todo = [(a.close({0}), b.close({0}), ())]
    seen = {todo[0][:2]}
    while todo:
        p, q, w = todo.pop(0)
        if p & a.final and not q & b.final:
            return w
        for k in ks:
            x = (a.next(p, k), b.next(q, k))
            if x[0] and x not in seen:
                seen.add(x)
                todo.append(x + (w + (k,),))
    return None


def expected(m, flag):
    """(the reads which must be possible, the ones which may be)."""
    I = "scalar(a1+1,%s,%s)+"
    kind = "gap(T)%s"
    line = A_(S_("gap(T)+", "ind(a1)+"), "gap(T)-")
    if m in ("seq", "map"):
        first = S_("gap(T)+", "ind_define(a1)+") if flag else line
        again = S_("gap(T)+", "end-", "ind(a1)+")
        over = [S_("gap(T)+", "end+"), S_("gap(T)-", "end+"), S_("gap(T)+", "end-", "ind(a1)-")]
    if m == "seq":
        item = S_("-+", "bound+", I % ("F", "F"))
        over += [S_("gap(T)+", "end-", "ind(a1)+", "--"), S_("gap(T)+", "end-", "ind(a1)+", "-+", "bound-")]
        x = S_(first, item, ("star", S_(again, item)), A_(*over))
        return x, x
    if m == "map":
        key = A_(S_("complex_mapping+", I % ("T", "a3"), line), "scalar_flow(a1+1,a3)+")
        least = S_(key, ":+", "bound+", I % ("T", "F"))
        most = S_(key, ":+", "bound+", A_(I % ("T", "F"), I % ("T", "a3")))
        alone = S_(first, key, A_(":-", S_(":+", "bound-")))
        return [A_(alone, S_(first, p, ("star", S_(again, p)), A_(*over))) for p in (least, most)]
    if m == "seq_flow":
        item = I % ("F", "T")
        x = S_("[+", ("star", S_("inv", item, "inv", ",+")), "inv", A_("]+", S_(item, "inv", "]+")))
        y = S_("[+", ("star", S_("inv", item, opt("inv"), ",+")), "inv", A_("]+", S_(item, opt("inv"), "]+")))
        return x, y
    if m == "map_flow":
        key = A_(S_("complex_mapping+", I % ("F", "T"), A_(S_("gap(T)+", "ind(a1)+"), "gap(T)-")), "scalar_flow(a1+1,T)+")
        least = S_(key, ":+", A_("bound+", "bound-"), I % ("F", "T"))
        most = S_(key, opt("inv"), ":+", A_("bound+", "bound-", "inv", "bound?"), I % ("F", "T"))
        x = S_("{+", ("star", S_("inv", least, "inv", ",+")), "inv", A_("}+", S_(least, "inv", "}+")))
        y = S_("{+", ("star", S_("inv", most, opt("inv"), ",+")), "inv", A_("}+", S_(most, opt("inv"), "}+")))
        return x, y


def flags(F, cs, phis):
    """{place of the loop: value} the conditions ask for: emptiness of a collection or a flag."""
    out = {}
    for c, w in cs:
        if type(c) is not tuple or type(w) is not bool:
            continue
        x, want = c, w
        if c[0] == "op" and oname(c) == "is_empty":
            x = single(c[2][0])
        elif c[0] == "op" and re.sub(r" <.*$", "", c[1]) in ("eq", "Eq", "ne", "Ne") and any(k == C(0) for k in c[2]) and not any(single(k) in phis for k in c[2]):
            y = single(next(k for k in c[2] if k != C(0)))
            if type(y) is tuple and y[0] == "op" and oname(y) == "len":
                x, want = single(y[2][0]), w == (re.sub(r" <.*$", "", c[1]).lower() == "eq")
        elif c[0] == "op" and len(c[2]) == 2 and any(single(k) in phis for k in c[2]):
            # a number which is none or some
            n = re.sub(r" <.*$", "", c[1]).split("::")[-1].lower()
            i = 0 if single(c[2][0]) in phis else 1
            n = n if i == 0 else {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(n, n)
            none = {("eq", 0): True, ("ne", 0): False, ("gt", 0): False, ("le", 0): True, ("lt", 1): True, ("ge", 1): False}.get((n, single(c[2][1 - i])[1] if type(single(c[2][1 - i])) is tuple and single(c[2][1 - i])[0] == "c" else None))
            if none is None:
                continue
            x, want = single(c[2][i]), none == w
        if x in phis:
            out[phis[x]] = want
    return out


def value(F, v, phis, now):
    """The value of a place for the flags: emptiness, or a boolean."""
    a = single(v)
    if type(a) is tuple and a[0] == "c" and type(a[1]) is bool:
        return a[1]
    if type(a) is tuple and a[0] == "c" and type(a[1]) is int:
        return a[1] == 0
    if any((plus(v, y) or 0) > 0 for y in phis):
        return False
    if type(a) is tuple and a[0] == "op" and re.search(r"push|insert|extend|push_back", a[1]):
        return False
    if type(a) is tuple and a[0] == "op" and re.search(r"::new( <|$)|default|with_capacity", a[1]):
        return True
    if type(a) is tuple and a[0] == "adt" and a[1] == "array":
        return not a[3]
    if a in phis:
        return now.get(phis[a])
    return None


def language(rep, g, m, own=None, flag=None, at=None, keep=False, inside=()):
    """The language of the reads on the ways of a method to a result which is no error."""
    F, rows = g.run(m, inside)
    at = at or g.where(m)
    flow = m.endswith("flow")
    L = Lang()
    heads = {}
    start = 0
    n = 0

    def fits(cs):
        return all(not (own is not None and V(c) == own and type(w) is bool and w != flag) for c, w in cs if type(c) is tuple)
    loops = {}
    for (name, lc), trans in F.loops.items():
        loops.setdefault(name, []).append(trans)

    def turns(x):
        """The turns of the loop with the state x at its head."""
        return [y for trans in loops.get(single(x[2][0])[1], ()) if any(b == V(x) or state(g, F, b) == x for _, mem, _ in trans for _, (b, v) in mem.items()) for y in trans]

    def head(x, pre, now):
        return heads.setdefault((x, pre, tuple(sorted(now.items(), key=str))), L.new())
    bad = []
    def places_of(x):
        """{phi: name} of a loop, with what they begin with."""
        out = {}
        for tc, mem, ev in turns(x):
            for r, (b, v) in mem.items():
                a = single(b)
                if type(a) is tuple and a[0] == "op" and a[1] == "phi":
                    out[a] = r
        return out

    def begin(x, cs):
        """The values of the flags when the loop begins."""
        ph = places_of(x)
        return {r: k for a, r in ph.items() for k in [value(F, a[2][2], {}, {})] if k is not None}

    done = set()

    def reach(x, cs):
        """(the node of the loop whose state at the head is x, entered for the first time; how it is entered)."""
        now = begin(x, cs)
        pre = set()
        for a in x[2][2]:
            r = way(g, F, V(a), outcomes(cs))
            if r is None:
                bad.append("a state which is not followed")
                continue
            y, w = r
            w = norm(w, flow)
            if w is None:
                continue
            pre.add((reach(y, cs)[0] if isphi(y) else start, w))
        pre = tuple(sorted(pre))
        h = head(x, pre, now)
        if h in done:
            return h, pre
        done.add(h)
        for f, w in pre:
            L.word(f, w, h)
        # the turns
        ph = places_of(x)
        work, known = [now], [now]
        while work:
            cur = work.pop()
            for tc, mem, ev in turns(x):
                if not fits(tc):
                    continue
                want = flags(F, tc, ph)
                if any(r in cur and cur[r] != k for r, k in want.items()):
                    continue
                nxt = {}
                to = None
                for r, (b, v) in mem.items():
                    if V(x) == b or state(g, F, b) == x:
                        to = v
                    k = value(F, v, ph, cur)
                    if r in cur and k is not None:
                        nxt[r] = k
                if to is None:
                    bad.append("the state at the end of a turn is not known")
                    continue
                r = way(g, F, to, outcomes(tc))
                if r is None or r[0] != x:
                    bad.append("a turn does not go on from where the last one ended (when %s)" % conds(tc))
                    continue
                w = norm(r[1], flow)
                if w is None:
                    continue
                L.word(head(x, pre, cur), w, head(x, pre, nxt))
                if nxt not in known:
                    known.append(nxt)
                    work.append(nxt)
        return h, pre

    def isphi(y):
        return type(y) is tuple and y[0] == "op" and y[1] == "phi"
    end_ = L.new()
    L.final.add(end_)
    for cs, x, end, ev in rows:
        if not fits(cs):
            continue
        t = outcomes(cs)
        if Ok(x) is None:
            # the result of the last call
            a = single(x)
            if type(a) is not tuple or a[0] != "op" or oname(a) not in PUB:
                continue
            t[a] = "Ok"
        n += 1
        r = way(g, F, end, t)
        if r is None:
            bad.append("the state at the end is not known (when %s)" % conds(cs))
            continue
        y, w = r
        w = norm(w, flow)
        if w is None:
            continue
        if not isphi(y):
            L.word(start, w, end_)
            continue
        pre = reach(y, cs)[1]
        ph = places_of(y)
        want = flags(F, cs, ph)
        for (z, p, now), h in list(heads.items()):
            if z == y and p == pre and not any(r in dict(now) and dict(now)[r] != k for r, k in want.items()):
                L.word(h, w, end_)
        # behind the last item nothing is taken by a collection of lines
        if keep and w and w[-1] not in (":-", "bound-"):
            left = pending(g, F, end, t)
            while any(k.startswith("scalar") for k in left):
                left = left[1:]
            rep.oblige(not left, "left:" + m, "%s ends with %s taken which belongs to what is around it (when %s)" % (at, left, conds(cs)))
    for b in sorted(set(bad)):
        rep.oblige(False, "followed:" + m, "%s: %s" % (at, b))
    return L, n


def compare(rep, m, at, L, least, most):
    least, most = build(least), build(most)
    w = beyond(L, most)
    rep.oblige(w is None, "more:" + m, "%s takes as one: %s" % (at, " ".join(w or ())))
    w = beyond(least, L)
    rep.oblige(w is None, "less:" + m, "%s does not take as one: %s" % (at, " ".join(w or ())))
    if len(rep.samples) < 12:
        rep.samples.append("%s: %d states" % (at, L.n))


def layout(rep, g, m, flag):
    at = g.where(m) + ("" if flag is None else " (after a key)" if flag else " (on its own line)")
    L, n = language(rep, g, m, IN("a2") if flag is not None else None, flag, at, not m.endswith("flow"))
    rep.floor("ways of %s%s" % (m, "" if flag is None else flag), n, 2)
    compare(rep, m, at, L, *expected(m, flag))
    return n


# ---------------------------------------------------------------- primitives
def primitives(rep, g):
    cm = A_(S_("comment+"), S_("comment-"))
    for flag in (True, False):
        c = cm if flag else S_()
        L, n = language(rep, g, "gap", IN("a1"), flag)
        x = S_(c, "nl+", ("star", S_("ws", c, "nl+")), "ws", c, "nl-")
        compare(rep, "gap", g.where("gap") + (" (with comments)" if flag else ""), L, x, S_(opt("ws"), c, "nl+", ("star", S_(opt("ws"), c, "nl+")), opt("ws"), c, "nl-"))
    lines(rep, g)
    L, n = language(rep, g, "complex_mapping")
    x = S_("?+", "bound+")
    compare(rep, "complex_mapping", g.where("complex_mapping"), L, x, x)
    ending(rep, g)
    indent(rep, g)
    define(rep, g)


def lines(rep, g):
    """The number a gap gives is that of the line ends taken, and those after the last one are given back."""
    F, rows = g.run("gap")
    at = g.where("gap")
    n = 0
    for cs, x, end, ev in rows:
        ok = Ok(x)
        if ok is None:
            continue
        t = outcomes(cs)
        n += 1
        a = single(ok)
        good = False
        if type(a) is tuple and a[0] == "op" and a[1] == "phi":
            # one more for each turn, which takes one line end
            before = way(g, F, V(single(end)), t)
            good = a[2][2] == C(1) or a[2][2] == C(0)
            for (name, lc), trans in F.loops.items():
                if C(name) != a[2][0]:
                    continue
                for tc, mem, ev2 in trans:
                    for r, (b, v) in mem.items():
                        if b == V(a):
                            k = sum(oname(c) == "nl" and w == "Ok" for c, w in outcomes(tc).items())
                            good = good and plus(v, a) == k
            k = sum(oname(c) == "nl" and w == "Ok" for c, w in t.items() if not any(y == ("op", "phi") for y in ()))
            good = good and single(a[2][2])[1] == k
        rep.oblige(good, "lines", "%s gives %s, not the number of line ends (when %s)" % (at, show(ok, 80), conds(cs)))
        left = pending(g, F, end, t)
        rep.oblige(not left, "indentation kept", "%s ends with %s of the next line taken (when %s)" % (at, left, conds(cs)))
    rep.floor("gaps", n, 1)


def plus(v, a):
    """What is added to the atom."""
    x = single(v)
    if x == a:
        return 0
    if type(x) is tuple and x[0] == "pj" and x[2] == "0" and type(x[1]) is tuple:
        return plus(V(x[1]), a)
    if type(x) is tuple and x[0] == "op" and len(x[2]) == 2 and re.match(r"Add|.*::(\w+_)?add( |$)", x[1]):
        for i in (0, 1):
            k = single(x[2][i])
            if type(k) is tuple and k[0] == "c" and type(k[1]) is int:
                p = plus(x[2][1 - i], a)
                return None if p is None else p + k[1]
    return None


def ending(rep, g):
    """The end of a document: the end of the text or one of its marks, of which nothing is taken."""
    F, rows = g.run("doc_end")
    at = g.where("doc_end")
    got = set()
    for cs, x, end, ev in rows:
        t = outcomes(cs)
        seen = {}
        for c, w in t.items():
            if oname(c) == "sym_seq":
                for k in marks(F, c[2][1]):
                    seen[k] = w == "Ok" or seen.get(k, False)
            elif oname(c) == "next" and w == "None" and isphi(single(c[2][0])):
                # every one of a list was looked for
                for trans in F.loops.values():
                    for tc, mem, e2 in trans:
                        for y, w2 in outcomes(tc).items():
                            if oname(y) == "sym_seq" and w2 in ("Err", "Mismatch"):
                                for k in marks(F, y[2][1]):
                                    seen.setdefault(k, False)
        over = None
        for c, w in cs:
            if type(c) is tuple and c[0] == "op" and type(w) is bool:
                if oname(c) == "is_empty":
                    over = w
                elif oname(c) == "starts_with" and behind(g, F, c[2][0]):
                    for k in marks(F, c[2][1]):
                        seen[k] = w
        # the result
        a = single(x)
        r = None
        if type(a) is tuple and a[0] == "c":
            r = a[1]
        elif type(a) is tuple and a[0] == "op" and a[1] == "eq":
            for i in (0, 1):
                k, y = single(a[2][i]), single(a[2][1 - i])
                if type(k) is tuple and k[0] == "c" and type(y) is tuple and y[0] == "op" and y[1] == "discr:std::result::Result":
                    w = t.get(single(y[2][0]))
                    r = None if w is None else (w == "Ok") == (k[1] == 0)
        elif type(a) is tuple and a[0] == "op" and oname(a) == "is_empty":
            r, over = True, True
        elif type(a) is tuple and a[0] == "op" and oname(a) == "starts_with" and behind(g, F, a[2][0]):
            # whatever it says is the answer for these
            got |= set(marks(F, a[2][1]))
            rest = {k for k, w in seen.items() if not w} | set(marks(F, a[2][1]))
            rep.oblige(rest == {"---", "..."}, "marks", "%s looks for %s (when %s)" % (at, sorted(map(str, rest)), conds(cs)))
            rep.oblige(not pending(g, F, end, t), "mark kept", "%s takes some of the mark" % at)
            continue
        want = over is True or any(seen.values())
        if want and over is not True:
            got |= {k for k, w in seen.items() if w}
        elif want:
            got.add("end")
        else:
            rep.oblige(set(seen) == {"---", "..."}, "marks", "%s says no end where %s were looked for (when %s)" % (at, sorted(map(str, seen)), conds(cs)))
        rep.oblige(r == want, "end", "%s says %s (when %s)" % (at, r, conds(cs)))
        left = pending(g, F, end, t)
        rep.oblige(not left, "mark kept", "%s takes %s of the mark (when %s)" % (at, left, conds(cs)))
    for k in ("end", "---", "..."):
        rep.oblige(k in got, "end:" + k, "%s does not know %s" % (at, k))


def isphi(a):
    return type(a) is tuple and a[0] == "op" and a[1] == "phi"


def marks(F, v):
    """The texts an argument may be."""
    k = chars(v)
    if k is not None:
        return [k]
    return sorted({x for a in subatoms(F, v) if a[0] == "adt" and a[1] == "array" for y in a[3] for x in [chars(y)] if x})


def behind(g, F, v):
    """The rest of the text at the beginning."""
    a = single(v)
    return type(a) is tuple and a[0] == "op" and oname(a) == "food" and state(g, F, a[2][0]) in (("in", ("self",)), ("in", ("self", "parser")))


def indent(rep, g):
    """As many blanks as the indentations of the levels up to this one say."""
    F, rows = g.run("ind")
    at = g.where("ind")
    L, n = language(rep, g, "ind")
    compare(rep, "ind", at, L, ("star", " +"), ("star", " +"))
    n = 0
    for cs, x, end, ev in rows:
        if Ok(x) is None:
            continue
        sums = []
        for c, w in cs:
            if type(c) is tuple:
                for a in subatoms(F, V(c)):
                    if a[0] == "op" and oname(a) == "sum":
                        sums.append(a)
                        n += 1
                        src = [b for b in subatoms(F, V(a)) if b[0] == "op" and oname(b) in ("index", "get", "get_unchecked", "take")]
                        rep.oblige(len(src) == 1 and upto(src[0]), "levels", "%s sums up %s, not the indentations up to the level" % (at, show(V(a), 120)))
                    if a[0] == "op" and oname(a) == "next":
                        for z in a[2]:
                            for b in subatoms(F, z):
                                if b[0] == "adt" and str(b[1]).endswith("Range") and any(y[0] == "op" and oname(y) == "sum" for y in subatoms(F, V(b))):
                                    rep.oblige(b[3][0] == C(0) and oname(single(b[3][1])) == "sum", "number", "%s reads blanks for %s" % (at, show(V(b), 120)))
        rep.oblige(bool(sums), "sum", "%s takes an indentation without a look at the ones of the levels (when %s)" % (at, conds(cs)))
        # what is left of the levels
        ind_ = g.part(single_state(g, F, end), "indent")
        known = next((w if re.sub(r" <.*$", "", c[1]) in ("Ge", "Gt") else not w for c, w in cs if type(c) is tuple and c[0] == "op" and re.sub(r" <.*$", "", c[1]) in ("Ge", "Lt") and c[2][0] == IN("a1")), None)
        ops = [a for c, w in cs if type(c) is tuple for a in subatoms(F, V(c)) if a[0] == "op" and re.search(r"::(drain|truncate|split_off)( <.*>)?!0$", a[1])]
        if known is False:
            rep.oblige(any(cut(a) for a in ops), "inner", "%s keeps the indentations of the levels inside (when %s)" % (at, conds(cs)))
    for (name, lc), trans in F.loops.items():
        for tc, mem, e2 in trans:
            for r, (b, v) in mem.items():
                for a in subatoms(F, v):
                    if a[0] == "op" and re.search(r"push( <.*>)?!0$", a[1]) and len(a[2]) == 2:
                        rep.oblige(a[2][1] == C(2), "default", "%s gives a level the indentation %s" % (at, show(a[2][1], 40)))
    rep.floor("indentations", n, 1)


def single_state(g, F, v):
    return F.unfold(v)


def upto(a):
    """Up to and with the level."""
    r = single(a[2][1]) if len(a[2]) > 1 else None
    if type(r) is tuple and r[0] == "adt" and "RangeToInclusive" in str(r[1]):
        return r[3] == (IN("a1"),)
    if type(r) is tuple and r[0] == "adt" and "RangeInclusive" in str(r[1]):
        return r[3][0] == C(0) and r[3][1] == IN("a1")
    if type(r) is tuple and r[0] == "adt" and "Range" in str(r[1]) and "From" not in str(r[1]):
        return plus(r[3][-1], ("in", ("a1",))) == 1 and (len(r[3]) == 1 or r[3][0] == C(0))
    if oname(a) == "take":
        return plus(a[2][1], ("in", ("a1",))) == 1
    return False


def cut(a):
    """Everything behind the level is dropped."""
    r = single(a[2][1]) if len(a[2]) > 1 else None
    if type(r) is tuple and r[0] == "adt" and "RangeFrom" in str(r[1]):
        return plus(r[3][0], ("in", ("a1",))) == 1
    return plus(a[2][1], ("in", ("a1",))) == 1 if len(a[2]) > 1 else False


def define(rep, g):
    """The indentation of a level is the blanks behind those of the level around it."""
    F, rows = g.run("ind_define", ("count",))
    at = g.where("ind_define")
    n = 0
    for cs, x, end, ev in rows:
        if Ok(x) is None:
            continue
        n += 1
        t = outcomes(cs)
        inner = next((k for c, w in cs for k in [innermost(c, w)] if k is not None), None)
        outer = [c for c, w in t.items() if oname(c) == "ind" and w == "Ok"]
        if inner is True:
            rep.oblige(len(outer) == 1 and minus1(outer[0][2][1]), "around", "%s does not begin behind the indentation of the level around it (when %s)" % (at, conds(cs)))
        elif inner is False:
            rep.oblige(not outer, "around", "%s reads an indentation around level 0 (when %s)" % (at, conds(cs)))
        for a in subatoms(F, end):
            if a[0] == "op" and re.search(r"push( <.*>)?!0$", a[1]) and len(a[2]) == 2:
                d = width(a[2][1])
                if rep.oblige(d is not None, "width", "%s stores %s as the indentation" % (at, show(a[2][1], 120))):
                    l = [names(F, V(z)) for z in d]
                    rep.oblige(l[0][:1] in (["take_while"], ["inv"]) and l[0][1:] == l[1] and l[1] == ["ind"] * (inner is True), "width", "%s stores the width of %s without %s as the indentation" % (at, l[0], l[1]))
    rep.floor("definitions", n, 2)


def innermost(c, w):
    """True when the condition says that the level is not the outermost one."""
    if c == ("in", ("a1",)):
        return None if type(w) is bool else w not in (0, "0")
    if type(c) is not tuple or c[0] != "op":
        return None
    if c[1] == "discr":
        a = single(c[2][0])
        if type(a) is tuple and a[0] == "op" and oname(a) == "checked_sub" and a[2] == (IN("a1"), C(1)):
            return w == "Some"
    if c[1] == "in" and c[2] == (IN("a1"), C(0)) and type(w) is bool:
        return not w
    k = gt0(c)
    return None if k is None or type(w) is not bool else w == k


def linear(v, k=1, out=None):
    """{atom: how often} of a sum."""
    out = {} if out is None else out
    a = single(v)
    if type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "op" and len(a[1][2]) == 2:
        a = a[1]
    if type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and (a[1].startswith("cast") or oname(a) in ("from", "into")):
        return linear(a[2][0], k, out)
    if type(a) is tuple and a[0] == "op" and len(a[2]) == 2:
        n = re.match(r"(?:.*::)?(?:\w+_)?(add|sub)( |$|With)", a[1], re.I)
        if n:
            linear(a[2][0], k, out)
            return linear(a[2][1], k if n.group(1).lower() == "add" else -k, out)
    out[a] = out.get(a, 0) + k
    return out


def width(v):
    """(position behind, position before) of a difference of positions."""
    l = {}
    for a, k in linear(v).items():
        f = a[2] if type(a) is tuple and a[0] == "pj" else a[1][-1] if type(a) is tuple and a[0] == "in" else None
        if f == "consumed":
            a = "consumed"
        elif f != "pos":
            return None
        l[a] = l.get(a, 0) + k
    p = [a for a, k in l.items() if k == 1], [a for a, k in l.items() if k == -1]
    if l.pop("consumed", 0) or len(l) != 2 or len(p[0]) != 1 or len(p[1]) != 1:
        return None
    return p[0][0], p[1][0]


def names(F, z):
    """The reads before a position, the last first."""
    a = single(z)
    if a == ("in", ("self", "pos")):
        return []
    return [m for m, _, _ in chain(F, V(a[1])) if m not in STILL]


def gt0(c):
    """True when the condition says that the level is not the outermost one."""
    n = re.sub(r" <.*$", "", c[1]).split("::")[-1]
    if len(c[2]) != 2 or c[2][0] != IN("a1"):
        return None
    k = c[2][1]
    if (n, k) in (("Gt", C(0)), ("Ge", C(1)), ("Ne", C(0)), ("ne", C(0))):
        return True
    if (n, k) in (("Le", C(0)), ("Lt", C(1)), ("Eq", C(0)), ("eq", C(0))):
        return False
    return None


def minus1(v):
    a = single(v)
    if type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Some":
        b = a[1][1]
        return type(b) is tuple and b[0] == "op" and oname(b) == "checked_sub" and b[2] == (IN("a1"), C(1))
    if type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple:
        return minus1(V(a[1]))
    return type(a) is tuple and a[0] == "op" and bool(re.match(r"Sub|.*::(\w+_)?sub( |$)", a[1])) and a[2][0] == IN("a1") and a[2][1] == C(1)
