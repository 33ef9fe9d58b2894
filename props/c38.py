import facts
from grammar import *
from ends import *
import ends

from preds import Preds

LEVEL = "proof"
INNER = ("forward", "backward", "back", "food", "consume")
NL = (b"\r\n", b"\n\r", b"\n", b"\r")
BOUND = b":{}[] ,\n\r"


def oname(a):
    """The name of a call, or of the state behind it."""
    return ends.oname(("op", a[1][:-2], a[2]) if type(a) is tuple and a[0] == "op" and a[1].endswith("!0") else a)


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("take_while", "sym", "sym_set", "sym_seq", "ws", "inv", "nl", "bound", "context", "count", "forward", "backward", "back", "text", "food", "is_in", "not_in")):
        return
    rep.rule = ("Provenance dataflow over parser states: what each primitive does to the position and the eaten cursor is a term over the state before; the loop of take_while is linear in its turns (an invariant of "
                "every turn), and the conditions of its ways are decided on the regions of the number of bytes taken and the limits; predicates are decided over the domain of bytes.")
    rep.assume = ["rustc's MIR", "std's slices and iterators"]
    P = Preds(d)
    cursor(rep, g)
    taking(rep, g)
    symbols(rep, g, P)
    sequence(rep, g)
    blanks(rep, g, P)
    newline(rep, g)
    boundary(rep, g)
    wrapped(rep, g)


# ---------------------------------------------------------------- terms of numbers
def num(v, leaf):
    """A number; leaf(atom) tells the known ones; None: not known."""
    a = single(v)
    if type(a) is not tuple:
        return None
    k = leaf(a)
    if k is not None:
        return k
    if a[0] == "c":
        return a[1] if type(a[1]) is int else len(a[1]) if False else None
    if a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "op" and len(a[1][2]) == 2:
        return num(V(a[1]), leaf)
    if a[0] == "op":
        n = re.sub(r" <.*$", "", a[1]).split("::")[-1].lower()
        if len(a[2]) == 1 and (n.startswith("cast") or n in ("clone", "from", "into", "unwrap", "len_utf8")):
            return num(a[2][0], leaf)
        if n.startswith("cast"):
            return num(a[2][0], leaf)
        if len(a[2]) == 2:
            x, y = num(a[2][0], leaf), num(a[2][1], leaf)
            if x is None or y is None:
                return None
            n = re.sub(r"^(wrapping|saturating|checked|unchecked|overflowing)_", "", n).replace("withoverflow", "").replace("unchecked", "")
            if n == "add":
                return x + y
            if n == "sub":
                return x - y
            if n == "min":
                return min(x, y)
            if n == "max":
                return max(x, y)
    return None


BASE = {"pos": 700, "eaten": 300, "consumed": 5000}


def field(a):
    return BASE.get(a[1][1]) if a[0] == "in" and len(a[1]) == 2 and a[1][0] == "self" else None


def cursor(rep, g):
    """What the moves of the cursor do to it; nothing else of the state changes."""
    want = {"forward": {"eaten": 700}, "backward": {"pos": 300}, "back": {"pos": 700 - 7},
            "pos": {"pos": 7, "eaten": 7}}
    leaf = lambda a: 7 if a == ("in", ("a1",)) else field(a)
    names = [f["name"] for f in g.d["adts"][g.parser]["variants"][0]["fields"]]
    for m, w in want.items():
        if m not in g.keys:
            continue
        F, rows = g.run(m, INNER)
        at = g.where(m)
        for cs, x, end, ev in rows:
            v = end if m != "pos" else x
            v = F.unfold(v)
            for f in names:
                p = g.part(v, f)
                if f in w or f in BASE:
                    k = num(p, leaf) if p is not None else None
                    rep.oblige(k == w.get(f, BASE.get(f)), m + ":" + f, "%s leaves %s as %s" % (at, f, show(p, 80) if p is not None else "?"))
                else:
                    rep.oblige(p == IN("self", f), m + ":" + f, "%s changes %s to %s" % (at, f, show(p, 80) if p is not None else "?"))
    # the text between the cursors, the text in front
    F, rows = g.run("text", INNER)
    at = g.where("text")
    for cs, x, end, ev in rows:
        rep.oblige(single(end) == ("in", ("self",)), "text", "%s moves the cursor" % at)
        cut = [b for b in subatoms(F, x) if b[0] == "op" and oname(b) in ("index", "get", "get_unchecked", "slice")]
        less = next((w == (re.sub(r" <.*$", "", c[1]) in ("Lt", "Gt")) for c, w in cs if type(c) is tuple and c[0] == "op" and re.sub(r" <.*$", "", c[1]) in ("Lt", "Ge", "Gt", "Le") and type(w) is bool), None)
        if cut:
            r = single(cut[0][2][1])
            rep.oblige(len(cut) == 1 and cut[0][2][0] == IN("self", "doc") and type(r) is tuple and r[0] == "adt" and [num(y, field) for y in r[3]] == [300, 700], "text", "%s gives %s" % (at, show(x, 120)))
        else:
            rep.oblige(less is False, "text", "%s gives %s though there is some (when %s)" % (at, show(x, 80), conds(cs)))
    F, rows = g.run("food", INNER)
    for cs, x, end, ev in rows:
        a = single(x)
        r = single(a[2][1]) if type(a) is tuple and a[0] == "op" and oname(a) in ("index", "get_unchecked") else None
        rep.oblige(type(r) is tuple and "RangeFrom" in str(r[1]) and a[2][0] == IN("self", "doc") and num(r[3][0], field) == 700, "food", "%s gives %s" % (g.where("food"), show(x, 120)))


# ---------------------------------------------------------------- take_while
class Lin:
    """What the places at the head of the loop are behind k turns."""

    def __init__(self, g, F):
        self.g, self.F, self.why = g, F, []
        self.rate = {}
        for (name, lc), trans in F.loops.items():
            for tc, mem, ev in trans:
                for r, (b, v) in mem.items():
                    a = single(b)
                    if type(a) is tuple and a[0] == "op" and a[1] == "phi":
                        self.rate.setdefault(a, []).append((v, tc))

    def step(self, a):
        """(what it begins with, what a turn adds): a number, a state or an iterator."""
        g = self.g
        ini = a[2][2]
        out = set()
        for v, tc in self.rate.get(a, ()):
            x = single(self.F.unfold(v))
            if x == a:
                out.add(0)
            elif type(x) is tuple and x[0] == "adt" and x[1] == g.parser:
                same = all(g.part(V(x), f) == g.part(V(a), f) for f in ("doc", "eaten", "consumed"))
                p = plus_(g.part(V(x), "pos"), single(g.part(V(a), "pos")))
                out.add(p if same else None)
            elif type(x) is tuple and x[0] == "op" and x[1].endswith("!0") and oname(x) in ("next",) and x[2][0] == V(a):
                out.add(1)
            else:
                out.add(plus_(V(x), a) if x is not None else None)
        if len(out) != 1 or None in out:
            return None
        return ini, out.pop()


def plus_(v, a):
    """What is added to the atom."""
    return num2(v, a)


def num2(v, a):
    hit = []

    def leaf(x):
        if x == a:
            hit.append(1)
            return 100000
        return None
    k = num(v, leaf)
    return None if k is None or not hit else k - 100000 * len(hit)


class Region:
    """The values of terms behind k turns, for a kind of limit, and a next byte which fits, does not, or is missing."""

    def __init__(self, g, L, k, opt, nxt, rest=1, run=None):
        self.g, self.L, self.k, self.opt, self.nxt, self.rest, self.run = g, L, k, opt, nxt, rest, run

    def counted(self, v):
        """How many of the bytes in front are taken: a number of all which fit."""
        a = single(v)
        if type(a) is not tuple or a[0] != "op":
            return None
        n = oname(a)
        if n == "take_while" and len(a[2]) == 2 and (a[2][1] == IN("a1") or captured(self.g, a[2][1])):
            k = self.counted(a[2][0])
            return None if k is None else min(k, self.run)
        if n == "take" and len(a[2]) == 2:
            k, m = self.counted(a[2][0]), num(a[2][1], self.leaf)
            return None if k is None or m is None else min(k, m)
        if n in ("iter", "into_iter", "copied", "cloned", "by_ref"):
            return self.run + 40 if self.base(a[2][0]) == 0 else self.counted(a[2][0])
        return None

    def leaf(self, a):
        if a[0] == "in" and len(a[1]) == 3 and a[1][0] == "a2":
            return self.opt[1 + int(a[1][2])] if self.opt[0] == a[1][1] else None
        if a[0] == "in":
            return field(a)
        if a[0] == "op" and oname(a) == "count" and self.run is not None:
            return self.counted(a[2][0])
        if a[0] == "op" and oname(a) == "len":
            b = self.base(a[2][0])
            return None if b is None else (self.run + 40 if self.run is not None else self.k + (0 if self.nxt is None else self.rest)) - b
        if a[0] == "op" and a[1] == "phi":
            s = self.L.step(a)
            if s is None:
                return None
            i = num(s[0], self.leaf)
            return None if i is None else i + s[1] * self.k
        if a[0] == "pj" and a[2] in ("pos", "eaten", "consumed"):
            b = single(a[1]) if type(a[1]) is frozenset else a[1]
            if type(b) is tuple and b[0] == "op" and b[1] == "phi":
                s = self.L.step(b)
                if s is None:
                    return None
                i = num(self.g.part(s[0], a[2]), self.leaf)
                return None if i is None else i + (s[1] * self.k if a[2] == "pos" else 0)
        return None

    def byte(self, v):
        """The offset of the byte from the position at the beginning, for an option or a reference."""
        a = single(v)
        if type(a) is not tuple:
            return None
        if a[0] == "op":
            n = oname(a)
            if n == "next":
                return self.iter(a[2][0])
            if n in ("copied", "cloned", "clone", "deref", "as_ref"):
                return self.byte(a[2][0])
            if n == "first":
                b = self.base(a[2][0])
                return b
            if n in ("get", "index", "get_unchecked", "[]") and len(a[2]) == 2:
                b, i = self.base(a[2][0]), num(a[2][1], self.leaf)
                return None if b is None or i is None else b + i
        if a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Some":
            return self.byte(V(a[1][1]))
        return None

    def base(self, v):
        """Where a slice begins, from the position at the beginning."""
        a = single(self.L.F.unfold(v))
        if a == ("in", ("self", "doc")) or type(a) is tuple and a[0] == "pj" and a[2] == "doc":
            return -BASE["pos"]
        if type(a) is tuple and a[0] == "op":
            if oname(a) == "food":
                p = num(self.g.part(a[2][0], "pos"), self.leaf)
                return None if p is None else p - BASE["pos"]
            if oname(a) in ("index", "get_unchecked") and len(a[2]) == 2:
                r = single(a[2][1])
                if type(r) is tuple and r[0] == "adt" and "RangeFrom" in str(r[1]):
                    b, i = self.base(a[2][0]), num(r[3][0], self.leaf)
                    return None if b is None or i is None else b + i
        return None

    def iter(self, v):
        a = single(v)
        if type(a) is not tuple or a[0] != "op":
            return None
        if a[1] == "phi":
            s = self.L.step(a)
            i = self.iter(s[0]) if s else None
            return None if i is None else i + s[1] * self.k
        n = oname(a)
        if a[1].endswith("!0") and n == "next":
            i = self.iter(a[2][0])
            return None if i is None else i + 1
        if n in ("into_iter", "iter", "copied", "cloned", "by_ref"):
            b = self.base(a[2][0])
            return b if b is not None else self.iter(a[2][0])
        return None

    def cond(self, c, w):
        """Whether the condition holds; None: not known."""
        if type(c) is not tuple or c[0] != "op":
            return None
        if any(y[0] == "in" and len(y[1]) == 3 and y[1][0] == "a2" and y[1][1] != self.opt[0] for y in subatoms(self.L.F, V(c))):
            # a limit of another kind
            return False
        n = re.sub(r" <.*$", "", c[1]).split("::")[-1]
        if c[1] == "discr" or c[1].startswith("discr"):
            a = single(c[2][0])
            if a == ("in", ("a2",)):
                return self.opt[0] == w
            b = self.byte(V(a)) if a is not None else None
            if b is None or w not in ("Some", "None"):
                return None
            if b == self.k:
                return (w == "Some") == (self.nxt is not None)
            return (w == "Some") if b < self.k else None
        if n == "callv" and c[2][0] == IN("a1"):
            b = self.byte(c[2][1]) if len(c[2]) == 2 else None
            if b is None:
                return None
            if b == self.k:
                return None if self.nxt is None else self.nxt == w
            return w is True if b < self.k else None
        if n == "is_empty":
            b = self.base(c[2][0])
            if b == self.k:
                return (self.nxt is None) == w
            return None
        x = [num(y, self.leaf) for y in c[2]]
        if len(x) == 2 and None not in x:
            r = {"Lt": x[0] < x[1], "Le": x[0] <= x[1], "Gt": x[0] > x[1], "Ge": x[0] >= x[1], "Eq": x[0] == x[1], "eq": x[0] == x[1], "Ne": x[0] != x[1], "ne": x[0] != x[1]}.get(n)
            return None if r is None else r == w
        return None


def goal(opt, k, nxt):
    """'on', or (bytes taken, fine) where it stops."""
    kind = opt[0]
    least = 1 if kind == "One" else opt[1]
    most = 1 if kind == "One" else opt[2] if kind == "Range" else None
    if nxt is True:
        k += 1
        if k != most:
            return "on"
    return k, k >= least


def captured(g, v):
    """A closure which asks the argument and nothing else."""
    a = single(v)
    if type(a) is not tuple or a[0] != "adt" or type(a[1]) is not tuple or a[1][0] != "closure" or a[3] != (IN("a1"),):
        return False
    for k, b in g.d["bodies"].items():
        if b.get("closure") and "blocks" in b and b["locals"][1]["ty"].lstrip("&").replace("mut ", "") == a[1][1]:
            calls_ = [x["t"] for x in b["blocks"] if x["t"]["k"] == "call"]
            return len(calls_) == 1 and len(b["blocks"]) <= 3
    return False


def holds(R, cs, unknown):
    ok = True
    vs = [(c, w, R.cond(c, w)) for c, w in cs]
    if any(h is False for c, w, h in vs):
        return False
    for c, w, h in vs:
        if h is None:
            unknown.add(show(V(c), 120) if type(c) is tuple else str(c))
            ok = False
    return ok


def settle(rep, g, F, at, R, want, what, now, on):
    """The ways which are possible do what is documented."""
    if want == "on":
        rep.oblige(bool(on) and not now, "goes on", "%s stops with %s" % (at, what) if now else "%s does not go on with %s" % (at, what))
        return
    if not rep.oblige(bool(now) and not on, "stops", "%s goes on with %s" % (at, what)):
        return
    taken, fine = want
    for cs, x, end, ev in now:
        good = Ok(x) is not None
        rep.oblige(good == fine, "result", "%s says %s with %s" % (at, "yes" if good else "no", what))
        if not good:
            rep.oblige(mismatch(F, x), "result", "%s says no by %s" % (at, show(x, 80)))
        e = F.unfold(end)
        p, q = (num(g.part(e, f), R.leaf) if g.part(e, f) is not None else None for f in ("pos", "eaten"))
        rep.oblige(q == BASE["eaten"], "start", "%s leaves the eaten cursor at %s with %s" % (at, q, what))
        want_p = BASE["pos"] + taken if fine else BASE["eaten"]
        rep.oblige(p == want_p, "taken", "%s leaves the position %s with %s" % (at, "?" if p is None else "at %+d" % (p - BASE["pos"]), what))


def taking(rep, g):
    F, rows = g.run("take_while", INNER)
    at = g.where("take_while")
    L = Lin(g, F)
    trans = [(frozenset(tc) | frozenset(lc), mem, ev) for (name, lc), x in F.loops.items() for tc, mem, ev in x]
    P = Preds(g.d)
    opts = [("One",)] + [("More", a) for a in range(6)] + [("Range", a, b) for a in range(5) for b in range(1, 6)]
    n, unknown = 0, set()
    rep.floor("ways of take_while", len(rows), 3)
    for opt in opts:
        for k in range(6):
            most = 1 if opt[0] == "One" else opt[2] if opt[0] == "Range" else 9
            if k >= most:
                continue
            for nxt, rest in ((True, 1), (True, 40), (False, 1), (False, 40), (None, 0)):
                n += 1
                R = Region(g, L, k, opt, nxt, rest)
                what = "%s behind %d bytes and %s" % ("%s%s" % (opt[0], list(opt[1:]) or ""), k, {True: "one which fits", False: "one which does not fit", None: "the end"}[nxt])
                # ways which never come to the loop
                first = [r for r in rows if not any(isphi(y) for y in terms(r))] if trans else []
                now = [r for r in first if k == 0 and holds(R, r[0], unknown)]
                on = []
                if not now and trans:
                    now = [r for r in rows if r not in first and holds(R, r[0], unknown)]
                    on = [t for t in trans if holds(R, t[0], unknown)]
                if not trans:
                    # a number of all which fit
                    if nxt is not False or rest != 1:
                        continue
                    R = Region(g, L, 0, opt, nxt, rest, k)
                    now = [r for r in rows if holds(R, r[0], unknown)]
                    what = "%s and %d bytes which fit" % ("%s%s" % (opt[0], list(opt[1:]) or ""), k)
                settle(rep, g, F, at, R, goal(opt, k, nxt), what, now, on)
            if not trans and k + 1 == most:
                for run in (most, most + 3):
                    R = Region(g, L, 0, opt, None, 0, run)
                    settle(rep, g, F, at, R, (most, most >= goal(opt, 0, False)[1] and most >= (1 if opt[0] == "One" else opt[1])), "%s and %d bytes which fit" % (opt, run), [r for r in rows if holds(R, r[0], unknown)], [])
    for u in sorted(unknown):
        rep.oblige(False, "followed", "%s depends on %s" % (at, u))
    # nothing but the position changes
    for cs, x, end, ev in rows:
        e = F.unfold(end)
        for f in ("consumed",):
            p = g.part(e, f)
            rep.oblige(p is not None and (num(p, lambda a: BASE["consumed"] if a == ("in", ("self", f)) or a[0] == "pj" and a[2] == f else None) == BASE["consumed"]), "state", "%s changes %s" % (at, f))
    rep.cov.update(regions=n)


def isphi(y):
    return type(y) is tuple and y[0] == "op" and y[1] == "phi"


def terms(r):
    out = []
    for c, w in r[0]:
        if type(c) is tuple:
            atoms(V(c), out_ := set())
            out += out_
    s = set()
    atoms(r[1], s)
    atoms(r[2], s)
    return list(s) + out


def mismatch(F, x):
    a = single(x)
    if type(a) is tuple and a[0] == "adt" and a[2] == "Err":
        b = single(a[3][0])
        return type(b) is tuple and b[0] == "adt" and b[2] == "Mismatch"
    return False


# ---------------------------------------------------------------- symbols
def one_take(g, m, inside=(), args=None):
    """The single take_while of a method: (F, its arguments, ways)."""
    F, rows = g.run(m, inside, None, args)
    out = []
    for cs, x, end, ev in rows:
        c = single(x)
        e = single(F.unfold(end))
        if type(c) is tuple and c[0] == "op" and oname(c) == "take_while" and type(e) is tuple and e[:2] == ("op", c[1] + "!0") and e[2][1:] == c[2][1:] and F.unfold(c[2][0]) == IN("self"):
            out.append(c)
        else:
            out.append(None)
    return F, out


def kind(v):
    a = single(v)
    if type(a) is tuple and a[0] == "adt" and "TakeOpt" in str(a[1]):
        return (a[2],) + tuple(single(y)[1] if type(single(y)) is tuple and single(y)[0] == "c" else "?" for y in a[3])
    return a


def symbols(rep, g, P):
    for name, inside, cases in (("sym", ("sym_set",), [(C(b), {b}) for b in range(256)]),
                                ("sym_set", (), [(C(s), set(s)) for s in (b"", b"a", b"ab", b"\xffa\x00", b":{}[] ,\n\r")])):
        at = g.where(name)
        for arg, want in cases:
            F, cs = one_take(g, name, inside, [arg])
            for c in cs:
                if not rep.oblige(c is not None, name, "%s is not one step of take_while" % at):
                    continue
                k = kind(c[2][2])
                rep.oblige(k in (("One",), ("Range", 1, 1)), name + ":one", "%s takes %s" % (at, show(c[2][2], 60)))
                sure, maybe = P.sat(P.value(F, c[2][1]))
                rep.oblige(sure == maybe == want, name + ":set", "%s of %s fits %s" % (at, show(arg, 40), sorted(maybe ^ want)[:8]))
            rep.floor("ways of " + name, len(cs), 1)


def blanks(rep, g, P):
    wide = {9, 10, 12, 13, 32}
    for name, want in (("ws", wide - {10, 13}), ("inv", wide)):
        at = g.where(name)
        F, cs = one_take(g, name)
        for c in cs:
            if not rep.oblige(c is not None, name, "%s is not one run of take_while" % at):
                continue
            rep.oblige(c[2][2] == IN("a1"), name + ":limit", "%s takes %s" % (at, show(c[2][2], 60)))
            sure, maybe = P.sat(P.value(F, c[2][1]))
            rep.oblige(sure == maybe == want, name + ":set", "%s fits other bytes: %s" % (at, sorted(maybe ^ want)[:8]))
        rep.floor("ways of " + name, len(cs), 1)


def sequence(rep, g):
    """Each symbol, one behind the other."""
    F, rows = g.run("sym_seq", ("back",))
    at = g.where("sym_seq")
    turns = [(tc, mem) for t in F.loops.values() for tc, mem, ev in t]
    for tc, mem in turns:
        st = [(single(b), single(F.unfold(v))) for b, v in mem.values() if isphi(single(b)) and single(b) != single(v)]
        syms = [(b, v) for b, v in st if type(v) is tuple and v[0] == "op" and oname(v) == "sym"]
        its = [(b, v) for b, v in st if type(v) is tuple and v[0] == "op" and oname(v) == "next"]
        good = len(st) == 2 and len(syms) == len(its) == 1
        if good:
            (b, v), (i, nx) = syms[0], its[0]
            item = V(("pj", ("pj", ("op", nx[1][:-2], nx[2]), "Some"), "0"))
            good = v[2][0] == V(b) and b[2][2] == IN("self") and nx[2][0] == V(i) and v[2][1] == item and whole(i[2][2])
            t = tested(tc)
            good = good and any(oname(c) == "sym" and w == "Ok" for c, w in t.items())
        rep.oblige(good, "each", "%s does not take each of the symbols (when %s)" % (at, conds(tc)))
    for cs, x, end, ev in rows:
        t = tested(cs)
        if Ok(x) is not None:
            over = any(oname(c) == "next" and w == "None" and isphi(single(c[2][0])) for c, w in t.items())
            sw = [w for c, w in cs if type(c) is tuple and c[0] == "op" and oname(c) == "starts_with" and type(w) is bool]
            if sw == [True] and not turns:
                p = g.part(F.unfold(end), "pos")
                rep.oblige(p is not None and num(p, lambda a: 700 if a == ("in", ("self", "pos")) else 20 if oname(a) == "len" and a[2][0] == IN("a1") else None) == 720, "all", "%s takes something else" % at)
                continue
            rep.oblige(over and bool(turns) and isphi(single(F.unfold(end))), "all", "%s says yes before the last symbol (when %s)" % (at, conds(cs)))
        else:
            if [w for c, w in cs if type(c) is tuple and c[0] == "op" and oname(c) == "starts_with" and c[2][1] == IN("a1")] == [False]:
                e = single(F.unfold(end))
                rep.oblige(mismatch(F, x) and (oname(e) == "backward" or g.part(V(e), "pos") == IN("self", "eaten")), "failed", "%s leaves the cursor where it is" % at)
                continue
            a = single(x)
            if oname(a) == "try_for_each" and whole(a[2][0]) and each(g, a[2][1]):
                once = True
                continue
            bad = [c for c, w in t.items() if oname(c) == "sym" and w in ("Err", "Mismatch")]
            rep.oblige(len(bad) == 1, "failed", "%s says no though every symbol fits (when %s)" % (at, conds(cs)))
    rep.floor("ways of sym_seq", len(rows), 1)


def each(g, v):
    """A closure which takes its argument as a symbol."""
    a = single(v)
    if type(a) is not tuple or a[0] != "adt" or type(a[1]) is not tuple or a[1][0] != "closure":
        return False
    for k, b in g.d["bodies"].items():
        if b.get("closure") and "blocks" in b and b["locals"][1]["ty"].lstrip("&").replace("mut ", "") == a[1][1]:
            return len(b["blocks"]) <= 3 and re.search(r"Parser::<[^>]*>::sym\b", str(b["blocks"])) is not None
    return False


def whole(v):
    a = single(v)
    for _ in range(4):
        if type(a) is tuple and a[0] == "op" and oname(a) in ("into_iter", "iter", "copied", "cloned"):
            a = single(a[2][0])
    return a == ("in", ("a1",))


def newline(rep, g):
    """One line end, whichever of the four it is."""
    F, rows = g.run("nl")
    at = g.where("nl")
    got = set()
    for cs, x, end, ev in rows:
        t = {c: w for c, w in tested(cs).items() if oname(c) in ("sym", "sym_seq", "sym_set")}
        last = single(x)
        if Ok(x) is None and type(last) is tuple and last[0] == "op" and oname(last) in ("sym", "sym_seq", "sym_set"):
            # the last one decides
            alike = [c for c in t if c[1] == last[1] and c[2][1:] == last[2][1:]]
            if not alike:
                for s in texts(last):
                    got.add(s)
                    rep.oblige(s in NL, "nl:which", "%s takes %r as a line end" % (at, s))
                no = {s for c, w in t.items() if w in ("Err", "Mismatch") for s in texts(c)} | set(texts(last))
                rep.oblige(set(NL) <= no, "nl:none", "%s says no without a look at %s" % (at, sorted(set(NL) - no)))
                longer = {z for z in NL for s in texts(last) if z != s and z.startswith(s)} - no
                rep.oblige(not longer, "nl:longest", "%s takes a line end before a look at %s" % (at, sorted(longer)))
                continue
        ok = [c for c, w in t.items() if w == "Ok"]
        no = {s for c, w in t.items() if w in ("Err", "Mismatch") for s in texts(c)}
        q = g.part(F.unfold(end), "eaten")
        rep.oblige(q == IN("self", "eaten"), "nl:eaten", "%s leaves the eaten cursor as %s" % (at, show(q, 60) if q is not None else "?"))
        for c in t:
            rep.oblige(fresh(g, F, c[2][0]), "nl:check point", "%s has no check point to come back to" % at)
        if Ok(x) is None:
            rep.oblige(not ok and set(NL) <= no, "nl:none", "%s says no without a look at %s" % (at, sorted(set(NL) - no)))
            rep.oblige(mismatch(F, x), "nl:none", "%s says no by %s" % (at, show(x, 60)))
            continue
        if not rep.oblige(len(ok) == 1, "nl:one", "%s takes %d line ends (when %s)" % (at, len(ok), conds(cs))):
            continue
        for s in texts(ok[0]):
            got.add(s)
            rep.oblige(s in NL, "nl:which", "%s takes %r as a line end" % (at, s))
            longer = {z for z in NL if z != s and z.startswith(s)} - no
            rep.oblige(not longer, "nl:longest", "%s takes %r before a look at %s" % (at, s, sorted(longer)))
    rep.oblige(got == set(NL), "nl:all", "%s does not know %s" % (at, sorted(set(NL) - got)))


def fresh(g, F, v):
    """The check point is where the cursor was."""
    for _ in range(50):
        v = F.unfold(v)
        a = single(v)
        if type(a) is tuple and a[0] == "op" and a[1].endswith("!0"):
            if oname(a) == "forward":
                return True
            v = a[2][0]
            continue
        p, q = g.part(v, "pos"), g.part(v, "eaten")
        return p is not None and p == q
    return False


def texts(c):
    a = single(c[2][1])
    if type(a) is not tuple or a[0] != "c":
        return [b"?"]
    if type(a[1]) is int:
        return [bytes([a[1]])]
    if oname(c) == "sym_set":
        return [bytes([b]) for b in a[1]]
    return [a[1]]


def boundary(rep, g):
    """The end of the text or one of the signs, which is kept; then blanks are taken."""
    F, rows = g.run("bound", ("back",))
    at = g.where("bound")
    seen = set()
    for cs, x, end, ev in rows:
        t = tested(cs)
        over = next((w for c, w in cs if type(c) is tuple and c[0] == "op" and oname(c) == "is_empty" and type(w) is bool), None)
        reads = [(c, w) for c, w in t.items() if oname(c) in ("sym", "sym_set", "sym_seq", "take_while")]
        ok = Ok(x) is not None or type(single(x)) is tuple and single(x)[0] == "op" and oname(single(x)) == "ws"
        if over is True:
            seen.add("end")
            rep.oblige(ok and single(end) == ("in", ("self",)), "bound:end", "%s at the end of the text gives %s" % (at, show(x, 60)))
            continue
        if not ok:
            rep.oblige(bool(reads) and all(w in ("Err", "Mismatch") for c, w in reads) or any(oname(c) == "ws" for c in t), "bound:no", "%s says no at one of the signs (when %s)" % (at, conds(cs)))
            continue
        good = [c for c, w in reads if w == "Ok"]
        seen |= {s for c in good for s in texts(c)}
        rep.oblige(len(good) == 1, "bound:sign", "%s takes %d signs" % (at, len(good)))
        # given back, then blanks
        e = single(F.unfold(end))
        last = e if type(e) is tuple and e[0] == "op" and oname(e) == "ws" else None
        if rep.oblige(last is not None and kind(last[2][1]) == ("More", 0), "bound:blanks", "%s does not take the blanks behind the sign" % at):
            s = F.unfold(last[2][0])
            if good:
                p = g.part(s, "pos")
                k = num(p, lambda a: 0 if a[0] == "pj" and a[2] == "pos" and oname(single(F.unfold(V(a[1])))) == oname(good[0]) else None) if p is not None else None
                rep.oblige(k == -1 or back_to(F, s), "bound:kept", "%s does not give the sign back" % at)
    want = {bytes([b]) for b in BOUND} | {"end"}
    rep.oblige(seen == want, "bound:signs", "%s knows other signs: %s" % (at, sorted(map(str, seen ^ want))))


def back_to(F, s):
    ns = [m for m, _, _ in chain(F, s)]
    return ns[:1] == ["backward"] and "forward" in ns


def wrapped(rep, g):
    """A check point of its own, and the one before afterwards; the width of what was taken."""
    F, rows = g.run("context", ())
    at = g.where("context")
    for cs, x, end, ev in rows:
        a = single(x)
        ns = [oname(("op",) + tuple(e)) for e in ev]
        rep.oblige(type(a) is tuple and a[0] == "op" and oname(a) == "callv" and a[2][0] == IN("a1"), "context:result", "%s gives %s" % (at, show(x, 80)))
        rep.oblige(g.part(F.unfold(end), "eaten") == IN("self", "eaten"), "context:eaten", "%s does not bring back the check point" % at)
        rep.oblige(ns.count("callv") == 1 and "backward" not in ns, "context:once", "%s does more than the inner parser" % at)
    for name in ("ind_define",):
        F, rows = g.run(name, ("count",))
        for cs, x, end, ev in rows:
            for a in subatoms(F, end):
                if a[0] == "op" and re.search(r"push( <.*>)?!0$", a[1]) and len(a[2]) == 2:
                    seen = {}

                    def leaf(y):
                        if y[0] == "op" and oname(y) == "len":
                            f = single(y[2][0])
                            st = single(f[2][0]) if type(f) is tuple and f[0] == "op" and oname(f) == "food" else None
                            at_ = leaf(("in", ("self", "pos")) if st == ("in", ("self",)) else ("pj", st, "pos")) if st is not None else None
                            return None if at_ is None else (1 << 40) - at_
                        if y == ("in", ("self", "pos")):
                            return seen.setdefault(y, 500)
                        if y[0] == "pj" and y[2] == "pos" and type(y[1]) is tuple:
                            n = y[1][2][0] if type(y[1]) is tuple and y[1][:2] == ("op", "state") else None
                            n = single(n) if n is not None else None
                            if type(n) is tuple and n[0] == "c" and type(n[1]) is int:
                                return seen.setdefault(y, 1000 + (1 << 12) * n[1] * (n[1] + 1))
                        return None
                    k = num(a[2][1], leaf)
                    vs = sorted(seen.values())
                    good = k is not None and len(vs) == 2 and k == vs[1] - vs[0]
                    rep.oblige(bool(good), "count", "%s counts %s" % (g.where("count"), show(a[2][1], 80)))
