import c38
import facts
from grammar import *
from preds import Preds

LEVEL = "proof"
HIGH = frozenset(range(128, 256))
PRIM = ("sym", "sym_set", "sym_seq", "take_while")
MAKERS = re.compile(r"(from_utf8\w*|from_utf8_lossy\w*|from_u32\w*)$")


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in PRIM + ("text", "back", "forward", "backward")):
        return
    rep.rule = ("Every predicate which decides how far the input is taken is evaluated over all 256 bytes: it treats the bytes of multi-byte characters alike, and accepts them only where it is repeated without limit; "
                "symbols that are matched are single-byte characters (or whole characters). A step back covers only single-byte characters which were just matched (typestate of the position). "
                "The two cursors are otherwise set to each other or saved values only, and text is made only from the bytes between them.")
    rep.assume = ["rustc's MIR", "the input is UTF-8, as a &str is", "byte predicates of std are as documented", "methods of Parser are called as the crate calls them"]
    s = Sites(g)
    s.all()
    taken(rep, g, s)
    steps(rep, g, s)
    c38.taking(rep, g)
    c38.sequence(rep, g)
    cursors(rep, g)
    texts(rep, g, s)
    # every call site was met
    for k, b in d["bodies"].items():
        if not b.get("span", "").startswith("src/parser/"):
            continue
        for blk in b.get("blocks", []):
            t = blk["t"]
            if blk["cleanup"] or t["k"] != "call":
                continue
            p = t["f"].get("rpath") or t["f"].get("path") or ""
            if re.search(OWNER + r"(%s|back)$" % "|".join(PRIM), p) and t.get("sp") not in s.met and not k.startswith(g.key("sym_seq") + "::{closure"):
                rep.oblige(False, "met:" + t["f"]["name"] + k, "%s: the use of %s in %s cannot be analysed" % (t.get("sp"), t["f"]["name"], k))
    rep.cov.update(sites=len(s.met), methods=len(s.done))


class Sites:
    """The uses of the primitives, with what is given to them."""
    def __init__(self, g):
        self.g, self.recs, self.met, self.done = g, [], set(), {}
        self.chars, self.still = [], ()
        self.P = Preds(g.d)

    def all(self):
        for m in self.g.keys:
            if m in PUB:
                self.scan(m)
        # a method which hands on an argument is seen with what its callers give
        for m in list(self.done):
            if m in PRIM or not any(r[2] == m and r[0] in PRIM and depends(r[3][1:2]) for r in self.recs) and not any(r[2] == m and depends(r[3]) for r in self.chars):
                continue
            given = {tuple(x if single(x) is not None and single(x)[0] in ("c", "adt") else IN("a%d" % i) for i, x in enumerate(r[3][1:], 1)) for r in self.recs if r[0] == m and r[2] != m}
            if given:
                self.recs = [r for r in self.recs if r[2] != m]
                self.chars = [r for r in self.chars if r[2] != m]
                for a in sorted(given, key=str):
                    self.scan(m, a)

    def scan(self, m, args=None):
        g = self.g
        F = g.flow(m, "count")

        def hook(F, st, f, args, t):
            p = f.get("rpath") or f.get("path") or ""
            nm = f.get("name") or p.split("::")[-1]
            a = tuple(F.load(st, single(x)[1], single(x)[2]) if type(single(x)) is tuple and single(x)[0] == "mut" else x for x in args)
            if re.search(OWNER + r"\w+$", p) and nm in g.keys and nm in PUB and nm != "count":
                self.recs.append((nm, t.get("sp"), m, a, F, st.conds))
                self.met.add(t.get("sp"))
            elif t["f"].get("dty", t.get("dty")) == "char" or t.get("dty") == "char":
                self.chars.append((nm, t.get("sp"), m, a))
            return None
        F.hook = hook
        k = g.keys[m]
        b = g.d["bodies"][k]
        r = ("L", 0)
        mut = b["argc"] and b["locals"][1]["ty"].startswith("&mut")
        rest = list(args) if args else [IN("a%d" % i) for i in range(1, b["argc"])]
        if not b["argc"]:
            return
        try:
            rows = F.run(k, [V(("mut", r, ())) if mut else IN("self")] + rest, None, mem={r: IN("self")})
        except Cut as e:
            rows = []
            self.g.rep.oblige(False, "cut:" + m, "%s: %s is too large to be analysed (%s)" % (g.where(m), m, e))
        self.done.setdefault(m, []).append((F, [(cs, x, mem.get(r, ANY)) for cs, x, mem, ev in rows]))

    # ---------------------------------------------------------------- summaries
    def ascii(self, m, seen=()):
        """All the input which the method takes is single-byte characters."""
        if m in seen:
            return True
        if m in PRIM or m in ("back", "consume", "pos", "with_doc"):
            return False
        for r in self.recs:
            if r[2] == m and not (self.ascii1(r) if r[0] in PRIM else self.ascii(r[0], seen + (m,))):
                return False
        return m in self.done or m in ("forward", "backward", "text", "food", "food_str", "err", "indicator")

    def ascii1(self, r):
        """One use of a primitive takes single-byte characters."""
        nm, sp, m, a, F, cs = r
        if nm == "take_while":
            sure, may = self.P.sat(self.P.value(F, a[1]))
            return not may & HIGH
        b = bytesof(a[1])
        return b is not None and all(x < 128 for x in b)

    def least(self, m, a):
        """Bytes which a successful use takes at the least."""
        if m in ("sym", "sym_set"):
            return 1
        if m == "sym_seq":
            b = bytesof(a[1]) if type(single(a[1])) is tuple and single(a[1])[0] != "pj" else None
            return len(b) if b else 0
        o = next((single(x) for x in a[1:] if type(single(x)) is tuple and single(x)[0] == "adt" and str(single(x)[1]).endswith("TakeOpt")), None)
        if o:
            return 1 if o[2] == "One" else next((single(x)[1] for x in o[3] if type(single(x)) is tuple and single(x)[0] == "c"), 0)
        if m in self.done and m not in PRIM:
            out = []
            for F, rows in self.done[m]:
                for cs, x, end in rows:
                    if Err(x) is None:
                        p = self.place(F, end, outcome(cs, x, "Ok"), (m,))
                        n = sum(self.least(c[0], c[1][2]) for c in p[0][1]) if p and p[0] else 0
                        if p and p[0] and p[0][0][0] in ("phi", "phie") and turned(cs, p[0][0][1]):
                            n += self.turn(F, p[0][0][1], m, p[0][0][0] == "phie")
                        out.append(n)
            return min(out, default=0)
        return 0

    def failing(self, m, c, seen):
        """Where a failed use leaves the position: 'pos', 'eaten' or None."""
        if m in PRIM:
            return "eaten"
        if m in seen or m not in self.done:
            return None
        out = set()
        given = {("in", ("a%d" % i,)): single(x)[1] for i, x in enumerate(c[2][1:], 1) if type(single(x)) is tuple and single(x)[0] == "c" and type(single(x)[1]) in (bool, int)}
        for F, rows in self.done[m]:
            for cs, x, end in rows:
                if Ok(x) is None and not unfailing(cs) and not any(k in given and type(w) is bool and bool(given[k]) != w for k, w in cs):
                    self.still = still(F, cs)
                    p = self.place(F, end, outcome(cs, x, "Err"), seen + (m,))
                    self.still = ()
                    if p and p[0] == p[1] == (("eaten",), ()):
                        out.add("eaten")
                    elif p and p[0] in ((("pos",), ()), (("eaten",), ())) and p[1] == (("eaten",), ()):
                        out.add(p[0][0][0])
                    else:
                        out.add(None)
        return out.pop() if len(out) == 1 else None

    def turn(self, F, a, m, start=False):
        """Bytes which each turn of a loop takes at the least (up to its check point)."""
        out = []
        for (name, lc), trans in F.loops.items():
            if C(name) != a[2][0]:
                continue
            for tc, mem, ev in trans:
                for r, (b, v) in mem.items():
                    if b == V(a):
                        p = self.place(F, v, tested(tc), (m,))
                        p = p and p[1 if start else 0]
                        out.append(sum(self.least(c[0], c[1][2]) for c in p[1]) if p and p[0] == ("phi", a) else 0)
        return min(out, default=0)

    def place(self, F, v, t, seen=()):
        """(position, start of the text) of a state, each (base, calls since)."""
        a = single(F.unfold(v))
        if type(a) is not tuple:
            return None
        if a[0] == "in":
            return (("pos",), ()), (("eaten",), ())
        if a[0] == "pj" and a[2] == "parser":
            return self.place(F, V(a[1]), t, seen)
        if a[0] == "op" and a[1].endswith("!0"):
            c = ("op", a[1][:-2], a[2])
            m = oname(c)
            r = self.place(F, a[2][0], t, seen)
            if r is None:
                return None
            p, e = r
            if m == "forward":
                return p, p
            if m == "backward":
                return e, e
            if m == "back":
                # over the symbol that was just matched
                one = p and p[1] and p[1][-1][0] in ("sym", "sym_set") and p[1][-1][2] == "Ok" and a[2][1] == C(1)
                return (p[0], p[1][:-1]) if one else None, e
            if m in ("text", "food", "food_str", "err", "indicator"):
                return p, e
            w = t.get(c)
            if m not in PRIM and not self.g.keeps(m, "eaten"):
                e = None
            if w in ("Err", "Mismatch", "Terminate"):
                b = self.failing(m, c, seen)
                if b:
                    return (e if b == "eaten" else p), e
            return (p and (p[0], p[1] + ((m, c, w),))), e
        if a[0] == "op" and a[1] == "phi":
            if a[2][0] in self.still:
                return self.place(F, a[2][2], t, seen)
            e = None
            if self.g.loopkeeps(F, a, "eaten"):
                r = self.place(F, a[2][2], t, seen)
                e = r and r[1]
            return (("phi", a), ()), e or (("phie", a), ())
        if a[0] == "adt" and a[1] == self.g.parser:
            out = []
            for f in ("pos", "eaten"):
                x = self.g.part(V(a), f)
                x = x and single(x)
                if x == ("in", ("self", f)):
                    out.append(((f,), ()))
                elif type(x) is tuple and x[0] == "pj" and x[2] in ("pos", "eaten"):
                    r = self.place(F, V(x[1]), t, seen)
                    out.append(r and r[0 if x[2] == "pos" else 1])
                else:
                    out.append(None)
            return tuple(out)
        return None


def outcome(cs, x, w):
    """The outcomes of the calls; a result that is handed on was the given one."""
    t, a = tested(cs), single(x)
    if type(a) is tuple and a[0] == "op" and a not in t:
        t[a] = w
    return t


def turned(cs, a):
    """A number which was none before the loop is some behind it: there was a turn."""
    return any(y[2][0] == a[2][0] and some for y, some in numbers(cs))


def numbers(cs):
    """[(number of a loop which begins with none, whether it is some)]."""
    out = []
    for c, w in cs:
        if type(c) is not tuple or c[0] != "op" or len(c[2]) != 2 or type(w) is not bool:
            continue
        for i in (0, 1):
            y, k = single(c[2][i]), c[2][1 - i]
            if type(y) is tuple and y[0] == "op" and y[1] == "phi" and y[2][2] == C(0):
                n = re.sub(r" <.*$", "", c[1]).split("::")[-1].lower()
                n = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(n, n) if i else n
                some = {("eq", C(0)): False, ("ne", C(0)): True, ("gt", C(0)): True, ("le", C(0)): False, ("ge", C(1)): True, ("lt", C(1)): False}.get((n, k))
                if some is not None:
                    out.append((y, some == w))
    return out


def still(F, cs):
    """The loops without a turn: a number which every turn makes larger is none."""
    out = set()
    for y, some in numbers(cs):
        if some:
            continue
        up = []
        for (name, lc), trans in F.loops.items():
            for tc, mem, ev in trans if C(name) == y[2][0] else ():
                for r, (b, v) in mem.items():
                    if b == V(y):
                        z = single(v)
                        z = z[1] if type(z) is tuple and z[0] == "pj" and z[2] == "0" else z
                        up.append(type(z) is tuple and z[0] == "op" and re.match(r"Add", z[1]) is not None and z[2][0] == V(y) and type(single(z[2][1])) is tuple and single(z[2][1])[0] == "c" and single(z[2][1])[1] > 0)
        if up and all(up):
            out.add(y[2][0])
    return out


def unfailing(cs):
    """A repetition of zero or more fails, which cannot be."""
    for c, w in tested(cs).items():
        if w != "Ok" and oname(c) in ("take_while", "ws", "inv"):
            o = single(c[2][-1])
            if type(o) is tuple and o[0] == "adt" and o[2] == "More" and o[3] == (C(0),):
                return True
    return False


def depends(vs):
    """Some value depends on an argument."""
    return any("('in', ('a" in str(v) for v in vs)


def bytesof(v):
    """The bytes given to a primitive."""
    a = single(v)
    if type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Some" and type(a[1][1]) is tuple and a[1][1][0] == "op" and oname(a[1][1]) == "next":
        # any one of a list
        it = single(a[1][1][2][0])
        it = single(it[2][2]) if type(it) is tuple and it[0] == "op" and it[1] == "phi" else it
        while type(it) is tuple and it[0] == "op" and len(it[2]) == 1 and oname(it) in ("into_iter", "iter", "copied", "cloned"):
            it = single(it[2][0])
        return bytesof(V(it)) if type(it) is tuple and it[0] == "adt" and it[1] == "array" else None
    if type(a) is not tuple:
        return None
    if a[0] == "c":
        x = a[1]
        return x if type(x) is bytes else x.encode() if type(x) is str else bytes([x]) if type(x) is int and 0 <= x < 256 else None
    if a[0] == "adt" and a[1] in ("array", "tuple"):
        bs = [bytesof(x) for x in a[3]]
        return None if None in bs else b"".join(bs)
    if a[0] == "op" and len(a[2]) == 1 and re.search(r"as_bytes|as_slice|deref|as_ref|to_vec|into_bytes|unsize", a[1]):
        return bytesof(a[2][0])
    return None


def taken(rep, g, s):
    n = k = 0
    for r in s.recs:
        nm, sp, m, a, F, cs = r
        if nm not in PRIM or m in ("sym", "sym_set", "sym_seq") and depends(a[1:2]):
            continue
        if nm == "take_while":
            n += 1
            sure, may = s.P.sat(s.P.value(F, a[1]))
            if not may & HIGH:
                continue
            o = single(a[2])
            more = type(o) is tuple and o[0] == "adt" and o[2] == "More"
            if not HIGH <= sure:
                some = sorted((may & HIGH) - sure or HIGH - sure)
                rep.oblige(False, "class:%s" % m, "%s: %s takes some bytes of multi-byte characters and stops at others (such as 0x%02x)" % (sp, m, some[0]))
            else:
                rep.oblige(more, "limit:%s" % m, "%s: %s takes bytes of multi-byte characters up to a limit" % (sp, m))
        else:
            k += 1
            b = bytesof(a[1])
            good = b is not None and (all(x < 128 for x in b) or nm == "sym_seq" and utf8(b))
            rep.oblige(good, "symbol:%s" % m, "%s: %s matches %s, which is not a single-byte character" % (sp, m, b if b is not None else show(a[1], 60)))
    rep.floor("predicates", n, 15)
    rep.floor("symbols", k, 40)


def utf8(b):
    try:
        return bool(b.decode())
    except UnicodeDecodeError:
        return False


def steps(rep, g, s):
    n = 0
    for nm, sp, m, a, F, cs in s.recs:
        if nm != "back":
            continue
        n += 1
        c = single(a[1])
        p = s.place(F, a[0], tested(cs))
        if type(c) is not tuple or c[0] != "c" or type(c[1]) is not int or not p or not p[0]:
            rep.oblige(False, "back:" + m, "%s: it is not known what %s steps back over" % (sp, m))
            continue
        left, toks = c[1], list(p[0][1])
        while left > 0 and toks:
            t = toks.pop()
            one = s.one(F, t) if t[2] == "Ok" else False
            if not one:
                break
            left -= s.least(t[0], t[1][2])
        rep.oblige(left <= 0, "back:" + m, "%s: %s steps back over input which may be part of a multi-byte character" % (sp, m))
    rep.floor("steps back", n, 3)


def one(self, F, t):
    """The token is made of single-byte characters."""
    m, c, w = t
    if m in PRIM:
        return self.ascii1((m, None, None, c[2], F, None))
    return self.ascii(m)


Sites.one = one


def cursors(rep, g):
    """The cursors are set to each other, to what they were, or to the beginning."""
    n = 0
    ws = g.writers("Parser", {"pos", "eaten"})
    for k, fs in sorted(ws.items()):
        if "{closure" in k or "repr::" in k:
            continue
        m = next((m for m, x in g.keys.items() if x == k), None)
        if m in ("take_while", "sym_seq", "back"):
            continue
        if m is None:
            if not re.search(r"Default>::default|::pos$|::with_doc$", k) and g.d["bodies"][k].get("argc"):
                # a helper: seen where it is used
                m2 = k
            continue
        try:
            F, rows = g.run(m)
        except Cut:
            continue
        for cs, x, end, ev in rows:
            for f in sorted(fs):
                v = g.part(end, f)
                for a in v or ():
                    n += 1
                    good = type(a) is tuple and (a[0] == "in" and a[1][-1] in ("pos", "eaten") or a[0] == "pj" and a[2] in ("pos", "eaten") or a == ("c", 0) or m == "pos" and a[0] == "in")
                    rep.oblige(good, "cursor:" + m, "%s: %s sets %s to %s" % (g.where(m), m, f, show(V(a), 80)))
    rep.floor("cursor writes", n, 4)
    # a step back is as long as it says
    F, rows = g.run("back")
    for cs, x, end, ev in rows:
        v = g.part(end, "pos")
        a = v and single(v)
        good = type(a) is tuple and a[0] == "op" and a[1] == "Sub" and a[2] == (IN("self", "pos"), IN("a1"))
        rep.oblige(good, "back", "%s sets the position to %s" % (g.where("back"), show(v, 80)))


def texts(rep, g, s):
    """Text is made of the bytes between the cursors."""
    F, rows = g.run("text")
    n = 0
    for cs, x, end, ev in rows:
        for a in x:
            t = str(a)
            n += 1
            if "from_utf8" in t:
                ok = re.search(r"'eaten'", t) and re.search(r"'pos'", t) and "Range" in t and not re.search(r"'(Add|Sub|Mul)'|'op', '[^']*(take|skip|chunks|split|saturating_\w+|wrapping_\w+|min|max|floor_char_boundary)\b", t)
                rep.oblige(ok, "text", "%s makes text of %s" % (g.where("text"), show(x, 200)))
    rep.floor("texts", n, 1)
    for nm, sp, m, a in s.chars:
        b = [bytesof(x) for x in a]
        rep.oblige(all(x is not None and len(x) == 1 and x[0] < 128 for x in b) or nm != "from", "char:" + m, "%s: %s takes the byte %s for a character" % (sp, m, [show(x, 40) for x in a]))
    own = g.keys["text"]
    for k, b in g.d["bodies"].items():
        if not b.get("span", "").startswith("src/parser/"):
            continue
        for blk in b.get("blocks", []):
            t = blk["t"]
            if blk["cleanup"]:
                continue
            for st in blk["s"]:
                if st["k"] == "assign" and st["rv"]["k"] == "cast" and st["rv"].get("ty") == "char":
                    rep.oblige(False, "cast:" + k, "%s: %s takes a byte for a character" % (st.get("sp"), k))
            if t["k"] == "call" and MAKERS.search((t["f"].get("rpath") or t["f"].get("path") or "").split(" <")[0]) and k != own and not k.endswith("::food_str"):
                rep.oblige(False, "maker:" + k, "%s: %s makes text on its own" % (t.get("sp"), k))
