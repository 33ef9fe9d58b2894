"""Provenance dataflow: which inputs, constants and primitive operations every value of a function is made of.

Abstract interpretation of the MIR with trace partitioning: a value is a set of atoms
  ("c", x)                 constant                    ("in", path)          part of an argument
  ("adt", path, v, vals)   aggregate                   ("op", name, vals)    result of a primitive operation
  ("pj", atom, field)      part of an opaque atom      ("mut", root, path)   mutable reference
  "?"                      anything
Shared references, Rc, Arc and Box are transparent. Functions of the crate and small std combinators are analysed in place.
"""
import re
import facts

DEPTH = 10
WIDTH = 16
PARTS = 400
ANY = frozenset(["?"])


class Cut(Exception):
    pass


def V(*atoms):
    return frozenset(atoms)


def C(x):
    return V(("c", x))


def IN(*path):
    return V(("in", path))


UNIT = V(("adt", "tuple", None, ()))


def depth(a):
    if type(a) is not tuple:
        return 0
    k = a[0]
    if k in ("op",):
        return 1 + max([vdepth(v) for v in a[2]], default=0)
    if k == "adt":
        return max([vdepth(v) for v in a[3]], default=0) + (0 if a[1] == "tuple" else 0)
    if k == "pj":
        return 1 + depth(a[1])
    return 0


_vd = {}


def vdepth(v):
    d = _vd.get(v)
    if d is None:
        d = max([depth(a) for a in v], default=0)
        if len(_vd) > 200000:
            _vd.clear()
        _vd[v] = d
    return d


def trim(v):
    return ANY if len(v) > WIDTH or vdepth(v) > DEPTH else v


def op(name, *vals):
    a = ("op", name, tuple(vals))
    return ANY if depth(a) > DEPTH else V(a)


def show(v, n=300):
    def at(a):
        if a == "?":
            return "?"
        k = a[0]
        if k == "c":
            return repr(a[1])
        if k == "in":
            return ".".join(map(str, a[1]))
        if k == "adt":
            nm = a[1].split("::")[-1] if type(a[1]) is str else "closure"
            return "%s%s(%s)" % (nm if a[2] is None else a[2], "", ", ".join(sh(x) for x in a[3])) if a[3] or a[2] is not None else "()"
        if k == "op":
            return "%s(%s)" % (a[1].split("::")[-1] if "<" not in a[1] else a[1], ", ".join(sh(x) for x in a[2]))
        if k == "pj":
            return "%s.%s" % (at(a[1]), a[2])
        if k == "mut":
            return "&mut"
        return str(a)

    def sh(v):
        l = sorted(at(a) for a in v)
        return l[0] if len(l) == 1 else "{" + " | ".join(l) + "}"
    s = sh(v)
    return s if len(s) <= n else s[:n] + "…"


def subst(v, f):
    """Map atoms bottom up; f(atom) -> atom or value set."""
    out = set()
    for a in v:
        if type(a) is tuple:
            if a[0] == "op":
                a = ("op", a[1], tuple(subst(x, f) for x in a[2]))
            elif a[0] == "adt":
                a = ("adt", a[1], a[2], tuple(subst(x, f) for x in a[3]))
            elif a[0] == "pj":
                for x in subst(V(a[1]), f):
                    r = "?" if x == "?" else f(("in", x[1] + (a[2],)) if x[0] == "in" else ("pj", x, a[2]))
                    out |= r if isinstance(r, frozenset) else {r}
                continue
        r = f(a)
        if isinstance(r, frozenset):
            out |= r
        else:
            out.add(r)
    return frozenset(out)


def atoms(v, out=None):
    """Every atom inside."""
    out = set() if out is None else out
    for a in v:
        if a in out:
            continue
        out.add(a)
        if type(a) is tuple:
            if a[0] == "op":
                for x in a[2]:
                    atoms(x, out)
            elif a[0] == "adt":
                for x in a[3]:
                    atoms(x, out)
            elif a[0] == "pj":
                atoms(V(a[1]), out)
    return out


class St:
    __slots__ = ("mem", "conds", "ev", "now")

    def __init__(self, mem, conds, ev, now=frozenset()):
        # now: the events without those of earlier iterations
        self.mem, self.conds, self.ev, self.now = mem, conds, ev, now

    def fork(self):
        return St(dict(self.mem), self.conds, self.ev, self.now)


class Events(tuple):
    now = frozenset()


def events(st):
    e = Events(st.ev)
    e.now = st.now
    return e


SAME = re.compile(r"(Deref>::deref|Deref::deref|DerefMut>::deref_mut|DerefMut::deref_mut|AsRef<.*>>::as_ref|AsRef::as_ref|Borrow<.*>>::borrow|Borrow::borrow|"
                  r"Clone>::clone|Clone::clone|Clone for [^>]*>::clone|String::as_str|String::as_bytes|str>::as_bytes|Vec::<.*>::as_slice|ToOwned>::to_owned|ToOwned::to_owned|"
                  r"(Rc|Arc|Box)::<.*>::new|Repr::new_rc|Rc::<.*>::from|IntoIterator>::into_iter|str>::to_string|str>::to_owned|String::into_boxed_str|"
                  r"str>::into_string|Option::<&.*>::cloned|Option::<&.*>::copied|hint::must_use|Rc<.*> as std::convert::From|Arc<.*> as std::convert::From|Box<.*> as std::convert::From|"
                  r"String as std::convert::From<&|Cow<.*>::into_owned|[Ss]tring::String::into_string|<T as std::convert::From<T>>::from)$")
STRS = ("&str", "str", "std::string::String", "&std::string::String", "&&str", "&mut str")


# operations on texts, when all of them are constant
STRFOLD = {
    "starts_with": lambda s, p: s.startswith(p),
    "ends_with": lambda s, p: s.endswith(p),
    "contains": lambda s, p: p in s,
    "replace": lambda s, a, b: s.replace(a, b),
    "to_ascii_lowercase": lambda s: "".join(c.lower() if c < "\x7f" else c for c in s),
    "to_ascii_uppercase": lambda s: "".join(c.upper() if c < "\x7f" else c for c in s),
    "eq_ignore_ascii_case": lambda s, t: s.lower() == t.lower() if s.isascii() and t.isascii() else s == t,
}


class Flow:
    def __init__(self, d, opaque=(), inline_std=True):
        self.d = d
        self.tys, self.adts = d["tys"], d["adts"]
        self.opaque = opaque           # regexps of keys which are primitive operations
        self.clos = {}
        for k, b in d["bodies"].items():
            if b.get("closure") and "blocks" in b:
                t = b["locals"][1]["ty"]
                tt = self.tys.get(t) or {}
                c = tt.get("to") if tt.get("k") == "ref" else t
                self.clos.setdefault(c, []).append(k)
        self.visited = set()
        self.hook = None
        self.maxconds = 40
        self.record = None             # which primitive operations are events
        self.nframe = 0
        self.loops = {}                # (loop, conditions) -> iterations
        self.unknown = set()
        self.fold = None               # primitives after which a state gets a name of its own
        self.named, self.names = {}, {}
        self.canon = None              # another form of an argument of an unknown call
        self.parts = 60                # kept apart per block
        self.limit = 4000              # block visits of one run

    def fresh(self, v):
        """A short name for a value; the same one for the same value."""
        if v == ANY:
            return v
        if v not in self.named:
            self.named[v] = len(self.named)
            self.names[len(self.named) - 1] = v
        return V(("op", "state", (C(self.named[v]),)))

    def unfold(self, v):
        """The value which the name stands for."""
        a = next(iter(v)) if len(v) == 1 else None
        if type(a) is tuple and a[0] == "op" and a[1] == "state":
            return self.names[next(iter(a[2][0]))[1]]
        return v

    # ------------------------------------------------------------ entry
    def run(self, key, args, assume=None, mem=None, ev=()):
        """Partitions [(conds, result, mem, events)] of the function at its returns."""
        self.assume = assume or {}
        self.nframe = 0
        self.budget = self.limit
        self.nbox = 0
        self.stack = []
        st = St(dict(mem or {}), frozenset(), ev)
        out = self.call_body(st, key, args)
        return [(s.conds, v, s.mem, events(s)) for s, v in out]

    def runv(self, fv, args):
        """Call a closure or function value from nowhere."""
        self.assume, self.nframe, self.budget, self.nbox, self.stack, self.body = {}, 0, self.limit, 0, [], None
        return [(s.conds, v) for s, v in self.callv(St({}, frozenset(), ()), fv, args)]

    # ------------------------------------------------------------ values
    def variants(self, adt):
        a = self.adts.get(adt)
        return [v["name"] for v in a["variants"]] if a and a["kind"] == "enum" else None

    def field(self, a, i, name):
        """Projection of an atom."""
        if a == "?":
            return ANY
        k = a[0]
        if k == "adt":
            return a[3][i] if i < len(a[3]) else ANY
        if k == "in":
            return V(("in", a[1] + (name if name is not None else str(i),)))
        if k in ("op", "pj"):
            n = ("pj", a, name if name is not None else str(i))
            return ANY if depth(n) > DEPTH else V(n)
        return ANY

    def proj(self, v, i, name):
        out = set()
        for a in v:
            out |= self.field(a, i, name)
        return trim(frozenset(out))

    def down(self, v, i, name):
        out = set()
        for a in v:
            if a == "?":
                out.add(a)
            elif a[0] == "adt":
                if a[2] == name or a[2] is None:
                    out.add(a)
            elif a[0] == "in":
                if self.assume.get(a[1], name) == name:
                    out.add(("in", a[1] + (name,)))
            elif a[0] in ("op", "pj"):
                out.add(("pj", a, name))
        return frozenset(out)

    def load(self, st, root, path):
        v = st.mem.get(root, ANY)
        for p in path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        if p[0] == "f":
            return self.proj(v, p[1], p[2])
        return self.down(v, p[1], p[2])

    def store(self, st, root, path, new):
        st.mem[root] = self.upd(st.mem.get(root, ANY), path, new)

    def upd(self, v, path, new):
        if not path:
            return new
        p = path[0]
        out = set()
        for a in v:
            if type(a) is tuple and a[0] == "adt":
                if p[0] == "v":
                    if a[2] == p[2] or a[2] is None:
                        out |= self.upd(V(a), path[1:], new)
                    else:
                        out.add(a)
                elif p[1] < len(a[3]):
                    fs = list(a[3])
                    fs[p[1]] = self.upd(fs[p[1]], path[1:], new)
                    out.add(("adt", a[1], a[2], tuple(fs)))
            elif p[0] == "f" and type(a) is tuple and a[0] in ("in", "op", "pj") and p[3]:
                # give the opaque value its structure
                x = self.expand(a, p[3])
                if x is None:
                    out.add("?")
                else:
                    out |= self.upd(V(x), path, new)
            else:
                out.add("?")
        return trim(frozenset(out)) if out else ANY

    def expand(self, a, adt):
        t = self.adts.get(adt)
        if not t or t["kind"] != "struct":
            return None
        return ("adt", adt, None, tuple(self.field(a, i, f["name"]) for i, f in enumerate(t["variants"][0]["fields"])))

    # ------------------------------------------------------------ places
    def resolve(self, st, fr, pl):
        """[(root, path)] or None, value, and the type."""
        locs = [((fr, pl["l"]), ())]
        ty = self.body["locals"][pl["l"]]["ty"]
        v = st.mem.get((fr, pl["l"]), ANY)
        for e in pl["p"]:
            k = e["k"]
            if k == "deref":
                t = self.tys.get(ty) or {}
                ty = t.get("to") or (t.get("args") or [None])[0]
                ms = [a for a in v if type(a) is tuple and a[0] == "mut"]
                if ms:
                    if len(ms) == len(v):
                        locs = [(a[1], a[2]) for a in ms]
                        w = frozenset()
                        for r, p in locs:
                            w |= self.load(st, r, p)
                        v = trim(w)
                    else:
                        w = frozenset(a for a in v if a not in ms)
                        for a in ms:
                            w |= self.load(st, a[1], a[2])
                        locs, v = None, trim(w)
                # shared references are transparent: the place stays the one holding the reference
            elif k == "field" and v and all(type(a) is tuple and a[0] == "mut" and a[1][0] == "box" for a in v):
                # the pointer inside of the box
                ty = e["ty"]
            elif k == "field" and re.search(r"^std::mem::(MaybeUninit|ManuallyDrop)<|^std::mem::maybe_dangling", ty) and locs and all(r[0] == "box" for r, p in locs):
                ty = e["ty"]
            elif k == "field":
                t = self.tys.get(ty) or {}
                ad = t.get("path") if t.get("k") == "adt" else None
                if locs is not None:
                    locs = [(r, p + (("f", e["i"], e["name"] if e["name"] is not None else str(e["i"]), ad),)) for r, p in locs]
                v = self.proj(v, e["i"], e["name"])
                ty = e["ty"]
            elif k == "downcast":
                if locs is not None:
                    locs = [(r, p + (("v", e["i"], e["name"]),)) for r, p in locs]
                v = self.down(v, e["i"], e["name"])
            elif k == "index":
                i = st.mem.get((fr, e["local"]), ANY)
                v = op("[]", v, i)
                locs = None
                ty = (self.tys.get(ty) or {}).get("to")
            elif k == "cindex":
                if v and all(type(a) is tuple and a[0] == "adt" and a[1] == "array" and not e.get("end") for a in v):
                    v = self.proj(v, e["off"], None)
                else:
                    v = op("[]", v, C(-e["off"] if e.get("end") else e["off"]))
                locs = None
                ty = (self.tys.get(ty) or {}).get("to")
            else:
                v = op(k, v, C(e.get("from")), C(e.get("to")))
                locs = None
        return locs, v, ty

    def operand(self, st, fr, o):
        k = o["k"]
        if k != "const":
            return self.resolve(st, fr, o["pl"])[1]
        for f in ("bool", "char", "int", "str", "refint"):
            if f in o:
                x = o[f]
                if f == "bool":
                    return C(x)
                return C(("char", x)) if f == "char" else C(x)
        if "bytes" in o:
            return C(bytes(o["bytes"]))
        if "fbits" in o:
            return C(("f", o["ty"], o["fbits"]))
        if "fn" in o:
            return V(("fn", o["fn"], o.get("fkey", o["ty"])))
        t = self.tys.get(o["ty"]) or {}
        if t.get("k") == "closure":
            return V(("adt", ("closure", o["ty"]), None, ()))
        if o["ty"] == "()":
            return UNIT
        if "promoted" in o and o.get("def") == self.body["path"]:
            ps = self.body.get("promoted") or []
            if o["promoted"] < len(ps) and ps[o["promoted"]]:
                r = self.inline(st, ps[o["promoted"]], [])
                if len(r) == 1:
                    return r[0][1]
        if o.get("zst"):
            a = self.adts.get(t.get("path"))
            if a:
                return V(("adt", t["path"], None if a["kind"] == "struct" else a["variants"][0]["name"], ()))
        return op("const " + str(o.get("def", o["ty"])))

    def wname(self, st, v):
        """A value as it is seen through mutable references."""
        if not any(type(a) is tuple and a[0] == "mut" for a in v):
            return v
        out = set()
        for a in v:
            if type(a) is tuple and a[0] == "mut":
                out |= self.load(st, a[1], a[2])
            else:
                out.add(a)
        return trim(frozenset(out))

    def rvalue(self, st, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["op"])
        if k == "ref":
            locs, v, ty = self.resolve(st, fr, r["pl"])
            if r["mut"]:
                if locs is not None:
                    return frozenset(("mut", a, b) for a, b in locs)
                return v
            return v
        if k == "rawptr":
            return self.resolve(st, fr, r["pl"])[1]
        if k == "bin":
            return self.binop(r["op"], self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"]), r.get("ty"))
        if k == "un":
            a = self.operand(st, fr, r["a"])
            if r["op"] == "Not":
                return self.lnot(a)
            if r["op"] == "PtrMetadata":
                return op("len", a)
            return op(r["op"], a)
        if k == "cast":
            a = self.operand(st, fr, r["op"])
            ck = r["ck"]
            if ck in ("PointerCoercion", "Transmute", "BoxDerefTransmute", "PtrToPtr", "Subtype"):
                return a
            if ck == "IntToInt":
                c = self.single(a)
                if c is not None and type(c) is int:
                    m = re.match(r"^u(8|16|32|64|128|size)$", r["ty"])
                    if m:
                        return C(c % (1 << (64 if m.group(1) == "size" else int(m.group(1)))))
            return op("cast:%s->%s" % (r["from"], r["ty"]), a)
        if k == "discr":
            _, v, ty = self.resolve(st, fr, r["pl"])
            ad = (self.tys.get(ty) or {}).get("path")
            if len(v) == 1:
                a = next(iter(v))
                if type(a) is tuple and a[0] == "adt" and a[2] is not None:
                    return C(next(x["discr"] for x in self.adts[a[1]]["variants"] if x["name"] == a[2]))
            return V(("op", "discr:%s" % (ad or ""), (v,)))
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r["ops"])
            ak = r["ak"]
            if ak == "tuple":
                return V(("adt", "tuple", None, ops))
            if ak == "closure":
                return V(("adt", ("closure", r["ty"]), None, ops))
            if ak == "adt":
                a = self.adts.get(r["adt"])
                return trim(V(("adt", r["adt"], r["variant"] if not a or a["kind"] == "enum" else None, ops)))
            return V(("adt", "array", None, ops))
        return op(k, *[self.operand(st, fr, r[x]) for x in ("op",) if x in r])

    @staticmethod
    def single(v):
        """The constant, if the value is one."""
        if len(v) == 1:
            a = next(iter(v))
            if type(a) is tuple and a[0] == "c":
                return a[1]
        return None

    def lnot(self, v):
        out = set()
        for a in v:
            if type(a) is tuple and a[0] == "c" and type(a[1]) is bool:
                out.add(("c", not a[1]))
            elif type(a) is tuple and a[0] == "op" and a[1] == "!":
                out |= a[2][0]
            elif a == "?":
                out.add(a)
            else:
                out.add(("op", "!", (V(a),)))
        return frozenset(out)

    def binop(self, o, a, b, ty=None):
        x, y = self.single(a), self.single(b)
        base = o.replace("WithOverflow", "").replace("Unchecked", "")
        if x is not None and y is not None and type(x) is type(y) or (x is not None and y is not None and base in ("Eq", "Ne")):
            try:
                r = {"Eq": lambda: x == y, "Ne": lambda: x != y}.get(base)
                if r is None and type(x) is int:
                    r = {"Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y, "Add": lambda: x + y,
                         "Sub": lambda: x - y, "Mul": lambda: x * y}.get(base)
                if r is not None:
                    v = C(r())
                    return V(("adt", "tuple", None, (v, C(False)))) if o.endswith("WithOverflow") else v
            except TypeError:
                pass
        isf = ty in ("f32", "f64")
        if base == "Eq":
            r = self.eqterm(a, b, lawful=not isf)
        elif base == "Ne":
            r = self.lnot(self.eqterm(a, b, lawful=not isf))
        else:
            r = op(base, a, b)
        if o.endswith("WithOverflow"):
            return V(("adt", "tuple", None, (r, C(False))))
        return r

    def localadt(self, p):
        return bool(self.adts.get(p, {}).get("local"))

    def eqterm(self, a, b, lawful=True):
        if a == b and len(a) == 1 and "?" not in a and lawful and not any(x == "?" for x in atoms(a)):
            return C(True)
        x, y = self.single(a), self.single(b)
        if x is not None and y is not None:
            return C(x == y)
        if len(a) == 1 and len(b) == 1:
            p, q = next(iter(a)), next(iter(b))
            if type(p) is tuple and type(q) is tuple and p[0] == q[0] == "adt" and p[1] == q[1] and type(p[1]) is str and not self.localadt(p[1]):
                if p[2] != q[2]:
                    return C(False)
                if not p[3]:
                    return C(True)
                if len(p[3]) == 1:
                    return self.eqterm(p[3][0], q[3][0], lawful)
        if x is not None and type(x) is bool:
            return b if x else self.lnot(b)
        if y is not None and type(y) is bool:
            return a if y else self.lnot(a)
        l = sorted((a, b), key=lambda v: repr(sorted(map(repr, v))))
        return op("eq" if lawful else "feq", *l)

    # ------------------------------------------------------------ bodies
    def inline(self, st, body, args):
        save = getattr(self, "body", None)
        self.nframe += 1
        fr = self.nframe
        self.body = body
        st = st.fork()
        for i, v in enumerate(args):
            st.mem[(fr, i + 1)] = v
        try:
            return self.exec(st, fr, body)
        finally:
            self.body = save

    def call_body(self, st, key, args):
        body = self.d["bodies"][key]
        n = body["argc"]
        if body["closure"]:
            if len(args) == 2 and n != 2 or (len(args) == 2 and self.istuple(args[1]) is not None and n - 1 == len(self.istuple(args[1]))):
                t = self.istuple(args[1])
                if t is not None:
                    args = [args[0]] + list(t)
                elif n == 1:
                    args = args[:1]
                else:
                    args = [args[0]] + [self.proj(args[1], i, str(i)) for i in range(n - 1)]
        args = list(args) + [ANY] * (n - len(args))
        self.visited.add(key)
        self.stack.append(key)
        try:
            return self.inline(st, body, args[:n])
        finally:
            self.stack.pop()

    @staticmethod
    def istuple(v):
        if len(v) == 1:
            a = next(iter(v))
            if type(a) is tuple and a[0] == "adt" and a[1] == "tuple":
                return a[3]
        return None

    def order(self, body):
        o = body.get("_rpo")
        if o is None:
            import absint
            bi = absint.BodyInfo("", {"blocks": body["blocks"], "path": "", "_local": True})
            o = body["_rpo"] = (bi.rpo, bi.loops, bi.live, bi.reduc)
        return o

    def exec(self, st, fr, body):
        rets, _ = self.explore(st, fr, body, 0, None)
        out = []
        for s, v in rets.values():
            keep = self.refs(s, {r for r in s.mem if r[0] == fr}, v)
            for r in [r for r in s.mem if r[0] == fr and r not in keep]:
                del s.mem[r]
            out.append((s, v))
        return out

    def prune(self, st, fr, keep):
        """Forget dead locals of this frame unless something refers to them."""
        dead = [r for r in st.mem if r[0] == fr and r[1] not in keep]
        if dead:
            ref = self.refs(st, set(dead))
            for r in dead:
                if r not in ref:
                    del st.mem[r]

    def explore(self, st, fr, body, entry, region):
        """From a block up to the returns (region None), or through a loop body up to its back edges."""
        import heapq
        rpo, loops, live, reduc = self.order(body)
        if not reduc:
            raise Cut("irreducible loop in " + body["path"])
        inb = {}
        pq = []
        rets = {}
        backs = []
        cnt = [0]

        def push(b, s, inside=False):
            if body["blocks"][b]["cleanup"]:
                return
            if region is not None and not inside:
                if b == entry:
                    self.prune(s, fr, live[b])
                    backs.append(s)
                    return
                if b not in region:
                    return
            self.budget -= 1
            if self.budget < 0:
                raise Cut("too many paths in " + body["path"])
            self.prune(s, fr, live[b])
            if b in loops and not inside:
                s = self.enter(s, fr, body, b, loops[b])
            part = inb.setdefault(b, {})
            k = (s.conds, s.ev)
            o = part.get(k)
            if o is None:
                if len(part) > self.parts:
                    # give up the distinction of paths
                    k = "*"
                    o = part.get(k)
                    cs = s.conds if o is None else o.conds & s.conds
                    s.conds = cs
                    if o is not None and o.ev != s.ev:
                        s.ev = o.ev + tuple(e for e in s.ev if e not in o.ev)
                if o is None:
                    part[k] = s
                    cnt[0] += 1
                    heapq.heappush(pq, (rpo[b], cnt[0], b, k))
                    return
            ch = False
            m = o.mem
            for r in list(m):
                w = s.mem.get(r)
                if w is None:
                    continue
                if not w <= m[r]:
                    m[r] = self.joinv(m[r], w)
                    ch = True
            for r in s.mem:
                if r not in m:
                    m[r] = s.mem[r]
                    ch = True
            if s.conds != o.conds:
                c = o.conds & s.conds
                if c != o.conds:
                    o.conds, ch = c, True
            if not s.now <= o.now:
                o.now, ch = o.now | s.now, True
            if s.ev != o.ev:
                e = o.ev + tuple(x for x in s.ev if x not in o.ev)
                if e != o.ev:
                    o.ev, ch = e, True
            if ch:
                cnt[0] += 1
                heapq.heappush(pq, (rpo[b], cnt[0], b, k))
        push(entry, st.fork(), region is not None)
        while pq:
            _, _, b, k = heapq.heappop(pq)
            s = inb[b][k].fork()
            self.body = body
            for t, s2 in self.block(s, fr, body, b):
                if t == "ret":
                    if region is not None:
                        continue
                    v = s2.mem.get((fr, 0), UNIT)
                    kk = (s2.conds, s2.ev)
                    o = rets.get(kk)
                    if o is None:
                        rets[kk] = (s2, v)
                    else:
                        s0, v0 = o
                        for r in s2.mem:
                            s0.mem[r] = self.joinv(s0.mem[r], s2.mem[r]) if r in s0.mem else s2.mem[r]
                        s0.now |= s2.now
                        rets[kk] = (s0, self.joinv(v0, v))
                elif t in loops and b in loops[t] and not (region is not None and t == entry):
                    pass        # a back edge: covered by the loop's symbols
                else:
                    push(t, s2)
        return rets, backs

    def enter(self, s, fr, body, h, region):
        """Give every value which the loop changes a symbol which stands for it at the start of any iteration."""
        name = "%s:%d" % (body["path"], h)
        cur = s.fork()
        for _ in range(16):
            _, backs = self.explore(cur, fr, body, h, region)
            new = cur.fork()
            for b in backs:
                for r, c in list(new.mem.items()):
                    w = b.mem.get(r)
                    if w is not None:
                        new.mem[r] = self.phi(name, r, (), c, w)
                for r, w in b.mem.items():
                    # made in the loop, and referred to by something that lives on
                    if r not in new.mem and r[0] != fr:
                        new.mem[r] = ANY
                new.ev = new.ev + tuple(e for e in b.ev if e not in new.ev)
            if new.mem == cur.mem and new.ev == cur.ev:
                break
            cur = new
        else:
            raise Cut("loop without a fixed point in " + body["path"])
        # one iteration, and what happens in it
        one = cur.fork()
        one.ev, one.now = (), frozenset()
        _, backs = self.explore(one, fr, body, h, region)
        rec = self.loops.setdefault((name, s.conds), [])
        del rec[:]
        for b in backs:
            rec.append((b.conds - s.conds, {r: (cur.mem[r], b.mem[r]) for r in cur.mem if r in b.mem}, events(b)))
        return cur

    def phi(self, name, root, path, c, w):
        if w <= c or w == c:
            return c
        if len(c) == 1:
            x = next(iter(c))
            if type(x) is tuple and x[0] == "op" and x[1] == "phi" and x[2][0] == C(name) and x[2][1] == C(str(root[1:] if root[0] != "box" else root) + "/".join(path)):
                return c
            if len(w) == 1:
                y = next(iter(w))
                if type(x) is tuple and type(y) is tuple and x[0] == y[0] == "adt" and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
                    return V(("adt", x[1], x[2], tuple(self.phi(name, root, path + ("", str(i)), p, q) for i, (p, q) in enumerate(zip(x[3], y[3])))))
        if c == ANY or self.muts(c) or self.muts(w):
            return ANY
        return op("phi", C(name), C(str(root[1:] if root[0] != "box" else root) + "/".join(path)), c)

    def joinv(self, a, b):
        """Union; aggregates of the same constructor are joined field by field when the set gets wide."""
        u = a | b
        if len(u) <= 4:
            return trim(u)
        by, rest = {}, set()
        for x in u:
            if type(x) is tuple and x[0] == "adt":
                k = (x[1], x[2], len(x[3]))
                by[k] = tuple(self.joinv(p, q) for p, q in zip(by[k], x[3])) if k in by else x[3]
            else:
                rest.add(x)
        for k, fs in by.items():
            rest.add(("adt", k[0], k[1], fs))
        return trim(frozenset(rest))

    def refs(self, s, cand, extra=frozenset()):
        found, todo = set(), [extra] + [v for r, v in s.mem.items() if r not in cand]
        while todo:
            v = todo.pop()
            for a in self.muts(v):
                if a[1] in cand and a[1] not in found:
                    found.add(a[1])
                    todo.append(s.mem.get(a[1], ANY))
        return found

    _mc = {}

    def muts(self, v):
        r = self._mc.get(v)
        if r is None:
            r = [a for a in atoms(v) if type(a) is tuple and a[0] == "mut"]
            if len(self._mc) > 100000:
                self._mc.clear()
            self._mc[v] = r
        return r

    def assign(self, st, fr, pl, v):
        if not pl["p"]:
            st.mem[(fr, pl["l"])] = v
            return
        locs, old, ty = self.resolve(st, fr, pl)
        if locs is None:
            return
        if len(locs) == 1:
            self.store(st, locs[0][0], locs[0][1], v)
        else:
            for r, p in locs:
                self.store(st, r, p, trim(self.load(st, r, p) | v))

    def block(self, st, fr, body, b):
        blk = body["blocks"][b]
        for s in blk["s"]:
            if s["k"] == "assign":
                self.assign(st, fr, s["pl"], self.rvalue(st, fr, s["rv"]))
            elif s["k"] == "setdiscr":
                pass
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["t"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "assert":
            return [(t["t"], st)]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call(st, fr, body, t)
        return []

    # ------------------------------------------------------------ branches
    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["op"])
        ts = [(x, y) for x, y in t["ts"]]
        out = []
        # discriminant of a place
        if len(v) == 1:
            a = next(iter(v))
            if type(a) is tuple and a[0] == "op" and a[1].startswith("discr:"):
                return self.dswitch(st, fr, t, a[2][0], a[1][6:])
        isbool = t.get("ty") == "bool"
        alts = set()
        for a in v:
            if type(a) is tuple and a[0] == "c":
                c = a[1]
                if type(c) is tuple and c[0] == "char":
                    c = ord(c[1])
                c = int(c) if type(c) in (bool, int) else c
                tgt = dict(ts).get(c, t["else"])
                alts.add((tgt, None, None))
            elif isbool:
                n = False
                x = a
                while type(x) is tuple and x[0] == "op" and x[1] == "!" and len(x[2][0]) == 1:
                    x = next(iter(x[2][0]))
                    n = not n
                for val in (False, True):
                    alts.add((dict(ts).get(int(val), t["else"]), x, val != n))
            else:
                for val, tgt in ts:
                    alts.add((tgt, ("op", "eq", (V(a), C(val))) if a != "?" else "?", True))
                alts.add((t["else"], ("op", "in", (V(a),) + tuple(C(x) for x, _ in ts)) if a != "?" else "?", False))
        for tgt, c, val in sorted(alts, key=repr):
            s2 = st.fork()
            if c is not None and c != "?" and len(v) == 1:
                if not self.assume_c(s2, c, val):
                    continue
                op_ = t["op"]
                if isbool and op_["k"] != "const" and not op_["pl"]["p"]:
                    s2.mem[(fr, op_["pl"]["l"])] = C(bool(int(val))) if next(iter(v)) == c else v
            out.append((tgt, s2))
        return out

    def assume_c(self, st, c, val):
        if type(val) is bool and type(c) is tuple and c[:2] == ("op", "eq"):
            # the discriminant of a value with two variants
            for i in (0, 1):
                n, y = self.single(c[2][i]), c[2][1 - i]
                y = next(iter(y)) if len(y) == 1 else None
                if type(n) is int and type(y) is tuple and y[0] == "op" and y[1].startswith("discr:") and y[1][6:] in self.adts:
                    vs = self.adts[y[1][6:]]["variants"]
                    m = [x["name"] for x in vs if (x["discr"] == n) == val]
                    if len(m) == 1:
                        c, val = ("op", "discr", (y[2][0],)), m[0]
                        break
        if (c, not val) in st.conds if type(val) is bool else False:
            return False
        if type(val) is not bool:
            for d, w in st.conds:
                if d == c and type(w) is not bool and w != val:
                    return False
        # x == k for two different constants
        if val is True and type(c) is tuple and c[0] == "op" and c[1] == "eq":
            for d, w in st.conds:
                if w is True and type(d) is tuple and d[0] == "op" and d[1] == "eq" and d != c:
                    for i in (0, 1):
                        for j in (0, 1):
                            if d[2][i] == c[2][j]:
                                p, q = self.single(d[2][1 - i]), self.single(c[2][1 - j])
                                if p is not None and q is not None and p != q:
                                    return False
                if w is False and type(d) is tuple and d[0] == "op" and d[1] == "in" and d[2][0] in c[2]:
                    o = c[2][1] if c[2][0] == d[2][0] else c[2][0]
                    if o in d[2][1:]:
                        return False
        st.conds = st.conds | {(c, val)}
        if len(st.conds) > self.maxconds:
            raise Cut("too many conditions")
        return True

    def dswitch(self, st, fr, t, v, ad):
        """Switch on the discriminant of the value v."""
        ts = dict((x, y) for x, y in t["ts"])
        groups = {}
        # the place: found by value, every local of the frame holding it is refined
        for a in v:
            if type(a) is tuple and a[0] == "adt" and a[2] is not None:
                vs = self.adts[a[1]]["variants"]
                dv = next(x["discr"] for x in vs if x["name"] == a[2])
                groups.setdefault((ts.get(dv, t["else"]), None, None), set()).add(a)
                continue
            names = None
            if ad in self.adts and self.adts[ad]["kind"] == "enum":
                vs = self.adts[ad]["variants"]
                kn = self.assume.get(a[1]) if type(a) is tuple and a[0] == "in" else None
                for x in vs:
                    if kn is not None and x["name"] != kn:
                        continue
                    groups.setdefault((ts.get(x["discr"], t["else"]), a if a != "?" else None, x["name"] if kn is None else None), set()).add(a)
            else:
                for val, tgt in t["ts"]:
                    groups.setdefault((tgt, a if a != "?" else None, "#%d" % val), set()).add(a)
                groups.setdefault((t["else"], a if a != "?" else None, "#else" + ",".join(str(x) for x, _ in t["ts"])), set()).add(a)
        out = []
        for (tgt, c, nm), keep in sorted(groups.items(), key=repr):
            s2 = st.fork()
            if c is not None and nm is not None:
                if not self.assume_c(s2, ("op", "discr", (V(c),)), nm):
                    continue
            if len(v) > 1:
                kv = frozenset(keep)
                for r, w in list(s2.mem.items()):
                    if r[0] == fr:
                        n = self.refine(w, v, kv)
                        if n is not w:
                            s2.mem[r] = n
            out.append((tgt, s2))
        return out

    def refine(self, w, v, kv):
        if w == v:
            return kv
        if len(w) == 1:
            a = next(iter(w))
            if type(a) is tuple and a[0] == "adt":
                fs = tuple(self.refine(x, v, kv) for x in a[3])
                if any(x is not y for x, y in zip(fs, a[3])):
                    return V(("adt", a[1], a[2], fs))
        return w

    def call(self, st, fr, body, t):
        f = t["f"]
        args = [self.operand(st, fr, o) for o in t["args"]]
        save = self.body
        res = self.apply(st, f, args, t)
        self.body = save
        out = []
        for s2, v in res:
            if t["t"] is None:
                continue
            self.assign(s2, fr, t["dest"], v)
            out.append((t["t"], s2))
        return out

    def apply(self, st, f, args, t):
        key = f.get("key")
        path = f.get("rpath") or f.get("path") or ""
        if self.hook:
            r = self.hook(self, st, f, args, t)
            if r is not None:
                return r
        if key and key in self.d["bodies"] and "blocks" in self.d["bodies"][key] and self.stack.count(key) < 1 and len(self.stack) < 24 \
                and not any(re.search(x, key) for x in self.opaque):
            if f.get("rkind") == "fndef_call":
                tp = self.istuple(args[1]) if len(args) > 1 else ()
                args = list(tp) if tp is not None else [ANY] * self.d["bodies"][key]["argc"]
            return self.call_body(st, key, args)
        return self.prim(st, f, path, args, t)

    def ctor(self, path):
        """The variant or struct which the function value builds."""
        p = path.split(" <")[0]
        p = re.sub(r"::<[^<>]*>", "", p)
        if p.startswith("std::prelude::v1::"):
            p = {"Some": "std::option::Option::Some", "Ok": "std::result::Result::Ok", "Err": "std::result::Result::Err"}.get(p.split("::")[-1], p)
        o, _, v = p.rpartition("::")
        if o in self.adts and self.adts[o]["kind"] == "enum" and any(x["name"] == v for x in self.adts[o]["variants"]):
            return o, v
        if p in self.adts and self.adts[p]["kind"] == "struct":
            return p, None
        return None

    def callv(self, st, fv, args):
        """Call a closure or function value."""
        if len(fv) == 1:
            a = next(iter(fv))
            if type(a) is tuple and a[0] == "mut":
                return self.callv(st, self.load(st, a[1], a[2]), args)
            if type(a) is tuple and a[0] == "adt" and type(a[1]) is tuple:
                ks = self.clos.get(a[1][1])
                if ks and self.stack.count(ks[0]) < 1:
                    return self.call_body(st, ks[0], [fv, V(("adt", "tuple", None, tuple(args)))])
            if type(a) is tuple and a[0] == "fn":
                c = self.ctor(a[1])
                if c:
                    return [(st, V(("adt", c[0], c[1], tuple(args))))]
                for k in [a[2]] if a[2] in self.d["bodies"] else self.d["bodies"]:
                    if (k == a[2] or k == a[1] or k.startswith(a[1] + " <")) and self.stack.count(k) < 1 and not any(re.search(x, k) for x in self.opaque):
                        return self.call_body(st, k, list(args))
                return self.prim(st, {}, a[1], list(args), None)
        st.ev = st.ev + (("callv", (fv,) + tuple(args)),)
        return [(st, op("callv", fv, *args))]

    def prim(self, st, f, path, args, t):
        """A function which is not analysed further."""
        tr, nm = f.get("trait") or "", f.get("name") or path.split("::")[-1]
        if path.endswith("FnOnce::call_once") or path.endswith("FnMut::call_mut") or path.endswith("Fn::call") or tr.startswith("std::ops::Fn"):
            tp = self.istuple(args[1]) if len(args) > 1 else None
            return self.callv(st, args[0], list(tp) if tp is not None else [ANY])
        if f.get("rkind") == "indirect":
            return [(st, op("callv", *args))]
        if SAME.search(path):
            return [(st, args[0])]
        ra = [str(x) for x in (f.get("rargs") or f.get("args") or [])]
        if nm == "to_string" and ra and ra[0] in STRS:
            return [(st, args[0])]
        if path.endswith("::into") or path.endswith("::from"):
            if len(ra) >= 2 and (ra[0] in STRS and ra[1] in STRS or ra[0] == ra[1]):
                return [(st, args[0])]
        if nm in ("eq", "ne") and len(args) == 2:
            ty = ra[0] if ra else ""
            r = self.eqterm(self.wname(st, args[0]), self.wname(st, args[1]), lawful=not re.search(r"\bf(32|64)\b", ty))
            return [(st, r if nm == "eq" else self.lnot(r))]
        if nm in ("is_some", "is_none", "is_ok", "is_err") and ("Option" in path or "Result" in path):
            pass
        k = f.get("ckey")
        if k and k in self.d["bodies"] and self.stack.count(k) < 1:
            # collect() into a type of this crate
            return self.call_body(st, k, [args[0]])
        if path in ("std::mem::replace", "core::mem::replace", "std::mem::take", "core::mem::take") and len(args[0]) == 1:
            m = next(iter(args[0]))
            if type(m) is tuple and m[0] == "mut":
                old = self.load(st, m[1], m[2])
                self.store(st, m[1], m[2], args[1] if len(args) > 1 else op("<%s as std::default::Default>::default" % (ra[0] if ra else "?")))
                return [(st, old)]
        if nm in ("any", "all") and tr.endswith("Iterator") and len(args) == 2:
            r = self.each_of(st, args[0], args[1], nm == "any")
            if r is not None:
                return r
        if nm in STRFOLD and args and path.startswith(("core::str::", "alloc::str::", "std::str::", "std::string::", "str::")):
            xs = [self.single(self.wname(st, a)) for a in args]
            xs = [x.decode("latin1") if type(x) is bytes else x[1] if type(x) is tuple and x[:1] == ("char",) and type(x[1]) is str else x for x in xs]
            if all(type(x) is str for x in xs):
                return [(st, C(STRFOLD[nm](*xs)))]
        if nm == "is_empty" and len(args) == 1:
            e = hollow(self.wname(st, args[0]))
            if e is not None:
                return [(st, C(e))]
        if nm == "drop" or path == "std::mem::drop":
            return [(st, UNIT)]
        if path == "std::boxed::Box::<T>::new_uninit":
            # vec![..]: a box which is filled before it is read
            self.nbox += 1
            st.mem[("box", self.nbox)] = ANY
            return [(st, V(("mut", ("box", self.nbox), ())))]
        if path == "std::boxed::box_assume_init_into_vec_unsafe":
            return [(st, self.wname(st, args[0]))]
        name = path
        gen = [x for x in ra if x in INTS or re.match(r"^(f32|f64|bool|char)$", x)]
        if gen:
            name += " <%s>" % ", ".join(gen)
        vals = tuple(self.wname(st, a) for a in args)
        if self.canon:
            vals = tuple(self.canon(st, v) for v in vals)
        r = op(name, *vals)
        for i, a in enumerate(args):
            for m in a:
                if type(m) is tuple and m[0] == "mut":
                    o = op(name + "!%d" % i, *vals)
                    if self.fold and self.fold.search(name):
                        o = self.fresh(o)
                    if len(a) == 1:
                        self.store(st, m[1], m[2], o)
                    else:
                        self.store(st, m[1], m[2], trim(self.load(st, m[1], m[2]) | o))
        e = (name, vals)
        if (self.record is None or self.record(name)) and e not in st.ev:
            st.ev = st.ev + (e,)
        if self.record is None or self.record(name):
            st.now |= {e}
        return [(st, r)]


    def each_of(self, st, it, f, stop):
        """any() or all() over the items of a known array."""
        m = next(iter(it)) if len(it) == 1 else None
        v = self.load(st, m[1], m[2]) if type(m) is tuple and m[0] == "mut" else it
        xs = None
        for _ in range(4):
            a = next(iter(v)) if len(v) == 1 else None
            if type(a) is tuple and a[0] == "adt" and a[1] == "array":
                xs = a[3]
                break
            if type(a) is tuple and a[0] == "c" and type(a[1]) is bytes:
                xs = [C(x) for x in a[1]]
                break
            if type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and re.search(r"(::iter|::into_iter|::copied|::cloned|::as_slice)$", a[1]):
                v = a[2][0]
                continue
            return None
        if xs is None or len(xs) > 16:
            return None
        out, cur = [], [st]
        for x in xs:
            nxt = []
            for s in cur:
                for s2, b in self.callv(s, f, [x]):
                    for val in (True, False):
                        if b == C(not val):
                            continue
                        s3 = s2.fork()
                        if b != C(val):
                            c = next(iter(b)) if len(b) == 1 else "?"
                            k = val
                            while type(c) is tuple and c[0] == "op" and c[1] == "!" and len(c[2][0]) == 1:
                                c, k = next(iter(c[2][0])), not k
                            if c != "?" and not self.assume_c(s3, c, k):
                                continue
                        if val == stop:
                            out.append((s3, C(stop)))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out + [(s, C(not stop)) for s in cur]


def hollow(v):
    """Is a string or collection empty: known of a new one, a constant, and one which was pushed to."""
    if len(v) != 1:
        return None
    a = next(iter(v))
    if type(a) is not tuple:
        return None
    if a[0] == "c" and type(a[1]) is str:
        return a[1] == ""
    if a[0] == "op" and type(a[1]) is str and re.search(r"^std::(string::String|vec::Vec)\b.*(::new|::push!0)$|^<std::(string::String|vec::Vec)\b.* as std::default::Default>::default$", a[1]):
        return not a[1].endswith("push!0")
    return None


INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
