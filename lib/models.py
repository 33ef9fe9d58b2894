"""Models of the external functions the crate calls.

A model maps the abstract arguments to abstract results: [(state, value)]. An external function without a model must
not have a `# Panics` section; it may write through every mutable reference it gets and call every closure it gets."""
import re
from domain import C, S, TAME, ladd, laddc, lscale
from absint import INT_RANGE, NOB, TOP, UNIT, I, seqv, mrefs

OPT = "std::option::Option"
RES = "std::result::Result"
NONE = ("e", OPT, ((0, ()),))
RANGES = {"std::ops::Range": "Range", "std::ops::RangeFrom": "RangeFrom", "std::ops::RangeTo": "RangeTo",
          "std::ops::RangeInclusive": "RangeInclusive", "std::ops::RangeToInclusive": "RangeToInclusive",
          "std::ops::RangeFull": "RangeFull"}


def some(v):
    return ("e", OPT, ((1, (v,)),))


def last_seg(name):
    """Method name of a path."""
    d, out = 0, []
    for c in reversed(name):
        if c == ">":
            d += 1
        elif c == "<":
            d -= 1
        elif c == ":" and d == 0:
            break
        out.append(c)
    return "".join(reversed(out))


class Models:
    def __init__(self, an):
        self.an = an
        self.externs = an.f["externs"]
        self.unmodelled = {}
        self.used = set()
        self.ctor = {}
        for p, a in an.adts.items():
            if a["kind"] == "enum":
                for i, v in enumerate(a["variants"]):
                    self.ctor[p + "::" + v["name"]] = (p, i)
        self.ctor["std::prelude::v1::Some"] = (OPT, 1)
        self.ctor["std::prelude::v1::Ok"] = (RES, 0)
        self.ctor["std::prelude::v1::Err"] = (RES, 1)
        self.cache = {}

    def override(self, key):
        return None

    # ------------------------------------------------------------ helpers
    def deref(self, st, v):
        """(value behind references, origin place)."""
        origin = None
        for _ in range(8):
            if v[0] == "r":
                origin = v[2] or (origin if v[1][0] in ("r", "m") else None)
                v = v[1]
            elif v[0] == "m":
                origin = (v[1], v[2])
                n = self.an.get(st, v[1], v[2])
                if n[0] == "t" and n[1]:
                    x = self.an.mk(st, n[1])
                    if x[0] != "t":
                        self.an.write(st, v[1], v[2], x)
                        n = x
                v = n
            else:
                break
        return v, origin

    def q(self, st, v):
        x, o = self.deref(st, v)
        if x[0] == "s" and x[1] == "array":
            x = seqv("arr", C(len(x[2])))
        return (x if x[0] == "q" else None), o

    def newq(self, st, ty):
        v = self.an.mk(st, ty)
        return v

    def setq(self, st, ref, q):
        """Write a container back through a mutable reference."""
        v = ref
        for _ in range(8):
            if v[0] == "m":
                n = self.an.get(st, v[1], v[2])
                if n[0] == "m":
                    v = n
                    continue
                self.an.write(st, v[1], v[2], q)
                return
            return

    def fresh(self, st, lo=None, hi=None):
        s = self.an.sym()
        if lo is not None:
            st.zone.edge(0, s, -lo)
        if hi is not None:
            st.zone.edge(s, 0, hi)
        return S(s)

    def items(self, dty):
        """Type argument of an Option/Result/... type."""
        t = self.an.tyk(dty)
        return t.get("args") or []

    def item(self, st, dty, i=0):
        a = self.items(dty)
        return self.an.mk(st, a[i]) if len(a) > i else TOP

    def closures(self, st, v, out, n=0):
        if n > 6:
            return
        k = v[0]
        if k == "s":
            if type(v[1]) is tuple and v[1][0] == "closure":
                out.append(v)
                return
            for x in v[2]:
                self.closures(st, x, out, n + 1)
        elif k == "r":
            self.closures(st, v[1], out, n + 1)
        elif k == "m":
            self.closures(st, self.an.get(st, v[1], v[2]), out, n + 1)
        elif k == "it":
            for x in v[3]:
                self.closures(st, x, out, n + 1)
        elif k == "e":
            for _, fs in v[2]:
                for x in fs:
                    self.closures(st, x, out, n + 1)
        elif k == "t" and v[1]:
            t = self.an.tyk(v[1])
            if t.get("k") in ("closure", "fndef"):
                out.append(v)

    def run_closures(self, st, ctx, b, vals, once=False):
        """The closures reachable from the values run any number of times with unknown arguments."""
        cl = []
        for v in vals:
            self.closures(st, v, cl)
        if not cl:
            return [st]
        an = self.an

        def holders(s, v):
            return v

        def step(s):
            out = []
            for c in cl:
                n = self.nargs(c)
                if n is None:
                    continue
                for s2, _ in an.call_value(s.fork(), ctx, b, self.ref_closure(s, c), [TOP] * n):
                    # what the call made for itself is gone
                    new = {r for r in s2.regs if r not in s.regs}
                    if new:
                        ms, seen = [], set()
                        for t in [s2.env[k] for k in s2.env] + [s2.regs[k] for k in s2.regs if k not in new]:
                            mrefs(t, ms)
                        while ms:
                            x = ms.pop()
                            if x[1] not in seen:
                                seen.add(x[1])
                                if x[1][0] == "R" and x[1][1] in new:
                                    mrefs(s2.regs[x[1][1]], ms)
                        for r in new:
                            if ("R", r) not in seen:
                                del s2.regs[r]
                    out.append(s2)
            return out, []
        heads, _ = an.iterate(st, step)
        return heads

    def ref_closure(self, st, c):
        return c

    def nargs(self, c):
        an = self.an
        ty = c[1][1] if c[0] == "s" else c[1]
        key = an.closure_key(ty)
        if key:
            b = an.info(key).b
            if b["argc"] == 2 and an.tyk(b["locals"][2]["ty"]).get("k") == "tuple" and b.get("spread"):
                return len(an.tyk(b["locals"][2]["ty"])["args"])
            return b["argc"] - 1
        t = an.tyk(ty)
        if t.get("k") == "fndef":
            for key in an.f["bodies"]:
                if (key == t["path"] or key.startswith(t["path"] + " <")) and an.info(key):
                    return an.info(key).b["argc"]
        return None

    # ------------------------------------------------------------ dispatch
    def call(self, st, ctx, b, t, f, args):
        rk = f.get("rkind")
        name = f.get("rpath") or f.get("path") or "?"
        if rk == "fndef_call":
            args = list(args[1][2]) if len(args) > 1 and args[1][0] == "s" else args[1:]
            c = self.ctor.get(name)
            if c:
                return [(st, ("e", c[0], ((c[1], tuple(args)),)))]
            for key in self.an.f["bodies"]:
                if key == name or key.startswith(name + " <"):
                    if self.an.info(key) and not self.an.info(key).b["closure"]:
                        return self.an.call_body(st, ctx, b, key, args)
        elif f.get("path") in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            tup = args[1] if len(args) > 1 else UNIT
            a = list(tup[2]) if tup[0] == "s" else [TOP]
            return self.an.call_value(st, ctx, b, args[0], a)
        elif f.get("op") is not None and f.get("path") is None:
            self.an.havoc(st, args)
            return [(st, TOP)]
        c = self.ctor.get(name)
        if c:
            return [(st, ("e", c[0], ((c[1], tuple(args)),)))]
        h = self.find(name, f)
        self.used.add(name)
        if h:
            r = h(self, st, ctx, b, t, f, args)
            if r is not None:
                return r
        return self.default(st, ctx, b, t, f, args, name)

    def find(self, name, f):
        k = (name, f.get("path"))
        if k in self.cache:
            return self.cache[k]
        seg = last_seg(name)
        own = name[:len(name) - len(seg)]
        h = None
        for pat, fn in TABLE:
            if seg in pat[1] and re.search(pat[0], name):
                h = fn
                break
        self.cache[k] = h
        return h

    def extern(self, name, f):
        for n in (name, f.get("path")):
            e = self.externs.get(n)
            if e:
                return e
        return {}

    def default(self, st, ctx, b, t, f, args, name):
        e = self.extern(name, f)
        an = self.an
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if e.get("never") or t["t"] is None:
            an.oblige(ctx, st, b, "call", "panic " + last_seg(name), False, "reaches " + name)
            return []
        if e.get("panics_doc"):
            an.oblige(ctx, st, b, "call", name, False, "may panic: " + name)
        cl = []
        for a in args:
            self.closures(st, a, cl)
        outs = self.run_closures(st, ctx, b, args)
        for s in outs:
            an.havoc(s, args)
        return [(s, TOP) for s in outs]

    # ------------------------------------------------------------ indices
    def cut_ok(self, st, q, e):
        """Is the position a character boundary (or is the container no string)?"""
        if q[1] != "str":
            return True
        z = st.zone
        if self.an.eqv(st, e, C(0)) or z.le0(ladd(q[2], e, -1)):
            return True
        if z.le0(laddc(ladd(q[2], e, -1), -q[5])):
            return True
        if isinstance(q[3], bytes) and not e[1]:
            return e[0] >= len(q[3]) or (q[3][e[0]] & 0xC0) != 0x80
        return any(self.an.eqv(st, e, x) for x in q[4])

    def range_of(self, st, r, n):
        """(lo, hi) of a range value over a container of length n."""
        r, _ = self.deref(st, r)
        if r[0] == "t" and r[1]:
            r = self.an.expand(st, r, None, "s") or r
        if r[0] != "s":
            return None
        k = RANGES.get(r[1])
        fs = [x[1] if x[0] == "i" else self.fresh(st, 0, 2 ** 64 - 1) for x in r[2][:2]]
        if k == "Range":
            return fs[0], fs[1]
        if k == "RangeFrom":
            return fs[0], n
        if k == "RangeTo":
            return C(0), fs[0]
        if k == "RangeToInclusive":
            return C(0), laddc(fs[0], 1)
        if k == "RangeInclusive":
            return fs[0], laddc(fs[1], 1)
        if k == "RangeFull":
            return C(0), n
        return None

    def do_range(self, st, ctx, b, q, rng, what):
        r = self.range_of(st, rng, q[2])
        an = self.an
        if r is None:
            an.oblige(ctx, st, b, "call", what, False, "unknown range")
            return None
        lo, hi = r
        z = st.zone
        ok = z.le0(ladd(lo, hi, -1)) and z.le0(ladd(hi, q[2], -1)) and self.cut_ok(st, q, lo) and self.cut_ok(st, q, hi)
        note = ""
        if not ok:
            note = "range %s..%s of length %s" % (lo, hi, q[2])
        an.oblige(ctx, st, b, "call", what, ok, note)
        if not (st.le(ladd(lo, hi, -1)) and st.le(ladd(hi, q[2], -1))):
            return None
        return lo, hi


def is_range(f, i=-1):
    a = f.get("args") or []
    return bool(a) and "Range" in str(a[i])


# ---------------------------------------------------------------- models
def m_ident(m, st, ctx, b, t, f, args):
    """A view of the same contents: &String -> &str and alike."""
    q, o = m.q(st, args[0])
    if q is None:
        return None
    kind = q[1]
    seg = last_seg(f.get("rpath") or f["path"])
    if seg in ("as_bytes", "into_bytes", "into_boxed_slice"):
        q = seqv("vec", q[2], q[3])
    if seg.startswith("into"):
        return [(st, q)]
    tk = m.an.tyk(t["dty"])
    if tk.get("k") == "ref" and tk.get("mut"):
        v = args[0]
        return [(st, v)]
    return [(st, ("r", q, o))]


def m_len(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        x, _ = m.deref(st, args[0])
        if x[0] == "it":
            return [(st, I(x[2]))]
        return None
    return [(st, I(q[2]))]


def m_is_empty(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    return [(st, ("b", ("c", "==", q[2], C(0))))]


def m_push(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    if q[1] == "str":
        c = m.deref(st, args[1])[0]
        if c[0] == "i" and not c[1][1]:
            n = len(chr(c[1][0]).encode("utf8", "surrogatepass"))
            nq = seqv("str", laddc(q[2], n), None, q[4], q[5] + 1 if n == 1 else 0)
        else:
            nq = seqv("str", ladd(q[2], m.fresh(st, 1, 4)), None, q[4], 0)
    else:
        nq = seqv(q[1], laddc(q[2], 1))
    m.setq(st, args[0], nq)
    # a container which holds the new item is not longer than any can be
    return [(st, UNIT)] if st.le(laddc(nq[2], -TAME)) else []


def tail_of(c):
    n = 0
    for x in reversed(c):
        if x >= 0x80:
            return n, False
        n += 1
    return n, True


def appended(q, p):
    if isinstance(p[3], bytes):
        n, full = tail_of(p[3])
        tail = q[5] + n if full else n
    elif p[2] == C(0):
        tail = q[5]
    else:
        tail = p[5]
    return seqv(q[1], ladd(q[2], p[2]), None, q[4], tail)


def m_push_str(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    p, _ = m.q(st, args[1])
    if q is None:
        return None
    if p is None:
        p = seqv("str", m.an.length(st))
    m.setq(st, args[0], appended(q, p))
    return [(st, UNIT)]


def m_add(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    p, _ = m.q(st, args[1])
    if q is None:
        return None
    if p is None:
        p = seqv("str", m.an.length(st))
    return [(st, appended(q, p))]


def m_clear(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    m.setq(st, args[0], seqv(q[1], C(0), frozenset() if q[1] == "map" else None))
    return [(st, UNIT)]


def m_pop(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    out = []
    s0 = st.fork()
    if s0.eq(q[2]):
        out.append((s0, NONE))
    if st.le(laddc(lscale(q[2], -1), 1)):
        q, _ = m.q(st, args[0])
        if q[1] == "str" and q[5] < 1:
            n = m.fresh(st, 1, 4)
            l = ladd(q[2], n, -1)
            if st.le(lscale(l, -1)):
                q, _ = m.q(st, args[0])
                m.setq(st, args[0], seqv("str", l))
        else:
            m.setq(st, args[0], seqv(q[1], laddc(q[2], -1), None, (), max(0, q[5] - 1)))
        out.append((st, some(m.item(st, t["dty"]))))
    return out


def m_truncate(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    n = args[1]
    if q is None or n[0] != "i":
        return None
    n = n[1]
    s0 = st.fork()
    out = []
    if s0.le(laddc(ladd(q[2], n, -1), 1)):       # len < n
        out.append((s0, UNIT))
    if st.le(ladd(n, q[2], -1)):
        if q[1] == "str":
            q2, _ = m.q(st, args[0])
            m.an.oblige(ctx, st, b, "call", "truncate at a character boundary", m.cut_ok(st, q2, n), "cut at %s of %s" % (n, q2[2]))
        m.setq(st, args[0], seqv(q[1], n))
        out.append((st, UNIT))
    return out


def m_drain(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    r = m.do_range(st, ctx, b, q, args[1], "drain range")
    if r is None:
        return []
    q, _ = m.q(st, args[0])
    n = ladd(r[1], r[0], -1)
    m.setq(st, args[0], seqv(q[1], ladd(q[2], n, -1)))
    return [(st, ("it", "drain", n, ()))]


def m_split_off(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None or args[1][0] != "i":
        return None
    n = args[1][1]
    ok = st.zone.le0(ladd(n, q[2], -1)) and m.cut_ok(st, q, n)
    m.an.oblige(ctx, st, b, "call", "split_off", ok)
    if not st.le(ladd(n, q[2], -1)):
        return []
    m.setq(st, args[0], seqv(q[1], n))
    return [(st, seqv(q[1], ladd(q[2], n, -1)))]


def m_vinsert(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    i = args[1]
    if q[1] == "map":
        key, _ = m.q(st, args[1])
        c = q[3]
        if c is None:
            c = frozenset()
        known = key is not None and isinstance(key[3], bytes)
        if known and key[3] in c:
            return [(st, some(m.item(st, t["dty"])))]
        out = []
        s0 = st.fork()
        nc = c | {key[3]} if known else c
        m.setq(s0, args[0], seqv("map", laddc(q[2], 1), nc))
        out.append((s0, NONE))
        if q[2] != C(0):
            m.setq(st, args[0], seqv("map", q[2], nc))
            if st.le(laddc(lscale(q[2], -1), 1)):
                out.append((st, some(m.item(st, t["dty"]))))
        return out
    if i[0] != "i":
        return None
    m.an.oblige(ctx, st, b, "call", "insert index", st.zone.le0(ladd(i[1], q[2], -1)) and m.cut_ok(st, q, i[1]))
    m.setq(st, args[0], seqv(q[1], laddc(q[2], 1) if q[1] != "str" else ladd(q[2], m.fresh(st, 1, 4))))
    return [(st, UNIT)]


def m_vremove(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    if q[1] == "map":
        m.setq(st, args[0], seqv("map", m.an.length(st, q[2])))
        return [(st, TOP)]
    i = args[1]
    if i[0] != "i":
        return None
    m.an.oblige(ctx, st, b, "call", "remove index", st.zone.le0(laddc(ladd(i[1], q[2], -1), 1)) and m.cut_ok(st, q, i[1]))
    if not st.le(laddc(ladd(i[1], q[2], -1), 1)):
        return []
    q, _ = m.q(st, args[0])
    m.setq(st, args[0], seqv(q[1], laddc(q[2], -1) if q[1] != "str" else m.an.length(st, laddc(q[2], -1))))
    return [(st, TOP)]


def m_resize(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None or args[1][0] != "i":
        return None
    m.setq(st, args[0], seqv(q[1], args[1][1]))
    return [(st, UNIT)]


def m_extend(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    outs = m.run_closures(st, ctx, b, args[1:])
    for s in outs:
        q, _ = m.q(s, args[0])
        p, _ = m.q(s, args[1])
        x, _ = m.deref(s, args[1])
        if p is not None and q[1] == "vec":
            n = p[2]
        elif x[0] == "it" and x[1] in ("slice", "into") and q[1] == "vec":
            n = x[2]
        else:
            n = m.an.length(s)
        m.setq(s, args[0], seqv(q[1], ladd(q[2], n), q[3] if q[1] == "map" else None))
        if args[1][0] == "m" and p is not None:
            m.setq(s, args[1], seqv(p[1], C(0)))
    return [(s, UNIT) for s in outs]


def m_new(m, st, ctx, b, t, f, args):
    v = m.an.mk(st, t["dty"])
    if v[0] == "q":
        return [(st, seqv(v[1], C(0), frozenset() if v[1] == "map" else b"" if v[1] == "str" else None))]
    return None


def m_from_elem(m, st, ctx, b, t, f, args):
    if len(args) > 1 and args[1][0] == "i":
        return [(st, seqv("vec", args[1][1]))]
    return None


def m_boxvec(m, st, ctx, b, t, f, args):
    for a in f.get("args") or []:
        k = re.match(r"^(\d+)", str(a))
        if k:
            return [(st, seqv("vec", C(int(k.group(1)))))]
    # Box<MaybeUninit<[T; N]>>
    g = re.search(r"; (\d+)\]", str(f.get("args")) + str(t.get("aty")))
    if g:
        return [(st, seqv("vec", C(int(g.group(1)))))]
    o = t["args"][0]
    if o["k"] != "const" and not o["pl"]["p"]:
        g = re.search(r"; (\d+)\]", ctx.body.b["locals"][o["pl"]["l"]]["ty"])
        if g:
            return [(st, seqv("vec", C(int(g.group(1)))))]
    return None


def m_index(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    an = m.an
    name = f.get("rpath") or f["path"]
    mut = last_seg(name) == "index_mut"
    if q is None:
        return None
    if q[1] == "map":
        k, _ = m.q(st, args[1])
        ok = k is not None and isinstance(k[3], bytes) and isinstance(q[3], frozenset) and k[3] in q[3]
        an.oblige(ctx, st, b, "call", "map index", ok, "the key may be missing")
        return [(st, an.mk(st, t["dty"]))]
    i, _ = m.deref(st, args[1])
    if i[0] == "i":
        ok = st.zone.le0(laddc(ladd(i[1], q[2], -1), 1))
        an.oblige(ctx, st, b, "call", "index", ok, "index %s of length %s" % (i[1], q[2]) if not ok else "")
        if not st.le(laddc(ladd(i[1], q[2], -1), 1)):
            return []
        if isinstance(q[3], bytes) and not i[1][1] and 0 <= i[1][0] < len(q[3]) and not mut:
            return [(st, ("r", I(C(q[3][i[1][0]])), None))]
        return [(st, an.mk(st, t["dty"]))]
    r = m.do_range(st, ctx, b, q, args[1], "index range")
    if r is None:
        return []
    nq = seqv("str" if q[1] == "str" else "vec", ladd(r[1], r[0], -1))
    if isinstance(q[3], bytes) and not r[0][1] and not r[1][1]:
        nq = seqv(nq[1], nq[2], q[3][r[0][0]:r[1][0]])
    if mut:
        n = st.nreg
        st.nreg += 1
        st.regs[n] = nq
        return [(st, ("m", ("R", n), ()))]
    return [(st, ("r", nq, None))]


def m_get(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    if q[1] == "map":
        k, _ = m.q(st, args[1])
        if k is not None and isinstance(k[3], bytes) and isinstance(q[3], frozenset) and k[3] in q[3]:
            return [(st, some(m.item(st, t["dty"])))]
        s0 = st.fork()
        return [(s0, NONE), (st, some(m.item(st, t["dty"])))]
    i, _ = m.deref(st, args[1])
    out = []
    if i[0] == "i":
        s0 = st.fork()
        if s0.le(ladd(q[2], i[1], -1)):
            out.append((s0, NONE))
        if st.le(laddc(ladd(i[1], q[2], -1), 1)):
            out.append((st, some(m.item(st, t["dty"]))))
        return out
    r = m.range_of(st, args[1], q[2])
    s0 = st.fork()
    out.append((s0, NONE))
    if r is None:
        out.append((st, some(m.item(st, t["dty"]))))
    elif st.le(ladd(r[0], r[1], -1)) and st.le(ladd(r[1], q[2], -1)):
        out.append((st, some(("r", seqv("str" if q[1] == "str" else "vec", ladd(r[1], r[0], -1)), None))))
    return out


def m_first(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    out = []
    s0 = st.fork()
    if s0.eq(q[2]):
        out.append((s0, NONE))
    if st.le(laddc(lscale(q[2], -1), 1)):
        out.append((st, some(m.item(st, t["dty"]))))
    return out


def m_split_first(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    out = []
    s0 = st.fork()
    if s0.eq(q[2]):
        out.append((s0, NONE))
    if st.le(laddc(lscale(q[2], -1), 1)):
        q, _ = m.q(st, args[0])
        out.append((st, some(("s", "tuple", (TOP, ("r", seqv("vec", laddc(q[2], -1)), None))))))
    return out


def m_split_at(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is None or args[1][0] != "i":
        return None
    n = args[1][1]
    m.an.oblige(ctx, st, b, "call", "split_at", st.zone.le0(ladd(n, q[2], -1)) and m.cut_ok(st, q, n))
    if not st.le(ladd(n, q[2], -1)):
        return []
    return [(st, ("s", "tuple", (("r", seqv(q[1], n), None), ("r", seqv(q[1], ladd(q[2], n, -1)), None))))]


def m_clone(m, st, ctx, b, t, f, args):
    v, _ = m.deref(st, args[0])
    q, _ = m.q(st, args[0])
    if q is not None:
        dk = m.an.mk(st, t["dty"])
        kind = dk[1] if dk[0] == "q" else q[1]
        return [(st, seqv(kind, q[2], q[3], (), q[5]))]
    if v[0] in ("i", "b", "it"):
        return [(st, v)]
    ms = []
    mrefs(v, ms)
    if v[0] in ("s", "e") and not ms:
        return [(st, v)]
    return [(st, TOP)]


def m_to_string(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    if q is not None and q[1] == "str" and m.an.mk(st, t["dty"])[0] == "q":
        return [(st, seqv("str", q[2], q[3], (), q[5]))]
    v, _ = m.deref(st, args[0])
    if v[0] == "i" and t["dty"] == "std::string::String":
        return [(st, seqv("str", m.fresh(st, 1, 64)))]
    return None


def m_trim(m, st, ctx, b, t, f, args):
    q, o = m.q(st, args[0])
    if q is None:
        return None
    outs = m.run_closures(st, ctx, b, args[1:])
    res = []
    name = last_seg(f.get("rpath") or f["path"])
    for s in outs:
        q, o = m.q(s, args[0])
        n = m.an.length(s, q[2])
        if name in ("trim_end", "trim_end_matches", "trim_ascii_end", "trim_right", "trim_right_matches"):
            if o is not None:
                cur = m.an.get(s, o[0], o[1])
                for _ in range(3):
                    if cur[0] == "m":
                        o = (cur[1], cur[2])
                        cur = m.an.get(s, o[0], o[1])
                if cur[0] == "q":
                    m.an.write(s, o[0], o[1], cur[:4] + ((cur[4] + (n,))[-3:],) + cur[5:])
        res.append((s, ("r", seqv(q[1], n, b"" if q[3] == b"" else None), None)))
    return res


def m_find(m, st, ctx, b, t, f, args):
    """str::find and alike: a boundary within the string."""
    q, o = m.q(st, args[0])
    if q is None:
        return None
    res = []
    for s in m.run_closures(st, ctx, b, args[1:]):
        s0 = s.fork()
        res.append((s0, NONE))
        q, o = m.q(s, args[0])
        n = m.an.length(s, q[2])
        if o is not None:
            cur = m.an.get(s, o[0], o[1])
            if cur[0] == "q":
                m.an.write(s, o[0], o[1], cur[:4] + ((cur[4] + (n,))[-3:],) + cur[5:])
        res.append((s, some(I(n))))
    return res


def m_affix(m, st, ctx, b, t, f, args):
    """starts_with, ends_with"""
    q, _ = m.q(st, args[0])
    p, _ = m.q(st, args[1])
    if q is None or p is None or (isinstance(p[3], bytes) and len(p[3]) == 0):
        outs = m.run_closures(st, ctx, b, args[1:])
        return [(s, NOB) for s in outs]
    s0 = st.fork()
    out = [(s0, ("b", False))]
    if st.le(ladd(p[2], q[2], -1)):
        out.append((st, ("b", True)))
    return out


def m_strip(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0])
    p, _ = m.q(st, args[1])
    if q is None:
        return None
    out = []
    for s in m.run_closures(st, ctx, b, args[1:]):
        s0 = s.fork()
        out.append((s0, NONE))
        if p is not None:
            if not s.le(ladd(p[2], q[2], -1)):
                continue
            q1, _ = m.q(s, args[0])
            p1, _ = m.q(s, args[1])
            n = ladd(q1[2], p1[2], -1)
        else:
            n = m.an.length(s, q[2])
        out.append((s, some(("r", seqv(q[1], n), None))))
    return out


def m_substr(m, st, ctx, b, t, f, args):
    """Another string not longer than the first (to_ascii_lowercase ..)."""
    q, _ = m.q(st, args[0])
    if q is None:
        return None
    return [(st, seqv("str", q[2]))]


# -- iterators
def m_iter(m, st, ctx, b, t, f, args):
    name = last_seg(f.get("rpath") or f["path"])
    v = args[0]
    x, o = m.deref(st, v)
    if x[0] == "it":
        return [(st, x if v[0] != "m" else x)] if v[0] != "m" else [(st, v)]
    if x[0] == "s" and x[1] in RANGES and name == "into_iter":
        return [(st, x)]
    q, _ = m.q(st, v)
    outs = [st]
    if name in ("split", "rsplit", "split_inclusive", "splitn", "split_terminator", "matches", "lines", "split_whitespace",
                "rsplitn", "split_ascii_whitespace", "match_indices", "chunks", "windows", "chunks_exact"):
        if name.startswith(("chunks", "windows")):
            i = args[1] if len(args) > 1 else TOP
            m.an.oblige(ctx, st, b, "call", name, i[0] == "i" and st.zone.le0(laddc(lscale(i[1], -1), 1)))
        if q is None:
            n = m.an.length(st)
        else:
            n = m.fresh(st, 0, TAME)
            st.le(laddc(ladd(n, q[2], -1), -1))
        return [(st, ("it", "bounded", n, tuple(a for a in args[1:] if a[0] in ("s",))))]
    if q is None:
        return [(st, ("it", "unknown", m.an.length(st), ()))]
    if name in ("chars", "char_indices", "escape_default", "escape_debug", "encode_utf16") or \
            (name in ("drain", "retain")):
        return [(st, ("it", "chars", m.an.length(st, q[2]), ()))]
    return [(st, ("it", "slice", q[2], ()))]


def m_adapt(m, st, ctx, b, t, f, args):
    name = last_seg(f.get("rpath") or f["path"])
    x, _ = m.deref(st, args[0])
    if x[0] == "s" and x[1] == "std::ops::Range" and x[2][0][0] == "i" and x[2][1][0] == "i":
        n = m.an.length(st)
        d = ladd(x[2][1][1], x[2][0][1], -1)
        if st.zone.le0(lscale(d, -1)):
            n = d
        x = ("it", "range", n, ())
    if x[0] != "it":
        x = ("it", "unknown", m.an.length(st), ())
    ex = tuple(args[1:]) + (tuple([x]) if any(m_has_closure(m, st, y) for y in x[3]) else ())
    ex = tuple(a for a in ex if m_has_closure(m, st, a))
    n = x[2]
    if name in ("filter", "filter_map", "take_while", "skip_while", "map_while", "skip", "step_by", "dedup", "scan", "flatten", "flat_map"):
        if name in ("flatten", "flat_map"):
            n = m.an.length(st)
        else:
            n = m.an.length(st, n)
        if name == "step_by":
            i = args[1]
            m.an.oblige(ctx, st, b, "call", "step_by", i[0] == "i" and st.zone.le0(laddc(lscale(i[1], -1), 1)))
    elif name == "take":
        k = m.an.length(st, n)
        if args[1][0] == "i":
            st.le(ladd(k, args[1][1], -1))
        n = k
    elif name == "zip":
        p, _ = m.deref(st, args[1])
        q, _ = m.q(st, args[1])
        k = m.an.length(st, n)
        o = q[2] if q is not None else p[2] if p[0] == "it" else None
        if o is not None:
            st.le(ladd(k, o, -1))
        n = k
    elif name == "chain":
        p, _ = m.deref(st, args[1])
        q, _ = m.q(st, args[1])
        n = ladd(n, q[2] if q is not None else p[2] if p[0] == "it" else m.an.length(st))
    kind = "enum" if name == "enumerate" else "map" if name in ("map",) else x[1] if name in ("by_ref", "copied", "cloned", "rev", "peekable") else "adapt"
    if name == "by_ref":
        return [(st, args[0])]
    if name in ("copied", "cloned", "rev", "peekable", "fuse"):
        return [(st, ("it", x[1], n, x[3]))]
    return [(st, ("it", kind, n, ex))]


def m_has_closure(m, st, a):
    cl = []
    m.closures(st, a, cl)
    return bool(cl)


def m_repeat_iter(m, st, ctx, b, t, f, args):
    """Unbounded iterators."""
    return [(st, ("it", "infinite", m.fresh(st, 0), tuple(a for a in args if m_has_closure(m, st, a))))]


def m_next(m, st, ctx, b, t, f, args):
    an = m.an
    x, o = m.deref(st, args[0])
    if x[0] == "t" or (x[0] == "s" and x[1] not in RANGES):
        n = ("it", "unknown", an.length(st), ())
        if args[0][0] == "m":
            m.setq(st, args[0], n)
        x, o = m.deref(st, args[0])
        if x[0] != "it":
            return None
    if x[0] == "s":
        k = RANGES[x[1]]
        fs = x[2]
        if k == "Range" and fs[0][0] == "i" and fs[1][0] == "i":
            a, e = fs[0][1], fs[1][1]
            out = []
            s0 = st.fork()
            back = last_seg(f.get("rpath") or f["path"]) == "next_back"
            if s0.le(ladd(e, a, -1)):
                out.append((s0, NONE))
            if st.le(laddc(ladd(a, e, -1), 1)):
                x, _ = m.deref(st, args[0])
                a, e = x[2][0][1], x[2][1][1]
                if back:
                    m.setq(st, args[0], ("s", x[1], (I(a), I(laddc(e, -1)))))
                    out.append((st, some(I(laddc(e, -1)))))
                else:
                    m.setq(st, args[0], ("s", x[1], (I(laddc(a, 1)), I(e))))
                    out.append((st, some(I(a))))
            return out
        if k == "RangeInclusive":
            # keep the number of the remaining steps
            a, e = (y[1] if y[0] == "i" else m.fresh(st, 0, 2 ** 64 - 1) for y in fs[:2])
            n = an.length(st, None)
            if st.zone.le0(ladd(a, e, -1)):
                st.le(laddc(ladd(n, ladd(e, a, -1), -1), -1))
            m.setq(st, args[0], ("it", "slice", n, (I(a), I(e))))
            x, o = m.deref(st, args[0])
        elif k == "RangeFrom":
            a = fs[0][1] if fs[0][0] == "i" else m.fresh(st, 0, 2 ** 64 - 1)
            m.setq(st, args[0], ("s", x[1], (I(laddc(a, 1)),)))
            return [(st, some(I(a)))]
        else:
            return None
    out = []
    s0 = st.fork()
    inf = x[1] == "infinite"
    if not inf and s0.eq(x[2]):
        out.append((s0, NONE))
    if inf or st.le(laddc(lscale(x[2], -1), 1)):
        ss = m.run_closures(st, ctx, b, list(x[3])) if x[3] else [st]
        for s in ss:
            x, _ = m.deref(s, args[0])
            m.setq(s, args[0], ("it", x[1], laddc(x[2], -1) if not inf else x[2], x[3]))
            it = m.item(s, t["dty"])
            if len(x[3]) == 2 and x[3][0][0] == "i" and it[0] == "i":
                s.le(ladd(it[1], x[3][1][1], -1))
                s.le(ladd(x[3][0][1], it[1], -1))
            if x[1] == "enum":
                tk = an.tyk(m.items(t["dty"])[0]) if m.items(t["dty"]) else {}
                rest = (tk.get("args") or [None, None])[1]
                it = ("s", "tuple", (I(m.fresh(s, 0, TAME - 1)), ("t", rest)))
            out.append((s, some(it)))
    return out


def m_consume(m, st, ctx, b, t, f, args):
    """all, any, find, fold, for_each, collect, ..."""
    name = last_seg(f.get("rpath") or f["path"])
    x, _ = m.deref(st, args[0])
    if x[0] == "it" and x[1] == "infinite":
        m.an.oblige(ctx, st, b, "loop", name, False, "consumes an endless iterator")
    outs = m.run_closures(st, ctx, b, list(args[1:]) + ([x] if x[0] == "it" else []))
    res = []
    for s in outs:
        x, _ = m.deref(s, args[0])
        n = x[2] if x[0] == "it" else None
        if n is None and x[0] == "s" and x[1] == "std::ops::Range" and x[2][0][0] == "i" and x[2][1][0] == "i":
            d = ladd(x[2][1][1], x[2][0][1], -1)
            if s.zone.le0(lscale(d, -1)):
                n = d
        exact = x[0] == "it" and x[1] in ("slice", "map", "enum", "range", "into")
        v = m.an.mk(s, t["dty"])
        if args[0][0] == "m" and x[0] == "it":
            m.setq(s, args[0], ("it", x[1], m.an.length(s, x[2]), x[3]))
        if name == "count":
            v = I(n) if exact else I(m.an.length(s, n))
        elif name in ("position", "rposition"):
            s0 = s.fork()
            res.append((s0, NONE))
            k = m.an.length(s, None)
            if n is not None and not s.le(laddc(ladd(k, n, -1), 1)):
                continue
            v = some(I(k))
        elif name == "collect" and v[0] == "q" and n is not None:
            if exact and v[1] == "vec":
                v = seqv("vec", n)
            elif v[1] in ("vec", "map"):
                s.le(ladd(v[2], n, -1))
        elif v[0] == "t":
            v = TOP
        res.append((s, v))
    return res


# -- integers
def m_cmp(m, st, ctx, b, t, f, args):
    x, y = m.deref(st, args[0])[0], m.deref(st, args[1])[0]
    if x[0] != "i" or y[0] != "i":
        return None
    out = []
    for i, op in enumerate(("<", "==", ">")):
        s = st.fork()
        if m.an.assume_bool(s, ("c", op, x[1], y[1]), True):
            v = ("e", "std::cmp::Ordering", ((i, ()),))
            out.append((s, v if last_seg(f.get("rpath") or f["path"]) == "cmp" else some(v)))
    return out


def m_minmax(m, st, ctx, b, t, f, args):
    x, y = args[0], args[1]
    if x[0] != "i" or y[0] != "i":
        return None
    mx = last_seg(f.get("rpath") or f["path"]) == "max"
    out = []
    for op, r in (("<=", y if mx else x), (">", x if mx else y)):
        s = st.fork()
        s.env["#mm"] = ("s", "hold", (r,))
        if m.an.assume_bool(s, ("c", op, x[1], y[1]), True):
            out.append((s, s.env.pop("#mm")[2][0]))
    return out


def m_arith(m, st, ctx, b, t, f, args):
    name = last_seg(f.get("rpath") or f["path"])
    mode, op = name.split("_", 1)
    if len(args) != 2 or args[0][0] != "i" or args[1][0] != "i":
        return None
    x, y = args[0][1], args[1][1]
    r = ladd(x, y) if op == "add" else ladd(x, y, -1) if op == "sub" else \
        lscale(x, y[0]) if op == "mul" and not y[1] else lscale(y, x[0]) if op == "mul" and not x[1] else None
    g = re.search(r"impl (\w+)>", f.get("rpath") or f["path"])
    ty = g.group(1) if g else t["dty"]
    if ty not in INT_RANGE:
        return None
    lo, hi = INT_RANGE[ty]
    if mode == "checked":
        s0 = st.fork()
        out = []
        if r is None:
            return [(s0, NONE), (st, some(m.an.int_top(st, ty)))]
        inb = st.zone.le0(laddc(r, -hi)) and st.zone.le0(lscale(laddc(r, -lo), -1))
        if not inb:
            ok = True
            if st.zone.le0(laddc(r, -hi)):
                ok = s0.le(laddc(r, 1 - lo))
            elif st.zone.le0(lscale(laddc(r, -lo), -1)):
                ok = s0.le(laddc(lscale(r, -1), hi + 1))
            if ok:
                out.append((s0, NONE))
        st.env["#mm"] = ("s", "hold", (I(r),))
        if st.le(laddc(r, -hi)) and st.le(lscale(laddc(r, -lo), -1)):
            out.append((st, some(st.env.pop("#mm")[2][0])))
        return out
    if mode == "saturating":
        if r is None:
            return [(st, m.an.int_top(st, ty))]
        out = []
        for lim, cond in ((lo, laddc(r, 1 - lo)), (hi, laddc(lscale(r, -1), hi + 1))):
            s = st.fork()
            if s.le(cond):
                out.append((s, I(C(lim))))
        st.env["#mm"] = ("s", "hold", (I(r),))
        if st.le(laddc(r, -hi)) and st.le(lscale(laddc(r, -lo), -1)):
            out.append((st, st.env.pop("#mm")[2][0]))
        return out
    if mode == "wrapping":
        if r is not None and st.zone.le0(laddc(r, -hi)) and st.zone.le0(lscale(laddc(r, -lo), -1)):
            return [(st, I(r))]
        return [(st, m.an.int_top(st, ty))]
    return None


def m_intconv(m, st, ctx, b, t, f, args):
    if args and args[0][0] == "i" and t["dty"] in INT_RANGE:
        lo, hi = INT_RANGE[t["dty"]]
        e = args[0][1]
        if st.zone.le0(laddc(e, -hi)) and st.zone.le0(lscale(laddc(e, -lo), -1)):
            return [(st, args[0])]
    q, o = m.q(st, args[0]) if args else (None, None)
    if q is not None:
        v = m.an.mk(st, t["dty"])
        if v[0] == "q":
            return [(st, seqv(v[1], q[2], q[3], (), q[5]))]
        if v[0] == "r" and v[1][0] == "q":
            return [(st, ("r", q, o))]
    x = args[0] if args else TOP
    if x[0] == "i" and t["dty"] == "std::string::String":
        return [(st, seqv("str", m.fresh(st, 1, 4)))]
    return [(st, m.an.mk(st, t["dty"]))]


def m_into_same(m, st, ctx, b, t, f, args):
    return [(st, TOP)]


def m_radix(m, st, ctx, b, t, f, args):
    r = args[-1]
    if r[0] != "i":
        return None
    z = st.zone
    ok = z.le0(laddc(r[1], -36)) and z.le0(laddc(lscale(r[1], -1), 2))
    m.an.oblige(ctx, st, b, "call", "radix", ok, "the radix is not within 2..=36")
    return [(st, TOP)]


def m_pow(m, st, ctx, b, t, f, args):
    ok = all(a[0] == "i" and not a[1][1] for a in args[:2])
    if ok:
        r = args[0][1][0] ** args[1][1][0]
        lo, hi = INT_RANGE.get(t["dty"], (0, 0))
        ok = lo <= r <= hi
        m.an.oblige(ctx, st, b, "call", "pow", ok)
        return [(st, I(C(r)) if ok else m.an.int_top(st, t["dty"]))]
    m.an.oblige(ctx, st, b, "call", "pow", False, "may overflow")
    return [(st, m.an.mk(st, t["dty"]))]


def m_opsum(m, st, ctx, b, t, f, args):
    return [(st, m.an.mk(st, t["dty"], True))]


def m_str_repeat(m, st, ctx, b, t, f, args):
    """Capacity overflow is out of scope (allocation)."""
    q, _ = m.q(st, args[0])
    if q is not None and args[1][0] == "i" and q[2] == C(1):
        return [(st, seqv("str", args[1][1]))]
    return [(st, TOP)]


def m_write_fmt(m, st, ctx, b, t, f, args):
    """Writing into a string does not fail."""
    q, _ = m.q(st, args[0])
    outs = [st]
    if q is None or q[1] != "str":
        for s in outs:
            m.an.havoc(s, args[:1])
        return [(s, TOP) for s in outs]
    tail = 0
    a = m.deref(st, args[1])[0]
    if a[0] == "s" and a[1] == "fmt":
        tail = a[2][0][1][0]
    m.setq(st, args[0], seqv("str", ladd(q[2], laddc(m.an.length(st), tail)), None, q[4], tail))
    return [(st, ("e", RES, ((0, (UNIT,)),)))]


def m_fmt_args(m, st, ctx, b, t, f, args):
    q, _ = m.q(st, args[0]) if args else (None, None)
    tail = 0
    if q is not None and isinstance(q[3], bytes):
        c = q[3]
        name = last_seg(f.get("rpath") or f["path"])
        if name == "new":
            # [len literal..]* 192 placeholders, 0 ends
            i, last, n, hole = 0, b"", 0, None
            while i < len(c):
                x = c[i]
                if x == 0:
                    break
                hole = None
                if x < 128:
                    last = c[i + 1:i + 1 + x]
                    i += 1 + x
                elif x == 128 and i + 2 < len(c):
                    k = c[i + 1] | c[i + 2] << 8
                    last = c[i + 3:i + 3 + k]
                    i += 3 + k
                else:
                    last = b""
                    i += 1
                    hole, n = n, n + 1
                    if x != 192:
                        hole = None
                        i = len(c)
            tail = tail_of(last)[0]
            if hole is not None and len(args) > 1:
                a = m.deref(st, args[1])[0]
                a = m.deref(st, a[2][hole])[0] if a[0] == "s" and a[1] == "array" and hole < len(a[2]) else TOP
                tail = a[2][0][1][0] if a[0] == "s" and a[1] == "fmtarg" else 0
        else:
            tail = tail_of(c)[0]
    return [(st, ("s", "fmt", (I(C(tail)),)))]


def m_fmt_arg(m, st, ctx, b, t, f, args):
    """A text which is shown as it is keeps its single-byte end."""
    q, _ = m.q(st, args[0]) if args else (None, None)
    tail = 0
    if q is not None and q[1] == "str":
        tail = tail_of(q[3])[0] if isinstance(q[3], bytes) else q[5]
    return [(st, ("s", "fmtarg", (I(C(tail)),)))]


def m_fmt_format(m, st, ctx, b, t, f, args):
    a = m.deref(st, args[0])[0]
    tail = a[2][0][1][0] if a[0] == "s" and a[1] == "fmt" else 0
    return [(st, seqv("str", laddc(m.an.length(st), tail), None, (), tail))]


def m_id(m, st, ctx, b, t, f, args):
    return [(st, args[0])]


def m_top(m, st, ctx, b, t, f, args):
    return [(st, TOP)]


def m_default(m, st, ctx, b, t, f, args):
    d = t["dty"]
    if d in INT_RANGE:
        return [(st, I(C(0)))]
    if d == "bool":
        return [(st, ("b", False))]
    if d == "()":
        return [(st, UNIT)]
    if (m.an.tyk(d).get("path")) == OPT:
        return [(st, NONE)]
    v = m.an.mk(st, d)
    if v[0] == "q":
        return [(st, seqv(v[1], C(0), frozenset() if v[1] == "map" else b"" if v[1] == "str" else None))]
    return [(st, TOP)]


def m_swap(m, st, ctx, b, t, f, args):
    name = last_seg(f.get("rpath") or f["path"])
    an = m.an
    if args[0][0] != "m":
        return None
    old = an.get(st, args[0][1], args[0][2])
    if name == "take":
        d = m_default(m, st, ctx, b, dict(t), f, [])
        new = d[0][1]
        if old[0] == "e" and old[1] == OPT:
            new = NONE
    elif name == "replace":
        new = args[1]
    else:
        if args[1][0] != "m":
            return None
        o2 = an.get(st, args[1][1], args[1][2])
        an.write(st, args[0][1], args[0][2], o2)
        an.write(st, args[1][1], args[1][2], old)
        return [(st, UNIT)]
    an.write(st, args[0][1], args[0][2], new)
    return [(st, old)]


def m_contains_range(m, st, ctx, b, t, f, args):
    r, _ = m.deref(st, args[0])
    x, _ = m.deref(st, args[1])
    if r[0] != "s" or r[1] not in RANGES or x[0] != "i":
        return [(st, NOB)]
    k = RANGES[r[1]]
    fs = [y[1] if y[0] == "i" else None for y in r[2][:2]]
    conds = []
    if k in ("Range", "RangeFrom", "RangeInclusive") and fs[0] is not None:
        conds.append(("c", ">=", x[1], fs[0]))
    if k == "Range" and fs[1] is not None:
        conds.append(("c", "<", x[1], fs[1]))
    if k == "RangeInclusive" and fs[1] is not None:
        conds.append(("c", "<=", x[1], fs[1]))
    if k == "RangeTo" and fs[0] is not None:
        conds.append(("c", "<", x[1], fs[0]))
    if k == "RangeToInclusive" and fs[0] is not None:
        conds.append(("c", "<=", x[1], fs[0]))
    out = []
    s = st.fork()
    out.append((s, ("b", False)))
    ok = True
    for c in conds:
        ok = ok and m.an.assume_bool(st, c, True)
    if ok:
        out.append((st, ("b", True)))
    return out


def m_rangeinc_new(m, st, ctx, b, t, f, args):
    return [(st, ("s", "std::ops::RangeInclusive", (args[0], args[1], ("b", False))))]


def m_eqseq(m, st, ctx, b, t, f, args):
    p, _ = m.q(st, args[0])
    q, _ = m.q(st, args[1])
    x, y = m.deref(st, args[0])[0], m.deref(st, args[1])[0]
    ne = last_seg(f.get("rpath") or f["path"]) == "ne"
    if x[0] == "i" and y[0] == "i":
        return [(st, ("b", ("c", "!=" if ne else "==", x[1], y[1])))]
    if p is None or q is None or p[1] == "map":
        return [(st, NOB)]
    if isinstance(p[3], bytes) and isinstance(q[3], bytes):
        return [(st, ("b", (p[3] == q[3]) != ne))]
    if isinstance(p[3], bytes) != isinstance(q[3], bytes):
        # only a comparison with a literal refines the length
        s0 = st.fork()
        out = [(s0, ("b", ne))]
        if st.eq(ladd(p[2], q[2], -1)):
            out.append((st, ("b", not ne)))
        return out
    return [(st, NOB)]


STR = r"(String|<impl str>|impl str>)"
ANY = r""
TABLE = [
    ((r"^(std::string::String|std::vec::Vec|<std::(string::String|vec::Vec|boxed::Box|borrow::Cow)|core::str|std::str|core::array|<\[|core::slice|std::slice)", {"deref", "deref_mut", "as_str", "as_bytes",
        "as_slice", "as_mut_slice", "as_ref", "borrow", "as_mut_str", "into_bytes", "into_boxed_str", "into_string", "into_boxed_slice"}), m_ident),
    ((r"(AsRef|Borrow)<", {"as_ref", "borrow"}), m_ident),
    ((r"^std::ops::Range|RangeBounds", {"contains"}), m_contains_range),
    ((r"RangeInclusive", {"new"}), m_rangeinc_new),
    ((r"^(std|core|ritelinked|<std|<core|<ritelinked|alloc)", {"len"}), m_len),
    ((r"^(std|core|ritelinked)", {"is_empty"}), m_is_empty),
    ((r"(Vec|String)", {"push"}), m_push),
    ((r"(VecDeque)", {"push_back", "push_front"}), m_push),
    ((r"String", {"push_str", "add_assign"}), m_push_str),
    ((r"fmt::Write", {"write_str"}), None),
    ((r"String as std::ops::Add", {"add"}), m_add),
    ((r"(Vec|String|Map)", {"clear"}), m_clear),
    ((r"(Vec::|String::)", {"pop"}), m_pop),
    ((r"(VecDeque)", {"pop_front", "pop_back"}), m_pop),
    ((r"(Vec|String)", {"truncate"}), m_truncate),
    ((r"(Vec|String)", {"drain"}), m_drain),
    ((r"(Vec|String)", {"split_off"}), m_split_off),
    ((r"(Vec|String|Map)", {"insert"}), m_vinsert),
    ((r"(Vec|String|Map)", {"remove"}), m_vremove),
    ((r"Vec", {"resize"}), m_resize),
    ((r"(Vec|String|Map)", {"extend", "append", "extend_from_slice"}), m_extend),
    ((r"(Vec|String|Map|Set)", {"new", "with_capacity", "with_hasher"}), m_new),
    ((r"vec", {"from_elem"}), m_from_elem),
    ((r"boxed", {"box_assume_init_into_vec_unsafe"}), m_boxvec),
    ((r"Index", {"index", "index_mut"}), m_index),
    ((r"(slice|str|Vec|Map|String)", {"get", "get_mut"}), m_get),
    ((r"(slice|Vec)", {"first", "last", "first_mut", "last_mut"}), m_first),
    ((r"slice", {"split_first", "split_last"}), m_split_first),
    ((r"(slice|str)", {"split_at"}), m_split_at),
    ((r"(Clone|slice|ToOwned|str|Option|Rc|Arc)", {"clone", "to_vec", "to_owned", "cloned", "copied"}), None),
    ((r"ToString|str", {"to_string", "to_owned"}), m_to_string),
    ((r"^(core::str|std::str|core::slice)", {"trim", "trim_end", "trim_start", "trim_end_matches", "trim_start_matches", "trim_matches", "trim_ascii",
                              "trim_ascii_end", "trim_ascii_start"}), m_trim),
    ((r"^(core::str|std::str)", {"find", "rfind"}), m_find),
    ((r"(str|slice)", {"starts_with", "ends_with"}), m_affix),
    ((r"(str|slice)", {"strip_prefix", "strip_suffix"}), m_strip),
    ((r"str", {"to_ascii_lowercase", "to_ascii_uppercase"}), m_substr),
    ((r"(^|[<: ])(core|std|ritelinked|alloc)", {"iter", "iter_mut", "into_iter", "chars", "bytes", "char_indices", "split", "rsplit", "split_inclusive", "splitn", "lines",
                       "split_whitespace", "matches", "keys", "values", "split_terminator", "into_keys", "into_values", "values_mut",
                       "rsplitn", "split_ascii_whitespace", "match_indices", "chunks", "windows", "chunks_exact"}), m_iter),
    ((r"^<I as", {"into_iter"}), m_iter),
    ((r"IntoIterator", {"into_iter"}), m_iter),
    ((r"Iterator", {"map", "filter", "filter_map", "enumerate", "rev", "skip", "take", "zip", "chain", "copied", "cloned", "peekable", "by_ref",
                    "take_while", "skip_while", "map_while", "step_by", "fuse", "inspect", "scan", "flatten", "flat_map"}), m_adapt),
    ((r"^(std|core)::iter", {"repeat", "repeat_with", "successors", "from_fn"}), m_repeat_iter),
    ((r"Iterator", {"next", "next_back"}), m_next),
    ((r"Iterator", {"all", "any", "find", "find_map", "position", "rposition", "fold", "for_each", "try_for_each", "try_fold", "collect", "count", "last", "nth",
                    "max", "min", "max_by_key", "min_by_key", "reduce", "eq", "ne", "unzip", "partition", "product"}), m_consume),
    ((r"Iterator", {"sum"}), m_opsum),
    ((r"cmp::", {"cmp", "partial_cmp"}), m_cmp),
    ((r"cmp::", {"min", "max"}), m_minmax),
    ((r"PartialEq", {"eq", "ne"}), m_eqseq),
    ((r"num::", {"checked_add", "checked_sub", "checked_mul", "saturating_add", "saturating_sub", "saturating_mul", "wrapping_add",
                 "wrapping_sub", "wrapping_mul"}), m_arith),
    ((r"convert", {"from", "into"}), m_intconv),
    ((r"convert", {"try_into", "try_from"}), m_top),
    ((r"(num|char)", {"from_str_radix", "is_digit", "to_digit", "from_digit"}), m_radix),
    ((r"num", {"pow"}), m_pow),
    ((r"str", {"repeat"}), m_str_repeat),
    ((r"fmt::Write", {"write_fmt"}), m_write_fmt),
    ((r"fmt::(rt::)?Argument(<|::<|::new)", {"new_display"}), m_fmt_arg),
    ((r"fmt::Arguments", {"new", "from_str", "from_str_nonconst", "new_const"}), m_fmt_args),
    ((r"fmt", {"format"}), m_fmt_format),
    ((r"(hint|convert)", {"must_use", "identity", "black_box"}), m_id),
    ((r"Default", {"default"}), m_default),
    ((r"mem", {"take", "replace", "swap"}), m_swap),
]
TABLE = [((p, s), fn if fn is not None else (m_clone if "clone" in s else None)) for (p, s), fn in TABLE]
