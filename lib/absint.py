"""Abstract interpreter over the exported MIR.

Values are trees; every integer leaf is a linear expression over symbols which a zone relates.
Functions are analysed once per abstract calling context and summarised by their exit states.
"""
import heapq, re, sys
from collections import defaultdict
from domain import C, S, TAME, SLACK, Zone, affine_join, ladd, laddc, lscale, lsubst

sys.setrecursionlimit(20000)
INT_RANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1),
             "usize": (0, 2 ** 64 - 1), "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
             "i64": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1), "isize": (-2 ** 63, 2 ** 63 - 1),
             "char": (0, 0x10FFFF)}
WIDE = ("u64", "usize", "i64", "isize", "u128", "i128")
SEQ_ADT = {"std::vec::Vec": "vec", "std::string::String": "str", "std::collections::BTreeMap": "map",
           "ritelinked::LinkedHashMap": "map", "std::collections::VecDeque": "vec", "std::collections::HashMap": "map",
           "std::collections::HashSet": "map", "std::collections::BTreeSet": "map"}
PAIR_T = (-1, 0, 1)
UB_T = (0, 1, 2, 8, 10, 16, 36, 255, 256, 1024, TAME)      # widening thresholds
LB_T = (2, 1, 0)
THRESH0 = frozenset(UB_T)
THRESH1 = frozenset((-2, -1, 0, 1))
DEPTH = 1024                    # most nested levels
CUB_T = (36, 256, 1024, TAME)                              # thresholds of a calling context
TOP = ("t", None)
UNIT = ("s", "tuple", ())
NOB = ("b", None)


def I(e):
    return ("i", e)


def seqv(kind, ln, content=None, bnds=(), tail=0):
    return ("q", kind, ln, content, bnds, tail)


# ------------------------------------------------------------------ value trees
def exprs(v, out):
    k = v[0]
    if k == "i":
        out.append(v[1])
    elif k == "b":
        c = v[1]
        if type(c) is tuple:
            out.append(c[2])
            out.append(c[3])
    elif k == "s":
        for x in v[2]:
            exprs(x, out)
    elif k == "e":
        for _, fs in v[2]:
            for x in fs:
                exprs(x, out)
    elif k == "r":
        exprs(v[1], out)
    elif k == "q":
        out.append(v[2])
        out.extend(v[4])
    elif k == "it":
        out.append(v[2])
        for x in v[3]:
            exprs(x, out)


def counters(vs):
    """Integer fields of the structures in some values, those which occur once."""
    out, many = {}, set()

    def walk(v):
        if v[0] == "s":
            for i, x in enumerate(v[2]):
                if x[0] == "i":
                    k = (v[1], i)
                    if out.setdefault(k, x[1]) != x[1]:
                        many.add(k)
                else:
                    walk(x)
        elif v[0] == "r":
            walk(v[1])
    for v in vs:
        walk(v)
    return {k: e for k, e in out.items() if k not in many}


def shape(v):
    k = v[0]
    if k == "i":
        return "i"
    if k == "b":
        c = v[1]
        return c if type(c) is bool else ("c" + c[1] if c else "b")
    if k == "s":
        return ("s", v[1], tuple([shape(x) for x in v[2]]))
    if k == "e":
        return ("e", tuple([(i, tuple([shape(x) for x in fs])) for i, fs in v[2]]))
    if k == "r":
        return ("r", shape(v[1]))
    if k == "q":
        return "q"
    if k == "it":
        return ("it", v[1], tuple([shape(x) for x in v[3]]))
    if k == "m":
        return v
    if k == "d":
        return v
    return "t"


def merge(a, b, it):
    """Merge trees of the same shape, the expressions are taken from the iterator."""
    k = a[0]
    if k == "i":
        return ("i", next(it))
    if k == "b":
        c = a[1]
        if type(c) is tuple:
            return ("b", ("c", c[1], next(it), next(it)))
        return a
    if k == "s":
        return ("s", a[1], tuple([merge(x, y, it) for x, y in zip(a[2], b[2])]))
    if k == "e":
        return ("e", a[1], tuple([(i, tuple([merge(x, y, it) for x, y in zip(f, g)])) for (i, f), (_, g) in zip(a[2], b[2])]))
    if k == "r":
        return ("r", merge(a[1], b[1], it), a[2] if a[2] == b[2] else None)
    if k == "q":
        ln = next(it)
        bn = tuple([next(it) for _ in a[4]])
        ca, cb = a[3], b[3]
        if ca == cb:
            c = ca
        elif isinstance(ca, frozenset) and isinstance(cb, frozenset):
            c = ca & cb
        else:
            c = None
        return ("q", a[1], ln, c, bn, min(a[5], b[5]))
    if k == "it":
        e = next(it)
        return ("it", a[1], e, tuple([merge(x, y, it) for x, y in zip(a[3], b[3])]))
    if k == "t":
        return a if a == b else TOP
    return a


def norm_bnds(a, b):
    """Make the boundary lists of two trees equally long."""
    k = a[0]
    if k == "q":
        if len(a[4]) != len(b[4]):
            return a[:4] + ((),) + a[5:], b[:4] + ((),) + b[5:]
        return a, b
    if k in ("s",):
        ps = [norm_bnds(x, y) for x, y in zip(a[2], b[2])]
        return (k, a[1], tuple([p[0] for p in ps])), (k, b[1], tuple([p[1] for p in ps]))
    if k == "e":
        fa, fb = [], []
        for (i, f), (_, g) in zip(a[2], b[2]):
            ps = [norm_bnds(x, y) for x, y in zip(f, g)]
            fa.append((i, tuple([p[0] for p in ps])))
            fb.append((i, tuple([p[1] for p in ps])))
        return (k, a[1], tuple(fa)), (k, b[1], tuple(fb))
    if k == "r":
        p = norm_bnds(a[1], b[1])
        return (k, p[0], a[2]), (k, p[1], b[2])
    if k == "it":
        ps = [norm_bnds(x, y) for x, y in zip(a[3], b[3])]
        return (k, a[1], a[2], tuple([p[0] for p in ps])), (k, b[1], b[2], tuple([p[1] for p in ps]))
    return a, b


def vmap(v, f):
    k = v[0]
    if k == "i":
        return ("i", f(v[1]))
    if k == "b":
        c = v[1]
        return ("b", ("c", c[1], f(c[2]), f(c[3]))) if type(c) is tuple else v
    if k == "s":
        return ("s", v[1], tuple([vmap(x, f) for x in v[2]])) if v[2] else v
    if k == "e":
        return ("e", v[1], tuple([(i, tuple([vmap(x, f) for x in fs])) for i, fs in v[2]]))
    if k == "r":
        return ("r", vmap(v[1], f), v[2])
    if k == "q":
        return ("q", v[1], f(v[2]), v[3], tuple([f(x) for x in v[4]]), v[5])
    if k == "it":
        return ("it", v[1], f(v[2]), tuple([vmap(x, f) for x in v[3]]))
    return v


def mrefs(v, out):
    k = v[0]
    if k == "m":
        out.append(v)
    elif k == "s":
        for x in v[2]:
            mrefs(x, out)
    elif k == "e":
        for _, fs in v[2]:
            for x in fs:
                mrefs(x, out)
    elif k == "r":
        mrefs(v[1], out)
    elif k == "it":
        for x in v[3]:
            mrefs(x, out)


def leaves(v, path, out):
    """Integer leaves by path: {path: expr}."""
    k = v[0]
    if k == "i":
        out[path] = v[1]
    elif k == "s":
        for i, x in enumerate(v[2]):
            leaves(x, path + (i,), out)
    elif k == "e":
        for i, fs in v[2]:
            for j, x in enumerate(fs):
                leaves(x, path + (("v", i), j), out)
    elif k == "r":
        leaves(v[1], path + ("D",), out)
    elif k == "q":
        out[path + ("len",)] = v[2]
    elif k == "it":
        out[path + ("rem",)] = v[2]
        for i, x in enumerate(v[3]):
            leaves(x, path + ("x", i), out)


class State:
    __slots__ = ("env", "regs", "ins", "zone", "ghost", "phase", "snaps", "nreg", "orig")

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.regs = dict(self.regs)
        s.ins = list(self.ins)
        s.zone = self.zone.copy()
        s.ghost = self.ghost
        s.phase = dict(self.phase)
        s.snaps = self.snaps
        s.nreg = self.nreg
        s.orig = self.orig
        return s

    # -- places
    def root(self, r):
        return (self.env if r[0] == "L" else self.regs).get(r[1], TOP)

    def setroot(self, r, v):
        (self.env if r[0] == "L" else self.regs)[r[1]] = v

    # -- constraints
    def subst(self, s, e):
        """Eliminate the symbol: s := e."""
        m = {s: e}
        z = self.zone
        old = z.m.get(s)
        up = dict(old) if old else {}
        low = {a: r[s] for a, r in z.m.items() if s in r}
        z.m.pop(s, None)
        for r in z.m.values():
            r.pop(s, None)
        f = lambda x: lsubst(x, m)
        for k, v in self.env.items():
            self.env[k] = vmap(v, f)
        for k, v in self.regs.items():
            self.regs[k] = vmap(v, f)
        self.ins = [f(x) for x in self.ins]
        if self.snaps:
            self.snaps = {h: {p: f(x) for p, x in d.items()} for h, d in self.snaps.items()}
        ok = True
        for b, c in up.items():
            t = e if b == 0 else ladd(e, S(b), -1)
            ok = ok and self.le(laddc(t, -c), False)
        for a, c in low.items():
            t = lscale(e, -1) if a == 0 else ladd(S(a), e, -1)
            ok = ok and self.le(laddc(t, -c), False)
        return ok

    def le(self, e, name=True):
        """Assume e <= 0. False if contradictory."""
        c, t = e
        n = len(t)
        if n == 0:
            return c <= 0
        z = self.zone
        if n == 1:
            s, k = t[0]
            if k > 0:
                return z.edge(s, 0, (-c) // k)
            return z.edge(0, s, (-c) // -k)
        if n == 2:
            (s, k), (q, l) = t
            if k == 1 and l == -1:
                return z.edge(s, q, -c)
            if k == -1 and l == 1:
                return z.edge(q, s, -c)
        u = z.sup(lscale(e, -1))
        if u is not None and -u > 0:
            return False
        # weaker consequences: bound every pair and every symbol by the rest
        for i in range(n):
            for j in range(n):
                if i != j and t[i][1] == 1 and t[j][1] == -1:
                    rest = (c, tuple(x for y, x in enumerate(t) if y != i and y != j))
                    lo = z.sup(lscale(rest, -1))
                    if lo is not None:
                        if not z.edge(t[i][0], t[j][0], lo):
                            return False
        for i in range(n):
            rest = (c, tuple(x for y, x in enumerate(t) if y != i))
            lo = z.sup(lscale(rest, -1))
            if lo is not None:
                s, k = t[i]
                if k > 0:
                    if not z.edge(s, 0, lo // k):
                        return False
                elif not z.edge(0, s, lo // -k):
                    return False
        return True

    def eq(self, e):
        """Assume e == 0."""
        c, t = e
        if not t:
            return c == 0
        u = self.zone.sup(e)
        if u is not None and u < 0:
            return False
        u = self.zone.sup(lscale(e, -1))
        if u is not None and u < 0:
            return False
        for s, k in sorted(t, reverse=True):
            if k in (1, -1):
                rest = (c, tuple(x for x in t if x[0] != s))
                return self.subst(s, lscale(rest, -k))
        return self.le(e) and self.le(lscale(e, -1))


class Ctx:
    __slots__ = ("key", "body", "eng", "id", "args", "regs", "n", "zone", "exits", "callers", "running", "dirty", "runs", "obl", "loops",
                 "calls", "done", "wid", "often", "types", "events", "owner", "skey", "reach", "partial")


def simple(es):
    """(symbol, constant) of the expressions of this form, 0 is the zero symbol."""
    out = []
    for c, t in es:
        if not t:
            out.append((0, c))
        elif len(t) == 1 and t[0][1] == 1:
            out.append((t[0][0], c))
        else:
            out.append(None)
    return out


class BodyInfo:
    def __init__(self, key, b):
        self.key = key
        self.b = b
        bl = b["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, x in enumerate(bl):
            t = x["t"]
            k = t["k"]
            if k == "switch":
                s = [y[1] for y in t["ts"]] + [t["else"]]
            elif k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            self.succ[i] = list(dict.fromkeys(s))
        # reverse post order, back edges
        order, seen, stack = [], set(), [(0, iter(self.succ[0]))]
        seen.add(0)
        on = {0}
        self.back = set()
        while stack:
            u, itr = stack[-1]
            for v in itr:
                if v in on:
                    self.back.add((u, v))
                elif v not in seen:
                    seen.add(v)
                    on.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                stack.pop()
                on.discard(u)
                order.append(u)
        order.reverse()
        self.rpo = {u: i for i, u in enumerate(order)}
        pred = defaultdict(list)
        for u in order:
            for v in self.succ[u]:
                pred[v].append(u)
        self.loops = {}
        for u, h in self.back:
            nodes = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x not in nodes:
                    nodes.add(x)
                    st.extend(pred[x])
        self.joins = {0} | {v for v in order if len(pred[v]) > 1} | set(self.loops)
        self.reduc = all(self.rpo[h] <= self.rpo[u] for u, h in self.back)
        # liveness
        use, deff = [], []
        for x in bl:
            u, d = set(), set()

            def rd(p):
                if p["l"] not in d:
                    u.add(p["l"])
                for e in p["p"]:
                    if e["k"] == "index" and e["local"] not in d:
                        u.add(e["local"])

            def op(o):
                if o["k"] in ("copy", "move"):
                    rd(o["pl"])

            def wr(p):
                if p["p"]:
                    rd(p)
                else:
                    d.add(p["l"])
            for s in x["s"]:
                if s["k"] == "assign":
                    r = s["rv"]
                    for f in ("op", "a", "b"):
                        if isinstance(r.get(f), dict):
                            op(r[f])
                    for o in r.get("ops", ()):
                        op(o)
                    if isinstance(r.get("pl"), dict):
                        rd(r["pl"])
                    wr(s["pl"])
                elif s["k"] == "setdiscr":
                    rd(s["pl"])
            t = x["t"]
            if t["k"] == "switch":
                op(t["op"])
            elif t["k"] == "call":
                for o in t["args"]:
                    op(o)
                if "op" in t["f"]:
                    op(t["f"]["op"])
                wr(t["dest"])
            elif t["k"] == "assert":
                op(t["cond"])
                for o in t["ops"]:
                    op(o)
            elif t["k"] == "return":
                if 0 not in d:
                    u.add(0)
            use.append(u)
            deff.append(d)
        self.live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for u in reversed(order):
                o = set()
                for v in self.succ[u]:
                    o |= self.live[v]
                li = use[u] | (o - deff[u])
                if li != self.live[u]:
                    self.live[u] = li
                    ch = True
        self.name = b["path"]
        self.ext = not b.get("_local", True)


class Analysis:
    def __init__(self, facts, trace=False):
        self.f = facts
        self.tys = facts["tys"]
        self.adts = facts["adts"]
        for a in self.adts.values():
            for v in a["variants"]:
                for x in v["fields"]:
                    x["ty"] = re.sub(r"'(?!_)\w+", "'_", re.sub(r"&'\w+ ", "&", x["ty"]))
        self.infos = {}
        self.ctxs = {}
        self.fresh = 10 ** 6
        self.trace = trace
        self.work = []
        self.assume = set()
        self.handlers = []
        self.event_hooks = []
        self.maxpart = 0
        self.localpaths = {x["path"] for x in facts["fns"]}
        self.scc()
        import models
        self.models = models.Models(self)

    # ---------------------------------------------------------------- call graph
    def scc(self):
        g = {}
        paths = {}
        for k, b in self.f["bodies"].items():
            paths.setdefault(b["path"], []).append(k)

        def made(b, e):
            """Closures and function items of the crate made into values: whoever gets them may call them."""
            for x in b["blocks"]:
                if x["cleanup"]:
                    continue
                for s in x["s"]:
                    if s["k"] == "assign":
                        r = s["rv"]
                        if r["k"] == "agg" and r.get("ak") == "closure":
                            c = self.closure_key(r["ty"])
                            if c:
                                e.add(c)
                        for f in ("op", "a", "b"):
                            if isinstance(r.get(f), dict):
                                const(r[f], e)
                        for o in r.get("ops", ()):
                            const(o, e)
                if x["t"]["k"] == "call":
                    for o in x["t"]["args"]:
                        const(o, e)

        def const(o, e):
            t = self.tyk(o.get("ty")) if o["k"] == "const" else {}
            if t.get("k") == "closure":
                c = self.closure_key(o["ty"])
                if c:
                    e.add(c)
            elif t.get("k") == "fndef":
                e.update(k for k in paths.get(t["path"], ()) if self.f["bodies"][k]["span"].startswith("src/"))
        for k, b in self.f["bodies"].items():
            if "blocks" not in b:
                g[k] = set()
                continue
            e = set()
            made(b, e)
            for x in b["blocks"]:
                if x["cleanup"]:
                    continue
                t = x["t"]
                if t["k"] == "call" and t["f"].get("key"):
                    e.add(t["f"]["key"])
            g[k] = e
        self.graph = g
        idx, low, st, on, n = {}, {}, [], set(), [0]
        self.sccof = {}
        for r in g:
            if r in idx:
                continue
            work = [(r, iter(g[r]))]
            idx[r] = low[r] = n[0]
            n[0] += 1
            st.append(r)
            on.add(r)
            while work:
                u, itr = work[-1]
                for v in itr:
                    if v not in g:
                        continue
                    if v not in idx:
                        idx[v] = low[v] = n[0]
                        n[0] += 1
                        st.append(v)
                        on.add(v)
                        work.append((v, iter(g[v])))
                        break
                    elif v in on:
                        low[u] = min(low[u], idx[v])
                else:
                    work.pop()
                    if work:
                        w = work[-1][0]
                        low[w] = min(low[w], low[u])
                    if low[u] == idx[u]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == u:
                                break
                        rec = len(comp) > 1 or u in g[u]
                        self.topo = getattr(self, "topo", 0) + 1
                        for w in comp:
                            self.sccof[w] = (u, rec, self.topo)

    def footprint(self, key):
        """The (type, field) pairs a body and its callees can touch; None: unknown."""
        if not hasattr(self, "_fp"):
            own = {}
            for k, b in self.f["bodies"].items():
                s = set()
                for x in b.get("blocks", ()):
                    self.fields_of(b, x, s)
                    t = x["t"]
                    if t["k"] == "call" and not x["cleanup"] and t["f"].get("rkind") in ("unresolved", "fnptr_shim", None) and \
                            not t["f"].get("key") and (t["f"].get("path") or "std::ops::Fn").startswith("std::ops::Fn"):
                        s = None
                        break
                    if t["k"] == "call" and t["f"].get("rkind") == "fndef_call" and t["f"].get("rpath") in self.localpaths:
                        s = None
                        break
                own[k] = s
            ch = True
            while ch:
                ch = False
                for k, s in own.items():
                    if s is None:
                        continue
                    for c in self.graph.get(k, ()):
                        o = own.get(c, set())
                        if o is None:
                            own[k] = None
                            ch = True
                            break
                        if not o <= s:
                            s |= o
                            ch = True
            self._fp = own
        return self._fp.get(key)

    def framed(self, v, fp, inside, out):
        """Symbols of the fields the callee never touches."""
        k = v[0]
        if k == "s":
            a = self.adts.get(v[1]) if type(v[1]) is str else None
            fl = a["variants"][0]["fields"] if a and a["local"] and a["kind"] == "struct" else None
            for i, x in enumerate(v[2]):
                self.framed(x, fp, inside or (fl is not None and fl[i]["name"] not in fp), out)
        elif k == "r":
            self.framed(v[1], fp, inside, out)
        elif inside:
            if k == "i" and v[1][1]:
                out.add(v[1][1][0][0])
            elif k == "q" and v[2][1]:
                out.add(v[2][1][0][0])

    def fields_of(self, b, x, out):
        def pl(p):
            for e in p["p"]:
                if e["k"] == "field":
                    out.add(e["name"])

        def op(o):
            if o["k"] in ("copy", "move"):
                pl(o["pl"])
        for s in x["s"]:
            if s["k"] == "assign":
                r = s["rv"]
                pl(s["pl"])
                for f in ("op", "a", "b"):
                    if isinstance(r.get(f), dict):
                        op(r[f])
                for o in r.get("ops", ()):
                    op(o)
                if isinstance(r.get("pl"), dict):
                    pl(r["pl"])
        t = x["t"]
        if t["k"] == "call":
            for o in t["args"]:
                op(o)
            pl(t["dest"])
        elif t["k"] == "switch":
            op(t["op"])
        elif t["k"] == "assert":
            op(t["cond"])
            for o in t["ops"]:
                op(o)

    def recursive(self, key):
        return self.sccof.get(key, (None, False, 0))[1]

    def info(self, key):
        i = self.infos.get(key)
        if i is None:
            b = self.f["bodies"].get(key)
            if b is None or "blocks" not in b:
                return None
            i = self.infos[key] = BodyInfo(key, b)
            i.ext = not b["span"].startswith("src/")
        return i

    def sym(self):
        self.fresh += 1
        return self.fresh

    # ---------------------------------------------------------------- types
    def tyk(self, ty):
        return self.tys.get(ty) or {} if ty else {}

    def int_top(self, st, ty, tame=False):
        s = self.sym()
        lo, hi = INT_RANGE.get(ty, (None, None))
        if tame:
            hi = min(hi, TAME) if hi is not None else TAME
        if lo is not None:
            st.zone.edge(0, s, -lo)
            st.zone.edge(s, 0, hi)
        return I(S(s))

    def length(self, st, ub=None):
        s = self.sym()
        st.zone.edge(0, s, 0)
        st.zone.edge(s, 0, TAME)
        e = S(s)
        if ub is not None:
            st.le(ladd(e, ub, -1))
        return e

    def mk(self, st, ty, tame=False):
        """Unknown value of the type; references and containers are expanded."""
        if not ty:
            return TOP
        if ty in INT_RANGE:
            return self.int_top(st, ty, tame)
        if ty == "bool":
            return NOB
        if ty == "str":
            return seqv("str", self.length(st))
        t = self.tyk(ty)
        k = t.get("k")
        if k == "ref":
            to = t["to"]
            if t.get("mut"):
                r = st.nreg
                st.nreg += 1
                st.regs[r] = self.mk(st, to)
                return ("m", ("R", r), ())
            return ("r", self.mk(st, to), None)
        if k == "slice":
            return seqv("vec", self.length(st))
        if k == "array":
            n = t.get("len")
            return seqv("arr", C(n) if n is not None else self.length(st))
        if k == "tuple":
            return ("s", "tuple", tuple(self.mk(st, x) for x in t["args"]))
        if k == "adt":
            q = SEQ_ADT.get(t["path"])
            if q:
                return seqv(q, self.length(st))
            if t["path"] == "std::borrow::Cow":
                return ("t", ty)
            a = self.adts.get(t["path"])
            if a and a["kind"] == "struct" and a["local"]:
                return ("s", t["path"], tuple(self.mk(st, x["ty"]) if self.shallow(x["ty"]) else ("t", x["ty"]) for x in a["variants"][0]["fields"]))
        return ("t", ty)

    def shallow(self, ty):
        if ty in INT_RANGE:
            return True
        t = self.tyk(ty)
        if t.get("k") == "ref":
            return t["to"] == "str" or self.tyk(t["to"]).get("k") == "slice"
        return t.get("k") in ("adt", "prim")

    def expand(self, st, v, ty, want):
        """Give a Top value the structure a projection asks for."""
        ty = v[1] or ty
        if want == "e":
            t = self.tyk(ty)
            a = self.adts.get(t.get("path"))
            if a and a["kind"] == "enum":
                return ("e", t["path"], tuple((i, tuple(("t", f["ty"] if f["ty"] in INT_RANGE else None) for f in x["fields"])) for i, x in enumerate(a["variants"])))
            return None
        if ty:
            n = self.mk(st, ty)
            if n[0] != "t":
                return n
            t = self.tyk(ty)
            a = self.adts.get(t.get("path"))
            if a and a["kind"] == "struct":
                return ("s", t["path"], tuple(("t", None) for _ in a["variants"][0]["fields"]))
        return None

    def opened(self, st, ty):
        """A value of an enum which holds containers, with these."""
        a = self.adts.get(self.tyk(ty).get("path")) if ty else None
        if not a or a["kind"] != "enum" or not a["local"] or not any(self.tyk(f["ty"]).get("path") in SEQ_ADT for x in a["variants"] for f in x["fields"]):
            return None
        return ("e", self.tyk(ty)["path"], tuple((i, tuple(self.mk(st, f["ty"]) if self.tyk(f["ty"]).get("path") in SEQ_ADT else ("t", f["ty"] if f["ty"] in INT_RANGE else None)
                                                           for f in x["fields"])) for i, x in enumerate(a["variants"])))

    # ---------------------------------------------------------------- places
    def get(self, st, root, path):
        v = st.root(root)
        for p in path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        k = v[0]
        if p == "D":
            return v[1] if k == "r" else TOP
        if type(p) is tuple:          # ("v", i)
            if k == "e":
                for i, fs in v[2]:
                    if i == p[1]:
                        return ("s", "variant", fs)
            return TOP
        if k == "s" and p < len(v[2]):
            return v[2][p]
        return TOP

    def put(self, v, path, new):
        if not path:
            return new
        p = path[0]
        k = v[0]
        if p == "D":
            if k != "r":
                return v
            return ("r", self.put(v[1], path[1:], new), v[2])
        if type(p) is tuple:
            if k != "e":
                return v
            fs = dict(v[2])
            if p[1] not in fs:
                return v
            x = self.put(("s", "variant", fs[p[1]]), path[1:], new)
            fs[p[1]] = x[2]
            return ("e", v[1], tuple(sorted(fs.items())))
        if k != "s" or p >= len(v[2]):
            return v
        l = list(v[2])
        l[p] = self.put(l[p], path[1:], new)
        return ("s", v[1], tuple(l))

    def write(self, st, root, path, new):
        if not path:
            st.setroot(root, new)
        else:
            st.setroot(root, self.put(st.root(root), path, new))

    def resolve(self, st, ctx, pl):
        """(root, path) of a MIR place; containers are materialised on the way."""
        root, path = ("L", pl["l"]), ()
        ty = ctx.body.b["locals"][pl["l"]]["ty"]
        v = st.root(root)
        for e in pl["p"]:
            k = e["k"]
            if k == "deref":
                t = self.tyk(ty)
                ty = t.get("to") or (t.get("args") or [None])[0]
                if v[0] == "t":
                    n = self.expand(st, v, None, "s")
                    if n is None or n[0] not in ("r", "m"):
                        n = ("r", self.mk(st, ty) if ty else TOP, None)
                    self.write(st, root, path, n)
                    v = n
                if v[0] == "m":
                    root, path = v[1], v[2]
                    v = self.get(st, root, path)
                elif v[0] == "r":
                    path = path + ("D",)
                    v = v[1]
                else:
                    return None, None, TOP, ty
            elif k == "field":
                if v[0] == "t":
                    n = self.expand(st, v, ty, "s")
                    if n is not None and n[0] == "s":
                        self.write(st, root, path, n)
                        v = n
                ty = e["ty"]
                if v[0] != "s" or e["i"] >= len(v[2]):
                    return None, None, self.mk(st, ty), ty
                path = path + (e["i"],)
                v = v[2][e["i"]]
                if v[0] == "t" and (v[1] is None or v[1] != ty):
                    v = self.mk(st, ty)
                    self.write(st, root, path, v)
            elif k == "downcast":
                if v[0] == "t":
                    n = self.expand(st, v, ty, "e")
                    if n is not None:
                        self.write(st, root, path, n)
                        v = n
                if v[0] != "e":
                    return None, None, TOP, ty
                path = path + (("v", e["i"]),)
                v = self.step(v, ("v", e["i"]))
            elif k in ("index", "cindex"):
                t = self.tyk(ty)
                ty = t.get("to")
                if v[0] == "s" and v[1] == "array" and k == "cindex" and not e.get("end"):
                    path = path + (e["off"],)
                    v = self.step(v, e["off"])
                    continue
                return None, None, self.mk(st, ty), ty
            else:
                return None, None, TOP, None
        return root, path, v, ty

    def seq(self, st, v):
        """The container behind a value, or None."""
        for _ in range(6):
            if v[0] == "r":
                v = v[1]
            elif v[0] == "m":
                r, p = v[1], v[2]
                v = self.get(st, r, p)
                if v[0] == "t" and v[1]:
                    n = self.mk(st, v[1])
                    if n[0] != "t":
                        self.write(st, r, p, n)
                        v = n
            else:
                break
        if v[0] == "s" and v[1] == "array":
            return seqv("arr", C(len(v[2])))
        return v if v[0] == "q" else None

    def strip(self, st, v):
        for _ in range(6):
            if v[0] == "r":
                v = v[1]
            elif v[0] == "m":
                v = self.get(st, v[1], v[2])
            else:
                return v
        return v

    # ---------------------------------------------------------------- operands
    def operand(self, st, ctx, o):
        k = o["k"]
        if k != "const":
            root, path, v, ty = self.resolve(st, ctx, o["pl"])
            if v[0] == "t" and (v[1] or ty) and root is not None:
                n = self.mk(st, v[1] or ty)
                if n[0] != "t":
                    self.write(st, root, path, n)
                    v = n
                elif v[1] is None:
                    v = ("t", ty)
            elif k == "copy" and v[0] == "r" and v[1][0] == "t" and root is not None:
                n = self.opened(st, v[1][1] or self.tyk(ty).get("to"))
                if n is not None:
                    # both copies see the same contents
                    v = ("r", n, v[2])
                    self.write(st, root, path, v)
            return v
        ty = o["ty"]
        if "bool" in o:
            return ("b", o["bool"])
        if "int" in o:
            return I(C(int(o["int"])))
        if "str" in o:
            c = o["str"].encode()
            v = ("r", seqv("str", C(len(c)), c), None)
            t = self.tyk(ty)
            if self.tyk(t.get("to")).get("k") == "ref":
                v = ("r", v, None)
            return v
        if "bytes" in o:
            c = bytes(o["bytes"])
            q = seqv("arr", C(len(c)), c)
            return ("r", q, None) if self.tyk(ty).get("k") == "ref" else q
        if "refint" in o:
            return ("r", I(C(o["refint"])), None)
        if ty == "()":
            return UNIT
        t = self.tyk(ty)
        if t.get("k") in ("fndef", "closure"):
            return ("s", ("closure", ty), ()) if t["k"] == "closure" else ("t", ty)
        return self.mk(st, ty)

    # ---------------------------------------------------------------- booleans
    @staticmethod
    def neg(b):
        if b is None or type(b) is bool:
            return None if b is None else not b
        return ("c", {"<": ">=", ">=": "<", "<=": ">", ">": "<=", "==": "!=", "!=": "=="}[b[1]], b[2], b[3])

    def assume_bool(self, st, b, val):
        if b is None:
            return True
        if type(b) is bool:
            return b == val
        if not val:
            b = self.neg(b)
        op, x, y = b[1], b[2], b[3]
        if op == "<":
            return st.le(laddc(ladd(x, y, -1), 1))
        if op == "<=":
            return st.le(ladd(x, y, -1))
        if op == ">":
            return st.le(laddc(ladd(y, x, -1), 1))
        if op == ">=":
            return st.le(ladd(y, x, -1))
        if op == "==":
            return st.eq(ladd(x, y, -1))
        d = ladd(x, y, -1)
        if not d[1]:
            return d[0] != 0
        u = st.zone.sup(d)
        if u == 0:
            return st.le(laddc(d, 1))
        d = lscale(d, -1)
        u = st.zone.sup(d)
        if u == 0:
            return st.le(laddc(d, 1))
        return True

    def entails(self, st, b, val=True):
        if b is None:
            return False
        if type(b) is bool:
            return b == val
        if not val:
            b = self.neg(b)
        op, x, y = b[1], b[2], b[3]
        le0 = st.zone.le0
        d = ladd(x, y, -1)
        if op == "<":
            return le0(laddc(d, 1))
        if op == "<=":
            return le0(d)
        d2 = lscale(d, -1)
        if op == ">":
            return le0(laddc(d2, 1))
        if op == ">=":
            return le0(d2)
        if op == "==":
            return le0(d) and le0(d2)
        return le0(laddc(d, 1)) or le0(laddc(d2, 1))

    # ---------------------------------------------------------------- rvalues
    def binop(self, st, op, a, b, ty):
        if a[0] == "b" and b[0] == "b" and op in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor"):
            x, y = a[1], b[1]
            if op in ("Eq", "Ne", "BitXor"):
                inv = op != "Eq"
                if type(y) is bool:
                    r = x if y else self.neg(x)
                elif type(x) is bool:
                    r = y if x else self.neg(y)
                else:
                    return NOB
                return ("b", self.neg(r) if inv else r)
            if op == "BitAnd":
                if x is False or y is False:
                    return ("b", False)
                return b if x is True else a if y is True else NOB
            if x is True or y is True:
                return ("b", True)
            return b if x is False else a if y is False else NOB
        if op in ("Eq", "Ne") and (a[0], b[0]) in (("d", "i"), ("i", "d")):
            a, b = (a, b) if a[0] == "d" else (b, a)
            e = self.get(st, a[1], a[2])
            if e[0] == "e" and not b[1][1] and e[1] in self.adts:
                hit = {self.adts[e[1]]["variants"][i]["discr"] == b[1][0] for i, _ in e[2]}
                if len(hit) == 1:
                    return ("b", hit.pop() == (op == "Eq"))
            return NOB
        cmps = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!="}
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if op in cmps:
                d = ladd(x, y, -1)
                if not d[1]:
                    return ("b", {"<": d[0] < 0, "<=": d[0] <= 0, ">": d[0] > 0, ">=": d[0] >= 0, "==": d[0] == 0, "!=": d[0] != 0}[cmps[op]])
                return ("b", ("c", cmps[op], x, y))
            r = None
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            if base == "Add":
                r = ladd(x, y)
            elif base == "Sub":
                r = ladd(x, y, -1)
            elif base == "Mul" and (not x[1] or not y[1]):
                r = lscale(x, y[0]) if not y[1] else lscale(y, x[0])
            if op.endswith("WithOverflow"):
                lo, hi = INT_RANGE.get(ty, (None, None))
                if r is None:
                    v = self.int_top(st, ty)
                    return ("s", "tuple", (v, ("b", None)))
                return ("s", "tuple", (I(r), ("b", None)))
            if r is not None:
                lo, hi = INT_RANGE.get(ty, (None, None))
                if lo is not None:
                    u, l = st.zone.sup(r), st.zone.sup(lscale(r, -1))
                    if u is not None and l is not None and u <= hi and -l >= lo:
                        return I(r)
            if op in ("Div", "Rem") and not y[1] and y[0] > 0:
                if not x[1]:
                    return I(C(x[0] // y[0] if op == "Div" else x[0] % y[0]))
                lx = st.zone.sup(lscale(x, -1))
                if lx is not None and lx <= 0:
                    v = self.int_top(st, ty)
                    st.le(ladd(v[1], x, -1))
                    if op == "Rem":
                        st.le(laddc(v[1], 1 - y[0]))
                    return v
            if op == "BitAnd" and ty in INT_RANGE and INT_RANGE[ty][0] == 0:
                v = self.int_top(st, ty)
                st.le(ladd(v[1], x, -1))
                st.le(ladd(v[1], y, -1))
                return v
            return self.int_top(st, ty)
        if op in cmps:
            return NOB
        if op.endswith("WithOverflow"):
            return ("s", "tuple", (self.int_top(st, ty), NOB))
        return self.mk(st, ty)

    def rvalue(self, st, ctx, r, dty):
        k = r["k"]
        if k == "use":
            return self.operand(st, ctx, r["op"])
        if k == "ref" or k == "rawptr" and r["kind"] == "FakeForPtrMetadata":
            root, path, v, ty = self.resolve(st, ctx, r["pl"])
            if r.get("mut"):
                if root is None:
                    n = st.nreg
                    st.nreg += 1
                    st.regs[n] = v
                    return ("m", ("R", n), ())
                if "D" in path:
                    # mutable place behind a snapshot: only through Box
                    n = st.nreg
                    st.nreg += 1
                    st.regs[n] = v
                    return ("m", ("R", n), ())
                return ("m", root, path)
            if v[0] == "t" and root is not None and (v[1] or ty):
                n = self.mk(st, v[1] or ty)
                if n[0] != "t":
                    self.write(st, root, path, n)
                    v = n
                elif v[1] is None:
                    v = ("t", ty)
            return ("r", v, (root, path) if root is not None and "D" not in path else
                    (v[2] if False else self.origin(st, root, path)))
        if k == "bin":
            a, b = self.operand(st, ctx, r["a"]), self.operand(st, ctx, r["b"])
            return self.binop(st, r["op"], a, b, r["ty"])
        if k == "un":
            a = self.operand(st, ctx, r["a"])
            if r["op"] == "Not" and a[0] == "b":
                return ("b", self.neg(a[1]))
            if r["op"] == "Neg" and a[0] == "i":
                return I(lscale(a[1], -1))
            if r["op"] == "PtrMetadata":
                q = self.seq(st, a)
                if q:
                    return I(q[2])
            return self.mk(st, dty)
        if k == "cast":
            a = self.operand(st, ctx, r["op"])
            ty = r["ty"]
            if a[0] == "i" and ty in INT_RANGE:
                lo, hi = INT_RANGE[ty]
                u, l = st.zone.sup(a[1]), st.zone.sup(lscale(a[1], -1))
                if u is not None and l is not None and u <= hi and -l >= lo:
                    return a
                return self.int_top(st, ty)
            if ty in INT_RANGE:
                v = self.int_top(st, ty)
                if a[0] == "b":
                    st.le(laddc(v[1], -1))
                return v
            if r["ck"].startswith("PointerCoercion"):
                src = self.strip(st, a)
                if src[0] == "s" and type(src[1]) is tuple or (src[0] == "t" and self.tyk(src[1]).get("k") in ("closure", "fndef")):
                    if self.tyk(ty).get("k") == "fnptr":
                        self.escape(st, ctx, src)
                        return ("t", ty)
                return a
            if r["ck"] == "Transmute":
                return a
            return self.mk(st, ty)
        if k == "discr":
            root, path, v, ty = self.resolve(st, ctx, r["pl"])
            if v[0] == "t":
                n = self.expand(st, v, ty, "e")
                if n is not None and root is not None:
                    self.write(st, root, path, n)
                    v = n
            if v[0] == "e" and root is not None:
                return ("d", root, path)
            return self.mk(st, dty)
        if k == "agg":
            ops = [self.operand(st, ctx, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return ("s", "tuple", tuple(ops))
            if ak == "array":
                if len(ops) <= 8:
                    return ("s", "array", tuple(ops))
                return seqv("arr", C(len(ops)))
            if ak == "closure":
                return ("s", ("closure", r["ty"]), tuple(ops))
            if ak == "adt":
                a = self.adts.get(r["adt"])
                for h in self.event_hooks:
                    h(self, st, ctx, "agg", r, ops)
                if a and a["kind"] == "enum":
                    return ("e", r["adt"], ((r["vi"], tuple(ops)),))
                return ("s", r["adt"], tuple(ops))
            return self.mk(st, dty)
        if k == "repeat":
            n = r.get("n")
            return seqv("arr", C(n) if n is not None else self.length(st))
        return self.mk(st, dty)

    def origin(self, st, root, path):
        """Where a snapshot behind a reference was taken from."""
        if root is None:
            return None
        # &*x with x = ("r", v, origin): keep x's origin
        if path and path[-1] == "D":
            x = self.get(st, root, path[:-1])
            if x[0] == "r":
                return x[2]
        return None

    # ---------------------------------------------------------------- statements
    def assign(self, st, ctx, pl, v):
        if not pl["p"]:
            st.env[pl["l"]] = v
            return
        root, path, old, ty = self.resolve(st, ctx, pl)
        if root is not None:
            self.write(st, root, path, v)

    def stmt(self, st, ctx, s):
        k = s["k"]
        if k == "assign":
            v = self.rvalue(st, ctx, s["rv"], self.plty(ctx, s["pl"]))
            self.assign(st, ctx, s["pl"], v)
        elif k == "dead":
            st.env.pop(s["l"], None)
        elif k == "setdiscr":
            root, path, v, ty = self.resolve(st, ctx, s["pl"])
            if root is not None:
                self.write(st, root, path, ("t", ty))

    def plty(self, ctx, pl):
        if pl["p"]:
            for e in reversed(pl["p"]):
                if e["k"] == "field":
                    return e["ty"] if e is pl["p"][-1] else None
            return None
        return ctx.body.b["locals"][pl["l"]]["ty"]

    # ---------------------------------------------------------------- obligations
    def oblige(self, ctx, st, bb, kind, what, ok, note=""):
        k = (bb, kind, what)
        o = ctx.obl.get(k)
        ctx.obl[k] = (ok and (o is None or o[0]), note if not ok else (o[1] if o else ""))

    # ---------------------------------------------------------------- function analysis
    def canon(self, vals, cargs, rec, b):
        """Rename the expressions of argument trees to s1.. ; returns trees, list of expressions.

        Constants stay in the arguments (not in the places they refer to), bytes and characters excepted."""
        es = []

        def f(e):
            es.append(e)
            return S(len(es))

        def g(e):
            return f(e) if e[1] else e
        if rec:
            vals = [self.nobool(v) for v in vals]
            cargs = [self.nobool(v) for v in cargs]
        out = [vmap(v, f) for v in vals]
        for i, v in enumerate(cargs):
            ty = b["locals"][i + 1]["ty"] if i + 1 < len(b["locals"]) else None
            if ty and self.tyk(ty).get("k") == "ref" and v[0] == "r" and v[1][0] == "s" and v[1][1] == "array" and \
                    self.tyk(self.tyk(ty)["to"]).get("k") == "slice":
                v = ("r", seqv("arr", C(len(v[1][2]))), v[2])
            v = self.anon(v)
            out.append(vmap(v, g if not rec and ty not in ("u8", "char") and not self.bytesq(v) else f))
        return out, es

    @staticmethod
    def bytesq(v):
        while v[0] == "r":
            v = v[1]
        return v[0] == "q" and v[1] != "str"

    def nobool(self, v):
        """Booleans of a recursive function are unknown: one calling context is enough."""
        k = v[0]
        if k == "b":
            return NOB
        if k == "r":
            return ("r", self.nobool(v[1]), v[2])
        if k == "s" and v[2]:
            return ("s", v[1], tuple([self.nobool(x) for x in v[2]]))
        if k == "e":
            return ("e", v[1], tuple([(i, tuple([self.nobool(x) for x in fs])) for i, fs in v[2]]))
        return v

    def anon(self, v):
        """Byte sequences lose their contents at calls."""
        k = v[0]
        if k == "q":
            return seqv(v[1], v[2], None, (), 0) if v[1] in ("arr", "vec") and v[3] is not None else v
        if k == "r":
            return ("r", self.anon(v[1]), v[2])
        if k == "s" and v[2]:
            return ("s", v[1], tuple([self.anon(x) for x in v[2]]))
        return v

    def call_body(self, st, ctx, bb, key, args):
        """Apply the summary of a body. Returns [(state, value)]."""
        info = self.info(key)
        b = info.b
        rec = self.recursive(key)
        # regions reachable from the arguments
        rmap, rlist = {}, []

        def conv(v):
            k = v[0]
            if k == "m":
                t = (v[1], v[2])
                if t not in rmap:
                    rmap[t] = len(rlist)
                    rlist.append(t)
                    rv = self.get(st, v[1], v[2])
                    if rv[0] == "t" and rv[1]:
                        n = self.mk(st, rv[1])
                        if n[0] != "t":
                            self.write(st, v[1], v[2], n)
                    i = rmap[t]
                    vals.append(None)
                    vals[i] = conv(self.get(st, v[1], v[2]))
                return ("m", ("R", rmap[t]), ())
            if k == "s":
                return ("s", v[1], tuple([conv(x) for x in v[2]])) if v[2] else v
            if k == "e":
                return ("e", v[1], tuple([(i, tuple([conv(x) for x in fs])) for i, fs in v[2]]))
            if k == "r":
                return ("r", conv(v[1]), None)
            if k == "q":
                return seqv(v[1], v[2], v[3], (), v[5])
            if k == "it":
                return ("it", v[1], v[2], tuple([conv(x) for x in v[3]]))
            if k == "d":
                return TOP
            return v
        vals = []
        # adapt closure receivers
        if b["closure"] and args:
            pk = self.tyk(b["locals"][1]["ty"])
            a = args[0]
            if pk.get("k") == "ref":
                if a[0] not in ("r", "m"):
                    if pk.get("mut"):
                        n = st.nreg
                        st.nreg += 1
                        st.regs[n] = a
                        args = [("m", ("R", n), ())] + args[1:]
                    else:
                        args = [("r", a, None)] + args[1:]
                elif a[0] == "m" and not pk.get("mut"):
                    args = [("r", self.get(st, a[1], a[2]), None)] + args[1:]
            elif a[0] in ("r", "m"):
                args = [self.strip(st, a)] + args[1:]
        cargs = [conv(v) for v in args]
        nr = len(vals)
        trees, es = self.canon(vals, cargs, rec, b)
        n = len(es)
        fp = self.footprint(key)
        frame = set()
        if fp is not None:
            for v in trees[:nr]:
                self.framed(v, fp, False, frame)
        shp = tuple(shape(v) for v in trees)
        ghost_in = self.ghost_entry(st.ghost)
        # entry zone: template constraints
        ub, lb, pair = [], [], {}
        sup = st.zone.sup
        for i in range(n):
            if i + 1 in frame:
                ub.append(None)
                lb.append(None)
                continue
            u = sup(es[i])
            l = sup(lscale(es[i], -1))
            uu = None
            if u is not None:
                for t in CUB_T:
                    if u <= t:
                        uu = t
                        break
                else:
                    if u <= TAME + SLACK:
                        uu = TAME
            ub.append(uu)
            ll = None
            if l is not None:
                for t in LB_T:
                    if -l >= t:
                        ll = t
                        break
            lb.append(ll)
        for i in range(n):
            for j in range(n):
                if i != j and i + 1 not in frame and j + 1 not in frame:
                    u = sup(ladd(es[i], es[j], -1))
                    if u is not None:
                        for t in PAIR_T:
                            if u <= t:
                                if ub[i] is None or lb[j] is None or ub[i] - lb[j] > t:
                                    pair[(i + 1, j + 1)] = t
                                break
        if rec:
            ck = (key, shp, ghost_in)
        else:
            ck = (key, tuple(trees), tuple(ub), tuple(lb), tuple(sorted(pair.items())), ghost_in)
        c = self.ctxs.get(ck)
        if c is None:
            c = Ctx()
            c.key, c.body, c.eng, c.id = key, info, self, len(self.ctxs)
            c.args, c.regs, c.n = trees[nr:], trees[:nr], n
            c.zone = (ub, lb, pair)
            c.exits, c.callers = {}, set()
            c.running, c.dirty, c.runs, c.wid = False, True, 0, 0
            c.often = {}
            c.obl, c.loops, c.calls, c.events = {}, {}, {}, {}
            c.skey = ck
            c.reach = set()
            self.ctxs[ck] = c
        elif rec:
            u0, l0, p0 = c.zone
            u1 = [None if x is None or y is None else max(x, y) for x, y in zip(u0, ub)]
            l1 = [None if x is None or y is None else min(x, y) for x, y in zip(l0, lb)]
            def bound(p, u, l, k):
                # pairs which the bounds imply are not listed
                i, j = k[0] - 1, k[1] - 1
                return p[k] if k in p else u[i] - l[j] if u[i] is not None and l[j] is not None else None
            p1 = {}
            for k in set(p0) | set(pair):
                x, y = bound(p0, u0, l0, k), bound(pair, ub, lb, k)
                if x is not None and y is not None:
                    for t in PAIR_T:
                        if max(x, y) <= t:
                            p1[k] = t
                            break
            c.wid += (u1, l1, p1) != (u0, l0, p0)
            for i, (x, y) in enumerate(zip(u1, u0)):
                if x != y:
                    c.often[i] = c.often.get(i, 0) + 1
            if c.wid > 2:
                # each upper bound has its own turns
                p1 = {k: x for k, x in p1.items() if x == p0[k]}
                u1 = [x if x == y or c.often[i] <= 2 else None if x is None else TAME for i, (x, y) in enumerate(zip(u1, u0))]
                l1 = [x if x == y else None if x is None else 0 for x, y in zip(l1, l0)]
            mt = [merge(x, y, iter([S(i + 1) for i in range(0)])) if False else x for x, y in zip(c.args, trees[nr:])]
            if (u1, l1, p1) != (u0, l0, p0):
                c.zone = (u1, l1, p1)
                if self.trace: print("ENTRY", key, (u0, l0, len(p0)), (u1, l1, len(p1)))
                self.touch(c)
            # contents may differ between the call sites
            for lst, new in ((c.args, trees[nr:]), (c.regs, trees[:nr])):
                for i, (x, y) in enumerate(zip(lst, new)):
                    if x != y:
                        ex = []
                        exprs(x, ex)
                        x2, y2 = norm_bnds(x, y)
                        m = merge(x2, y2, iter(ex))
                        if m != x:
                            lst[i] = m
                            self.touch(c)
        if ctx is not None:
            c.callers.add(ctx)
            at = ctx.calls.setdefault(bb, {})
            new = self.call_delta(st, ctx, c, trees, es)
            old = at.get(c)
            at[c] = new if c not in at or new is None else tuple([x & y for x, y in zip(old, new)])
        if c.runs == 0 and not c.running:
            self.run(c)
        # apply
        out = []
        for ex in list(c.exits.values()):
            r = self.apply_exit(st, c, ex, es, rlist, nr)
            if r is not None:
                out.append(r)
        return out

    def call_delta(self, st, ctx, c, trees, es):
        """Counters of a recursive call which are not less than the ones the caller got or not greater, and those which differ but are bounded."""
        if self.sccof.get(ctx.key, (0,))[0] != self.sccof.get(c.key, (1,))[0] or not self.recursive(c.key):
            return None
        mine, his = counters(ctx.regs + ctx.args), counters(trees)
        f = lambda e, m: lsubst(e, {i + 1: x for i, x in enumerate(m)})
        weak, strict = set(), set()
        for k in mine.keys() & his.keys():
            x, y = f(mine[k], st.ins), f(his[k], es)
            top, low = st.zone.sup(y), st.zone.sup(lscale(y, -1))
            within = top is not None and top <= DEPTH and low is not None and low <= 0
            for way, u in (("up", st.zone.sup(ladd(x, y, -1))), ("down", st.zone.sup(ladd(y, x, -1)))):
                if u is not None and u <= 0:
                    weak.add((k, way))
                    if u < 0 and within:
                        strict.add((k, way))
        return weak, strict

    def ghost_entry(self, g):
        return ()

    def ghost_join(self, a, b):
        return a | b

    def touch(self, c):
        if not c.dirty:
            c.dirty = True
            heapq.heappush(self.work, (self.sccof.get(c.key, (None, False, 0))[2], -c.id, id(c), c))

    def apply_exit(self, st, c, ex, es, rlist, nr):
        """One exit of the callee in the caller's state."""
        s2 = st.fork()
        insx, regs, ret, zedges, ghost, nsym = ex["ins"], ex["regs"], ex["ret"], ex["edges"], ex["ghost"], ex["nsym"]
        m = {}
        eqs = []
        for i, e in enumerate(insx):
            if e[0] == 0 and len(e[1]) == 1 and e[1][0][1] == 1 and e[1][0][0] not in m:
                m[e[1][0][0]] = es[i]
            else:
                eqs.append((i, e))
        for s in range(1, nsym + 1):
            if s not in m:
                m[s] = S(self.sym())
        # values are kept in env under reserved keys so that substitutions reach them
        f = lambda e: lsubst(e, m)
        newregs = [(rlist[i], vmap(v, f)) for i, v in regs]
        hold = [vmap(ret, f)]
        s2.env["#ret"] = ("s", "hold", tuple([hold[0]] + [v for _, v in newregs] + [I(f(e)) for _, e in eqs] + [I(es[i]) for i, _ in eqs]))
        for a, b, cc in zedges:
            e = ladd(m[a] if a else C(0), m[b] if b else C(0), -1)
            if not s2.le(laddc(e, -cc)):
                return None
        k = len(newregs)
        ne = len(eqs)
        for j in range(ne):
            h = s2.env["#ret"][2]
            x, y = h[1 + k + j][1], h[1 + k + ne + j][1]
            if not s2.eq(ladd(x, y, -1)):
                return None
        h = s2.env.pop("#ret")[2]
        # extra regions of the callee that its result refers to
        back = {i: t for i, t in enumerate(rlist)}

        def unconv(v):
            kk = v[0]
            if kk == "m":
                r = v[1]
                if r[0] == "R" and r[1] in back:
                    t = back[r[1]]
                    return ("m", t[0], t[1] + v[2])
                nn = s2.nreg
                s2.nreg += 1
                s2.regs[nn] = TOP
                if r[0] == "R":
                    back[r[1]] = (("R", nn), ())
                    return ("m", ("R", nn), v[2])
                return ("m", ("R", nn), ())
            if kk == "s":
                return ("s", v[1], tuple([unconv(x) for x in v[2]])) if v[2] else v
            if kk == "e":
                return ("e", v[1], tuple([(i, tuple([unconv(x) for x in fs])) for i, fs in v[2]]))
            if kk == "r":
                return ("r", unconv(v[1]), None)
            if kk == "it":
                return ("it", v[1], v[2], tuple([unconv(x) for x in v[3]]))
            return v
        for j, (t, _) in enumerate(newregs):
            self.write(s2, t[0], t[1], unconv(h[1 + j]))
        s2.ghost = self.ghost_join(s2.ghost, ghost)
        return s2, unconv(h[0])

    def entry_state(self, c):
        st = State()
        st.env = {}
        st.regs = {i: v for i, v in enumerate(c.regs)}
        st.nreg = max(len(c.regs), 1000)
        st.ins = [S(i + 1) for i in range(c.n)]
        st.zone = Zone()
        st.ghost = frozenset(c.skey[-1])
        st.phase = {}
        st.snaps = {}
        st.orig = {}
        ub, lb, pair = c.zone
        for i in range(c.n):
            if ub[i] is not None:
                st.zone.edge(i + 1, 0, ub[i])
            if lb[i] is not None:
                st.zone.edge(0, i + 1, -lb[i])
        for (i, j), v in pair.items():
            st.zone.edge(i, j, v)
        b = c.body.b
        args = list(c.args)
        argc = b["argc"]
        if len(args) < argc:
            # spread the argument tuple of a closure call
            if len(args) == 2 and args[1][0] == "s":
                args = [args[0]] + list(args[1][2])
        elif len(args) == 2 and argc == 2 and b["closure"] and args[1][0] == "s" and args[1][1] == "tuple":
            if len(args[1][2]) == 1:
                args = [args[0], args[1][2][0]]
        elif len(args) == 2 and argc == 1 and b["closure"]:
            args = [args[0]]
        for i in range(argc):
            v = args[i] if i < len(args) else TOP
            if v[0] == "t":
                n = self.mk(st, v[1] or b["locals"][i + 1]["ty"])
                if n[0] != "t" or v[1] is None:
                    v = n
            st.env[i + 1] = v
        return st

    def all_rows(self, st):
        out = list(st.ins)
        for k in sorted(st.regs):
            exprs(st.regs[k], out)
        for k in sorted(st.env):
            exprs(st.env[k], out)
        for h in sorted(st.snaps):
            d = st.snaps[h]
            for p in sorted(d, key=repr):
                out.append(d[p])
        return out

    def sshape(self, st):
        return (tuple([(k, shape(st.regs[k])) for k in sorted(st.regs)]), tuple([(k, shape(st.env[k])) for k in sorted(st.env)]),
                st.ghost, tuple(sorted(st.phase.items())))

    def prune(self, st, info, b):
        live = info.live[b]
        keep = set()
        todo = [("L", l) for l in live if l in st.env]
        if ("L", 0) and 0 in st.env and 0 in live:
            pass
        regs = set(k for k in st.regs if k < 1000)
        seen = set(todo)
        todo += [("R", r) for r in regs]
        seen |= set(todo)
        while todo:
            r = todo.pop()
            ms = []
            mrefs(st.root(r), ms)
            for x in ms:
                if x[1] not in seen:
                    seen.add(x[1])
                    todo.append(x[1])
        st.env = {l: v for l, v in st.env.items() if ("L", l) in seen}
        st.regs = {l: v for l, v in st.regs.items() if ("R", l) in seen}
        # references to borrowed places remember nothing about dead origins
        big = sorted(k for k in st.regs if k >= 1000)
        if big:
            ren = {("R", k): ("R", 1000 + i) for i, k in enumerate(big)}
            if any(a != b for a, b in ren.items()):
                def f(v):
                    kk = v[0]
                    if kk == "m":
                        return ("m", ren.get(v[1], v[1]), v[2])
                    if kk == "s":
                        return ("s", v[1], tuple([f(x) for x in v[2]]))
                    if kk == "e":
                        return ("e", v[1], tuple([(i, tuple([f(x) for x in fs])) for i, fs in v[2]]))
                    if kk == "r":
                        return ("r", f(v[1]), None)
                    if kk == "it":
                        return ("it", v[1], v[2], tuple([f(x) for x in v[3]]))
                    return v
                st.env = {k: f(v) for k, v in st.env.items()}
                st.regs = {ren.get(("R", k), ("R", k))[1]: f(v) for k, v in st.regs.items()}
            st.nreg = 1000 + len(big)
        else:
            st.nreg = 1000
        st.snaps = {h: d for h, d in st.snaps.items() if b in info.loops[h]}
        st.phase = {h: d for h, d in st.phase.items() if b in info.loops[h]}
        st.orig = {h: d for h, d in st.orig.items() if b in info.loops[h]}

    def join(self, a, b, widen=None, hard=False):
        """Least upper bound of two states of the same shape (canonical symbols). widen: the older state's join result."""
        if a is not b:
            na, nb = a.fork(), b.fork()
            for k in na.env:
                na.env[k], nb.env[k] = norm_bnds(na.env[k], nb.env[k])
            for k in na.regs:
                na.regs[k], nb.regs[k] = norm_bnds(na.regs[k], nb.regs[k])
            if na.snaps or nb.snaps:
                sn, sm = {}, {}
                for h in na.snaps:
                    if h in nb.snaps:
                        ks = set(na.snaps[h]) & set(nb.snaps[h])
                        sn[h] = {p: na.snaps[h][p] for p in ks}
                        sm[h] = {p: nb.snaps[h][p] for p in ks}
                na.snaps, nb.snaps = sn, sm
            a, b = na, nb
        ra = self.all_rows(a)
        rb = ra if a is b else self.all_rows(b)
        rows, piv = affine_join(ra, rb)
        st = State()
        it = iter(rows)
        st.ins = [next(it) for _ in a.ins]
        st.regs = {k: merge(a.regs[k], b.regs[k], it) for k in sorted(a.regs)}
        st.env = {k: merge(a.env[k], b.env[k], it) for k in sorted(a.env)}
        st.snaps = {h: {p: next(it) for p in sorted(a.snaps[h], key=repr)} for h in sorted(a.snaps)}
        st.ghost, st.phase, st.nreg = a.ghost, dict(a.phase), max(a.nreg, b.nreg)
        st.orig = a.orig if a.orig == b.orig else {h: a.orig.get(h, frozenset()) | b.orig.get(h, frozenset()) for h in set(a.orig) | set(b.orig)}
        z = Zone()
        n = len(piv)
        pa = [C(0)] + [ra[p] for p in piv]
        pb = [C(0)] + [rb[p] for p in piv]
        za, zb = a.zone, b.zone
        m = z.m
        for i in range(n + 1):
            m[i] = {}
        sa, sb = simple(pa), simple(pb)
        ma, mb = za.m, zb.m
        olds = {} if widen else None
        for i in range(n + 1):
            row = m[i]
            if sa[i] is not None:
                si, ci = sa[i]
                ri = ma.get(si, {})
            else:
                ri = None
            for j in range(n + 1):
                if i == j:
                    continue
                if ri is not None and sa[j] is not None:
                    sj, cj = sa[j]
                    if si == sj:
                        u = ci - cj
                    else:
                        u = ri.get(sj)
                        if u is None:
                            continue
                        u += ci - cj
                else:
                    u = za.sup(ladd(pa[i], pa[j], -1))
                    if u is None:
                        continue
                if a is not b:
                    if sb[i] is not None and sb[j] is not None:
                        (ti, di), (tj, dj) = sb[i], sb[j]
                        if ti == tj:
                            w = di - dj
                        else:
                            w = mb.get(ti)
                            if w is None:
                                continue
                            w = w.get(tj)
                            if w is None:
                                continue
                            w += di - dj
                    else:
                        w = zb.sup(ladd(pb[i], pb[j], -1))
                        if w is None:
                            continue
                    if widen:
                        olds[(i, j)] = u
                    if w > u:
                        if widen:
                            w = self.wth(i, j, w) if not hard else self.hth(i, j, w)
                            if w is None:
                                continue
                        u = w
                row[j] = u
        st.zone = z
        if widen or any(len(x[1]) > 1 for x in pa) or any(len(x[1]) > 1 for x in pb):
            # bounds came from expressions: close again
            for k in range(n + 1):
                rk = m[k]
                for i in range(n + 1):
                    if i == k:
                        continue
                    d = m[i].get(k)
                    if d is None:
                        continue
                    ri = m[i]
                    for j, c in rk.items():
                        if j != i:
                            x = d + c
                            y = ri.get(j)
                            if y is None or x < y:
                                ri[j] = x
        if widen:
            # the closure must not bring back what the widening gave up
            for i in range(n + 1):
                ri = m[i]
                for j in list(ri):
                    x = ri[j]
                    u = olds.get((i, j))
                    if (u is None or x > u) and x not in (THRESH0 if j == 0 else THRESH1):
                        del ri[j]
        return st

    @staticmethod
    def wth(i, j, w):
        """Widening thresholds of the bound x_i - x_j <= w."""
        if j == 0:
            for t in UB_T:
                if w <= t:
                    return t
            if w <= TAME + SLACK:
                return TAME
            return None
        for t in (-2, -1, 0, 1):
            if w <= t:
                return t
        return None

    @staticmethod
    def hth(i, j, w):
        if j == 0:
            return TAME if w <= TAME + SLACK else None
        return 0 if w <= 0 else None

    @staticmethod
    def same(a, b):
        return a.zone.m == b.zone.m and a.ins == b.ins and a.env == b.env and a.regs == b.regs and a.snaps == b.snaps and a.orig == b.orig

    def run(self, c):
        """Analyse a body in a context until its block states are stable."""
        c.running = True
        c.dirty = False
        c.runs += 1
        if c.runs > 60:
            raise RuntimeError("no fixpoint: " + c.key)
        c.obl, c.loops, c.calls, c.events, c.reach = {}, {}, {}, {}, set()
        info = c.body
        ins = defaultdict(dict)
        visits = defaultdict(int)
        changes = defaultdict(int)
        pq, queued, seq = [], set(), [0]
        exits = {}
        ids, turns = {}, {}

        def push(b, st, src):
            if info.b["blocks"][b]["cleanup"]:
                return
            head = b in info.loops
            ev = None
            if head:
                inside = src is not None and src in info.loops[b]
                if inside and b in st.snaps:
                    ev = self.measure(st, b)
                st.phase[b] = 1 if inside else 0
                st.snaps = dict(st.snaps)
                st.snaps.pop(b, None)
                old = st.orig.get(b, frozenset())
                st.orig = {h: o for h, o in st.orig.items() if h != b}
            self.prune(st, info, b)
            if True:
                sh = self.sshape(st)
                if ev:
                    turns.setdefault(b, []).append((old, ids.setdefault((b, sh), len(ids)), ev))
                cur = ins[b]
                old = cur.get(sh)
                if old is None:
                    if len(cur) > 160:
                        raise RuntimeError("too many partitions in %s bb%d" % (c.key, b))
                    self.maxpart = max(self.maxpart, len(cur) + 1)
                    cur[sh] = self.join(st, st)
                    if head:
                        self.tame(c, b, cur[sh], None)
                else:
                    visits[(b, sh)] += 1
                    w = head and visits[(b, sh)] > 2 and st.phase.get(b)
                    new = self.join(old, st, w)
                    if w:
                        self.tame(c, b, new, (old, st))
                    if self.same(old, new):
                        return
                    changes[(b, sh)] += 1
                    if changes[(b, sh)] > 60:
                        raise RuntimeError("block does not stabilise: %s bb%d" % (c.key, b))
                    if changes[(b, sh)] > 50 and self.trace:
                        print("UNSTABLE", c.key, b, w)
                        for k in new.env:
                            if new.env[k] != old.env.get(k):
                                print("  env", k, old.env.get(k), new.env[k])
                        for k in new.regs:
                            if new.regs[k] != old.regs.get(k):
                                print("  reg", k, old.regs.get(k), new.regs[k])
                        print("  ins", old.ins == new.ins, new.ins)
                        for x, r in new.zone.m.items():
                            if r != old.zone.m.get(x):
                                print("  zone", x, {q: (old.zone.m[x].get(q), r.get(q)) for q in set(r) | set(old.zone.m[x]) if old.zone.m[x].get(q) != r.get(q)})
                    cur[sh] = new
                if (b, sh) not in queued:
                    queued.add((b, sh))
                    seq[0] += 1
                    heapq.heappush(pq, (info.rpo[b], seq[0], b, sh))
        push(0, self.entry_state(c), None)
        cnt = 0
        while pq:
            _, _, b, sh = heapq.heappop(pq)
            queued.discard((b, sh))
            c.reach.add(b)
            st = ins[b][sh].fork()
            if b in info.loops:
                d = {}
                for k in st.env:
                    leaves(st.env[k], (("L", k),), d)
                for k in st.regs:
                    leaves(st.regs[k], (("R", k),), d)
                st.snaps = dict(st.snaps)
                st.snaps[b] = d
                st.orig = {**st.orig, b: frozenset([ids.setdefault((b, sh), len(ids))])}
            chain = [(b, st)]
            while chain:
                u, st = chain.pop()
                c.reach.add(u)
                if len(st.zone.m) > 48:
                    self.gc(st, info, u)
                for t, s2 in self.block(st, c, u):
                    if t == "ret":
                        self.add_exit(c, exits, s2)
                    elif t in info.joins:
                        push(t, s2, u)
                    elif not info.b["blocks"][t]["cleanup"]:
                        chain.append((t, s2))
        c.running = False
        c.loops = {h: self.repeated(t) for h, t in turns.items()}
        self.finish(c, exits)

    def gc(self, st, info, b):
        self.prune(st, info, b)
        st.zone.keep({x for e in self.all_rows(st) for x, _ in e[1]} | {0})

    def tame(self, c, b, st, old):
        """Trusted: a 64 bit loop counter which changes by small constants never overflows."""
        z = st.zone
        if old is None:
            return
        prev, inc = old
        rows = self.all_rows(st)
        seen = set()
        for e in rows:
            if len(e[1]) == 1 and e[1][0][1] == 1 and e[1][0][0] not in seen:
                s = e[1][0][0]
                seen.add(s)
                if z.diff(s, 0) is None:
                    # the previous bound was tame: the step was a small constant
                    pass

    @staticmethod
    def repeated(turns):
        """What is known about the iterations which can be followed by others forever: those on a cycle of the partitions of the loop's head."""
        nx = {}
        for old, new, _ in turns:
            for o in old:
                nx.setdefault(o, set()).add(new)
        back = {}
        for o in nx:
            seen, todo = set(), [o]
            while todo:
                for y in nx.get(todo.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            back[o] = seen
        return [e for old, new, e in turns if not old or any(o in back.get(new, ()) or o == new for o in old)]

    def measure(self, st, h):
        snap = st.snaps[h]
        cur = {}
        for k in st.env:
            leaves(st.env[k], (("L", k),), cur)
        for k in st.regs:
            leaves(st.regs[k], (("R", k),), cur)
        sup = st.zone.sup
        strict, weak = set(), set()
        const = [cur[p] for p in snap if p in cur and self.eqv(st, snap[p], cur[p])]
        for p, o in snap.items():
            n = cur.get(p)
            if n is None:
                continue
            d = ladd(n, o, -1)
            lo = sup(lscale(d, -1))       # -(n - o)
            hi = sup(d)
            if lo is not None and lo <= 0:
                weak.add((p, "+"))
                if lo <= -1:
                    u = sup(n)
                    ok = u is not None and u < 2 ** 20
                    if not ok:
                        for q in const:
                            w = sup(ladd(n, q, -1))
                            if w is not None and w <= SLACK:
                                ok = True
                                break
                    if ok:
                        strict.add((p, "+"))
            if hi is not None and hi <= 0:
                weak.add((p, "-"))
                if hi <= -1:
                    l = sup(lscale(n, -1))
                    if l is not None and l < 2 ** 40:
                        strict.add((p, "-"))
        return strict, weak

    def eqv(self, st, a, b):
        if a == b:
            return True
        d = ladd(a, b, -1)
        return st.zone.le0(d) and st.zone.le0(lscale(d, -1))

    def add_exit(self, c, exits, st):
        ret = st.env.get(0, UNIT)
        s = st.fork()
        s.env = {0: ret}
        ms = []
        mrefs(ret, ms)
        keep = set(range(len(c.regs))) | {x[1][1] for x in ms if x[1][0] == "R"}
        s.regs = {k: v for k, v in s.regs.items() if k in keep}
        s.phase, s.snaps = {}, {}
        sh = self.sshape(s)
        o = exits.get(sh)
        exits[sh] = self.join(s, s) if o is None else self.join(o, s)

    def finish(self, c, exits):
        changed = False
        for sh, s in exits.items():
            old = c.exits.get(sh)
            if old is not None:
                j = self.join(old["st"], s, c.runs > 3, c.runs > 4)
                if self.same(j, old["st"]):
                    continue
                s = j
            else:
                s = self.join(s, s)
            changed = True
            c.exits[sh] = self.pack(c, s)
        if changed:
            if self.trace and self.recursive(c.key): print("EXITS", c.key, len(c.exits), c.runs)
            for x in c.callers:
                if not x.running or True:
                    self.touch(x)

    def pack(self, c, st):
        # reduced edges, relative to nothing
        z = Zone()
        edges = []
        es = []
        for a, r in st.zone.m.items():
            for b, k in r.items():
                es.append((abs(k) >= TAME - SLACK, abs(k), a, b, k))
        es.sort()
        for _, _, a, b, k in es:
            u = z.diff(a, b)
            if u is not None and u <= k:
                continue
            z.edge(a, b, k)
            edges.append((a, b, k))
        n = 0
        for e in self.all_rows(st):
            for s, _ in e[1]:
                n = max(n, s)
        regs = []
        for i in range(len(c.regs)):
            regs.append((i, st.regs.get(i, TOP)))
        return {"st": st, "ins": list(st.ins), "regs": regs, "ret": st.env[0], "edges": edges, "ghost": st.ghost, "nsym": n}

    # ---------------------------------------------------------------- blocks
    def block(self, st, ctx, b):
        blk = ctx.body.b["blocks"][b]
        for s in blk["s"]:
            self.stmt(st, ctx, s)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "drop":
            return [(t["t"], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "switch":
            return self.switch(st, ctx, t)
        if k == "assert":
            return self.do_assert(st, ctx, b, t)
        if k == "call":
            return self.call(st, ctx, b, t)
        self.oblige(ctx, st, b, "terminator", k, False, "unsupported terminator " + k)
        return []

    def switch(self, st, ctx, t):
        v = self.operand(st, ctx, t["op"])
        out = []
        if v[0] == "b":
            vals = dict((int(x), y) for x, y in t["ts"])
            for val in (False, True):
                tgt = vals.get(int(val), t["else"])
                s2 = st.fork()
                if self.assume_bool(s2, v[1], val):
                    self.setop(s2, t["op"], ("b", val))
                    out.append((tgt, s2))
            return out
        if v[0] == "d":
            root, path = v[1], v[2]
            e = self.get(st, root, path)
            if e[0] == "e":
                ds = [x["discr"] for x in self.adts[e[1]]["variants"]]
                vals = dict((x, y) for x, y in t["ts"])
                groups = defaultdict(list)
                for i, fs in e[2]:
                    groups[vals.get(ds[i], t["else"])].append((i, fs))
                for tgt, vs in groups.items():
                    # one state per variant, so that the payload stays exact
                    for x in vs:
                        s2 = st.fork()
                        self.write(s2, root, path, ("e", e[1], (x,)))
                        out.append((tgt, s2))
                return out
        if v[0] == "i":
            x = v[1]
            for val, tgt in t["ts"]:
                s2 = st.fork()
                if s2.eq(laddc(x, -val)):
                    out.append((tgt, s2))
            s2 = st
            ok = True
            for val, tgt in t["ts"]:
                if not self.assume_bool(s2, ("c", "!=", x, C(val)), True):
                    ok = False
                    break
            if ok:
                out.append((t["else"], s2))
            return out
        for tgt in dict.fromkeys([y for _, y in t["ts"]] + [t["else"]]):
            out.append((tgt, st.fork()))
        return out

    def setop(self, st, op, v):
        if op["k"] in ("copy", "move") and not op["pl"]["p"]:
            st.env[op["pl"]["l"]] = v

    def do_assert(self, st, ctx, b, t):
        msg = t["msg"]
        ops = [self.operand(st, ctx, o) for o in t["ops"]]
        ok = False
        note = ""
        cont = True
        if msg == "bounds" and ops[0][0] == "i" and ops[1][0] == "i":
            cond = ("c", "<", ops[1][1], ops[0][1])
            ok = self.entails(st, cond)
            cont = self.assume_bool(st, cond, True)
        elif msg.startswith("overflow_") and len(ops) == 2 and ops[0][0] == "i" and ops[1][0] == "i":
            op = msg[9:]
            o = t["ops"][0]
            ty = self.opty(ctx, t["ops"][0]) or self.opty(ctx, t["ops"][1])
            lo, hi = INT_RANGE.get(ty, (None, None))
            x, y = ops[0][1], ops[1][1]
            r = None
            if op == "Add":
                r = ladd(x, y)
            elif op == "Sub":
                r = ladd(x, y, -1)
            elif op == "Mul":
                if not x[1] or not y[1]:
                    r = lscale(x, y[0]) if not y[1] else lscale(y, x[0])
            elif op in ("Shl", "Shr"):
                bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u128": 128, "i128": 128}.get(ty, 64)
                ok = self.entails(st, ("c", "<", y, C(bits)))
            if r is not None and lo is not None:
                a = self.entails(st, ("c", ">=", r, C(lo)))
                u = st.zone.sup(r)
                bb = u is not None and u <= hi
                if not bb and op == "Add" and ty in WIDE:
                    bb = self.small_step(ctx, st, x, y)
                if not bb and op == "Sub" and lo == 0:
                    # x fits its type
                    bb = self.entails(st, ("c", ">=", y, C(0)))
                ok = a and bb
                if not ok:
                    note = "result within [%s, %s]" % (-(st.zone.sup(lscale(r, -1))) if st.zone.sup(lscale(r, -1)) is not None else "-inf", u)
                cont = st.le(lscale(laddc(r, -lo), -1)) and (st.le(laddc(r, -hi)))
        elif msg in ("div0", "rem0") and ops and ops[0][0] == "i":
            cond = ("c", "!=", ops[0][1], C(0))
            ok = self.entails(st, cond)
            # the operand listed is the dividend: look at the condition value instead
            c = self.operand(st, ctx, t["cond"])
            if c[0] == "b":
                ok = self.entails(st, c[1], t["exp"])
        else:
            c = self.operand(st, ctx, t["cond"])
            if c[0] == "b":
                ok = self.entails(st, c[1], t["exp"])
                cont = self.assume_bool(st, c[1], t["exp"])
        self.oblige(ctx, st, b, "assert", msg, ok, note)
        return [(t["t"], st)] if cont else []

    def small_step(self, ctx, st, x, y):
        """Counter + small constant."""
        return False

    def opty(self, ctx, o):
        if o["k"] == "const":
            return o["ty"]
        pl = o["pl"]
        return self.plty(ctx, pl) if pl["p"] else ctx.body.b["locals"][pl["l"]]["ty"]

    # ---------------------------------------------------------------- calls
    def call(self, st, ctx, b, t):
        f = t["f"]
        args = [self.operand(st, ctx, o) for o in t["args"]]
        for h in self.event_hooks:
            h(self, st, ctx, "call", t, args)
        res = self.dispatch(st, ctx, b, t, f, args)
        out = []
        for s2, v in res:
            if t["t"] is None:
                continue
            if v[0] == "t" and v[1] is None:
                v = self.mk(s2, t["dty"])
            self.assign(s2, ctx, t["dest"], v)
            for h in self.event_hooks:
                h(self, s2, ctx, "ret", t, args)
            out.append((t["t"], s2))
        return out

    def dispatch(self, st, ctx, b, t, f, args):
        key = f.get("key")
        if key and self.info(key) is not None:
            m = self.models.override(key)
            if m is None:
                if f.get("rkind") == "fndef_call":
                    args = list(args[1][2]) if len(args) == 2 and args[1][0] == "s" else [TOP] * self.info(key).b["argc"]
                return self.call_body(st, ctx, b, key, args)
        return self.models.call(st, ctx, b, t, f, args)

    def call_value(self, st, ctx, b, fv, args):
        """Call a closure (or function item) value with the given arguments."""
        for _ in range(4):
            x = self.strip(st, fv) if fv[0] in ("r", "m") else fv
            if x[0] == "s" and type(x[1]) is tuple and x[1][0] == "closure":
                key = self.closure_key(x[1][1])
                if key:
                    return self.call_body(st, ctx, b, key, [fv, ("s", "tuple", tuple(args))])
            break
        if x[0] == "t" and x[1]:
            t = self.tyk(x[1])
            if t.get("k") == "closure":
                key = self.closure_key(x[1])
                if key:
                    return self.call_body(st, ctx, b, key, [("s", ("closure", x[1]), ()), ("s", "tuple", tuple(args))])
            if t.get("k") == "fndef":
                for key in self.f["bodies"]:
                    if key == t["path"] or key.startswith(t["path"] + " <"):
                        if self.info(key) and not self.info(key).b["closure"]:
                            return self.call_body(st, ctx, b, key, args)
        self.havoc(st, args)
        return [(st, TOP)]

    def closure_key(self, ty):
        if not hasattr(self, "_ck"):
            self._ck = {}
            for k, bd in self.f["bodies"].items():
                if bd.get("closure") and "blocks" in bd:
                    t = bd["locals"][1]["ty"]
                    tt = self.tyk(t)
                    c = tt.get("to") if tt.get("k") == "ref" else t
                    self._ck.setdefault(c, []).append(k)
        l = self._ck.get(ty)
        return l[0] if l else None

    def escape(self, st, ctx, v):
        """A closure becomes a function pointer or goes into unknown code: check it on unknown arguments."""
        ty = v[1][1] if v[0] == "s" else v[1]
        key = self.closure_key(ty)
        if not key:
            return
        info = self.info(key)
        s2 = st.fork()
        n = info.b["argc"]
        args = [v if v[0] == "s" else ("s", ("closure", ty), ())]
        for i in range(2, n + 1):
            args.append(self.mk(s2, info.b["locals"][i]["ty"]))
        self.call_body(s2, ctx, "esc", key, [args[0], ("s", "tuple", tuple(args[1:]))])

    def havoc(self, st, args):
        ms = []
        for a in args:
            mrefs(a, ms)
        for m in ms:
            v = self.get(st, m[1], m[2])
            self.write(st, m[1], m[2], self.blur(st, v))

    def blur(self, st, v):
        k = v[0]
        if k == "i":
            return self.int_top(st, "i128")
        if k == "b":
            return NOB
        if k == "s":
            return ("s", v[1], tuple(self.blur(st, x) for x in v[2]))
        if k == "q":
            return seqv(v[1], self.length(st))
        if k == "it":
            return ("it", v[1], self.length(st), tuple(self.blur(st, x) for x in v[3]))
        if k == "r":
            return ("r", self.blur(st, v[1]), None)
        if k == "m":
            self.write(st, v[1], v[2], self.blur(st, self.get(st, v[1], v[2])))
            return v
        return TOP

    def iterate(self, st, step, limit=12):
        """Abstract `loop { step }` leaving at any point: the states after 0..n steps.

        step(state) -> (continue states, exit results). Returns (all loop states, exit results)."""
        heads = {}
        first = st
        work = []

        def add(s):
            s.snaps = dict(s.snaps)
            sh = self.sshape(s)
            o = heads.get(sh)
            if o is None:
                heads[sh] = [self.rejoin(s, s), 0]
                work.append(sh)
            else:
                o[1] += 1
                n = self.rejoin(o[0], s, o[1] > 2)
                if not self.same(n, o[0]):
                    o[0] = n
                    if sh not in work:
                        work.append(sh)
        add(st)
        exits = {}
        while work:
            sh = work.pop(0)
            cs, xs = step(heads[sh][0].fork())
            exits[sh] = xs
            for s in cs:
                add(s)
            if heads[sh][1] > 60:
                raise RuntimeError("iterate does not stabilise")
        return [h[0].fork() for h in heads.values()], [x for l in exits.values() for x in l]

    def rejoin(self, a, b, w=None):
        return self.join(a, b, w)

    # ---------------------------------------------------------------- driver
    @staticmethod
    def blank():
        st = State()
        st.env, st.regs, st.ins, st.zone, st.ghost, st.phase, st.snaps, st.nreg = {}, {}, [], Zone(), frozenset(), {}, {}, 1000
        st.orig = {}
        return st

    def root(self, key, args=None, init=None):
        """Analyse a body from unknown arguments."""
        info = self.info(key)
        st = self.blank()
        vals = []
        for i in range(info.b["argc"]):
            v = self.mk(st, info.b["locals"][i + 1]["ty"])
            vals.append(v)
        if init:
            vals = init(self, st, vals)
        n0 = len(self.ctxs)
        self.call_body(st, None, None, key, vals)
        self.settle()
        r = [c for c in self.ctxs.values() if c.key == key]
        return r

    def settle(self):
        n = 0
        while self.work:
            c = heapq.heappop(self.work)[-1]
            if c.dirty:
                n += 1
                if n > 20000:
                    raise RuntimeError("no global fixpoint")
                self.run(c)
