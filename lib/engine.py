"""Running the abstract interpreter from public entry points and reading its obligations."""
import re
import facts, absint, report

ASSUME = ["rustc's MIR construction, monomorphic trait resolution and borrow checking (aliasing of &mut)",
          "lengths of containers and slices are at most isize::MAX; allocation succeeds",
          "standard library and dependency functions without a '# Panics' section do not panic; their loops end",
          "hand written models of std functions in lib/models.py",
          "drops of values do not panic"]


def name(key):
    return report.norm(key)


def local(c):
    return c.body.b["span"].startswith("src/")


def span(c, bb):
    if isinstance(bb, int):
        t = c.body.b["blocks"][bb]["t"]
        if t.get("sp"):
            return t["sp"]
    return c.body.b["span"]


def sites(c, bb):
    """The construct in the crate an obligation belongs to: itself, or the calls into the std function it is in."""
    if local(c):
        return [(name(c.key), span(c, bb), "")]
    out, seen, todo = [], {c}, [c]
    while todo:
        x = todo.pop()
        for y in x.callers:
            if local(y):
                for b, ds in y.calls.items():
                    if x in ds:
                        out.append((name(y.key), span(y, b), " (inside %s)" % name(c.key)))
            elif y not in seen:
                seen.add(y)
                todo.append(y)
    return out or [(name(c.key), span(c, bb), "")]


def live(an, roots):
    """Contexts of the final call graph."""
    seen, todo = set(roots), list(roots)
    while todo:
        c = todo.pop()
        for ds in c.calls.values():
            for d in ds:
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
    return seen


def public(d, where):
    """Functions of some files which other code can call: exported, or of an implementation of a trait."""
    return [f for f in d["fns"] if re.match(where, f["span"]) and (f["exported"] or "trait" in f)]


def protocol(an, d, first, second, more):
    """Contexts of `second` run on a receiver in whatever state `first` leaves it when more(result) holds."""
    n = -1
    while n != len(an.ctxs):
        n = len(an.ctxs)
        st = an.blank()
        b = an.info(first).b
        recv = an.mk(st, b["locals"][1]["ty"])
        if recv[0] != "m":
            return None
        args = [an.mk(st, b["locals"][i]["ty"]) for i in range(2, b["argc"] + 1)]
        hits = 0
        for s, v in an.call_body(st, None, None, first, [recv] + args):
            if more(v):
                hits += 1
                s = s.fork()
                b2 = an.info(second).b
                an.call_body(s, None, None, second, [recv] + [an.mk(s, b2["locals"][i]["ty"]) for i in range(2, b2["argc"] + 1)])
        an.settle()
    return hits


def panics(rep, an, ctxs, excuse=None):
    """Every obligation of the contexts is discharged."""
    kinds = {}
    for c in ctxs:
        for (bb, kind, what), (ok, note) in c.obl.items():
            k = kinds.setdefault(kind + ":" + what, [0, 0])
            k[0] += 1
            if not ok and excuse and excuse(c, bb, kind, what):
                ok = True
            k[1] += ok
            rep.obligations += 1
            rep.discharged += bool(ok)
            if not ok:
                for fn, sp, via in sites(c, bb):
                    rep.violate("%s:%s:%s" % (fn, kind, what), "%s at %s: %s %s cannot be excluded%s%s" % (fn, sp, kind, what, via, "; " + note if note else ""))
    rep.cov.setdefault("obligation_kinds", {}).update({k: "%d of %d" % (b, a) for k, (a, b) in sorted(kinds.items())})


def loops(rep, an, ctxs):
    """Every loop has a measure which is bounded and strictly progresses in each iteration."""
    n = 0
    for c in ctxs:
        for h, ev in c.loops.items():
            n += 1
            m = ranking(ev)
            rep.oblige(m is not None, "%s:loop" % name(c.key), "%s at %s: no value is shown to progress in every iteration of the loop, or it is not bounded" % (name(c.key), span(c, h)))
            if m and len(rep.samples) < 20:
                rep.samples.append("%s loop bb%d: measure %s" % (name(c.key), h, m))
    return n


def ranking(ev):
    """Lexicographic measure of the back edges."""
    left = list(ev)
    used = []
    while left:
        best = None
        weak = set.intersection(*[w for _, w in left])
        for p in sorted(weak, key=repr):
            k = sum(p in s for s, _ in left)
            if k and (best is None or k > best[0]):
                best = (k, p)
        if best is None:
            return None
        used.append(best[1])
        left = [x for x in left if best[1] not in x[0]]
    return used or ["never repeated"]


def cycles(g):
    """Cyclic strongly connected components of a graph {node: {node: label}}: [(nodes, edges)]."""
    num, low, onst, st, out = {}, {}, set(), [], []
    for r in list(g):
        if r in num:
            continue
        todo = [(r, iter(g.get(r, ())))]
        num[r] = low[r] = len(num)
        st.append(r)
        onst.add(r)
        while todo:
            v, it = todo[-1]
            for w in it:
                if w not in num:
                    num[w] = low[w] = len(num)
                    st.append(w)
                    onst.add(w)
                    todo.append((w, iter(g.get(w, ()))))
                    break
                if w in onst:
                    low[v] = min(low[v], num[w])
            else:
                todo.pop()
                if todo:
                    low[todo[-1][0]] = min(low[todo[-1][0]], low[v])
                if low[v] == num[v]:
                    comp = set()
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.add(w)
                        if w == v:
                            break
                    es = [(a, b, l) for a in comp for b, l in g.get(a, {}).items() if b in comp]
                    if es:
                        out.append((comp, es))
    return out


def calls(cs):
    """The calls between contexts with what is known about counters: {caller: {callee: (not less, greater)}}."""
    g = {}
    for c in cs:
        for ds in c.calls.values():
            for x, l in ds.items():
                l = l or (set(), set())
                o = g.setdefault(c, {}).get(x)
                g[c][x] = l if o is None else (o[0] & l[0], o[1] & l[1])
    return g


def descent(g):
    """A bounded counter for every cycle of calls. Returns (counters, cycles without one)."""
    used, bad = set(), []
    for comp, es in cycles(g):
        weak = set.intersection(*[set(l[0]) for _, _, l in es])
        best = max(sorted(weak, key=repr), key=lambda k: sum(k in l[1] for _, _, l in es), default=None)
        if best is None or not any(best in l[1] for _, _, l in es):
            bad.append((comp, es))
            continue
        sub = {}
        for a, b, l in es:
            if best not in l[1]:
                sub.setdefault(a, {})[b] = l
        u, w = descent(sub)
        used |= u | {best}
        bad += w
    return used, bad
