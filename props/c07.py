import re
import facts
from tables import *

LEVEL = "proof"


def rename(v, a, b):
    return subst(v, lambda x: ("in", (b,) + x[1][1:]) if type(x) is tuple and x[0] == "in" and x[1][0] == a else x)


def ren_c(c, a, b):
    return next(iter(rename(V(c), a, b)))


def sides(c):
    """Which of the two nodes a condition looks at."""
    return {p[0] for p in inputs(V(c))}


def hide(v, key):
    """The value with the comparison key taken out."""
    def f(a):
        return ("c", "KEY") if V(a) == key else a

    def go(v):
        if v == key:
            return C("KEY")
        out = set()
        for a in v:
            if type(a) is tuple and a[0] == "op":
                a = ("op", a[1], tuple(go(x) for x in a[2]))
            elif type(a) is tuple and a[0] == "adt":
                a = ("adt", a[1], a[2], tuple(go(x) for x in a[3]))
            elif type(a) is tuple and a[0] == "pj":
                b = go(V(a[1]))
                out |= {("pj", x, a[2]) if x != "?" else x for x in b}
                continue
            out.add(a)
        return frozenset(out)
    return go(v)


def feeds(F, key, arg, assume):
    """[(conditions, fed values)]"""
    def hook(fl, st, f, args, t):
        nm = f.get("name") or ""
        tr = f.get("trait") or ""
        if tr.endswith("hash::Hasher") or nm.startswith("write_") and "Hasher" in (f.get("path") or ""):
            st.ev = st.ev + (("feed", nm, args[1] if len(args) > 1 else UNIT),)
            return [(st, UNIT)]
        if tr.endswith("hash::Hash") and not (f.get("key") and fl.stack.count(f["key"]) < 1):
            st.ev = st.ev + (("feed", (f.get("rargs") or f.get("args") or [""])[0], args[0]),)
            return [(st, UNIT)]
        return None
    F.hook, F.record = hook, lambda n: False
    try:
        return [(cs, ev) for cs, _, _, ev in F.run(key, [arg, IN("hasher")], assume)]
    finally:
        F.hook = None


def check(rep):
    rep.rule = ("Provenance dataflow of equality and hashing for every pair of content variants: different variants are unequal; within a variant the result must be "
                "the comparison of one key, computed by the same function of each side (an equivalence by construction, floats never compared as floats); "
                "and everything fed to the hasher must be constant or a function of that key under the same case distinction.")
    rep.assume = ["equality and hashing of str, integers, Vec and LinkedHashMap are lawful and consistent (element wise through the node's own)", "rustc's MIR", "functions of std are deterministic"]
    d = facts.extract("all")
    m = Model(rep, d)
    ke, kh = m.key("<yaml::Yaml<R> as std::cmp::PartialEq>::eq"), m.key("<yaml::Yaml<R> as std::hash::Hash>::hash")
    if not (m.ok and rep.need(ke, "eq", "content equality is missing") and rep.need(kh, "hash", "content hashing is missing")):
        return
    F = Flow(d)
    F.record = lambda n: False
    n = 0
    for v in m.variants:
        for w in m.variants:
            n += 1
            if v != w:
                for cs, x, _, _ in F.run(ke, [IN("a"), IN("b")], {("a",): v, ("b",): w}):
                    rep.oblige(x == C(False), "eq:%s:%s" % (v, w), "%s: %s and %s compare as %s (when %s)" % (where(d, ke), v, w, show(x), conds(cs)))
        # reflexive
        for cs, x, _, _ in F.run(ke, [IN("a"), IN("a")], {("a",): v}):
            rep.oblige(x == C(True), "eq:%s:reflexive" % v, "%s: a %s content compared with itself is %s (when %s)" % (where(d, ke), v, show(x), conds(cs)))
        res = F.run(ke, [IN("a"), IN("b")], {("a",): v, ("b",): v})
        # cases of each side
        rows = []
        for cs, x, _, _ in res:
            ca, cb, both = set(), set(), []
            for c, o in cs:
                s = sides(c)
                if s == {"a"}:
                    ca.add((c, o))
                elif s == {"b"}:
                    cb.add((ren_c(c, "b", "a"), o))
                else:
                    both.append((c, o))
            rows.append((frozenset(ca), frozenset(cb), both, x))
            # conditions on both sides: an early "different" on a comparison of keys
        keys = {}
        for ca, cb, both, x in rows:
            t = isop(x, "eq") or (next(iter(x))[2] if len(x) == 1 and type(next(iter(x))) is tuple and next(iter(x))[0] == "op" and next(iter(x))[1] == "eq" else None)
            if ca != cb:
                continue
            n += 1
            if x == C(True) and not both:
                keys.setdefault(ca, set()).add(None)
            elif t is not None and rename(t[0], "a", "b") == t[1] and sides_of(t[0]) == {"a"} or t is not None and rename(t[1], "a", "b") == t[0] and sides_of(t[1]) == {"a"}:
                k = t[0] if sides_of(t[0]) == {"a"} else t[1]
                keys.setdefault(ca, set()).add(k)
            elif x == C(False) and both:
                pass
            elif x == C(True) and both:
                for c, o in both:
                    tt = c[2] if type(c) is tuple and c[0] == "op" and c[1] == "eq" else None
                    if o is True and tt and rename(tt[0], "a", "b") == tt[1]:
                        keys.setdefault(ca, set()).add(tt[0])
                    elif o is True and tt and rename(tt[1], "a", "b") == tt[0]:
                        keys.setdefault(ca, set()).add(tt[1])
            else:
                rep.oblige(False, "eq:%s:key" % v, "%s: two %s contents are compared as %s, which is not a comparison of one key of both (when %s)" %
                           (where(d, ke), v, show(x), conds({(c, o) for c, o in ca})))
                keys.setdefault(ca, set()).add("bad")
        for ca, cb, both, x in rows:
            for c, o in both:
                tt = c[2] if type(c) is tuple and c[0] == "op" and c[1] == "eq" else None
                ok = tt is not None and (rename(tt[0], "a", "b") == tt[1] or rename(tt[1], "a", "b") == tt[0])
                rep.oblige(ok, "eq:%s:condition" % v, "%s: equality of two %s contents depends on %s, which does not treat both sides alike" % (where(d, ke), v, show(V(c))))
            if ca == cb:
                continue
            n += 1
            if x == C(False):
                continue
            # keys of different cases compared
            t = next(iter(x))[2] if len(x) == 1 and type(next(iter(x))) is tuple and next(iter(x))[0] == "op" and next(iter(x))[1] == "eq" else None
            ok = t is not None
            if ok:
                ka, kb = keys.get(ca, {None}), keys.get(cb, {None})
                l = [rename(y, "b", "a") for y in t]
                s = [sides_of(y) for y in t]

                def fits(y, sy, ks, side):
                    return y in ks or (None in ks and not sy)
                ok = any(fits(l[i], s[i], ka, "a") and s[i] <= {"a"} and fits(l[1 - i], s[1 - i], kb, "b") and s[1 - i] <= {"b"} for i in (0, 1))
            rep.oblige(ok, "eq:%s:cases" % v, "%s: two %s contents of different cases are compared as %s, which is not a comparison of their keys (when %s)" %
                       (where(d, ke), v, show(x), conds({(c, o) for c, o in ca | cb})))
        rep.oblige(bool(keys), "eq:%s:never" % v, "%s: no two %s contents are ever equal" % (where(d, ke), v))
        for ops in (o for _, x, _, _ in res for o in opsof(x)):
            rep.oblige(ops != "feq", "eq:%s:float" % v, "%s: %s contents are compared as floating point numbers, NaN is not equal to itself" % (where(d, ke), v))
        # hash
        for cs, ev in feeds(F, kh, IN("a"), {("a",): v}):
            n += 1
            cs0 = frozenset((c, o) for c, o in cs if sides(c))
            ks = keys.get(cs0)
            if ks is None:
                # no distinction in the comparison: every key is the payload of all cases
                allk = set().union(*keys.values()) if keys else set()
                ks = allk if len(allk) == 1 else None
                if ks is not None:
                    for c, o in cs0:
                        k = next(iter(ks))
                        dep = inputs(hide(V(c), k)) if k not in (None, "bad") else inputs(V(c))
                        rep.oblige(not dep, "hash:%s:case" % v, "%s: hashing a %s content distinguishes %s, which equal contents may differ in" % (where(d, kh), v, show(V(c))))
            rep.oblige(ks is not None, "hash:%s:cases" % v, "%s: hashing a %s content distinguishes cases the comparison does not have (%s)" % (where(d, kh), v, conds(cs)))
            for e in ev:
                x = e[2]
                ok = not inputs(x) or ks is not None and any(k not in (None, "bad") and not inputs(hide(x, k)) for k in ks)
                rep.oblige(ok and not unknown(x), "hash:%s:feeds" % v, "%s: a %s content feeds %s to the hasher, which is no function of what the comparison uses (%s)" %
                           (where(d, kh), v, show(x), " or ".join("a constant" if k is None else show(k) if k != "bad" else "?" for k in ks or ())))
        rep.samples.append("%s: keys %s" % (v, sorted("constant" if k is None else show(k, 80) if k != "bad" else k for s in keys.values() for k in s)[:4]))
    rep.floor("cases", n, 80)


def sides_of(v):
    return {p[0] for p in inputs(v)}
