import facts
from grammar import *

LEVEL = "proof"
INSIDE = ("count",)


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("parse", "doc", "scalar", "scalar_term", "seq", "map", "seq_flow", "map_flow", "tag", "directive", "string_quoted")):
        return
    rep.rule = ("Error-flow analysis: of every path of every parser method, each call which can give a definite error either succeeded, or was seen to be a mere mismatch, "
                "or the path's result is a definite error or that call's own error.")
    rep.assume = ["rustc's MIR"]
    methods = [m for m in PUB if m in g.keys and m not in INSIDE]
    runs = {m: g.run(m, INSIDE) for m in methods}
    name_of = {}

    def callee(c):
        n = oname(c)
        return n if c[1].split(" <")[0] == g.keys.get(n, "").split(" <")[0] else None
    # which can give a definite error
    T = set()
    while True:
        new = {m for m in methods if m not in T and any(may(x, T, tested(cs), callee) for cs, x, _, _ in runs[m][1])}
        if not new:
            break
        T |= new
    for m in ("tag", "directive", "string_quoted", "scalar", "doc", "parse"):
        rep.need(m in T, "T:" + m, "no definite error of %s was found" % m)
    n = used = 0

    def path(at, cs, x, calls, what):
        nonlocal n, used
        n += 1
        t = tested(cs)
        for e in sorted(calls, key=repr):
            c = ("op",) + e
            if callee(c) not in T:
                continue
            used += 1
            s = t.get(c)
            ok = s in ("Ok", "Mismatch") or x is not None and errs(x, c, t, T, callee)
            rep.oblige(ok, what + ":" + callee(c), "%s goes on after %s may have failed definitely (when %s), with %s" % (at, show(V(c), 100), conds(cs), show(x, 80) if x is not None else "another turn"))
    for m in methods:
        F, rows = runs[m]
        for cs, x, end, ev in rows:
            path(g.where(m), cs, x, ev.now, m)
        for (name, lc), trans in F.loops.items():
            for tc, mem, ev in trans:
                path(g.where(m), tc, None, ev.now, m)
    for f, pat in (("parse", r"^parser::parse( <R>|$)"), ("parse_cyclic", r"^parser::parse_cyclic( <R>|$)"), ("from_str", r"^serde::de::from_str( <D>|$)")):
        k = next((k for k in d["bodies"] if re.match(pat, k)), None)
        if not rep.need(k, f, "%s is missing" % f):
            continue
        F = g.flow("get_anchors", "new", "cyclic_mode")
        got = 0
        for cs, x, mem, ev in F.run(k, [IN("doc")]):
            got += any(callee(("op",) + e) == "parse" for e in ev.now)
            n += 1
            t = tested(cs)
            for e in ev.now:
                c = ("op",) + e
                if callee(c) == "parse":
                    used += 1
                    rep.oblige(t.get(c) == "Ok" or single(x) == c or Err(x) is not None and "?" not in Err(x), f, "%s gives %s after the text may have failed" % (where(d, k), show(x, 100)))
        rep.floor(f + " paths", got, 1)
    rep.floor("calls which may fail definitely", used, 100)
    rep.cov.update(methods=len(methods), paths=n, failing=sorted(T), calls=used)
    rep.samples = sorted(T)[:10]


def may(x, T, t, callee):
    """The value may be a definite error."""
    e = Err(x)
    if e is None:
        a = single(x)
        if type(a) is tuple and a[0] == "adt" and a[2] == "Ok":
            return False
        vs = x
    else:
        vs = e
    for a in vs:
        if a == "?":
            return True
        if type(a) is not tuple:
            continue
        if a[0] == "adt" and a[2] == "Terminate":
            return True
        if a[0] == "adt" and a[2] == "Err" and may(V(a), T, t, callee):
            return True
        if a[0] == "op" and callee(a) in T:
            return True
        if a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Err" and a[1][1][0] == "op" and callee(a[1][1]) in T and t.get(a[1][1]) != "Mismatch":
            return True
    return False


def errs(x, c, t, T, callee):
    """A definite error, or the failure of the call itself."""
    if single(x) == c:
        return True
    e = Err(x)
    if e is None:
        return False
    for a in e:
        if type(a) is not tuple:
            return False
        if a[0] == "adt" and a[2] == "Terminate":
            continue
        if a == ("pj", ("pj", c, "Err"), "0"):
            continue
        if a[0] == "pj" and a[1][0] == "pj" and a[1][2] == "Err" and t.get(a[1][1]) == "Terminate":
            continue
        return False
    return True
