import facts
from grammar import *

LEVEL = "proof"
VERSIONS = {"1.1", "1.2"}


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("directive", "parse", "gap", "ws")):
        return
    rep.rule = ("Provenance dataflow of the directive parser: a version directive is accepted only when none was before, its version is a supported one and ends there, and "
                "it is remembered; otherwise the error is definite. Effect analysis: nothing else touches the memory of it.")
    rep.assume = ["rustc's MIR"]
    F, rows = g.run("directive")
    at = g.where("directive")
    n = good = again = wrong = other = 0
    seen = set()
    for cs, x, end, ev in rows:
        n += 1
        t = tested(cs)
        kind = {c for c, w in t.items() if oname(c) == "sym_seq" and lit(c[2][1]) == "YAML" and w == "Ok"}
        checked = [w for c, w in cs if type(w) is bool and field(V(c)) == "version_checked"]
        last = g.trace(F, end, "version_checked")
        if not kind:
            other += 1
            rep.oblige(last == IN("self", "version_checked"), "other", "%s changes the memory of a version to %s (when %s)" % (at, show(last, 60), conds(cs)))
            continue
        yes = {v for v in versions(cs, t, "Ok", True)}
        no = {v for v in versions(cs, t, "Err", False)}
        if checked == [True]:
            again += 1
            rep.oblige(terminate(Err(x)), "again", "%s gives %s for a second version" % (at, show(x, 100)))
        elif Ok(x) is not None:
            good += 1
            seen |= yes
            rep.oblige(checked == [False], "once", "%s accepts a version without looking for an earlier one (when %s)" % (at, conds(cs)))
            rep.oblige(bool(yes) and yes <= VERSIONS, "version", "%s accepts the version %s (when %s)" % (at, sorted(yes) or "whatever it is", conds(cs)))
            rep.oblige(last == C(True), "memory", "%s leaves the memory of the version %s" % (at, show(last, 60)))
            rep.oblige(any(after_version(c) for c, w in cs), "end", "%s accepts a version without looking where it ends (when %s)" % (at, conds(cs)))
        else:
            rep.oblige(Err(x) is not None, "err", "%s gives %s" % (at, show(x, 80)))
            if not yes and no:
                wrong += 1
                rep.oblige(terminate(Err(x)), "unsupported", "%s gives %s for an unsupported version" % (at, show(x, 100)))
            elif not terminate(Err(x)):
                # a mismatch: nothing was recognised
                ok = all(a[0] == "pj" and oname(a[1][1]) in ("ws", "gap", "take_while", "sym", "inv", "comment", "nl", "bound") for a in Err(x) if type(a) is tuple and a[0] == "pj" and a[1][0] == "pj") and all(type(a) is tuple and a[0] in ("pj", "adt") for a in Err(x))
                rep.oblige(ok, "mismatch", "%s gives %s (when %s)" % (at, show(x, 80), conds(cs)))
    rep.floor("accepted versions", good, 1)
    rep.floor("second versions", again, 1)
    rep.floor("unsupported versions", wrong, 1)
    rep.oblige(seen == VERSIONS, "both", "%s accepts %s" % (at, sorted(seen)))
    # nothing else sets or clears it
    W = g.writers("Parser", {"version_checked"})
    for k in sorted(W):
        vis = k in F.visited or any(k.split(" <")[0] == v.split(" <")[0] for v in F.visited | {g.keys["directive"]})
        rep.oblige(vis, "writes:" + k.split(" <")[0], "%s changes the memory of a version" % where(d, k))
    for f in ("parse", "parse_cyclic"):
        k = next((k for k in d["bodies"] if re.match(r"^parser::%s( <R>|$)" % f, k)), None)
        if not rep.need(k, f, "%s is missing" % f):
            continue
        G = g.flow("new", "cyclic_mode", "get_anchors")
        got = 0
        for cs, x, mem, ev in G.run(k, [IN("doc")]):
            for e in ev:
                if oname(("op",) + e) == "parse":
                    got += 1
                    p = g.part(e[1][0], "parser")
                    v = p is not None and g.part(p, "version_checked")
                    rep.oblige(v == C(False), f + ":start", "%s starts with the memory %s" % (where(d, k), show(v or ANY, 60)))
        rep.floor(f + " starts", got, 1)
    # every directive before the first document is looked at
    P, prows = g.run("parse")
    for cs, x, end, ev in prows:
        n += 1
        if Ok(x) is None:
            continue
        t = tested(g.closing(P, cs))
        ds = [c for c, w in t.items() if oname(c) == "directive"]
        rep.oblige(any(t[c] in ("Mismatch",) for c in ds) and not any(t[c] in ("Err", "Terminate") for c in ds), "parse", "%s gives a result without having read the directives (when %s)" % (g.where("parse"), conds(cs)))
    rep.cov.update(paths=n, accepted=good, second=again, unsupported=wrong, other=other, versions=sorted(seen))
    rep.samples = sorted(seen)


def lit(v):
    c = constof(v)
    return c.decode("latin1") if type(c) is bytes else c if type(c) is str else None


def constof(v):
    a = single(v)
    if type(a) is tuple and a[0] == "c":
        return a[1]
    if type(a) is tuple and a[0] == "adt" and a[1] == "array":
        xs = [constof(x) for x in a[3]]
        return bytes(xs) if all(type(x) is int and 0 <= x < 256 for x in xs) else None
    return None


def versions(cs, t, call_, true):
    """Literals which the text was compared with, with this outcome."""
    for c, w in t.items():
        if oname(c) in ("sym_seq",) and w == call_:
            v = lit(c[2][1])
            if v is not None and v not in ("YAML", "TAG"):
                yield v
    for c, w in cs:
        if type(c) is tuple and c[0] == "op" and c[1] == "eq" and w is true:
            for i in (0, 1):
                v = lit(c[2][i])
                if v is not None and v not in ("YAML", "TAG") and "discr" not in show(c[2][1 - i], 200):
                    yield v


def field(v):
    a = single(v)
    if type(a) is tuple and a[0] == "in":
        return a[1][-1]
    return a[2] if type(a) is tuple and a[0] == "pj" else None


def terminate(e):
    return bool(e) and all(type(a) is tuple and a[0] == "adt" and a[2] == "Terminate" for a in e)


def ops(c):
    return [a[1] for a in atoms(V(c)) if type(a) is tuple and a[0] == "op" and type(a[1]) is str]


def after_version(c):
    """About the text (rather than a call's success only)."""
    return any(re.search(r"::(food|text)$|index", n) for n in ops(c))
