import re

import absint, c34, engine, facts, flow
from c34 import *

LEVEL = "proof"
ACCESS = ("serde::de::SeqAccess", "serde::de::MapAccess")
NODES = r"src/(node|yaml|repr|indicator|parser/error|serde/error)\.rs"


def check(rep):
    rep.rule = ("For every loop of the MIR reachable from dumping, from every public operation on nodes, values and errors, and from every serde entry point and method, in every "
                "calling context, a bounded measure which progresses in every turn; every cycle of calls outside the parser is the dumper's, and what it goes on with is always a "
                "part of the collection of the node it has (terms of the provenance dataflow), never something looked up in an anchor table.")
    rep.assume = engine.ASSUME + ["code of the caller (Serialize, Deserialize, closures) ends", "the parser's own recursion ends: C03", "a node is a finite tree: handles share, but are not changed after they are made"]
    d = facts.extract("all")
    groups = {"dump": ["dumper::dump <R>"],
              "nodes": [f["key"] for f in engine.public(d, NODES)],
              "serde": [f["key"] for f in engine.public(d, r"src/serde/")]}
    seen, cyc, n = set(), {}, 0
    for what, keys in groups.items():
        an = absint.Analysis(d)
        roots = []
        for k in keys:
            if rep.need(k in d["bodies"] and "blocks" in d["bodies"][k], k, "%s has no body to analyse" % k):
                roots += an.root(k)
        cs = engine.live(an, roots)
        m = 0
        for c in cs:
            asked = bool(c.loops) and any(engine.ranking(ev) is None for ev in c.loops.values()) and given(d, c.key)
            if asked:
                rep.cov.setdefault("items_of_the_caller", []).append(engine.name(c.key))
                rep.oblige(True, "asked", "")
            else:
                m += engine.loops(rep, an, [c])
        n += m
        seen |= {(engine.name(c.key), h) for c in cs for h in c.loops}
        for c in cs:
            for (bb, kind, txt), (ok, note) in c.obl.items():
                if kind == "loop":
                    rep.oblige(ok, "%s:loop" % engine.name(c.key), "%s at %s: %s %s" % (engine.name(c.key), engine.span(c, bb), txt, note))
        g = {}
        for c in cs:
            for ds in c.calls.values():
                for x in ds:
                    g.setdefault(c.key, {})[x.key] = 1
        for comp, es in engine.cycles(g):
            cyc[frozenset(comp)] = [(a, b) for a, b, _ in es]
        rep.cov["operations_" + what] = len(keys)
        rep.cov["loops_" + what] = m
        rep.floor("operations of " + what, len(keys), {"dump": 1, "nodes": 45, "serde": 100}[what])
    dump = next((k for k in d["bodies"] if re.match(r"^dumper::Dumper::<'a, R>::dump( <R>|$)", k)), None)
    if not rep.need(dump, "Dumper::dump", "the dumper is missing"):
        return
    own = 0
    for comp, es in cyc.items():
        if any("parser::" in k for k in comp) and not any(k.startswith("dumper::") for k in comp):
            continue
        left = {}
        for a, b in es:
            if dump not in (a, b):
                left.setdefault(a, {})[b] = 1
        rest = engine.cycles(left)
        inside = dump in comp and not rest
        own += dump in comp
        rep.oblige(inside, "recursion", "%s: nothing shows that this cycle of calls ends" % " -> ".join(sorted(engine.name(k) for k in (next(iter(rest))[0] if rest else comp))))
    keep = flow.DEPTH
    flow.DEPTH = 24
    try:
        descend(rep, Walk(rep, d, Serde(rep, d), dump, next((a for a in d["adts"] if re.search(r"dumper::Dumper$", a)), None)))
    finally:
        flow.DEPTH = keep
    rep.cov["loops"] = len(seen)
    rep.cov["loops_in_contexts"] = n
    rep.cov["recursive_components"] = len(cyc)
    rep.floor("loops measured", len(seen), 12)


def given(d, k):
    """Every turn of every loop has got another item from the caller's sequence or map."""
    b = d["bodies"][k]
    if any(t["k"] == "call" and t["f"].get("trait") in ACCESS and t["f"].get("rkind") != "unresolved" for t in (x["t"] for x in b["blocks"])):
        return False
    F = Flow(d, opaque=[])
    F.run(k, [IN("self")] + [IN("a%d" % i) for i in range(1, b["argc"])])
    n = 0
    for t in F.loops.values():
        for tc, mem, ev in t:
            n += 1
            if not any(w == "Some" and type(c) is tuple and c[:2] == ("op", "discr") and item(single(c[2][0])) for c, w in tc):
                return False
    return n > 0


def item(a):
    while type(a) is tuple and a[0] == "pj":
        a = a[1]
    return type(a) is tuple and a[0] == "op" and re.match(r"(%s)::next_\w+$" % "|".join(map(re.escape, ACCESS)), re.sub(r" <.*$", "", a[1])) is not None


class Walk(c34.Dump):
    pass


def atoms(x):
    """Every operation in some values."""
    out, todo, seen = [], [x], set()
    while todo:
        x = todo.pop()
        if id(x) in seen or not isinstance(x, (tuple, frozenset, list, dict)):
            continue
        seen.add(id(x))
        if isinstance(x, tuple) and x and x[0] == "op":
            out.append(x)
        todo.extend(x)
        if isinstance(x, dict):
            todo.extend(x.values())
    return out


def descend(rep, w):
    if not rep.need(w.node and w.anchors, "Dumper", "the parts of the dumper are not recognised"):
        return
    F = w.flow()
    F.limit = 1000000
    rows = F.run(w.k, [IN("self")], {})
    done = set()
    for a in atoms([rows, F.loops]):
        if not w.isdump(a):
            continue
        p = w.parts(F, a)
        k = show(p[w.node] if p else a[2][0], 200)
        if k in done:
            continue
        done.add(k)
        good = p is not None and below(F, p[w.node], ("self", w.node), set())
        rep.oblige(good is True, "part", "%s goes on with %s, which is not shown to be a part of its node" % (w.at, k))
    rep.samples += ["goes on with " + k[-150:] for k in sorted(done)][:6]
    rep.cov["values_of_recursive_calls"] = len(done)
    rep.floor("values of recursive calls", len(done), 3)


def below(F, v, own, on):
    """True: a part of a collection in the own node; False: of the node; None: something else."""
    a = single(v)
    if a is None or type(a) is not tuple:
        if type(v) is frozenset and v:
            rs = {below(F, V(x), own, on) for x in v}
            return None if None in rs else min(rs)
        return None
    if a[0] == "in":
        if a[1][:2] != own:
            return None
        return any(x in ("Seq", "Map") for x in a[1][2:])
    if a[0] == "pj":
        r = below(F, V(a[1]), own, on)
        return r if r is None else r or a[2] in ("Seq", "Map")
    if a[0] == "op":
        if oname(a) == "dump":
            return None
        if a[1] == "phi" or a[1].startswith("phi"):
            if a in on:
                return True
            on = on | {a}
            rs = [below(F, b, own, on) for b in a[2][2:3]]
            for t in F.loops.values():
                for tc, mem, ev in t:
                    rs += [below(F, F.unfold(x), own, on) for b, x in mem.values() if single(b) == a and x != b]
            return None if not rs or None in rs else all(rs)
        rs = [below(F, y, own, on) for y in a[2] if not fixed(y)]
        return None if not rs or None in rs else all(rs)
    return None


def fixed(v):
    a = single(v)
    return type(a) is tuple and a[0] in ("c", "fn")
