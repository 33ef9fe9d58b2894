import facts
from grammar import *

LEVEL = "proof"


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("scalar_term", "anchor_use", "anchor", "parse", "new" if "new" in g.keys else "parse")):
        return
    rep.rule = ("Provenance dataflow of every method of the parser: where an alias was read, the result is the alias of that name (cyclic mode), the value which the current "
                "document's table holds under that name, or an error; nothing else makes an alias; the mode is the one which was asked for.")
    rep.assume = ["rustc's MIR", "BTreeMap and Vec", "the tables hold the nodes of the definitions (C14)"]
    n = uses = 0
    seen = set()
    yaml = next((a for a in d["adts"] if a.endswith("::Yaml") or a == "yaml::Yaml"), None)
    entry = [m for m in PUB if m in g.keys and (LOADER + "::") in g.keys[m]]
    kinds = {}
    for m in entry:
        F, rows = g.run(m)
        seen |= F.visited | {g.keys[m]}
        at = g.where(m)
        for cs, x, end, ev in rows:
            t = tested(cs)
            n += 1
            al = [("op",) + e for e in ev if oname(("op",) + e) == "anchor_use"]
            ok = [a for a in al if t.get(a) == "Ok"]
            if not ok:
                rep.oblige(not aliases(x), m + ":made", "%s gives %s, an alias which was not read" % (at, show(x, 120)))
                continue
            uses += 1
            if not rep.oblige(len(ok) == 1, m + ":twice", "%s reads two aliases" % at):
                continue
            name = V(("pj", ("pj", ok[0], "Ok"), "0"))
            mode = [w for c, w in cs if type(w) is bool and field_of(V(c)) == "cyclic_mode"]
            gets = [c for c in t if lookup(g, c, name)]
            val = Ok(x)
            if mode == [True]:
                kinds["cyclic"] = 1
                v = val and adt(val, yaml, "Alias")
                rep.oblige(v is not None and v and v[0] == name, m + ":cyclic", "%s gives %s for an alias in cyclic mode" % (at, show(x, 160)))
            elif mode == [False] and any(t[c] in ("Some", True) for c in gets):
                kinds["found"] = 1
                src = [c for c in gets if t[c] in ("Some", True)][0]
                rep.oblige(val is not None and single(val) is not None and value_of(val, src), m + ":value", "%s gives %s for an alias" % (at, show(x, 200)))
            elif mode == [False] and any(t[c] in ("None", False) for c in gets):
                kinds["unknown"] = 1
                e = Err(x)
                rep.oblige(e is not None and terminate(e), m + ":unknown", "%s gives %s for an unknown alias" % (at, show(x, 160)))
            else:
                rep.oblige(Err(x) is not None and terminate(Err(x)), m + ":lookup", "%s gives %s for an alias without having looked it up (when %s)" % (at, show(x, 120), conds(cs)))
    rep.floor("alias paths", uses, 3)
    for k in ("cyclic", "found", "unknown"):
        rep.floor("alias paths: " + k, kinds.get(k, 0), 1)
    # nothing else makes or reads an alias
    made = 0
    for k, b in d["bodies"].items():
        if not b.get("span", "").startswith("src/parser/") or any(k.split(" <")[0] == v.split(" <")[0] for v in seen):
            continue
        for blk in b.get("blocks", []):
            f = blk["t"].get("f") or {}
            if blk["t"]["k"] == "call" and not blk["cleanup"] and (f.get("rpath") or f.get("path") or "").endswith("::anchor_use"):
                rep.oblige(False, "reads:" + k.split(" <")[0], "%s reads an alias outside of the analysed methods" % where(d, k))
    for k, b in d["bodies"].items():
        if not b.get("span", "").startswith("src/parser/"):
            continue
        for blk in b.get("blocks", []):
            for s in blk["s"]:
                if s["k"] == "assign" and s["rv"]["k"] == "agg" and s["rv"].get("ak") == "adt" and s["rv"].get("variant") == "Alias" and not blk["cleanup"]:
                    made += 1
                    rep.oblige(any(k.split(" <")[0] == v.split(" <")[0] for v in seen), "alias:" + k.split(" <")[0], "%s makes an alias outside of the analysed methods" % where(d, k))
    # the name is the identifier after the mark, spelled alike in definition and use
    for m, ch in (("anchor", 38), ("anchor_use", 42)):
        F, rows = g.run(m, ("forward", "backward"))
        good = 0
        rep.oblige(g.keeps("identifier", "eaten"), "identifier", "%s moves the start of the text" % g.where("identifier"))
        for cs, x, end, ev in rows:
            t = tested(cs)
            v = Ok(x)
            n += 1
            if v is None:
                rep.oblige(Err(x) is not None, m + ":err", "%s gives %s" % (g.where(m), show(x, 100)))
                continue
            a = [("op",) + e for e in ev]
            marks = [c for c in a if oname(c) == "sym" and c[2][1] == C(ch) and t.get(c) == "Ok"]
            ids = [c for c in a if oname(c) == "identifier" and t.get(c) == "Ok"]
            tx = call(v, "text")
            ok = len(marks) == 1 and len(ids) == 1 and tx is not None
            if ok:
                # what follows the mark, up to where the identifier ends
                st0 = part(state_after(F, "sym!0", marks[0][1:]), "pos")
                st1 = state_after(F, "identifier!0", ids[0][1:])
                ok = g.part(ids[0][2][0], "pos") == st0 and g.part(ids[0][2][0], "eaten") == st0 and all(g.part(tx[0], f) == g.part(st1, f) for f in ("pos", "eaten", "doc"))
            good += 1
            rep.oblige(bool(ok), m + ":name", "%s gives %s, which is not the identifier after the mark" % (g.where(m), show(v, 160)))
        rep.floor(m + " names", good, 1)
    # the mode
    W = {k for k in g.writers("Loader", {"cyclic_mode"}) if not re.search(r"::cyclic_mode( <|$)", k)}
    for k in sorted(W):
        rep.oblige(False, "mode:" + k.split(" <")[0], "%s changes the mode" % where(d, k))
    for f, want in (("parse", False), ("parse_cyclic", True)):
        k = next((k for k in d["bodies"] if re.match(r"^parser::%s( <R>|$)" % f, k)), None)
        if not rep.need(k, f, "%s is missing" % f):
            continue
        F = g.flow("new", "cyclic_mode", "get_anchors")
        got = 0
        for cs, x, mem, ev in F.run(k, [IN("doc")]):
            for e in ev:
                if oname(("op",) + e) == "parse":
                    got += 1
                    rep.oblige(g.part(e[1][0], "cyclic_mode") == C(want), f + ":mode", "%s parses in the mode %s" % (where(d, k), show(g.part(e[1][0], "cyclic_mode") or ANY, 60)))
        rep.floor(f + " runs", got, 1)
    rep.cov.update(methods=len(entry), paths=n, alias_paths=uses, constructions=made)
    rep.samples = ["%s: %s" % (k, "seen") for k in sorted(kinds)]


def aliases(v):
    return any(type(a) is tuple and a[0] == "adt" and a[2] == "Alias" for a in atoms(v))


def field_of(v):
    a = single(v)
    if type(a) is tuple and a[0] == "in":
        return a[1][-1]
    if type(a) is tuple and a[0] == "pj":
        return a[2]
    return None


def terminate(e):
    """Every error which the value may be is a definite one."""
    return bool(e) and all(type(a) is tuple and a[0] == "adt" and a[2] == "Terminate" for a in e)


def lookup(g, c, name):
    """A lookup of the name in the table of the current document."""
    if c[0] != "op" or oname(c) not in ("get", "get_key_value", "contains_key") or "BTreeMap" not in c[1] or len(c[2]) != 2 or c[2][1] != name:
        return False
    ix = isop(c[2][0], "index", "get", "get_unchecked")
    return bool(ix) and len(ix) == 2 and owner(ix[0], "anchors") is not None and owner(ix[0], "anchors") == owner(ix[1], "doc_ind")


def owner(v, f):
    a = single(v)
    if type(a) is tuple and a[0] == "in" and a[1][-1] == f:
        return IN(*a[1][:-1])
    if type(a) is tuple and a[0] == "pj" and a[2] == f:
        return V(a[1])
    return None


def value_of(v, src):
    """The content of the node which was found."""
    a = single(v)
    k = show(V(("op", "x", src[2])), 4000)
    for _ in range(8):
        if type(a) is not tuple:
            return False
        if a == src:
            return True
        if a[0] == "pj" and a[2] in ("yaml", "rc", "Some", "0", "1", "yaml()"):
            a = a[1]
        elif a[0] == "op" and oname(a) in ("clone", "clone_yaml", "new_rc", "as_ref", "yaml", "deref") and len(a[2]) == 1:
            a = single(a[2][0])
        elif a[0] == "op" and oname(a) == "index" and "BTreeMap" in a[1] and a[2] == src[2]:
            return True
        else:
            return False
    return False


def state_after(F, name, e):
    for v, i in F.named.items():
        a = single(v)
        if a[1] == e[0] + "!0" and a[2] == e[1]:
            return V(("op", "state", (C(i),)))
    return ANY


def part(v, f):
    return V(("pj", single(v), f))
