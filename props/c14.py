import facts
from grammar import *

LEVEL = "proof"
STORE = {"doc_ind", "anchors"}


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("parse", "doc", "scalar", "scalar_flow", "scalar_term", "get_anchors")):
        return
    rep.rule = ("Effect analysis finds every place which writes the anchor tables or the document counter; provenance dataflow of the methods which do shows one new table "
                "per document, insertion into the current document's table of the returned node, lookup there only, and an error for a name defined twice.")
    rep.assume = ["rustc's MIR", "Vec and BTreeMap", "the functions of the parser are called through their public methods (the tables are private fields)"]
    n = 0

    def sel(v, f):
        return g.part(v, f)
    # ---- who touches the tables
    W = {k for k in g.writers("Loader", STORE) if "repr::" not in k}
    rep.floor("writers", len(W), 2)
    seen = set()
    mine = {"doc", "scalar", "scalar_flow"}
    entry = [m for m in PUB if m in g.keys and (LOADER + "::") in g.keys[m]]
    for m in entry:
        F, rows = g.run(m)
        touched = {k for k in W if k in F.visited or k == g.keys[m]}
        seen |= touched
        rep.oblige(m in mine or not touched, "writes:" + m, "%s changes the anchor tables or the document counter" % g.where(m))
        n += 1
    free = {k for k in W - seen if not re.search(r"::(parse|parse_cyclic|new|cyclic_mode|get_anchors|deref_mut)( <|$)", k)}
    # other instances of the functions which were seen
    free = {k for k in free if not any(k.split(" <")[0] == s.split(" <")[0] for s in seen)}
    for k in sorted(free):
        rep.oblige(False, "writes:" + k.split(" <")[0], "%s changes the anchor tables or the document counter outside of the analysed methods" % where(d, k))
    # ---- doc: one table per document
    F, rows = g.run("doc")
    oks = 0
    for cs, x, end, ev in rows:
        scal = [e for e in ev if oname(("op",) + e) == "scalar"]
        n += 1
        if not rep.oblige(len(scal) == 1, "doc:scalar", "%s reads %d values" % (g.where("doc"), len(scal))):
            continue
        s = scal[0][1][0]
        p = isop(sel(s, "anchors") or ANY, "push!0")
        ok = p is not None and p[0] == IN("self", "anchors") and isnew(p[1]) and sel(s, "doc_ind") == IN("self", "doc_ind")
        rep.oblige(ok, "doc:table", "%s reads its value with the tables %s and the counter %s" % (g.where("doc"), show(sel(s, "anchors") or ANY, 100), show(sel(s, "doc_ind") or ANY, 60)))
        after = state_after(F, "scalar!0", scal[0])
        if Ok(x) is not None:
            oks += 1
            rep.oblige(single(x) and pj(Ok(x), "Ok", "0") == V(("op",) + scal[0]), "doc:result", "%s gives %s" % (g.where("doc"), show(x, 120)))
            ok = after is not None and sel(end, "anchors") == sel(after, "anchors") and plus1(sel(end, "doc_ind"), sel(after, "doc_ind"))
            rep.oblige(ok, "doc:next", "%s leaves the counter %s and the tables %s" % (g.where("doc"), show(sel(end, "doc_ind") or ANY, 80), show(sel(end, "anchors") or ANY, 80)))
        else:
            rep.oblige(Err(x) is not None, "doc:err", "%s gives %s" % (g.where("doc"), show(x, 100)))
    rep.floor("documents read", oks, 1)
    # ---- scalar, scalar_flow: definitions
    for m in ("scalar", "scalar_flow"):
        F, rows = g.run(m)
        defs = plain = 0
        for cs, x, end, ev in rows:
            n += 1
            ins = [e for e in ev if re.search(r"BTreeMap.*::(insert|append|extend)( <|$)|Entry.*::(or_insert\w*|insert\w*)( <|$)", e[0])]
            at = g.where(m)
            node = Ok(x)
            reads = [("op",) + e for e in ev if oname(("op",) + e) == "anchor"]
            t = tested(cs)
            named = [r for r in reads if any(w is False and isop(V(c), "is_empty") and isop(V(c), "is_empty")[0] == V(("pj", ("pj", r, "Ok"), "0")) for c, w in cs)]
            if node is None:
                rep.oblige(Err(x) is not None, m + ":err", "%s gives %s" % (at, show(x, 120)))
                if ins:
                    # the name was taken
                    rep.oblige(any(w is True and discr_is(V(c), 1, ("op",) + ins[0]) for c, w in cs) or t.get(("op",) + ins[0]) == "Some", m + ":dup", "%s fails after the definition when %s" % (at, conds(cs)))
                continue
            if len(ins) > 1:
                rep.oblige(False, m + ":twice", "%s defines %d names at once" % (at, len(ins)))
                continue
            if not ins:
                plain += 1
                rep.oblige(not named, m + ":lost", "%s does not define the anchor (when %s)" % (at, conds(cs)))
                continue
            defs += 1
            tab, name, val = ins[0][1][:3] if len(ins[0][1]) == 3 else (ANY, ANY, ANY)
            vac = single(ins[0][1][0])
            if type(vac) is tuple and vac[0] == "pj" and vac[2] == "0" and vac[1][0] == "pj" and vac[1][2] == "Vacant" and oname(vac[1][1]) == "entry":
                tab, name, val = vac[1][1][2] + (ins[0][1][1],)
            ix = isop(tab, "index_mut", "get_mut", "last_mut")
            st = ix and base(ix[0], "anchors")
            ok = st is not None and st is not False and len(ix) == 2 and ix[1] == part(st, "doc_ind")
            rep.oblige(bool(ok), m + ":table", "%s defines the anchor in %s" % (at, show(tab, 160)))
            src = {a for a in name}
            ok = all(type(a) is tuple and (a[0] == "pj" and a[2] == "0" and a[1][0] == "pj" and a[1][2] == "Ok" and oname(a[1][1]) == "anchor") for a in src)
            rep.oblige(ok and bool(src), m + ":name", "%s defines the anchor under the name %s" % (at, show(name, 160)))
            rep.oblige(val == node, m + ":value", "%s defines the anchor as %s but gives %s" % (at, show(val, 160), show(node, 160)))
            fresh = any(w is False and discr_is(V(c), 1, ("op",) + ins[0]) or w is True and discr_is(V(c), 0, ("op",) + ins[0]) for c, w in cs) or t.get(("op",) + ins[0]) == "None"
            fresh = fresh or type(vac) is tuple and vac[0] == "pj" and vac[1][2] == "Vacant"
            fresh = fresh or any(w is False and oname(c) == "contains_key" and c[2] == (ix_of(tab), name) for c, w in cs) or any(w == "None" and unborrow(V(c), tab, name) for c, w in t.items())
            rep.oblige(fresh, m + ":again", "%s accepts a name which may be defined already (when %s)" % (at, conds(cs)))
        rep.floor(m + " definitions", defs, 1)
        rep.floor(m + " without definition", plain, 1)
    # ---- scalar_term: lookups
    looks = 0
    for m in entry:
        F, rows = g.run(m)
        for cs, x, end, ev in rows:
            for e in ev:
                if not re.search(r"BTreeMap.*::(get|get_key_value|contains_key|index|get_mut|remove|entry|first|last|iter|values)\w*( <|$)", e[0]) or "insert" in e[0]:
                    continue
                if "tag" in show(e[1][0], 2000) or m in ("tag", "directive"):
                    continue
                n += 1
                ix = isop(e[1][0], "index", "get", "index_mut", "get_mut")
                ok = bool(ix) and len(ix) == 2 and base(ix[0], "anchors") and ix[1] == part(base(ix[0], "anchors"), "doc_ind")
                rep.oblige(bool(ok), m + ":lookup", "%s looks the anchor up in %s" % (g.where(m), show(e[1][0], 160)))
                looks += 1
    rep.floor("lookups", looks, 1)
    # ---- the stream
    F, rows = g.run("parse")
    good = 0
    for cs, x, end, ev in rows:
        o = Ok(x)
        n += 1
        docs = [("op",) + e for e in ev if oname(("op",) + e) == "doc"]
        if o is None:
            rep.oblige(Err(x) is not None, "parse:err", "%s gives %s" % (g.where("parse"), show(x, 100)))
            continue
        rep.oblige(stream(F, o, cs), "parse:all", "%s gives %s, which is not the documents in order" % (g.where("parse"), show(o, 200)))
        good += 1
    rep.floor("streams", good, 1)
    k = next((k for k in d["bodies"] if re.match(r"^parser::parse_cyclic( <R>|$)", k)), None)
    if rep.need(k, "parse_cyclic", "parse_cyclic is missing"):
        F = g.flow("get_anchors", "new")
        oks = 0
        for cs, x, mem, ev in F.run(k, [IN("doc")]):
            o = Ok(x)
            if o is None:
                rep.oblige(Err(x) is not None, "cyclic:err", "%s gives %s" % (where(d, k), show(x, 100)))
                continue
            t = adt(o, "tuple")
            ps = [e for e in ev if oname(("op",) + e) == "parse"]
            ok = t is not None and len(t) == 2 and len(ps) == 1 and pj(t[0], "Ok", "0") == V(("op",) + ps[0]) and t[1] == g.part(state_after(F, "parse!0", ps[0]) or ANY, "anchors")
            rep.oblige(ok, "cyclic", "%s gives %s" % (where(d, k), show(o, 200)))
            ld = ps and ps[0][1][0]
            ok = bool(ps) and g.part(ld, "doc_ind") == C(0) and empty(g.part(ld, "anchors") or ANY)
            rep.oblige(ok, "cyclic:start", "%s starts with the tables %s" % (where(d, k), show(ld and g.part(ld, "anchors") or ANY, 100)))
            oks += 1
        rep.floor("cyclic results", oks, 1)
    F, rows = g.run("get_anchors")
    for cs, x, end, ev in rows:
        rep.oblige(x == IN("self", "anchors"), "get_anchors", "%s gives %s" % (g.where("get_anchors"), show(x, 100)))
    rep.cov.update(methods=len(entry), paths=n, writers=sorted(k.split(" <")[0] for k in W))
    rep.samples = sorted(W)[:10]


def ix_of(tab):
    """index_mut(..) as a shared borrow."""
    a = single(tab)
    if type(a) is tuple and a[0] == "op" and oname(a) in ("index_mut", "get_mut"):
        return V(("op", a[1].replace("IndexMut", "Index").replace("index_mut", "index").replace("get_mut", "get"), a[2]))
    return tab


def unborrow(v, tab, name):
    a = single(v)
    return type(a) is tuple and a[0] == "op" and oname(a) in ("get", "get_key_value") and a[2] == (ix_of(tab), name)


def isnew(v):
    return empty(v)


def part(v, f):
    a = single(v)
    return IN(*(a[1] + (f,))) if a[0] == "in" else V(("pj", a, f))


def base(v, f):
    """x of x.f."""
    a = single(v)
    if type(a) is tuple and a[0] == "in" and a[1][-1] == f:
        return IN(*a[1][:-1])
    if type(a) is tuple and a[0] == "pj" and a[2] == f:
        return V(a[1])
    return None


def plus1(v, w):
    x = isop(v, "Add") if v else None
    a = v and single(v)
    if type(a) is tuple and a[0] == "op" and a[1] in ("Add", "AddWithOverflow"):
        return set(a[2]) == {w, C(1)}
    return False


def discr_is(v, i, call):
    """The term says that the discriminant of the call's result is i."""
    a = single(v)
    if type(a) is not tuple or a[0] != "op" or a[1] != "eq":
        return False
    for j in (0, 1):
        y = single(a[2][1 - j])
        if a[2][j] == C(i) and type(y) is tuple and y[0] == "op" and y[1].startswith("discr:") and y[2][0] == V(call):
            return True
    return False


def state_after(F, name, e):
    """The state which the call left behind."""
    for v, i in F.named.items():
        a = single(v)
        if a[1] == e[0] + "!0" and a[2] == e[1]:
            return V(("op", "state", (C(i),)))
    return None


def stream(F, v, cs):
    """A list of the results of doc(), every one of them."""
    def isdoc(x):
        y = pj(x, "Ok", "0")
        z = y and single(y)
        return type(z) is tuple and z[0] == "op" and oname(z) == "doc"
    a = single(v)
    if type(a) is tuple and a[0] == "adt" and a[1] == "array":
        return len(a[3]) == 1 and isdoc(a[3][0])
    if type(a) is tuple and a[0] == "op" and oname(a) == "push!0":
        return isdoc(a[2][1]) and (empty(a[2][0]) or stream(F, a[2][0], cs))
    if type(a) is tuple and a[0] == "op" and a[1] == "phi":
        if not (empty(a[2][2]) or stream(F, a[2][2], cs)):
            return False
        some = False
        for (name, lc), trans in F.loops.items():
            if C(name) != a[2][0]:
                continue
            for tc, mem, ev in trans:
                docs = [("op",) + e for e in ev if oname(("op",) + e) == "doc"]
                for r, (b, w) in mem.items():
                    if b == v:
                        some = True
                        x = isop(w, "push!0")
                        # what is read is kept
                        if not (w == v and not docs or x and x[0] == v and isdoc(x[1]) and len(docs) <= 1):
                            return False
        return some
    return False
