import facts
import flow
import strings
from grammar import *
from preds import Preds

LEVEL = "proof"
PREFIX = ("anchor", "tag", "bound", "forward", "backward", "ws", "text", "food", "indicator", "err")
STILL = ("forward", "text", "food", "indicator")


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    if not g.ok or not all(g.key(m) for m in ("scalar", "scalar_flow", "err", "indicator")):
        return
    rep.rule = ("Provenance dataflow: the position of every node the parser makes is the reading position of the state in which the reading of its value starts, behind nothing but anchor and tag; "
                "every definite error is made with the text and the reading position of that moment; the message is made of the line which holds the position and the offset in it.")
    rep.assume = ["rustc's MIR", "std's split, enumerate, formatting and string functions", "positions are below 2^63 (C01 shows that nothing overflows)"]
    n = nodes(rep, g)
    k = errors(rep, g)
    message(rep, d)
    shown(rep, d)
    rep.floor("nodes made", n, 4)
    rep.floor("errors made", k, 1)
    rep.cov.update(node_cases=n, error_places=k)


def strip(v):
    """Without number casts."""
    while True:
        a = single(v)
        if type(a) is tuple and a[0] == "op" and (a[1].startswith("cast:") or re.search(r"From<u(8|16|32|64|size)>|TryFrom|TryInto|::(into|from|unwrap|try_into|try_from)( <|$)", a[1])) and len(a[2]) == 1:
            v = a[2][0]
            continue
        if type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Ok" and "cast" in str(a[1][1][1]):
            v = V(a[1][1])
            continue
        return v


def linear(v, sign=1, out=None):
    """{atom: factor, 1: constant}"""
    out = {1: 0} if out is None else out
    v = strip(v)
    a = single(v)
    if type(a) is tuple and a[0] == "c" and type(a[1]) is int:
        out[1] += sign * a[1]
    elif type(a) is tuple and a[0] == "op" and len(a[2]) == 2 and re.search(r"^(Add|Sub)|::(add|sub|(saturating|wrapping|unchecked)_(add|sub))( <|$)", a[1]):
        linear(a[2][0], sign, out)
        linear(a[2][1], -sign if re.search(r"^Sub|sub( <|$)", a[1]) else sign, out)
    else:
        k = a if type(a) is tuple else v
        out[k] = out.get(k, 0) + sign
    return out


def lin(v):
    return {k: x for k, x in linear(v).items() if x}


def reading(g, v):
    """The state whose reading position the value is: consumed + pos."""
    l = lin(v)
    at = set()
    for k, x in l.items():
        if x != 1 or type(k) is not tuple:
            return None
        if k[0] == "pj" and k[2] in ("consumed", "pos"):
            at.add((k[2], k[1]))
        elif k[0] == "in" and k[1][-1] in ("consumed", "pos"):
            at.add((k[1][-1], ("in", k[1][:-1])))
        elif k[0] == "op" and oname(k) == "indicator":
            b = single(k[2][0])
            at |= {("pos", b), ("consumed", b)}
        else:
            return None
    if {x for x, _ in at} != {"pos", "consumed"} or len({b for _, b in at}) != 1:
        return None
    return next(b for _, b in at)


def back(g, F, a):
    """The states from the atom back to the beginning: [(call or None, state atom before it)]."""
    out = []
    for _ in range(200):
        x = single(F.unfold(V(a)))
        if type(x) is not tuple:
            return out
        if x[0] == "op" and x[1].endswith("!0") and len(x[2]) >= 1:
            b = single(x[2][0])
            if type(b) is not tuple:
                return out
            out.append((oname(("op", x[1][:-2], x[2])), b))
            a = b
            continue
        if x[0] == "adt" and x[1] in (g.loader, g.parser):
            p = g.part(V(x), "parser") if x[1] == g.loader else g.part(V(x), "pos")
            b = p and single(p)
            if x[1] == g.parser and type(b) is tuple and b[0] in ("pj",) and b[2] == "pos":
                b = b[1]
            elif x[1] == g.parser and type(b) is tuple and b[0] == "in":
                b = ("in", b[1][:-1])
            if type(b) is not tuple:
                return out
            out.append((None, b))
            a = b
            continue
        if x[0] == "pj" and x[2] == "parser":
            out.append((None, x[1]))
            a = x[1]
            continue
        return out
    return out


def canon(g, F, a):
    """The state without the wrapping which does not move."""
    while True:
        x = single(F.unfold(V(a)))
        if type(x) is tuple and x[0] == "adt" and x[1] in (g.loader, g.parser) or type(x) is tuple and x[0] == "pj" and x[2] == "parser":
            l = back(g, F, a)
            if not l or l[0][0] is not None:
                return x
            a = l[0][1]
            continue
        if type(x) is tuple and x[0] == "op" and x[1].endswith("!0") and oname(("op", x[1][:-2], x[2])) in STILL:
            b = single(x[2][0])
            if type(b) is tuple:
                a = b
                continue
        if type(x) is tuple and x[0] == "in" and x[1][-1:] == ("parser",):
            return ("in", x[1][:-1])
        return x


def nodes(rep, g):
    n = 0
    names = [f["name"] for f in g.d["adts"][NODE]["variants"][0]["fields"]]
    for m in [m for m in PUB if m in g.keys]:
        F, rows = g.run(m)
        for cs, x, end, ev in rows:
            o = Ok(x)
            node = o and adt(o, NODE)
            if not node:
                continue
            n += 1
            at = g.where(m)
            pos = node[names.index("pos")]
            src = reading(g, pos)
            if not rep.oblige(src is not None, m + ":position", "%s makes a node with the position %s, which is not a reading position" % (at, show(pos, 120))):
                continue
            # the first thing which is read of the value itself
            first = next((e for e in ev if e[1] and re.search(OWNER, e[0]) and oname(("op",) + e) in g.keys and oname(("op",) + e) not in PREFIX), None)
            if not rep.oblige(first is not None, m + ":value", "%s makes a node without reading anything" % at):
                continue
            s = single(first[1][0])
            ok = s is not None and canon(g, F, s) == canon(g, F, src)
            rep.oblige(ok, m + ":start", "%s takes the position of a node elsewhere than where its value, read by %s, starts (when %s)" % (at, oname(("op",) + first), conds(cs)))
            # the value is not begun before that
            before = [c for c, _ in back(g, F, src) if c]
            rep.oblige(all(c in PREFIX for c in before), m + ":before", "%s takes the position behind %s" % (at, ", ".join(sorted(set(before) - set(PREFIX)))))
    return n


def errors(rep, g):
    """Every definite error is made with the text and the reading position."""
    n = 0
    d = g.d
    made = []
    for k, b in sorted(d["bodies"].items()):
        if not b.get("span", "").startswith("src/") or "repr::" in k:
            continue
        for blk in b.get("blocks", []):
            for s in blk["s"]:
                if not blk["cleanup"] and s["k"] == "assign" and s["rv"]["k"] == "agg" and "PError" in str(s["rv"]) and "Terminate" in str(s["rv"]):
                    made.append(k)
    rep.floor("places which make errors", len(set(made)), 1)
    for k in sorted(set(made)):
        m = next((m for m, x in g.keys.items() if x.split(" <")[0] == k.split(" <")[0]), None)
        at = where(d, k)
        if k.split("::")[-1].startswith("{closure"):
            m = None
        b = d["bodies"][k]
        F = g.flow(m) if m else g.flow()
        S = IN("self")
        own = m and re.search(r"Parser|Loader", b["locals"][1]["ty"])
        if not rep.oblige(bool(own), "error:where", "%s makes a definite error outside of the parser's methods" % at):
            continue
        rows = F.run(k, [S] + [IN("a%d" % i) for i in range(1, b["argc"])]) if not b["locals"][1]["ty"].startswith("&mut") else [(cs, x, None, ev) for cs, x, _, ev in g.run(m)[1]]
        for cs, x, mem, ev in rows:
            e = Err(x)
            t = e and single(e)
            if type(t) is not tuple or t[0] != "adt" or t[2] != "Terminate":
                continue
            n += 1
            msg = isop(t[3][1], "indicated_msg")
            ok = False
            if msg and len(msg) == 2:
                doc, pos = single(msg[0]), single(strip(msg[1]))
                base = lambda a, f: ("in", a[1][:-1]) if type(a) is tuple and a[0] == "in" and a[1][-1] == f else a[1] if type(a) is tuple and a[0] == "pj" and a[2] == f else None
                ok = base(doc, "doc") is not None and base(doc, "doc") == base(pos, "pos")
            rep.oblige(ok, "error:message", "%s makes the message %s" % (at, show(t[3][1], 160)))
            if m == "err":
                rep.oblige(t[3][0] == IN("a1"), "error:name", "%s gives the name %s" % (at, show(t[3][0], 80)))
    # the other fields are private or named: nobody changes them
    return n


def message(rep, d):
    """line:column, the line, and a mark below the column."""
    k = next((k for k in d["bodies"] if re.match(r"^indicator::indicated_msg( <|$)", k)), None)
    if not rep.need(k, "indicated_msg", "the message of a position is missing"):
        return
    at = where(d, k)
    keep = flow.DEPTH
    flow.DEPTH = 24
    try:
        F = strings.Flow(d)
        F.fold = re.compile(r"push_str|write_fmt|write_str|push!|add_assign")
        F.limit, F.parts = 20000, 200
        rows = F.run(k, [IN("doc"), IN("pos")])
        P = Preds(d)
        good = ends = 0
        phis = {}
        for (ln, lc), trans in F.loops.items():
            for tc, mem, ev in trans:
                for r, (b, v) in mem.items():
                    phis.setdefault(single(b), []).append((tc, v))

        def source(a):
            """(phi of the lines, how) when the atom is an item of the lines of the text."""
            num = False
            if type(a) is tuple and a[0] == "pj" and a[2] in ("0", "1") and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "0" and type(a[1][1]) is tuple and a[1][1][0] == "pj" and a[1][1][2] == "Some":
                num, c = a[2], a[1][1][1]
            elif type(a) is tuple and a[0] == "pj" and a[2] == "0" and type(a[1]) is tuple and a[1][0] == "pj" and a[1][2] == "Some":
                num, c = None, a[1][1]
            else:
                return None
            if oname(c) != "next":
                return None
            p = single(c[2][0])
            if type(p) is not tuple or p[1] != "phi" or not all(n == V(("op", c[1] + "!0", c[2])) for _, n in phis.get(p, [])):
                return None
            it, enum = p[2][2], False
            for _ in range(8):
                y = single(F.unfold(it))
                if type(y) is not tuple or y[0] != "op":
                    return None
                if oname(y) in ("into_iter", "by_ref", "iter"):
                    it = y[2][0]
                    continue
                if oname(y) in ("enumerate", "zip"):
                    if enum or oname(y) == "zip":
                        return None
                    enum, it = True, y[2][0]
                    continue
                if oname(y) == "split" and len(y[2]) == 2 and y[2][0] == IN("doc"):
                    f = P.value(F, y[2][1])
                    sure, maybe = P.sat(f) if f is not None else (set(), {0})
                    if set(sure) != {10} or set(maybe) != {10}:
                        return None
                    return p, num if enum else ("1" if num is None else "?")
                return None
            return None

        def counts(v, what):
            """line number, from 1: the number of the item plus 1, or a counter of the turns."""
            l = lin(v)
            c = l.pop(1, 0)
            if len(l) != 1 or list(l.values()) != [1]:
                return False
            a = next(iter(l))
            if type(a) is tuple and a[0] == "op" and a[1] == "phi":
                st = lin(a[2][2])
                return c + st.get(1, 0) == 1 and not set(st) - {1} and all(lin(n) == {a: 1, 1: 1} for _, n in phis.get(a, []))
            s = source(a)
            return s is not None and s[1] == "0" and c == 1

        def within(cs, p, t):
            """What the conditions say about position - length of the line: 'in', 'out' or None."""
            for c, w in cs:
                if type(c) is not tuple or c[0] != "op" or c[1] not in ("Lt", "Le", "Gt", "Ge") or type(w) is not bool:
                    continue
                x, y, o = c[2][0], c[2][1], c[1]
                if o in ("Gt", "Ge"):
                    x, y, o = y, x, {"Gt": "Lt", "Ge": "Le"}[o]
                # x < y  or  x <= y, or not
                if not w:
                    x, y, o = y, x, {"Lt": "Le", "Le": "Lt"}[o]
                l = linear(x)
                linear(y, -1, l)
                k = l[1] + (1 if o == "Lt" else 0)
                l = {a: f for a, f in l.items() if f and a != 1}
                ln = next((a for a in l if type(a) is tuple and a[0] == "op" and oname(a) == "len" and single(a[2][0]) == t), None)
                if set(l) == {p, ln} and ln is not None:
                    if l[p] == 1 and l[ln] == -1 and k == 0:
                        return "in"
                    if l[p] == -1 and l[ln] == 1 and k == 1:
                        return "out"
            return None
        lines = set()
        for cs, x, mem, ev in rows:
            ps = strings.pieces(F, x)
            if ps and all(type(p) is str for p in ps):
                ends += 1
                rep.oblige(any(w == "None" and source(("pj", ("pj", single(c[2][0]), "Some"), "0")) for c, w in cs if type(c) is tuple and c[0] == "op" and c[1].startswith("discr")), "message:end",
                           "%s gives %s when %s" % (at, "".join(ps), conds(cs)))
                continue
            ok = ps is not None and len(ps) == 8 and (ps[1], ps[3], ps[5], ps[7]) == (":", "\n", "\n", "^")
            if not rep.oblige(ok, "message:form", "%s gives %s" % (at, show(x, 200))):
                continue
            s = source(ps[4])
            col = lin(V(ps[2]))
            c = col.pop(1, 0)
            p = next(iter(col)) if len(col) == 1 else None
            good += 1
            rep.oblige(s is not None and s[1] == "1", "message:line", "%s shows %s, which is not a line of the text" % (at, show(V(ps[4]), 120)))
            rep.oblige(counts(V(ps[0]), ps), "message:number", "%s gives the line number %s" % (at, show(V(ps[0]), 120)))
            isphi = type(p) is tuple and p[0] == "op" and p[1] == "phi" and p[2][2] == IN("pos")
            rep.oblige(c == 1 and isphi and col[p] == 1, "message:column", "%s gives the column %s" % (at, show(V(ps[2]), 120)))
            r = ps[6]
            ok = type(r) is tuple and r[0] == "op" and oname(r) == "repeat" and r[2][0] in (C(" "), C(b" ")) and lin(r[2][1]) == {p: 1}
            rep.oblige(ok, "message:mark", "%s puts the mark behind %s" % (at, show(V(r), 120)))
            rep.oblige(within(cs, p, ps[4]) == "in", "message:when", "%s gives a line when %s" % (at, conds(cs)))
            lines.add((p, ps[4]))
        for p, t in lines:
            for tc, v in phis.get(p, []):
                l = lin(v)
                ln = next((a for a in l if type(a) is tuple and a[0] == "op" and oname(a) == "len" and single(a[2][0]) == t), None)
                rep.oblige(ln is not None and l == {p: 1, ln: -1, 1: -1}, "message:next", "%s goes on with the position %s" % (at, show(v, 160)))
                rep.oblige(within(tc, p, t) == "out", "message:pass", "%s passes a line when %s" % (at, conds(tc)))
        rep.floor("messages", good, 1)
        rep.floor("ends of messages", ends, 1)
        # with a path in front
        k = next((k for k in d["bodies"] if re.match(r"^indicator::indicated_msg_file( <|$)", k)), None)
        if rep.need(k, "indicated_msg_file", "the message with a path is missing"):
            F = strings.Flow(d, opaque=[r"::indicated_msg( <|$)"])
            for cs, x, mem, ev in F.run(k, [IN("path"), IN("doc"), IN("pos")]):
                ps = strings.pieces(F, x)
                m = ps and len(ps) == 3 and type(ps[2]) is tuple and isop(V(ps[2]), "indicated_msg")
                rep.oblige(bool(m) and ps[:2] == [("in", ("path",)), ":"] and m == (IN("doc"), IN("pos")), "message:file", "%s gives %s" % (where(d, k), show(x, 200)))
    finally:
        flow.DEPTH = keep


def shown(rep, d):
    """An error shows what is wrong and where."""
    k = next((k for k in d["bodies"] if re.match(r"^<parser::error::PError as std::fmt::Display>::fmt( <|$)", k)), None)
    if not rep.need(k, "error text", "the parser's error has no text"):
        return
    F = strings.Flow(d)
    seen = 0
    for cs, x, mem, ev in F.run(k, [IN("self"), IN("f")]):
        v = next((w for c, w in cs if c == ("op", "discr", (IN("self"),))), None)
        if v != "Terminate":
            continue
        seen += 1
        s = str(x)
        rep.oblige(str(("in", ("self", "Terminate", "name"))) in s and str(("in", ("self", "Terminate", "msg"))) in s, "error:text", "%s writes %s" % (where(d, k), show(x, 200)))
    rep.floor("error texts", seen, 1)
