import facts
import flow
from grammar import *
from strings import *
from preds import Preds

LEVEL = "proof"
FOLD = r"write_fmt|write_str|write_char|push_str|push!|add_assign|extend|dump( <|$)|format$|truncate|::add( <|$)|Arguments"
SAMEITEMS = ("iter", "into_iter", "deref", "as_slice", "by_ref", "enumerate", "as_ref", "borrow", "peekable", "fuse")
KEY, TAG, IND, VAL, BAD, NEST = "\ue000", "\ue001", "\ue002", "\ue003", "\ue004", 0xe010


def check(rep):
    d = facts.extract("all")
    m = Serde(rep, d)
    if not m.ok:
        return
    rep.rule = ("Provenance and loop-effect dataflow of dumping, per kind of node and place: the loop over the items goes over the node's own collection to its end, and each "
                "turn adds the dump of exactly its item, one level deeper, between the signs of that collection, at the indentation of the level; the anchor which the table has "
                "for a node, and its tag unless it is a default one, are written before it; each document is dumped once, with its own table, after its separator.")
    rep.assume = ["rustc's MIR", "std's iterators, formatting and string functions", "scalars are C24"]
    k = next((k for k in d["bodies"] if re.match(r"^dumper::Dumper::<'a, R>::dump( <R>|$)", k)), None)
    adt = next((a for a in d["adts"] if re.search(r"dumper::Dumper$", a)), None)
    if not rep.need(k and adt, "dump", "the dumper is missing"):
        return
    keep = flow.DEPTH
    flow.DEPTH = 24
    try:
        Dump(rep, d, m, k, adt).run()
    finally:
        flow.DEPTH = keep


class Dump:
    def __init__(self, rep, d, m, k, adt):
        self.rep, self.d, self.m, self.k, self.adt = rep, d, m, k, adt
        self.at = where(d, k)
        fs = d["adts"][adt]["variants"][0]["fields"]
        self.names = [f["name"] for f in fs]
        pick = lambda p: next((f["name"] for f in fs if re.search(p, f["ty"])), None)
        self.node, self.anchors, self.level = pick(r"^&[^\[]*node::Node<(?!.*Map)"), pick(r"Map<|Anchors"), pick(r"^usize$")
        self.root = next((f["name"] for f in fs if f["name"] not in (self.node, self.anchors, self.level)), None)
        self.n = {}
        self.tests = self.predicates()

    def predicates(self):
        """Functions of a node which say whether it starts lines of its own."""
        out = []
        for k, b in self.d["bodies"].items():
            ls = b["locals"]
            if not re.match(r"^dumper::", k) or b["closure"] or b["argc"] != 1 or ls[0]["ty"] != "bool" or not re.search(r"^&[^\[]*(node::Node<|yaml::Yaml<)", ls[1]["ty"]):
                continue
            it = ("in", ("x",) + ((self.m.yaml,) if "node::Node<" in ls[1]["ty"] else ()))
            y, good = ("in", ("node", self.m.yaml)), True
            for cs, x, mem, ev in self.flow().run(k, [IN("node") if len(it[1]) == 2 else V(y)]):
                n = self.nature(cs, ("in", ("node",)), y)
                r = single(x)
                if type(r) is tuple and r[0] == "op" and r[1] == "!":
                    r = single(r[2][0])
                    neg = True
                else:
                    neg = False
                good &= r == ("c", n in ("Seq", "Map")) and n is not None or neg and n is None and self.emptiness(cs, r, y)
            if good:
                out.append((re.sub(r" <.*$", "", k), len(it[1]) == 2))
        return sorted(set(out))

    def emptiness(self, cs, r, y):
        """is_empty of the collection which is known to be there."""
        return any(type(c) is tuple and c[0] == "op" and c[1] == "discr" and single(c[2][0]) == y and w in ("Seq", "Map") and type(r) is tuple and r[0] == "op"
                   and oname(r) == "is_empty" and single(r[2][0]) in (("pj", ("pj", y, w), "0"), ("in", y[1] + (w, "0"))) for c, w in cs)

    def flow(self):
        F = Flow(self.d, opaque=[r"Parser::<[^<>]*>::(?!new\b)\w+|Parser<[^<>]*>>::(?!new\b)\w+", r"Loader", r"^parser::parse( <|$)", r"^dumper::Dumper::<.*>::dump( <|$)",
                                 r"^dumper::(quote|is_plain)\b", r"Node(::)?<.*>::tag( <|$)|PartialEq.*::(eq|ne)\b.*Node"]
                 + ["^%s( <|$)" % re.escape(n) for n, _ in getattr(self, "tests", ())])
        F.limit, F.parts, F.maxconds = 200000, 2000, 80
        F.fold = re.compile(FOLD)
        return F

    def run(self):
        rep = self.rep
        if not rep.need(self.node and self.anchors and self.level, "Dumper", "the parts of the dumper are not recognised"):
            return
        rt = next((f["ty"] for f in self.d["adts"][self.adt]["variants"][0]["fields"] if f["name"] == self.root), None)
        roots = [v["name"] for v in self.d["adts"][rt]["variants"]] if rt in self.d["adts"] else [None]
        self.roots = roots
        rows = {}
        for kind in ("Seq", "Map"):
            for root in roots:
                F = self.flow()
                F.place = {("self", self.node, self.m.yaml): kind, ("self", self.node): kind}
                if root:
                    F.place[("self", self.root)] = root
                rows[kind, root] = F, F.run(self.k, [IN("self")], F.place)
        # where the first key goes to a new line
        self.fresh = {r for (kd, r), (F, rs) in rows.items() if kd == "Map" and all(self.start(F, b) == "\n" for b in self.buffers(F, kd, r))}
        for (kd, r), (F, rs) in rows.items():
            self.kind(F, kd, r, rs)
        for kind in ("Null", "Bool", "Int", "Float", "Str", "Alias"):
            F = self.flow()
            rs = F.run(self.k, [IN("self")], {("self", self.node, self.m.yaml): kind, ("self", self.node): kind})
            for cs, x, mem, ev in rs:
                rest, _ = self.prefix(F, kind, cs, x)
                if kind == "Str" and rest.startswith("|"):
                    self.lines(F, x, rest)
        self.documents()
        for w, n in (("prefix", 30), ("turn Seq", 2), ("turn Map", 6), ("end", 4), ("lines", 1), ("document", 2)):
            rep.floor(w, self.n.get(w, 0), n)
        rep.cov.update({w.replace(" ", "_"): n for w, n in self.n.items()})
        rep.samples = ["%s: %d" % x for x in sorted(self.n.items())]

    def count(self, w):
        self.n[w] = self.n.get(w, 0) + 1

    # ------------------------------------------------------------ text
    def text(self, F, v):
        """The text with a private character for each value in it, and those values."""
        ps = pieces(F, v)
        if ps is None:
            return None, []
        out, vs = "", []
        for p in ps:
            if type(p) is str:
                out += p
                continue
            a = single(F.unfold(V(p)))
            a = p if a is None else a
            if self.isdump(a):
                c = chr(NEST + len(vs))
                vs.append(a)
            elif a[0] == "op" and oname(a) == "repeat" and single(a[2][0]) == ("c", "  ") and len(a[2]) == 2:
                lv = self.lev(a[2][1])
                c = BAD if lv is None else IND * 1 if lv == 0 else "  " * 0 + IND + "  " * lv
            elif self.istag(a):
                c = TAG
            elif self.anchor(F, a):
                c = KEY
            else:
                c = VAL
            out += c
        return out, vs

    def lev(self, v):
        """How much deeper than the own level."""
        a = single(v)
        if a == ("in", ("self", self.level)):
            return 0
        if type(a) is tuple and a[0] == "op" and a[1] == "Add":
            for i in (0, 1):
                c = single(a[2][1 - i])
                if single(a[2][i]) == ("in", ("self", self.level)) and type(c) is tuple and c[0] == "c" and type(c[1]) is int:
                    return c[1]
        return None

    def isdump(self, a):
        return type(a) is tuple and a[0] == "op" and re.match(r"^dumper::Dumper::<.*>::dump( <|$)", a[1])

    def parts(self, F, a):
        x = single(F.unfold(a[2][0]))
        return dict(zip(self.names, x[3])) if type(x) is tuple and x[0] == "adt" and x[1] == self.adt else None

    def istag(self, a):
        return a == ("in", ("self", self.node, "tag")) or a[0] == "op" and oname(a) == "tag" and single(a[2][0]) == ("in", ("self", self.node))

    # ------------------------------------------------------------ anchors
    def anchor(self, F, a):
        """The key under which the table holds the node: of a search, or of the turn which ended a loop."""
        if type(a) is not tuple or a[0] != "pj":
            return False
        for _ in range(3):
            if a[2] == "Some":
                break
            a = a[1]
            if type(a) is not tuple or a[0] != "pj":
                return False
        return bool(self.search(F, a[1]))

    def search(self, F, a):
        """A search of the whole table for the node: 'key' if it gives the key, 'pair' if it gives the entry."""
        a = single(F.unfold(V(a)))
        if type(a) is not tuple or a[0] != "op" or oname(a).split("!")[0] not in ("find_map", "find") or len(a[2]) != 2:
            return None
        it = self.source(F, a[2][0])
        if it != ("in", ("self", self.anchors)):
            return None
        E = V(("in", ("entry",)))
        got = set()
        for cs, x in self.flow().runv(a[2][1], [IN("entry")]):
            eq = [w for c, w in cs if self.same(F, c)]
            x1 = single(x)
            if oname(a).startswith("find_map"):
                y = x1[3][0] if type(x1) is tuple and x1[0] == "adt" and x1[2] == "Some" else None
                if type(x1) is not tuple or x1[0] != "adt":
                    return None
                got.add((x1[2] == "Some", tuple(eq), y is None or single(y) == ("in", ("entry", "0"))))
            elif x1 in (("c", True), ("c", False)):
                got.add((x1[1], tuple(eq), True))
            elif self.same(F, x1):
                got |= {(True, (True,), True), (False, (False,), True)}
            else:
                return None
        return "key" if got == {(True, (True,), True), (False, (False,), True)} else None

    def same(self, F, c):
        """The comparison of an entry with the node."""
        if type(c) is not tuple or c[0] != "op" or oname(c) not in ("eq", "ne") or len(c[2]) != 2:
            return False
        xs = {single(x) for x in c[2]}
        return oname(c) == "eq" and xs == {("in", ("entry", "1")), ("in", ("self", self.node))}

    def source(self, F, v):
        """What an iteration goes over, all of it, in order."""
        for _ in range(12):
            a = single(F.unfold(v))
            if type(a) is not tuple:
                return None
            if a[0] == "op" and len(a[2]) == 1 and oname(a) in SAMEITEMS:
                v = a[2][0]
            elif a[0] == "op" and a[1] == "phi":
                v = a[2][2]
            else:
                return a
        return None

    # ------------------------------------------------------------ a node
    def prefix(self, F, kind, cs, x):
        """The anchor and the tag before a value. Gives the text after them."""
        rep, at = self.rep, self.at
        t, vs = self.text(F, x)
        self.count("prefix")
        if not rep.oblige(t is not None, "%s:text" % kind, "%s writes %s for a %s" % (at, show(x, 120), kind)):
            return "", []
        g = re.match("(?:&%s )?(?:!%s |!<%s> )?" % (KEY, TAG, TAG), t).group(0)
        h = re.match("(?:!%s |!<%s> )?(?:&%s )?" % (TAG, TAG, KEY), t).group(0)
        g = max(g, h, key=len)
        rest = t[len(g):]
        rep.oblige(KEY not in rest and TAG not in rest, "%s:prefix" % kind, "%s writes a part of the anchor or tag which reading does not understand, before a %s" % (at, kind))
        found = {w for c, w in cs if type(c) is tuple and c[0] == "op" and c[1] == "discr" and self.search(F, single(c[2][0])) for w in [w]}
        rep.oblige(found == ({"Some"} if KEY in g else {"None"}), "%s:anchor" % kind, "%s writes %s anchor before a %s when the document's table %s" % (
            at, "an" if KEY in g else "no", kind, "does not say that it holds this node" if KEY in g else "may hold this node"))
        plain = False
        for c, w in cs:
            if type(c) is tuple and c[0] == "op" and w is True and any(self.istag(single(y)) for y in c[2] if type(single(y)) is tuple):
                o = oname(c)
                plain |= o == "is_empty" or o == "eq" and V(("c", "")) in c[2] or o == "starts_with" and single(c[2][1]) == ("c", "tag:yaml.org,2002:")
        rep.oblige((TAG in g) != plain, "%s:tag" % kind, "%s writes %s tag before a %s when %s" % (at, "the" if TAG in g else "no", kind, conds(cs)))
        if "!" + TAG in g:
            ok = any(type(c) is tuple and re.search("identifier", str(c)[:6000]) and w in ("Ok", True) for c, w in cs)
            rep.oblige(ok, "%s:handle" % kind, "%s writes a tag in the short form without knowing that it can be read like that" % at)
        return rest, vs

    def payload(self, kind):
        return ("in", ("self", self.node, self.m.yaml, kind, "0"))

    def buffers(self, F, kind, root):
        """The collected texts of the loops over the items."""
        out = set()
        for (ln, lc), trans in F.loops.items():
            for tc, mem, ev in trans:
                if self.turn(F, kind, tc) and self.possible(frozenset(tc) | frozenset(lc), root):
                    out |= {b for r, (b, v) in mem.items() if type(single(b)) is tuple and single(b)[0] == "op" and single(b)[1] == "phi" and single(b)[2][0] == C(ln)
                            and self.text(F, single(b)[2][2])[0] is not None and not self.isiter(F, b) and not self.flag(F, b)}
        return out

    def flag(self, F, b):
        a = single(single(b)[2][2])
        return type(a) is tuple and a[0] == "c" and type(a[1]) in (bool, int)

    def isiter(self, F, b):
        a = self.source(F, b)
        return a is not None and a[0] == "in"

    def start(self, F, b):
        return self.text(F, single(b)[2][2])[0]

    def turn(self, F, kind, cs):
        """The item of a turn, when the loop goes over the node's own items."""
        for c, w in (cs.items() if hasattr(cs, "items") else cs):
            if type(c) is tuple and c[0] == "op" and c[1] == "discr" and w == "Some":
                a = single(F.unfold(c[2][0]))
                if type(a) is tuple and a[0] == "op" and oname(a) == "next" and self.source(F, a[2][0]) == self.payload(kind):
                    return a
        return None

    def member(self, F, nx):
        """How deep the item is in what the iterator gives."""
        v, path = nx[2][0], []
        for _ in range(12):
            a = single(F.unfold(v))
            if a[0] == "op" and len(a[2]) == 1:
                if oname(a) == "enumerate":
                    path = ["1"]
                v = a[2][0]
            elif a[0] == "op" and a[1] == "phi":
                v = a[2][2]
            else:
                break
        return path

    def kind(self, F, kind, root, rows):
        rep, at = self.rep, self.at
        bufs = self.buffers(F, kind, root)
        # line ends before each turn but the first, or behind each turn
        before = set()
        for t in F.loops.values():
            for tc, mem, ev in t:
                for b, v in mem.values():
                    if b in bufs and v != b:
                        x = self.text(F, v)[0]
                        if x is not None and not x.endswith("\n"):
                            before.add(b)
        rows = [r for r in rows if self.possible(r[0], root)]
        for cs, x, mem, ev in rows:
            rest, vs = self.prefix(F, kind, cs, x)
            empty = self.none(cs, self.payload(kind))
            if empty is True:
                rep.oblige(rest == ("[]" if kind == "Seq" else "{}"), "%s:empty" % kind, "%s writes %r for an empty %s" % (at, rest, kind))
                continue
            self.count("end")
            rep.oblige(empty is False, "%s:maybe" % kind, "%s writes a %s which may be empty like one with items (when %s)" % (at, kind, conds(cs)))
            ps = pieces(F, x)
            a = single(F.unfold(V(ps[-1]))) if ps and type(ps[-1]) is tuple else None
            rep.oblige(rest == VAL and a is not None and (V(a) in before if before else self.shortened(F, a) in bufs), "%s:end" % kind, "%s does not end with what was put together of the items of a %s, but with %s"
                       % (at, kind, show(V(a), 150) if a else rest))
            over = [w for c, w in cs if type(c) is tuple and c[0] == "op" and c[1] == "discr" for y in [single(F.unfold(c[2][0]))]
                    if type(y) is tuple and y[0] == "op" and oname(y) == "next" and self.source(F, y[2][0]) == self.payload(kind)]
            rep.oblige(over == ["None"], "%s:all" % kind, "%s may stop before the last item of a %s" % (at, kind))
        done = set()
        for (ln, lc), trans in F.loops.items():
            for tc, mem, ev in trans:
                nx = self.turn(F, kind, tc)
                if nx is None:
                    continue
                item = ("pj", ("pj", nx, "Some"), "0")
                for p in self.member(F, nx):
                    item = ("pj", item, p)
                for r, (b, v) in mem.items():
                    if b in bufs and self.possible(frozenset(tc) | frozenset(lc), root):
                        done.add(b)
                        self.count("turn " + kind)
                        t, vs = self.text(F, v)
                        if rep.oblige(t is not None and v != b, "%s:turn" % kind, "%s makes %s of the text in a turn" % (at, show(v, 150))):
                            if b in before:
                                one = self.first(F, tc, item)
                                nl = t.startswith(VAL + "\n")
                                if not rep.oblige(one is not None and nl != one and not t.endswith("\n"), "%s:lines" % kind, "%s writes %r in %s turn" % (
                                        at, t, "the first" if one else "a later" if one is False else "any")):
                                    continue
                                t = VAL + t[len(VAL) + nl:] + "\n"
                            (self.seq if kind == "Seq" else self.map)(F, root, tc, item, t, vs, self.start(F, b))
        for b in bufs:
            rep.oblige(self.start(F, b) in ("", "\n"), "%s:start" % kind, "%s starts a %s with %r" % (at, kind, self.start(F, b)))
        rep.oblige(bufs and bufs == done, "%s:loop" % kind, "%s has no loop which goes over the items of a %s" % (at, kind))

    def shortened(self, F, a):
        """The text of which at most the last line break was removed."""
        if a[0] == "op" and oname(a) == "truncate!0":
            n = single(a[2][1])
            if type(n) is tuple and n[0] == "op" and n[1] == "Sub":
                l, x = single(n[2][0]), single(n[2][1])
                one = x == ("c", 1) or type(x) is tuple and x[0] == "op" and oname(x) == "len" and single(x[2][0]) == ("c", "\n")
                if one and type(l) is tuple and l[0] == "op" and oname(l) == "len" and l[2][0] == a[2][0]:
                    return a[2][0]
            return None
        if a[0] == "op" and oname(a) == "index" and len(a[2]) == 2:
            u = single(a[2][1])
            n = single(u[3][0]) if type(u) is tuple and u[0] == "adt" and u[1].endswith("RangeTo") else None
            if type(n) is tuple and n[0] == "op" and n[1] == "Sub":
                l, x = single(n[2][0]), single(n[2][1])
                one = x == ("c", 1) or type(x) is tuple and x[0] == "op" and oname(x) == "len" and single(x[2][0]) == ("c", "\n")
                if one and type(l) is tuple and l[0] == "op" and oname(l) == "len" and l[2][0] == a[2][0]:
                    return a[2][0]
            return None
        if a[0] == "op" and oname(a) in ("pop!0", "trim_end") and len(a[2]) == 1:
            return a[2][0]
        return V(a)

    def none(self, cs, a):
        """Whether a collection is known to be empty or not."""
        for c, w in (cs.items() if hasattr(cs, "items") else cs):
            if type(c) is tuple and c[0] == "op" and oname(c) == "is_empty" and single(c[2][0]) == a:
                return w
            if type(c) is tuple and c[0] == "op" and c[1] == "eq" and C(0) in c[2]:
                o = single(c[2][0] if c[2][1] == C(0) else c[2][1])
                if type(o) is tuple and o[0] == "op" and oname(o) == "len" and single(o[2][0]) == a:
                    return w
            if type(c) is tuple and c[0] == "op" and c[1] == "discr" and w in ("Some", "None"):
                o = single(c[2][0])
                if type(o) is tuple and o[0] == "op" and oname(o) in ("first", "last", "front", "back"):
                    o = single(o[2][0])
                    if o == a:
                        return w == "None"
                elif type(o) is tuple and o[0] == "op" and oname(o) == "next" and oname(single(o[2][0]) or ("op", "")) in ("iter", "keys", "values", "into_iter") and single(single(o[2][0])[2][0]) == a:
                    return w == "None"
        return None

    def nature(self, cs, item, y=None):
        """'inline', or the kind of a value which starts lines of its own ('block' if one or the other), or None."""
        y = y or ("pj", item, self.m.yaml)
        cs = list(cs.items() if hasattr(cs, "items") else cs)
        kinds = [w for c, w in cs if type(c) is tuple and c[0] == "op" and c[1] == "discr" and single(c[2][0]) == y and type(w) is str]
        kind = kinds[0] if kinds else None
        known = [w for c, w in cs for n, whole in getattr(self, "tests", ()) if type(c) is tuple and c[0] == "op" and re.sub(r" <.*$", "", c[1]) == n
                 and single(c[2][0]) == (item if whole else y)]
        if kind in ("Null", "Bool", "Int", "Float", "Str", "Alias"):
            return "never" if True in known else "inline"
        if len(set(known)) > 1:
            return "never"
        e = None
        if kind in ("Seq", "Map"):
            e = [self.none(cs, z) for z in (("pj", ("pj", y, kind), "0"), ("in", y[1] + (kind, "0")))]
            e = True if True in e else False if False in e else None
        if known and kind in ("Seq", "Map") and e is not None and set(known) == {e}:
            return "never"
        if known == [False] or e is True or kinds and not kind.startswith("#") and kind not in ("Seq", "Map"):
            return "inline"
        if known == [True] or e is False:
            return kind if kind in ("Seq", "Map") else "block"
        return None

    def nested(self, F, key, a, item, what):
        """The dump of exactly the item, one level deeper."""
        rep, at = self.rep, self.at
        p = self.parts(F, a)
        if not rep.oblige(p is not None, key + ":nested", "%s dumps %s" % (at, show(a[2][0], 120))):
            return None
        rep.oblige(single(p[self.node]) == item, key + ":item", "%s writes %s where the %s of this turn belongs" % (at, show(p[self.node], 150), what))
        rep.oblige(single(p[self.anchors]) == ("in", ("self", self.anchors)), key + ":anchors", "%s dumps a %s with another anchor table" % (at, what))
        return p

    def first(self, F, cs, nx_item):
        """Whether it is known that this is the first turn, or not the first."""
        i = nx_item[1] if nx_item[0] == "pj" and nx_item[2] == "1" else None
        for c, w in (cs.items() if hasattr(cs, "items") else cs):
            if type(c) is tuple and c[0] == "op" and c[1] == "eq" and C(0) in c[2] and i is not None and single(c[2][0] if c[2][1] == C(0) else c[2][1]) == ("pj", i, "0"):
                return w
            if type(c) is tuple and c[0] == "op" and c[1] == "phi" and single(c[2][2]) in (("c", True), ("c", False)) and type(w) is bool:
                ini = single(c[2][2])[1]
                new = {v for t in F.loops.values() for tc, mem, ev in t for b, v in mem.values() if single(b) == c}
                if new == {C(not ini)}:
                    return w == ini
            if type(c) is tuple and c[0] == "op" and oname(c) == "is_empty":
                o = single(c[2][0])
                if type(o) is tuple and o[0] == "op" and o[1] == "phi" and not self.isiter(F, c[2][0]) and self.text(F, o[2][2])[0] == "":
                    return w
        return None

    def top(self, cs):
        """Known to be at the outermost level."""
        lv = ("in", ("self", self.level))
        return any(type(c) is tuple and c[0] == "op" and c[1] == "eq" and C(0) in c[2] and lv in (single(c[2][0]), single(c[2][1])) and w is True for c, w in cs)

    def possible(self, cs, root):
        """The conditions on the place go with the place."""
        me, i = ("in", ("self", self.root)), self.roots.index(root)
        for c, w in (cs.items() if hasattr(cs, "items") else cs):
            if type(c) is tuple and c[0] == "op" and c[1] == "discr" and single(c[2][0]) == me and w in self.roots and w != root:
                return False
            if type(c) is tuple and c[0] == "op" and c[1] == "eq" and w in (True, False):
                for x, y in (c[2], c[2][::-1]):
                    x, y = single(x), single(y)
                    if type(x) is tuple and x[0] == "c" and type(x[1]) is int and type(y) is tuple and me in [single(z) for z in y[-1] if type(z) is frozenset]:
                        if (x[1] == i) != w:
                            return False
        return True

    def seq(self, F, root, cs, item, t, vs, start):
        rep, at = self.rep, self.at
        g = re.match("^%s(%s?)- (.)\n$" % (VAL, IND), t, re.S)
        if not rep.oblige(g and len(vs) == 1 and g.group(2) == chr(NEST), "Seq:form", "%s adds %r in a turn over a Seq, with %d dumped nodes" % (at, t, len(vs))):
            return
        rep.oblige(g.group(1) or self.top(cs), "Seq:indent", "%s does not indent an item of a Seq which may be inside another" % at)
        p = self.nested(F, "Seq", vs[0], item, "item")
        if p:
            rep.oblige(self.lev(p[self.level]) == 1, "Seq:level", "%s dumps an item of a Seq at level %s" % (at, show(p[self.level], 60)))

    def map(self, F, root, cs, item, t, vs, start):
        rep, at = self.rep, self.at
        key, val = ("pj", item, "0"), ("pj", item, "1")
        g = re.match("^%s(%s?)(\\?[ %s]*\n)?(.)(\n%s)?:( ?)(.)\n$" % (VAL, IND, IND, IND), t, re.S)
        if not rep.oblige(g and len(vs) == 2 and g.group(3) == chr(NEST) and g.group(6) == chr(NEST + 1), "Map:form", "%s adds %r in a turn over a Map, with %d dumped nodes" % (
                at, t, len(vs))):
            return
        k, v = self.nested(F, "Map:key", vs[0], key, "key"), self.nested(F, "Map:value", vs[1], val, "value")
        nk, nv = self.nature(cs, key), self.nature(cs, val)
        if "never" in (nk, nv):
            return
        one = self.first(F, cs, item)
        inl = start == "" and root not in self.fresh
        rep.oblige(not g.group(1) if inl and one is True else bool(g.group(1)) and (one is False or not inl), "Map:indent",
                   "%s %s a key of a Map %s" % (at, "indents" if g.group(1) else "does not indent", "which begins on its line" if inl and one is True else "which begins a line"))
        rep.oblige(bool(g.group(2)) == bool(g.group(4)) and (nk in ("Seq", "Map", "block") if g.group(2) else nk == "inline"), "Map:complex",
                   "%s writes a key %s the question mark where it is %s" % (at, "with" if g.group(2) else "without", nk or "not known whether it has lines of its own"))
        rep.oblige(nv == "inline" if g.group(5) else nv in ("Seq", "Map", "block"), "Map:blank", "%s writes %s blank between the colon and a value where it is %s" % (
            at, "a" if g.group(5) else "no", nv or "not known whether it has lines of its own"))
        for p, n, w in ((k, nk, "key"), (v, nv, "value")):
            if p is None:
                continue
            lv = self.lev(p[self.level])
            rep.oblige(lv == 1 or lv == 0 and n == "Seq" and w == "value", "Map:level:" + w, "%s dumps a %s of a Map at level %s" % (at, w, show(p[self.level], 60)))
            r = single(p[self.root])
            if n != "inline":
                rep.oblige(n == "Seq" or type(r) is tuple and r[0] == "adt" and r[2] in self.fresh, "Map:line:" + w, "%s does not let a Map begin a line where it is the %s of a Map" % (at, w))

    def lines(self, F, x, rest):
        """A text of several lines: each of them, indented, up to blanks at the ends."""
        rep, at = self.rep, self.at
        self.count("lines")
        ps = pieces(F, x)
        a = single(F.unfold(V(ps[-1]))) if type(ps[-1]) is tuple else None
        cut = False
        while type(a) is tuple and a[0] == "op" and oname(a) in ("trim", "trim_start", "trim_end") and len(a[2]) == 1:
            cut |= oname(a) != "trim_end"
            a = single(F.unfold(a[2][0]))
        ok = type(a) is tuple and a[0] == "op" and oname(a) == "join" and single(a[2][1]) == ("c", "\n")
        f = None
        if ok:
            v = a[2][0]
            for _ in range(5):
                b = single(F.unfold(v))
                if type(b) is not tuple or b[0] != "op" or oname(b) == "map":
                    break
                v = b[2][0] if oname(b) in SAMEITEMS + ("collect", "from_iter", "into") and len(b[2]) == 1 else V("?")
            f = b[2] if type(b) is tuple and b[0] == "op" and oname(b) == "map" else None
        src = self.source(F, f[0]) if f else None
        ok = type(src) is tuple and src[0] == "op" and oname(src) == "lines" and single(src[2][0]) == self.payload("Str")
        if not rep.oblige(ok, "lines:all", "%s does not write all the lines of a string of several lines, but %s" % (at, show(V(ps[-1]), 150) if type(ps[-1]) is tuple else rest)):
            return
        rep.oblige(re.match("^\\|[-+]?\n%s$" % (IND + VAL if cut else VAL), rest), "lines:form", "%s writes %r before the lines" % (at, rest[:-1]))
        for cs, y in F.runv(f[1], [IN("line")]):
            t, ln = pieces(F, y), ("in", ("line",))
            empty = any(type(c) is tuple and c[0] == "op" and oname(c) == "is_empty" and single(c[2][0]) == ln and w is True for c, w in cs)
            t = t or []
            if empty and not t:
                continue
            z = t[-1] if t else None
            while type(z) is tuple and z[0] == "op" and oname(z) == "trim_end" and len(z[2]) == 1:
                z = single(z[2][0])
            ind = t[0] if len(t) == 2 else None
            good = z == ln and type(ind) is tuple and ind[0] == "op" and oname(ind) == "repeat" and self.lev(ind[2][1]) in (0, 1)
            rep.oblige(good, "lines:line", "%s writes %s for a line of a string" % (at, show(y, 120)))

    # ------------------------------------------------------------ documents
    def documents(self):
        rep, d = self.rep, self.d
        k = next((k for k in d["bodies"] if re.match(r"^dumper::dump( <R>|$)", k)), None)
        if not rep.need(k, "dumper::dump", "the entry point of dumping is missing"):
            return
        at = where(d, k)
        F = self.flow()
        nodes = ("in", ("nodes",))
        for cs, x, mem, ev in F.run(k, [IN("nodes"), IN("anchors")]):
            a = single(F.unfold(x))
            f = None
            for _ in range(4):
                if type(a) is not tuple or a[0] != "op":
                    break
                if oname(a) == "map" and len(a[2]) == 2:
                    f = a[2]
                    break
                if oname(a) not in ("collect", "concat", "from_iter", "into", "as_ref") and not (oname(a) == "fold" or oname(a).endswith("!0")):
                    break
                a = single(F.unfold(a[2][0]))
            if f is not None:
                # a text for each of them, put behind each other
                if rep.oblige(self.source(F, f[0]) == nodes, "documents:all", "%s does not go over all the nodes in order, but %s" % (at, show(f[0], 100))):
                    y = IN("turn")
                    path = self.steps(F, f[0])
                    for cs2, t in F.runv(f[1], [y]):
                        self.document(F, at, cs2, t, ("in", ("turn",) + tuple(path)), ("in", ("turn", "0")) if path else None, "")
                continue
            n = 0
            for (ln, lc), trans in F.loops.items():
                for tc, mem2, ev2 in trans:
                    nx = next((y for c, w in (tc.items() if hasattr(tc, "items") else tc) if type(c) is tuple and c[0] == "op" and c[1] == "discr" and w == "Some"
                               for y in [single(F.unfold(c[2][0]))] if type(y) is tuple and y[0] == "op" and oname(y) == "next" and self.source(F, y[2][0]) == nodes), None)
                    if nx is None:
                        continue
                    item = ("pj", ("pj", nx, "Some"), "0")
                    for r, (b, v) in mem2.items():
                        z = single(b)
                        if type(z) is tuple and z[0] == "op" and z[1] == "phi" and not self.isiter(F, b) and V(a) == b and self.text(F, z[2][2])[0] is not None:
                            n += 1
                            path = self.member(F, nx)
                            it = item
                            for q in path:
                                it = ("pj", it, q)
                            self.document(F, at, tc, v, it, ("pj", item, "0") if path else None, self.text(F, z[2][2])[0] + VAL)
            over = [w for c, w in cs if type(c) is tuple and c[0] == "op" and c[1] == "discr" for y in [single(F.unfold(c[2][0]))]
                    if type(y) is tuple and y[0] == "op" and oname(y) == "next" and self.source(F, y[2][0]) == nodes]
            rep.oblige(n > 0 and over == ["None"], "documents:all", "%s does not put the dumps of all nodes behind each other, but gives %s" % (at, show(x, 120)))

    def steps(self, F, v):
        path = []
        for _ in range(12):
            a = single(F.unfold(v))
            if type(a) is not tuple or a[0] != "op" or len(a[2]) != 1:
                break
            if oname(a) == "enumerate":
                path = ["1"]
            v = a[2][0]
        return path

    def whole(self, F, v):
        """The text; blanks at the start of a dump may be left out."""
        ps = pieces(F, v)
        if ps is None:
            return None, []
        out, vs = "", []
        for p in ps:
            if type(p) is not str:
                a = single(F.unfold(V(p))) or p
                if a[0] == "op" and oname(a) == "trim_start" and len(a[2]) == 1:
                    t, w = self.whole(F, a[2][0])
                    if t is None:
                        return None, []
                    p = "".join(chr(ord(c) + len(vs)) if ord(c) >= NEST and ord(c) < NEST + 99 else c for c in t)
                    vs += w
                elif self.isdump(a):
                    p = chr(NEST + len(vs))
                    vs.append(a)
                else:
                    p = VAL
            out += p
        return out, vs

    def document(self, F, at, cs, v, node, i, before):
        rep = self.rep
        self.count("document")
        cs = list(cs.items() if hasattr(cs, "items") else cs)
        t, vs = self.whole(F, v)
        if not rep.oblige(t is not None and t.startswith(before) and len(vs) == 1, "document:text", "%s writes %s for a document" % (at, show(v, 150))):
            return
        t = t[len(before):]
        first = any(type(c) is tuple and c[0] == "op" and c[1] == "eq" and w is True and C(0) in c[2] and i is not None and V(i) in c[2] for c, w in cs)
        one = chr(NEST) + "\n"
        rep.oblige(t in ("---\n" + one, "--- " + one) or first and t == one, "document:form", "%s writes %r for a document which %s the first" % (at, t, "is" if first else "may not be"))
        p = self.parts(F, vs[0])
        if not rep.oblige(p is not None, "document:dump", "%s dumps %s" % (at, show(vs[0][2][0], 120))):
            return
        rep.oblige(single(p[self.node]) == node, "document:node", "%s writes %s for a document" % (at, show(p[self.node], 100)))
        rep.oblige(single(p[self.level]) == ("c", 0), "document:level", "%s starts a document at level %s" % (at, show(p[self.level], 60)))
        tab, A = single(p[self.anchors]), IN("anchors")
        has = None
        for c, w in cs:
            if type(c) is tuple and c[0] == "op" and i is not None:
                if c[1] in ("lt", "Lt") and c[2][0] == V(i) and type(single(c[2][1])) is tuple and single(c[2][1])[0] == "op" and oname(single(c[2][1])) == "len" and single(c[2][1])[2][0] == A:
                    has = w
                y = single(c[2][0]) if c[1] == "discr" else None
                if type(y) is tuple and y[0] == "op" and oname(y) == "get" and y[2] == (A, V(i)):
                    has = {"Some": True, "None": False}.get(w)
        own = i is not None and type(tab) is tuple and (tab[0] == "op" and (tab[1] == "[]" or oname(tab) in ("index", "get_unchecked")) and tab[2] == (A, V(i)) or self.got(tab, A, i))
        none = type(tab) is tuple and tab[0] == "op" and oname(tab) in ("new", "default") and not tab[2]
        rep.oblige(own and has is not False or none and has is False, "document:anchors", "%s dumps a document with the table %s, where the table of that document is %s" % (
            at, show(V(tab), 100), "known" if has else "missing" if has is False else "not known to be missing"))

    def got(self, tab, A, i):
        while type(tab) is tuple and tab[0] == "pj":
            tab = tab[1]
        return type(tab) is tuple and tab[0] == "op" and oname(tab) == "get" and tab[2] == (A, V(i))
