"""The methods of the parser, each analysed over calls of the other public ones."""
from serdet import *

# the documented sub-parsers and primitives: calls of these are not looked into
PUB = """bound complex_mapping int float sci_float string_quoted string_plain string_literal string_folded chomp string_wrapped escape identifier tag anchor anchor_use
ws nl inv ind_define gap comment food food_str text consume forward backward back sym sym_set sym_seq take_while count is_in not_in ind directive
parse doc doc_end scalar scalar_flow scalar_term seq_flow map_flow seq map""".split()
PERR = "parser::error::PError"
LOADER, PARSER = "parser::Loader", "parser::base::Parser"
OWNER = r"(?:Parser::<[^<>]*>|Parser<[^<>]*>>|Loader::<[^<>]*>|Loader<[^<>]*>>)::"


class Grammar:
    def __init__(self, rep, d):
        self.rep, self.d = rep, d
        self.keys = {}
        for k in d["bodies"]:
            g = re.search(r"^parser::.*" + OWNER + r"(\w+)( <R>| <R, .*>| <F.*>)?$", k)
            if g and "{closure" not in k and "repr::" not in k and (g.group(1) not in self.keys or len(k) < len(self.keys[g.group(1)])):
                self.keys[g.group(1)] = k
        self.cache, self.kept = {}, {}
        self.perr = next((a for a in d["adts"] if a.endswith("::PError")), None)
        self.loader = next((a for a in d["adts"] if a.endswith("::Loader")), None)
        self.parser = next((a for a in d["adts"] if a.endswith("::Parser") and a.startswith("parser::")), None)
        self.ok = rep.need(self.perr and self.loader and self.parser, "parser", "the types of the parser are missing")

    def flow(self, *inside):
        """An engine which looks into the given methods."""
        stop = [x for x in PUB if x not in inside]
        F = Flow(self.d, opaque=[OWNER + r"(%s)( <|$)" % "|".join(stop), r"::indicated_msg( <|$)"])
        F.fold = re.compile(OWNER)
        F.limit, F.parts, F.maxconds = 100000, 500, 80
        if "forward" in stop and self.keys.get("forward"):
            F.canon = lambda st, v: self.moved(F, st, v)
        return F

    def moved(self, F, st, v):
        """A parser whose check point was set to its position is what forward() makes of it."""
        a = single(v)
        if type(a) is not tuple or a[0] != "adt" or a[1] != self.parser:
            return v
        fs = dict(zip([f["name"] for f in self.d["adts"][self.parser]["variants"][0]["fields"]], a[3]))
        p = single(fs.get("pos"))
        if type(p) is not tuple or fs.get("eaten") != fs["pos"] or not (p[0] == "pj" and p[2] == "pos" or p[0] == "in" and p[1][-1] == "pos"):
            return v
        s = V(p[1]) if p[0] == "pj" else V(("in", p[1][:-1]))
        if any(x != self.part(s, f) for f, x in fs.items() if f != "eaten"):
            return v
        name = re.sub(r" <.*$", "", self.keys["forward"])
        e = (name, (s,))
        if e not in st.ev:
            st.ev = st.ev + (e,)
        st.now |= {e}
        return F.fresh(V(("op", name + "!0", (s,))))

    def key(self, name):
        k = self.keys.get(name)
        self.rep.need(k, name, "the parser has no method %s" % name)
        return k

    def run(self, name, inside=(), assume=None, args=None):
        """(engine, [(conds, result, self afterwards, events)]) of a method."""
        c = (name, tuple(inside), tuple(sorted((assume or {}).items())), tuple(args or ()))
        if c not in self.cache:
            F = self.flow(name, *inside)
            k = self.keys[name]
            b = self.d["bodies"][k]
            r = ("L", 0)
            mut = b["locals"][1]["ty"].startswith("&mut")
            rest = list(args) if args else [IN("a%d" % i) for i in range(1, b["argc"])]
            rows = F.run(k, [V(("mut", r, ())) if mut else IN("self")] + rest, assume, mem={r: IN("self")})
            self.cache[c] = (F, [(cs, x, mem.get(r, ANY), ev) for cs, x, mem, ev in rows])
        return self.cache[c]

    def where(self, name):
        return where(self.d, self.keys[name])

    def part(self, v, field):
        """A field of the loader or the parser inside it."""
        a = single(v)
        if type(a) is tuple and a[0] == "adt" and a[1] in (self.loader, self.parser):
            for i, f in enumerate(self.d["adts"][a[1]]["variants"][0]["fields"]):
                if f["name"] == field:
                    return a[3][i]
            return None
        if a is None or a == "?":
            return None
        return IN(*(a[1] + (field,))) if type(a) is tuple and a[0] == "in" else V(("pj", a, field)) if type(a) is tuple and a[0] in ("op", "pj") else None

    def keeps(self, name, field):
        """The method leaves the field as it was, in every case."""
        c = (name, field)
        if c not in self.kept:
            # by induction on the calls
            before = set(self.kept)
            self.kept[c] = True
            try:
                F, rows = self.run(name, ("count",))
                self.kept[c] = all(self.trace(F, end, field) == IN("self", field) for _, _, end, _ in rows)
            except Cut:
                self.kept[c] = False
            if not self.kept[c]:
                # what was concluded from the assumption
                for x in set(self.kept) - before - {c}:
                    if self.kept[x]:
                        del self.kept[x]
        return self.kept[c]

    def trace(self, F, v, field, stop=None):
        """The field's value, seen through calls and loops which leave it alone."""
        for _ in range(200):
            p = self.part(v, field) if v is not None else None
            if p is None:
                return ANY
            a = single(p)
            # the field of an unknown state: the one before the call, when the call keeps it
            if type(a) is not tuple or a[0] != "pj" or a[2] != field or a[1] == stop:
                return p
            base = a[1]
            if type(base) is tuple and base[0] == "pj" and base[2] == "parser":
                base = base[1]
                if base == stop:
                    return p
            x = single(F.unfold(V(base)))
            if type(x) is not tuple or x[0] != "op":
                return p
            if x[1] == "phi":
                if not self.loopkeeps(F, base, field):
                    return p
                v = x[2][2]
                continue
            m = oname(("op", x[1][:-2], x[2]))
            if not x[1].endswith("!0") or m not in self.keys or not self.keeps(m, field):
                return p
            v = x[2][0]
        return ANY

    def eaten(self, F, v, t, stop=None):
        """(pieces consumed, index where the text begins) of a state; pieces are
        (method, call, outcome), as the outcomes of the calls (see tested) say."""
        a = single(F.unfold(v))
        if type(a) is not tuple:
            return None
        if a[0] == "op" and a[1].endswith("!0"):
            c = ("op", a[1][:-2], a[2])
            m = oname(c)
            r = self.eaten(F, a[2][0], t)
            if r is None:
                return None
            toks, e = r
            if m in ("forward", "consume"):
                return toks, len(toks)
            if m == "backward":
                return toks[:e], e
            if m in ("text", "food", "food_str", "err", "indicator"):
                return toks, e
            w = t.get(c)
            if w in ("Err", "Mismatch", "Terminate"):
                # a primitive which fails goes back to where the text begins
                return (toks[:e], e) if m in ("sym", "sym_set", "sym_seq", "take_while", "ws", "inv", "identifier") else (toks + [(m, c, w)], e)
            return toks + [(m, c, w)], e
        if a[0] == "adt" and a[1] == self.parser:
            p, e = self.part(V(a), "pos"), self.part(V(a), "eaten")
            p, e = p and single(p), e and single(e)
            if type(p) is tuple and p[0] == "pj" and p[2] == "pos" and type(e) is tuple:
                x = self.eaten(F, V(p[1]), t)
                if e == ("in", ("self", "eaten")) or e[0] == "pj" and e[2] == "eaten":
                    y = self.eaten(F, V(e[1]), t) if e[0] == "pj" else ([], 0)
                    return (x[0], y[1]) if x is not None and y is not None and y[1] <= len(x[0]) else None
                if e == p:
                    return (x[0], len(x[0])) if x is not None else None
            return None
        if a[0] == "in":
            return [], 0
        if a[0] == "op" and a[1] == "phi":
            # the start of an iteration: something may be waiting there
            return [("?", a, None)], 0
        if a[0] == "pj" and a[2] == "parser":
            return self.eaten(F, V(a[1]), t)
        return None

    def textof(self, F, v, t):
        """The pieces of a text taken by text()."""
        a = single(v)
        if type(a) is not tuple or a[0] != "op" or oname(a) != "text":
            return None
        r = self.eaten(F, a[2][0], t)
        return r and r[0][r[1]:]

    def closing(self, F, cs):
        """The conditions, with those of the turn which set the flag that ended a loop."""
        out = set(cs)
        for c, w in cs:
            if type(c) is not tuple or c[0] != "op" or c[1] != "phi" or type(w) is not bool or c[2][2] != C(not w):
                continue
            last = None
            for (name, lc), trans in F.loops.items():
                if C(name) != c[2][0]:
                    continue
                for tc, mem, ev in trans:
                    for r, (b, v) in mem.items():
                        if b == V(c) and v not in (b, C(not w)):
                            last = set(tc) if last is None else last & set(tc)
            out |= last or set()
        return out

    def loopkeeps(self, F, phi, field):
        """Every turn of the loop leaves the field of the value as it was."""
        some = False
        for (name, lc), trans in F.loops.items():
            if C(name) != phi[2][0]:
                continue
            for tc, mem, ev in trans:
                for r, (b, w) in mem.items():
                    if b == V(phi):
                        some = True
                        if self.trace(F, w, field, phi) != self.part(b, field):
                            return False
        return some

    def writers(self, owner, fields):
        """Bodies which store into, or borrow mutably, a field of the type."""
        out = {}
        for k, b in self.d["bodies"].items():
            if not b.get("span", "").startswith("src/"):
                continue
            for blk in b.get("blocks", []):
                if blk["cleanup"]:
                    continue
                for pl, span in places(blk):
                    for e in pl["p"]:
                        if e["k"] == "field" and e.get("name") in fields and owner in e.get("of", owner):
                            out.setdefault(k, set()).add(e["name"])
        return out


def places(blk):
    """Places which are written or mutably borrowed in a block."""
    for s in blk["s"]:
        if s["k"] == "assign":
            yield s["pl"], s.get("span")
            if s["rv"]["k"] in ("ref", "rawptr", "addr") and s["rv"].get("mut"):
                yield s["rv"]["pl"], s.get("span")
    t = blk["t"]
    if t["k"] == "call":
        yield t["dest"], t.get("span")


def call(v, *names):
    """Arguments of a call of one of the parser's methods."""
    a = single(v)
    if type(a) is tuple and a[0] == "op" and oname(a) in names:
        return a[2]
    return None


def tested(cs):
    """{call: 'Ok'/'Err'/'Mismatch'/'Terminate'/'Some'..} as the conditions say."""
    out = {}
    for c, w in cs:
        if type(c) is not tuple or c[0] != "op":
            continue
        if c[1] == "discr":
            x = single(c[2][0])
            if type(x) is tuple and x[0] == "pj" and x[2] == "0" and type(x[1]) is tuple and x[1][0] == "pj" and x[1][2] == "Err":
                out[x[1][1]] = w
            elif x is not None:
                if w == "Err" and out.get(x) in ("Mismatch", "Terminate"):
                    continue
                out[x] = w
        elif c[1] == "eq" and w in (True, False):
            for i in (0, 1):
                n, y = single(c[2][i]), single(c[2][1 - i])
                if type(y) is tuple and y[0] == "op" and y[1] == "discr:std::result::Result" and type(n) is tuple and n[0] == "c":
                    x = single(y[2][0])
                    ok = (n[1] == 0) == w
                    if x is not None and x not in out:
                        out[x] = "Ok" if ok else "Err"
                if type(y) is tuple and y[0] == "op" and y[1] == "discr:std::option::Option" and type(n) is tuple and n[0] == "c":
                    x = single(y[2][0])
                    if x is not None and x not in out:
                        out[x] = "Some" if (n[1] == 1) == w else "None"
    return out
