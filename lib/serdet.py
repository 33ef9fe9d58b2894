"""What each serde method does for each kind of node, read off the provenance analysis."""
import re
from tables import *

SERR = "serde::error::SerdeError"
LOSSLESS = set()
for a, b in [(a, b) for a in (8, 16, 32, 64, 128) for b in (8, 16, 32, 64, 128)]:
    if a <= b:
        LOSSLESS |= {"cast:u%d->u%d" % (a, b), "cast:i%d->i%d" % (a, b)}
    if a < b:
        LOSSLESS.add("cast:u%d->i%d" % (a, b))
LOSSLESS |= {"cast:usize->u64", "cast:usize->u128", "cast:usize->i128", "cast:isize->i64", "cast:isize->i128"}
READ = re.compile(r"::(from_str_radix|parse <[iu](8|16|32|64|128)>|from_str <[iu]\w+>|replace|replacen|strip_prefix|trim_start_matches|trim_start|trim)$"
                  r"|^<T as std::convert::TryInto<U>>::try_into <|::try_from <|^std::convert::num::")
FREAD = re.compile(r"::parse <f(32|64)>$|::from_str <f(32|64)>$|^cast:(f64->f32|f32->f64|[iu]\d+->f(32|64))$")
WALK = re.compile(r"(^|::)(into_iter|iter|cloned|copied|clone|to_vec|by_ref|SeqDeserializer::<.*>::new|MapDeserializer::<.*>::new|IterMut|deref)( <.*>)?$")
VISIT = re.compile(r"(^|::)(visit_\w+|deserialize\w*|serialize\w*|collect_\w+|end|next_\w+)( <.*>)?$")


def single(v):
    return next(iter(v)) if len(v) == 1 else None


def oname(a):
    """Last part of an operation's name."""
    n = a[1]
    n = re.sub(r" <[^<>]*>$", "", n)
    return n.split("::")[-1]


def external(v):
    """The call of foreign code (visitor, seed) whose result is handed on as it is, successful or not."""
    a = single(v)
    if type(a) is not tuple:
        return None
    if a[0] == "op" and VISIT.search(a[1]):
        return a
    for w, x in (("Ok", Ok(v)), ("Err", Err(v))):
        b = x and single(x)
        if not b:
            continue
        if w == "Ok" and type(b) is tuple and b[0] == "adt" and b[2] == "Some" and len(b[3]) == 1:
            b = single(b[3][0])      # Ok(Some(..)) for the elements of sequences and maps
        if type(b) is tuple and b[0] == "pj" and b[2] == "0" and type(b[1]) is tuple and b[1][0] == "pj" and b[1][2] == w and b[1][1][0] == "op" and VISIT.search(b[1][1][1]):
            return b[1][1]
        if type(b) is tuple and b[0] == "pj" and b[2] == "0" and type(b[1]) is tuple and b[1][0] == "op" and VISIT.search(b[1][1]) and w == "Err":
            return b[1]
    return None


def outcome(m, v):
    """('call', name, args) | ('err', position) | ('errx',) | ('other',)."""
    e = external(v)
    if e:
        return ("call", oname(e), e[2])
    x = Err(v)
    if x is not None:
        fs = adt(x, SERR)
        if fs is None:
            return ("errx", x)
        return ("err", fs[m.epos])
    return ("other",)


class Serde(Model):
    def __init__(self, rep, d):
        Model.__init__(self, rep, d)
        e = d["adts"].get(SERR)
        self.ok = self.ok and rep.need(e, "SerdeError", "the serde error type is missing")
        if not self.ok:
            return
        self.epos = next((i for i, f in enumerate(e["variants"][0]["fields"]) if f["ty"] == "u64"), None)
        self.ok = rep.need(self.epos is not None, "SerdeError.pos", "the position of the serde error is missing")
        self.F = Flow(d)
        self.cache = {}

    def de_key(self, method):
        """A method of the node's Deserializer."""
        return self.find("serde::Deserializer<'", "node::Node<R>", method)

    def find(self, trait, ty, method):
        ks = [k for k in self.d["bodies"] if re.search(r"(^|[ <])%s" % re.escape(trait), k) and re.search(r"::%s( <|$)" % re.escape(method), k) and "{closure" not in k
              and re.search(r"(^<|for )%s( as|>|<)" % re.escape(ty), k)]
        ks.sort(key=lambda k: ("repr::" in k, len(k)))
        return ks[0] if ks else None

    def rows(self, method, variant):
        """[(conds, outcome, value)] of a Deserializer method on a kind of node."""
        k = (method, variant)
        if k not in self.cache:
            key = self.de_key(method)
            n = self.d["bodies"][key]["argc"]
            args = [self.node()] + [IN("a%d" % i) for i in range(1, n - 1)] + [IN("visitor")]
            if n == 1:
                args = [self.node()]
            self.cache[k] = [(cs, outcome(self, x), x) for cs, x, _, _ in self.F.run(key, args, self.assume(variant))]
        return self.cache[k]

    def norm(self, v):
        """A node put together from all the parts of one node is that node."""
        def f(a):
            if type(a) is tuple and a[0] == "adt" and a[1] == NODE and a[3]:
                src = set()
                for i, x in enumerate(a[3]):
                    fd = self.d["adts"][NODE]["variants"][0]["fields"][i]
                    if "PhantomData" in fd["ty"]:
                        continue
                    b = pj(x, fd["name"])
                    if b is None:
                        return a
                    src.add(b)
                if len(src) == 1:
                    return src.pop()
            return a
        return subst(v, f)

    # ---------------------------------------------------------- access holders
    def onward(self, v, payload):
        """The value iterates over the payload from its beginning, in order."""
        a = single(v)
        while type(a) is tuple and a[0] == "op" and WALK.search(a[1]) and len(a[2]) == 1:
            v = a[2][0]
            a = single(v)
        return v == payload

    def nexts(self, v):
        """next() operations inside."""
        return [a for a in atoms(v) if type(a) is tuple and a[0] == "op" and re.search(r"::next( <.*>)?$", a[1])]

    def item(self, v, payload, i):
        """The element i of an iteration over the payload."""
        x = pj(v, "Some", "0")
        n = x and single(x)
        if type(n) is not tuple or n[0] != "op" or not re.search(r"::next( <.*>)?$", n[1]):
            return False
        it = n[2][0]
        for _ in range(i):
            b = single(it)
            if type(b) is not tuple or b[0] != "op" or b[1] != n[1] + "!0":
                return False
            it = b[2][0]
        return self.onward(it, payload)

    def seqholder(self, h, payload):
        """What is wrong with the SeqAccess over the payload."""
        a = single(h)
        if type(a) is tuple and a[0] == "op" and WALK.search(a[1]):
            return None if self.onward(h, payload) else "it walks over %s" % show(h, 120)
        for i in range(2):
            rows = self.step("serde::de::SeqAccess", "next_element_seed", h, [IN("seed")])
            if rows is None:
                return "its elements cannot be followed: %s" % show(h, 120)
            nxt, some, end = set(), 0, 0
            for cs, x, h2 in rows:
                o = outcome(self, x)
                if o[0] == "call":
                    if o[1] != "deserialize" or o[2][0] != IN("seed") or not self.item(self.norm(o[2][1]), payload, i):
                        return "element %d is read from %s" % (i, show(o[2][-1], 120))
                    some += 1
                    nxt.add(h2)
                elif Ok(x) is not None and adt(Ok(x), OPTION, "None") is not None:
                    if not any(w == "None" and self.nexts(V(c)) for c, w in cs):
                        return "the elements end when %s" % conds(cs)
                    end += 1
                else:
                    return "an element gives %s" % show(x, 120)
            if not some or not end or len(nxt) != 1:
                return "elements do not advance one by one"
            h = nxt.pop()
        return None

    def mapholder(self, h, payload):
        for i in range(2):
            rows = self.step("serde::de::MapAccess", "next_key_seed", h, [IN("seed")])
            if rows is None:
                return "its entries cannot be followed: %s" % show(h, 120)
            nxt, some, end = set(), 0, 0
            for cs, x, h2 in rows:
                o = outcome(self, x)
                if o[0] == "call":
                    e = pj(self.norm(o[2][1]), "0")
                    if o[1] != "deserialize" or o[2][0] != IN("seed") or not e or not self.item(e, payload, i):
                        return "key %d is read from %s" % (i, show(o[2][-1], 120))
                    some += 1
                    nxt.add((h2, e))
                elif Ok(x) is not None and adt(Ok(x), OPTION, "None") is not None:
                    if not any(w == "None" and self.nexts(V(c)) for c, w in cs):
                        return "the entries end when %s" % conds(cs)
                    end += 1
                else:
                    return "a key gives %s" % show(x, 120)
            if not some or not end or len(nxt) != 1:
                return "entries do not advance one by one"
            h, e = nxt.pop()
            rows = self.step("serde::de::MapAccess", "next_value_seed", h, [IN("seed")])
            nxt = set()
            for cs, x, h2 in rows or []:
                o = outcome(self, x)
                if o[0] != "call" or o[1] != "deserialize" or o[2][0] != IN("seed") or pj(self.norm(o[2][1]), "1") != e:
                    return "the value of key %d is %s" % (i, show(x, 120))
                nxt.add(h2)
            if len(nxt) != 1:
                return "values cannot be followed"
            h = nxt.pop()
        return None

    def variant(self, h, name, content, rep=None):
        """What is wrong with the EnumAccess for a variant name and its content node (None: no content)."""
        rows = self.consume("serde::de::EnumAccess", "variant_seed", h, [IN("seed")])
        if rows is None:
            return ["its variant cannot be followed: %s" % show(h, 120)], None
        out, got = [], set()
        for cs, x in rows:
            o = outcome(self, x)
            t = Ok(x) and adt(Ok(x), "tuple")
            if o[0] == "call":
                args = o[2]
            elif t and len(t) == 2 and pj(t[0], "Ok", "0") and external(pj(t[0], "Ok", "0")):
                e = external(pj(t[0], "Ok", "0"))
                args = e[2]
                got.add(t[1])
                if oname(e) != "deserialize":
                    out.append("the variant name is %s" % show(t[0], 120))
            else:
                out.append("a variant gives %s" % show(x, 120))
                continue
            if args[0] != IN("seed") or self.norm(args[1]) != name:
                out.append("the variant is read from %s" % show(args[1], 120))
        if len(got) != 1:
            return out + ["the variant has no content"], None
        g = self.norm(got.pop())
        if content is not None:
            c = single(content)
            # `content` is looked at as an input from here on
            g = subst(g, lambda z: ("in", ("content",)) if z == c else z)
        return out, g

    def call(self, key, args, mem=None, assume=None):
        return self.F.run(key, args, assume, mem=mem)

    def step(self, trait, method, holder, args):
        """Run a &mut self method on a holder value: [(conds, result, holder afterwards)]."""
        a = single(holder)
        key = type(a) is tuple and a[0] == "adt" and self.find(trait, a[1], method)
        if not key:
            return None
        r = ("H", 0)
        return [(cs, x, mem.get(r, ANY)) for cs, x, mem, _ in self.F.run(key, [V(("mut", r, ()))] + args, mem={r: holder})]

    def consume(self, trait, method, holder, args):
        a = single(holder)
        key = type(a) is tuple and a[0] == "adt" and self.find(trait, a[1], method)
        if not key:
            return None
        return [(cs, x) for cs, x, _, _ in self.F.run(key, [holder] + args)]


def intvalue(v, source):
    """An integer converted from the text by checked conversions only."""
    a = single(v)
    while type(a) is tuple and a[0] == "op" and a[1] in LOSSLESS:
        a = single(a[2][0])
    if type(a) is not tuple or a[0] != "pj":
        return False
    v = V(a)
    if inputs(v) != {source} or unknown(v):
        return False
    for o in opsof(v):
        if not (READ.search(o) or o in LOSSLESS):
            return False
    # every conversion on the way is taken when it succeeded
    for x in atoms(v):
        if type(x) is tuple and x[0] == "op" and re.search(r"from_str_radix|parse <|try_into|try_from|from_str <", x[1]):
            ok = any(type(y) is tuple and y[0] == "pj" and y[1] == x and y[2] in ("Ok", "Some") for y in atoms(v))
            if not ok:
                return False
    return True


def textof(v):
    """x of x.to_string() or format!("{x}"), x possibly widened first."""
    x = _textof(v)
    a = x and single(x)
    while type(a) is tuple and a[0] == "op" and a[1] in LOSSLESS:
        x = a[2][0]
        a = single(x)
    return x


def _textof(v):
    t = isop(v, "to_string")
    if t:
        return t[0]
    a = single(v)
    if type(a) is tuple and a[0] == "op" and re.search(r"^<std::string::String as std::convert::From<char>>::from", a[1]):
        return a[2][0]
    f = isop(v, "format")
    if f:
        g = isop(f[0], "new", "new_v1", "new_const")
        if g and len(g) == 2 and g[0] == C(b"\xc0\x00"):
            l = adt(g[1], "array")
            if l and len(l) == 1:
                x = isop(l[0], "new_display")
                return x and x[0]
    return None


EMPTY = re.compile(r"(^|::)(new|with_capacity|default)( <.*>)?$")


def empty(v):
    a = single(v)
    return type(a) is tuple and (a[0] == "op" and bool(EMPTY.search(a[1])) or a[0] == "adt" and a[1] == "array" and not a[3])


def pushes(v):
    """[item..] of a sequence built from nothing, in order."""
    out = []
    while True:
        a = single(v)
        if type(a) is not tuple:
            return None
        if a[0] == "adt" and a[1] == "array":
            return list(a[3]) + out
        if a[0] == "op" and oname(a) in ("push!0",):
            out.insert(0, a[2][1])
            v = a[2][0]
        elif a[0] == "op" and oname(a) in ("collect", "into_iter", "reserve!0"):
            v = a[2][0]
        else:
            return out if empty(v) else None


def entries(v):
    """[(key, value)..] of a map built from nothing, in order."""
    out = []
    while True:
        a = single(v)
        if type(a) is not tuple:
            return None
        if a[0] == "op" and oname(a) in ("insert!0",) and len(a[2]) == 3:
            out.insert(0, (a[2][1], a[2][2]))
            v = a[2][0]
        elif a[0] == "op" and oname(a) in ("collect", "into_iter", "reserve!0", "from_iter"):
            v = a[2][0]
        elif a[0] == "adt" and a[1] == "array":
            ts = [adt(x, "tuple") for x in a[3]]
            return [(t[0], t[1]) for t in ts] + out if all(t and len(t) == 2 for t in ts) else None
        else:
            return out if empty(v) else None


def start(v):
    """What an iterator walks over, from its beginning."""
    a = single(v)
    while type(a) is tuple and a[0] == "op" and WALK.search(a[1]) and len(a[2]) == 1:
        v = a[2][0]
        a = single(v)
    return v


def byentry(v):
    """next_key() and the next_value() after it are one next_entry()."""
    NE = "serde::de::MapAccess::next_entry"

    def part(src, i):
        x = ("op", NE, src)
        for q in ("Ok", "0", "Some", "0", i):
            x = ("pj", x, q)
        return x

    def base(a, path):
        for q in path:
            if type(a) is not tuple or a[0] != "pj" or a[2] != q:
                return None
            a = a[1]
        return a if type(a) is tuple and a[0] == "op" else None

    def f(a):
        k = base(a, ("0", "Some", "0", "Ok"))
        if k and oname(k) == "next_key":
            return part(k[2], "0")
        k = base(a, ("0", "Ok"))
        if k and oname(k) == "next_value":
            k = single(k[2][0])
            if type(k) is tuple and k[0] == "op" and oname(k) == "next_key!0":
                return part(k[2], "1")
        if type(a) is tuple and a[0] == "op" and oname(a) == "next_value!0":
            k = single(a[2][0])
            if type(k) is tuple and k[0] == "op" and oname(k) == "next_key!0":
                return ("op", NE + "!0", k[2])
        return a

    def g(a):
        return ("op", NE, a[2]) if type(a) is tuple and a[0] == "op" and oname(a) == "next_key" else a
    return subst(subst(v, f), g)


def phis(v):
    return [a for a in atoms(v) if type(a) is tuple and a[0] == "op" and a[1] == "phi"]


STEP = re.compile(r"(^|::)(next|next_element|next_entry|next_key|next_value)( <.*>)?$")


ADD = ("push!0", "insert!0", "push_back!0", "serialize_entry!0", "serialize_element!0")


def each(F, v, conds, init=None):
    """(source, [items], is map) when the value is built by adding something for every item of the source, in order; an item of the source is IN('*')."""
    a = single(v)
    if type(a) is not tuple or a[0] != "op":
        return None
    n = oname(a)
    if n in ("collect", "into_iter", "from_iter") and len(a[2]) == 1:
        return each(F, a[2][0], conds)
    if n in ("iter", "cloned", "copied"):
        r = each(F, a[2][0], conds)
        return r or (a[2][0], [IN("*")], False)
    if n == "map":
        f = single(a[2][1])
        src = each(F, a[2][0], conds) or (a[2][0], [IN("*")], False)
        if type(f) is tuple and (f[0] == "fn" or f[0] == "adt" and type(f[1]) is tuple):
            items = {x for it in src[1] for cs, x in F.runv(V(f), [it])}
            return src[0], sorted(items, key=show), False
        return None
    if n == "phi":
        rec = []
        for (name, cs), trans in F.loops.items():
            if C(name) == a[2][0]:
                rec += trans
        items, source, kinds = set(), set(), set()
        if not (init or empty)(a[2][2]):
            return None
        conds = [(single(byentry(V(c3))), w3) for c3, w3 in conds]
        for cs, mem, ev in rec:
            mem = {r: (byentry(b), byentry(w)) for r, (b, w) in mem.items()}
            for r, (b, w) in mem.items():
                if b != V(a):
                    continue
                x = single(w)
                if type(x) is tuple and x[0] == "op" and oname(x) == "serialize_value!0":
                    y = isop(x[2][0], "serialize_key!0")
                    if not y:
                        return None
                    x = ("op", "serialize_entry!0", (y[0], y[1], x[2][1]))
                if type(x) is not tuple or x[0] != "op" or oname(x) not in ADD or x[2][0] != V(a):
                    return None
                item = x[2][1] if len(x[2]) == 2 else V(("adt", "tuple", None, x[2][1:]))
                kinds.add(oname(x))
                # where it comes from
                steps = [y for y in atoms(item) if type(y) is tuple and y[0] == "op" and STEP.search(y[1]) and single(y[2][0]) in phis(item)]
                if len(steps) != 1:
                    return None
                s = steps[0]
                source.add(start(single(s[2][0])[2][2]))
                # the source advances by this very step
                adv = [w2 for b2, w2 in mem.values() if b2 == s[2][0]]
                if not adv or any(single(w2) != ("op", s[1] + "!0", s[2]) for w2 in adv):
                    return None
                el = {y for y in atoms(item) if type(y) is tuple and y[0] == "pj" and y[2] == "0" and type(y[1]) is tuple and y[1][0] == "pj" and y[1][2] == "Some"
                      and (y[1][1] == s or y[1][1] == ("pj", ("pj", s, "Ok"), "0"))}
                if len(el) != 1:
                    return None
                e = el.pop()
                items.add(subst(item, lambda z: ("in", ("*",)) if z == e else z))
                # the loop is left only when the source is at its end
                if not any(w3 == "None" and s in atoms(V(c3)) for c3, w3 in conds):
                    return None
        if len(source) != 1 or not items:
            return None
        return start(source.pop()), sorted(items, key=show), all(re.search("insert|entry", k) for k in kinds)
    return None


def onechar(v, text, conds):
    """The only character of the text."""
    a = v
    x = pj(v, "Ok", "0")
    p = x and single(x)
    if type(p) is tuple and p[0] == "op" and re.search(r"::(parse|from_str) <char>$", p[1]):
        return p[2][0] == text
    e = pj(v, "Some", "0")
    n = e and single(e)
    if type(n) is not tuple or n[0] != "op" or not n[1].endswith("Chars<'a> as std::iter::Iterator>::next") or isop(n[2][0], "chars") != (text,):
        return False
    # there is no second one
    for c, w in conds:
        if w == "None" and c[0] == "op" and c[1].startswith("discr"):
            q = single(c[2][0])
            if type(q) is tuple and q[0] == "op" and q[1] == n[1] and single(q[2][0]) == ("op", n[1] + "!0", n[2]):
                return True
        if w is True and c[0] == "op" and c[1] == "eq" and len(c[2]) == 2:
            def ischarlen(y):
                y = isop(y, "len_utf8")
                return y and y[0] == v
            if any(ischarlen(c[2][i]) and isop(c[2][1 - i], "len") == (text,) for i in (0, 1)):
                return True
            if any(isop(c[2][i], "count") and isop(isop(c[2][i], "count")[0], "chars") == (text,) and c[2][1 - i] == C(1) for i in (0, 1)):
                return True
    return False


def nodeof(v):
    """(variant, payload fields) of a node made afresh: no tag, no position."""
    n = adt(v, NODE)
    if n is None:
        return None
    for x in n:
        c = single(x)
        if type(c) is tuple and c[0] == "adt" and c[1] == YAML:
            rest = [y for y in n if y is not x]
            ok = all(y in (C(0), C("")) or adt(y, "std::marker::PhantomData") is not None for y in rest)
            return (c[2], c[3]) if ok else None
    return None
