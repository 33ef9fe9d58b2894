import c25
import facts
from grammar import *

LEVEL = "proof"
ITEMS = ("scalar", "scalar_flow", "doc")
CARRY = ("collect", "into_iter", "from_iter", "into", "from", "new_rc", "iter", "into_vec", "into_boxed_slice", "box_new", "write_box_via_move", "box_assume_init_into_vec_unsafe", "by_ref")
QUIET = ("reserve!0", "shrink_to_fit!0", "reserve_exact!0")


def check(rep):
    d = facts.extract("all")
    g = Grammar(rep, d)
    m = Serde(rep, d)
    if not g.ok or not m.ok or not all(g.key(x) for x in ("seq", "map", "seq_flow", "map_flow", "parse")):
        return
    rep.rule = ("Loop-effect and provenance analysis: every turn of a loop which reads items adds exactly the items read in that turn, in the order they were read, behind those added before, "
                "and the result is made of that very collection by conversions which keep the order; the constructors and both serde directions hand every element on likewise.")
    rep.assume = ["rustc's MIR", "std's vectors and ritelinked's maps yield what was added in the order it was added, a repeated key once with the last value", "serde's derive calls these methods as documented"]
    n = sum(read(rep, g, x) for x in ("seq", "map", "seq_flow", "map_flow", "parse"))
    k = make(rep, m)
    c = Collections(rep)
    c25.de(c, m)
    c25.ser(c, m)
    c25.fromnode(c, m)
    c25.tonode(c, m)
    rep.floor("turns and ends", n, 25)
    rep.floor("serde cases", c.n, 25)
    rep.cov.update(parser_cases=n, constructors=k, serde_cases=c.n)


class Collections:
    """Hands on what is about collections."""
    KEY = re.compile(r"^(serialize_(seq|tuple|map|struct)\w*|in:visit_(seq|map)|out:(Seq|Map)|deserialize_(any|seq|tuple\w*|map|struct|bytes|byte_buf):(Seq|Map):value)(:|$)")

    def __init__(self, rep):
        self.rep, self.n = rep, 0

    def oblige(self, ok, key, msg):
        if self.KEY.match(key):
            self.n += 1
            return self.rep.oblige(ok, key, msg)
        return ok

    def need(self, x, *a):
        return x

    def floor(self, *a):
        pass

    def __getattr__(self, k):
        return getattr(self.rep, k)


def opened(F, v):
    """(base, items added to it in order) of a collection, None when something else was done to it."""
    out = []
    for _ in range(60):
        a = single(F.unfold(v))
        if type(a) is not tuple:
            return None
        if a[0] == "adt" and a[1] == "array":
            return None, list(a[3]) + out
        if a[0] == "adt" and len(a[3]) == 1 and a[2] in ("Seq", "Map", "Ok"):
            v = a[3][0]
            continue
        if a[0] != "op":
            return None
        n = oname(a)
        if n == "phi":
            return a, out
        if n in ("push!0", "push_back!0"):
            out.insert(0, a[2][1])
        elif n == "insert!0" and len(a[2]) == 3:
            out.insert(0, V(("adt", "tuple", None, (a[2][1], a[2][2]))))
        elif n == "extend!0":
            x = opened(F, a[2][1])
            if x is None or x[0] is not None:
                return None
            out[0:0] = x[1]
        elif n in QUIET or len(a[2]) == 1 and n in CARRY:
            pass
        elif empty(v):
            return None, out
        else:
            return None
        v = a[2][0]
    return None


def taken(t):
    """The items which were read."""
    return [c for c, w in t.items() if w == "Ok" and type(c) is tuple and oname(c) in ITEMS]


def whole(v, c):
    """The value is exactly the item that the call read."""
    a = single(v)
    return type(a) is tuple and (a == c or a == ("pj", ("pj", c, "Ok"), "0") or pj(V(c), "Ok", "0") == v)


def inside(F, a, c, seen):
    """The value was made with the call."""
    if a == c:
        return True
    if type(a) is not tuple or a in seen:
        return False
    seen.add(a)
    if a[0] == "op":
        if a[1] == "state":
            return any(inside(F, x, c, seen) for x in F.unfold(V(a)) if x != a)
        if a[1] == "phi":
            return False
        return any(inside(F, x, c, seen) for y in a[2] for x in y) or a[1].endswith("!0") and ("op", a[1][:-2], a[2]) == c
    if a[0] == "adt":
        return any(inside(F, x, c, seen) for y in a[3] for x in y)
    if a[0] == "pj":
        return inside(F, a[1], c, seen)
    return False


def match(rep, F, at, items, read, key):
    """The items added are the items read, in order."""
    flat = []
    for v in items:
        a = single(v)
        flat += list(a[3]) if type(a) is tuple and a[0] == "adt" and a[1] == "tuple" else [v]
    left, order = list(read), []
    for v in flat:
        c = next((c for c in left if whole(v, c)), None)
        if not rep.oblige(c is not None, key + ":item", "%s adds %s, which is not an item it has just read" % (at, show(v, 100))):
            return
        left.remove(c)
        order.append(c)
    rep.oblige(not left, key + ":dropped", "%s reads an item by %s and does not add it" % (at, ", ".join(sorted({oname(c) for c in left}))))
    for a, b in zip(order, order[1:]):
        rep.oblige(any(inside(F, x, a, set()) for x in b[2][0]), key + ":order", "%s adds the items in another order than they are read" % at)


def read(rep, g, name):
    F, rows = g.run(name)
    at = g.where(name)
    n = good = 0
    used = set()
    for cs, x, end, ev in rows:
        o = Ok(x)
        if o is None:
            a = single(x)
            if type(a) is not tuple or a[0] != "op" or oname(a) not in ITEMS:
                continue
            o = x
        n += 1
        src = taken(tested(cs))
        col = opened(F, o)
        if col is None:
            # no collection: the one item that was read
            one = len(src) == 1 and any(inside(F, y, src[0], set()) for y in o) and name == "map" and re.search("clone_yaml|Rc.*clone|yaml", str(o)[:4000])
            rep.oblige(one, name + ":kind", "%s gives %s" % (at, show(o, 150)))
            continue
        base, items = col
        if base is not None:
            used.add(base)
            st = opened(F, base[2][2])
            if not rep.oblige(st is not None and st[0] is None, name + ":start", "%s starts with %s" % (at, show(base[2][2], 100))):
                continue
            items = st[1] + items
        match(rep, F, at, items, src, name)
        good += 1
    rep.oblige(good > 0, name + ":some", "%s never gives a collection" % at)
    for (ln, lc), trans in F.loops.items():
        mine = [b for b in used if b[2][0] == C(ln)]
        for tc, mem, ev in trans:
            src = taken(tested(tc))
            cols = [(b, v) for r, (b, v) in mem.items() if any(b == V(u) for u in mine)]
            if not mine:
                rep.oblige(not src, name + ":lost", "%s reads items in a loop and does not collect them" % at)
                continue
            n += 1
            for b, v in cols:
                c = opened(F, v)
                if rep.oblige(c is not None and c[0] == single(b), name + ":turn", "%s changes the collection into %s" % (at, show(v, 150))):
                    match(rep, F, at, c[1], src, name)
            if not cols:
                rep.oblige(not src, name + ":lost", "%s reads items in a loop and does not collect them" % at)
    return n


def make(rep, m):
    """The constructors from items."""
    d, n = m.d, 0
    for k, b in sorted(d["bodies"].items()):
        g = re.match(r"^<(yaml::Yaml|node::Node)<R> as std::iter::FromIterator<(.*)>>::from_iter <R, T>$", k)
        if not g:
            continue
        kind = "Map" if g.group(2).startswith("(") else "Seq"
        at = where(d, k)
        for cs, x, _, _ in m.F.run(k, [IN("items")]):
            n += 1
            y = nodeof(x) if g.group(1).endswith("Node") else adt(x, m.yamlt) if hasattr(m, "yamlt") else yamlof(x)
            ok = False
            if y:
                v = y[1][0]
                for _ in range(8):
                    a = single(v)
                    if v == IN("items"):
                        ok = y[0] == kind
                        break
                    if type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and oname(a) in CARRY:
                        v = a[2][0]
                    else:
                        break
            rep.oblige(ok, "make:%s:%s" % (g.group(1), kind), "%s gives %s" % (at, show(x, 150)))
    rep.floor("constructors", n, 4)
    return n


def yamlof(v):
    a = single(v)
    return (a[2], a[3]) if type(a) is tuple and a[0] == "adt" and str(a[1]).endswith("Yaml") else None
