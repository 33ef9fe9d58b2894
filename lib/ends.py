"""What follows a piece of the text."""
from grammar import *
from grammar import oname as named


def oname(a):
    return named(a) if type(a) is tuple and len(a) > 1 and a[0] == "op" and type(a[1]) is str else None


def subatoms(F, v, seen=None, depth=0, stop=None):
    seen = set() if seen is None else seen
    if type(v) is not frozenset or stop and stop(v):
        return seen
    for a in v:
        if type(a) is not tuple or a in seen or depth > 60:
            continue
        seen.add(a)
        if a[0] == "op" and a[1] == "state":
            subatoms(F, F.unfold(V(a)), seen, depth + 1, stop)
        elif a[0] == "op":
            for x in a[2]:
                subatoms(F, x, seen, depth + 1, stop)
        elif a[0] == "adt":
            for x in a[3]:
                subatoms(F, x, seen, depth + 1, stop)
        elif a[0] == "pj" and type(a[1]) is tuple:
            subatoms(F, V(a[1]), seen, depth + 1, stop)
    return seen


def chain(F, v):
    """[(method, state before, call)] from a state backwards."""
    out = []
    for _ in range(100):
        x = single(F.unfold(v))
        if type(x) is not tuple or x[0] != "op" or not x[1].endswith("!0"):
            return out
        c = ("op", x[1][:-2], x[2])
        out.append((oname(c), x[2][0], c))
        v = x[2][0]
    return out


def mode(c):
    """The least number of a take."""
    o = single(c[2][1]) if len(c[2]) > 1 else None
    if type(o) is tuple and o[0] == "adt" and o[2] == "More":
        n = single(o[3][0])
        return n[1] if type(n) is tuple and n[0] == "c" else None
    return None


def gapof(F, c, w):
    """Whether the condition says that blanks were there."""
    if type(c) is not tuple or c[0] != "op" or len(c[2]) != 2 or type(w) is not bool:
        return None
    n = re.sub(r" <.*$", "", c[1]).split("::")[-1]
    for i in (0, 1):
        k, d = single(c[2][1 - i]), single(c[2][i])
        if type(k) is tuple and k[0] == "c" and type(k[1]) is int and type(d) is tuple and d[0] == "op" and re.match(r"Sub|.*::(\w+_)?sub( |$)", d[1]) and all(type(single(z)) is tuple and single(z)[0] == "pj" and single(z)[2] == "pos" for z in d[2]):
            op = n if i == 0 else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(n, n)
            if (op, k[1]) in (("Gt", 0), ("Ge", 1), ("Ne", 0), ("ne", 0)):
                return w
            if (op, k[1]) in (("Le", 0), ("Lt", 1), ("Eq", 0), ("eq", 0)):
                return not w
    # the positions themselves
    zs = [single(z) for z in c[2]]
    if all(type(z) is tuple and z[0] == "pj" and z[2] == "pos" for z in zs):
        l = [len(chain(F, V(z[1]))) for z in zs]
        if n in ("Eq", "eq", "Ne", "ne"):
            return w == (n in ("Ne", "ne"))
        if n in ("Lt", "Gt", "Le", "Ge") and l[0] != l[1]:
            later = 0 if l[0] > l[1] else 1
            if n == ("Gt", "Lt")[later]:
                return w
            if n == ("Le", "Ge")[later]:
                return not w
    return None


def hashof(F, c, w):
    """Whether the condition says that a comment sign is next."""
    if type(c) is not tuple or c[0] != "op":
        return None
    n = re.sub(r" <.*$", "", c[1]).split("::")[-1]
    if n == "starts_with" and len(c[2]) == 2 and type(w) is bool and oname(single(c[2][0])) in ("food", "food_str"):
        k = single(c[2][1])
        if type(k) is tuple and (k[0] == "c" and k[1] in (b"#", "#", ("char", "#"), 35) or k[0] == "adt" and k[1] == "array" and k[3] == (C(35),)):
            return w
    if n == "discr" and w in ("Ok", "Err", "Mismatch"):
        x = single(c[2][0])
        if type(x) is tuple and oname(x) in ("sym", "sym_seq") and len(x[2]) > 1:
            k = single(x[2][1])
            if type(k) is tuple and k[0] == "c" and k[1] in (35, b"#"):
                return w == "Ok"
    if n in ("eq", "ne", "Eq", "Ne") and type(w) is bool and len(c[2]) == 2:
        for i in (0, 1):
            k = single(c[2][i])
            if type(k) is tuple and k[0] == "c" and k[1] in (35, b"#"):
                if any(type(a) is tuple and oname(a) in ("food",) for a in subatoms(F, c[2][1 - i])):
                    return w == (n.lower() == "eq")
    return None
