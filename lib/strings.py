"""Strings put together from pieces."""
from serdet import *

SAME = r"(to_string|to_owned|into|from|clone|as_str|deref|borrow|as_ref|into_string|into_boxed_str|to_str|as_mut_str|new_display|display|into_owned|from_utf8_lossy|as_bytes|to_vec)$"


def pieces(F, v, depth=0):
    """The string as a list of literals (str) and values (the atom), or None."""
    a = single(F.unfold(v) if hasattr(F, "unfold") else v)
    if type(a) is not tuple or depth > 60:
        return None
    if a[0] == "c":
        return glue([a[1].decode("utf8", "replace") if type(a[1]) is bytes else a[1]]) if type(a[1]) in (bytes, str) else [a]
    if a[0] == "adt" and a[1] == "array":
        bs = [single(x) for x in a[3]]
        if all(type(x) is tuple and x[0] == "c" and type(x[1]) is int for x in bs):
            return glue([bytes(x[1] & 255 for x in bs).decode("utf8", "replace")])
        return [a]
    if a[0] != "op":
        return [a]
    n = re.sub(r" <.*?(!\d+)?$", r"\1", a[1])
    short = n.split("::")[-1]
    args = a[2]
    sub = lambda i: pieces(F, args[i], depth + 1)
    if short in ("push_str!0", "push!0", "add", "add_assign!0", "extend!0", "write_str!0", "write_char!0") and len(args) == 2:
        x, y = sub(0), sub(1) if short not in ("push!0", "write_char!0") else char(args[1])
        return None if x is None or y is None else glue(x + y)
    if short in ("new", "default", "with_capacity", "new_const") and re.search(r"String|^default$|Default::default", n) and len(args) <= 1:
        return []
    if short in ("concat",) and len(args) == 1:
        x = single(F.unfold(args[0]))
        return many(F, x[3], depth) if type(x) is tuple and x[0] == "adt" and x[1] == "array" else None
    if short in ("format", "must_use") and len(args) == 1:
        x = single(F.unfold(args[0]))
        if type(x) is tuple and x[0] == "op" and re.search(r"Arguments", x[1]):
            return template(F, x, depth)
        return sub(0)
    if short in ("write_fmt!0",) and len(args) == 2:
        x, y = sub(0), single(F.unfold(args[1]))
        y = template(F, y, depth) if type(y) is tuple and y[0] == "op" else None
        return None if x is None or y is None else glue(x + y)
    if re.search(SAME, short) and len(args) == 1:
        return sub(0)
    return [a]


def char(v):
    a = single(v)
    if type(a) is tuple and a[0] == "c":
        x = a[1][1] if type(a[1]) is tuple and a[1][:1] == ("char",) else a[1]
        return [x if type(x) is str else chr(x)] if type(x) in (str, int) else None
    if type(a) is tuple and a[0] == "op" and len(a[2]) == 1 and re.search(r"From<u8> for char|From<char>|Into|char::from\b", a[1]):
        return char(a[2][0])
    return [a] if type(a) is tuple else None


def many(F, xs, depth):
    out = []
    for x in xs:
        p = pieces(F, x, depth + 1)
        if p is None:
            return None
        out += p
    return glue(out)


def template(F, x, depth):
    """The pieces of format_args!: lengths of literals, 0xc0 for the next argument, 0xc8 for the one of a number."""
    if re.search(r"from_str|new_const", x[1]):
        return pieces(F, x[2][0], depth + 1)
    t, args = single(x[2][0]), single(F.unfold(x[2][1])) if len(x[2]) > 1 else None
    if type(t) is not tuple or t[0] != "c" or type(t[1]) not in (bytes, str):
        return None
    t = t[1] if type(t[1]) is bytes else t[1].encode("latin1")
    args = list(args[3]) if type(args) is tuple and args[0] == "adt" and args[1] == "array" else []
    out, i, at = [], 0, 0
    while i < len(t) and t[i]:
        b = t[i]
        i += 1
        if b < 0x80:
            out.append(t[i:i + b].decode("utf8", "replace"))
            i += b
        elif b in (0xc0, 0xc8):
            if b == 0xc8:
                at = t[i] + 256 * t[i + 1]
                i += 2
            if at >= len(args):
                return None
            y = single(F.unfold(args[at]))
            at += 1
            if type(y) is not tuple or y[0] != "op" or not re.search(r"new_display", y[1]):
                return None
            p = pieces(F, y[2][0], depth + 1)
            if p is None:
                return None
            out += p
        else:
            return None
    return glue(out)


def glue(xs):
    out = []
    for x in xs:
        if type(x) is str and out and type(out[-1]) is str:
            out[-1] += x
        elif x != "":
            out.append(x)
    return out
