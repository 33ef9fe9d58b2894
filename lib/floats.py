"""Constants of floats and of texts."""
import struct
from serdet import *


def ctext(v):
    """The text which a value is, if it is a constant one."""
    a = single(v)
    if type(a) is tuple and a[0] == "c":
        return a[1].decode("latin1") if type(a[1]) is bytes else a[1] if type(a[1]) is str else None
    return None


def known(cs):
    """The special float which the conditions say a number is."""
    t = {}
    for c, w in cs:
        if type(c) is tuple and c[0] == "op" and type(w) is bool:
            s = re.sub(r" <.*$", "", c[1]).split("::")[-1]
            if s in ("is_nan", "is_infinite", "is_sign_negative", "is_sign_positive", "is_finite"):
                t[s] = w
            if c[1] in ("Eq", "eq") and w:
                for x in c[2]:
                    f = fconst(x)
                    if f is not None and f in ("inf", "-inf"):
                        return f
            if c[1] in ("Lt", "Gt", "lt", "gt") and fconst(c[2][1]) == "0":
                t["is_sign_negative"] = w == (c[1].lower() == "lt")
    if t.get("is_nan"):
        return "NaN"
    if t.get("is_infinite") and ("is_sign_negative" in t or "is_sign_positive" in t):
        return "-inf" if t.get("is_sign_negative") or t.get("is_sign_positive") is False else "inf"
    return None


def fconst(v):
    a = single(v)
    if type(a) is tuple and a[0] == "c" and type(a[1]) is tuple and a[1][0] == "f":
        bits = a[1][2]
        bits = int(bits) if type(bits) is str else bits
        f = struct.unpack("<f", struct.pack("<I", bits))[0] if a[1][1] == "f32" else struct.unpack("<d", struct.pack("<Q", bits))[0]
        return "NaN" if f != f else "inf" if f == float("inf") else "-inf" if f == float("-inf") else "0" if f == 0 else str(f)
    return None
