"""What a predicate over bytes says for each byte: its MIR over the finite domain of bytes.

A predicate is a closure or function value with known captures; unknown parts (such as a
parameter of the method around it) may be any byte, so the answer is a set of outcomes.
"""
import re
from serdet import *


class Unknown(Exception):
    pass


U = ("?",)
ASCII = {
    "is_ascii": lambda b: b < 128,
    "is_ascii_digit": lambda b: 48 <= b <= 57,
    "is_ascii_hexdigit": lambda b: 48 <= b <= 57 or 65 <= b <= 70 or 97 <= b <= 102,
    "is_ascii_alphabetic": lambda b: 65 <= b <= 90 or 97 <= b <= 122,
    "is_ascii_alphanumeric": lambda b: 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122,
    "is_ascii_uppercase": lambda b: 65 <= b <= 90,
    "is_ascii_lowercase": lambda b: 97 <= b <= 122,
    "is_ascii_whitespace": lambda b: b in (32, 9, 10, 12, 13),
    "is_ascii_punctuation": lambda b: 33 <= b <= 47 or 58 <= b <= 64 or 91 <= b <= 96 or 123 <= b <= 126,
    "is_ascii_graphic": lambda b: 33 <= b <= 126,
    "is_ascii_control": lambda b: b < 32 or b == 127,
    "is_whitespace": lambda b: b in (32, 9, 10, 11, 12, 13, 0x85, 0xa0),
    "is_numeric": lambda b: 48 <= b <= 57 or b in (0xb2, 0xb3, 0xb9, 0xbc, 0xbd, 0xbe),
    "is_control": lambda b: b < 32 or 127 <= b < 160,
}


class Preds:
    def __init__(self, d, limit=4000):
        self.d, self.limit = d, limit
        self.clos = {}
        for k, b in d["bodies"].items():
            if b.get("closure") and "blocks" in b:
                self.clos.setdefault(b["locals"][1]["ty"].lstrip("&").replace("mut ", ""), k)
        self.cache = {}

    # ------------------------------------------------------------ from provenance values
    def value(self, F, v):
        """A provenance value as one of the evaluator."""
        a = single(F.unfold(v))
        if type(a) is not tuple:
            return U
        if a[0] == "c":
            if type(a[1]) is bytes:
                return tuple(a[1])
            return a[1]
        if a[0] == "fn":
            return ("fn", a[1], a[2] if len(a) > 2 else None)
        if a[0] == "adt":
            if a[1] == "array":
                return tuple(self.value(F, x) for x in a[3])
            if type(a[1]) is tuple and a[1][0] == "closure":
                return ("clo", a[1][1], tuple(self.value(F, x) for x in a[3]))
            return U
        if a[0] == "op":
            n = re.sub(r" <.*?(!\d+)?$", r"\1", a[1])
            s = n.split("::")[-1]
            if s in ("to_vec", "as_slice", "deref", "borrow", "as_ref", "into_vec", "to_owned", "clone", "into", "from", "as_bytes"):
                return self.value(F, a[2][0])
            if s == "push!0":
                x = self.value(F, a[2][0])
                return x + (self.value(F, a[2][1]),) if type(x) is tuple and x != U else U
            k = next((k for k in self.d["bodies"] if k == n or k.split(" <")[0] == n), None)
            if k:
                try:
                    rs = self.run(k, [self.value(F, x) for x in a[2]])
                except Unknown:
                    return U
                return rs[0] if len(rs) == 1 else U
        return U

    def table(self, p):
        """{outcomes} for each of the 256 bytes."""
        if p not in self.cache:
            out = []
            for b in range(256):
                try:
                    out.append(frozenset(x if type(x) is bool else "?" for x in self.callv(p, [b])))
                except Unknown:
                    out.append(frozenset(["?"]))
            self.cache[p] = out
        return self.cache[p]

    def sat(self, p):
        """Bytes which the predicate surely / possibly accepts."""
        t = self.table(p)
        return {b for b in range(256) if t[b] == {True}}, {b for b in range(256) if t[b] != {False}}

    # ------------------------------------------------------------ the evaluator
    def callv(self, f, args):
        if type(f) is tuple and f[:1] == ("clo",):
            k = self.clos.get(f[1])
            if k is None:
                raise Unknown(f[1])
            return self.run(k, [f, tuple(args)])
        if type(f) is tuple and f[:1] == ("fn",):
            k = f[2] if f[2] in self.d["bodies"] else next((k for k in self.d["bodies"] if k == f[1]), None)
            if k:
                return self.run(k, list(args))
            return [self.prim(f[1], f[1].split("::")[-1], list(args))]
        raise Unknown("call")

    def run(self, key, args, b=None):
        b = b or self.d["bodies"][key]
        if "blocks" not in b:
            raise Unknown(key)
        old = getattr(self, "body", None)
        self.body = b
        try:
            return self.walk(b, args)
        finally:
            self.body = old

    def walk(self, b, args):
        loc = {}
        if b.get("closure"):
            loc[1] = args[0]
            rest = args[1] if len(args) > 1 else ()
            for i in range(2, b["argc"] + 1):
                loc[i] = rest[i - 2] if i - 2 < len(rest) else U
        else:
            for i, x in enumerate(args):
                loc[i + 1] = x
        out, todo, n = [], [(0, loc)], 0
        while todo:
            blk, loc = todo.pop()
            n += 1
            if n > self.limit:
                raise Unknown("loop")
            bb = b["blocks"][blk]
            for s in bb["s"]:
                if s["k"] == "assign":
                    self.store(loc, s["pl"], self.rvalue(loc, s["rv"]))
            t = bb["t"]
            k = t["k"]
            if k == "goto":
                todo.append((t["t"], loc))
            elif k == "return":
                out.append(self.deref(loc, loc.get(0, U)))
            elif k in ("drop", "falseedge"):
                todo.append((t["t"], loc))
            elif k == "assert":
                todo.append((t["t"], loc))
            elif k == "unreachable":
                pass
            elif k == "switch":
                v = self.operand(loc, t["op"])
                v = int(v) if type(v) is bool else v
                if v == U or type(v) is not int:
                    for x in {y for _, y in t["ts"]} | {t["else"]}:
                        todo.append((x, dict(loc)))
                else:
                    todo.append((next((y for x, y in t["ts"] if x == v), t["else"]), loc))
            elif k == "call":
                rs = self.call(loc, t)
                for r in rs:
                    l2 = dict(loc)
                    self.store(l2, t["dest"], r)
                    if t.get("t") is not None:
                        todo.append((t["t"], l2))
            else:
                raise Unknown(k)
        return list(dict.fromkeys(out))

    def call(self, loc, t):
        f = t["f"]
        path, name = f.get("path") or "", f.get("name") or (f.get("path") or "").split("::")[-1]
        args = [self.operand(loc, a) for a in t["args"]]
        tr = f.get("trait") or ""
        if tr.startswith("std::ops::Fn") and len(args) == 2 and type(args[1]) is tuple:
            return self.callv(self.deref(loc, args[0]), list(args[1]))
        if name == "next" and tr.endswith("Iterator"):
            r = args[0]
            if type(r) is not tuple or r[0] != "ref":
                raise Unknown("next")
            cur = self.load(loc, r[1])
            while type(cur) is tuple and cur[:1] == ("ref",):
                r, cur = cur, self.load(loc, cur[1])
            if type(cur) is not tuple or cur[0] != "iter":
                raise Unknown("next")
            if not cur[1]:
                return [("opt",)]
            self.store(loc, r[1], ("iter", cur[1][1:]))
            return [("opt", cur[1][0])]
        args = [self.deref(loc, a) for a in args]
        if name in ("into_iter", "iter", "copied", "cloned", "bytes") and args:
            x = args[0]
            if type(x) is tuple and x[:1] == ("iter",):
                return [x]
            if type(x) is tuple and all(type(y) is int or y == U for y in x):
                return [("iter", x)]
            raise Unknown(name)
        if name in ("any", "all") and len(args) == 2 and type(args[0]) is tuple and args[0][0] == "iter":
            rs = [self.callv(args[1], [y]) for y in args[0][1]]
            stop = name == "any"
            out = set()
            live = True
            for r in rs:
                if stop in r or any(type(z) is not bool for z in r):
                    out.add(stop)
                if set(r) == {stop}:
                    live = False
                    break
            if live:
                out.add(not stop)
            return sorted(out)
        k = f.get("key") or f.get("rkey") or f.get("rpath")
        for c in (f.get("key"), f.get("rkey"), f.get("rpath"), path):
            if c in self.d["bodies"] and "blocks" in self.d["bodies"][c]:
                return self.run(c, args)
        return [self.prim(f.get("rpath") or path, name, args)]

    def prim(self, path, name, args):
        if name in ASCII and len(args) == 1:
            return ASCII[name](args[0]) if type(args[0]) is int and type(args[0]) is not bool else U
        if name in ("eq", "ne") and len(args) == 2:
            if U in args:
                return U
            return (args[0] == args[1]) == (name == "eq")
        if name in ("lt", "le", "gt", "ge") and len(args) == 2:
            if U in args:
                return U
            return {"lt": args[0] < args[1], "le": args[0] <= args[1], "gt": args[0] > args[1], "ge": args[0] >= args[1]}[name]
        if name == "contains" and len(args) == 2:
            xs = args[0]
            if type(xs) is tuple and xs[:1] == ("range",):
                return U if U in args[1:] or type(xs[1]) is not int else xs[1] <= args[1] and (args[1] <= xs[2] if xs[3] else args[1] < xs[2])
            if type(xs) is tuple and type(args[1]) is int:
                return True if args[1] in xs else U if U in xs else False
            return U
        if name == "not" and len(args) == 1:
            return not args[0] if type(args[0]) is bool else U
        if name == "is_empty" and type(args[0]) is tuple and args[0] != U:
            return not args[0]
        if name in ("clone", "to_vec", "as_slice", "deref", "borrow", "as_ref", "from", "into", "to_owned", "as_bytes", "index") and len(args) >= 1:
            return args[0] if name != "index" else U
        if name in ("to_ascii_lowercase", "to_ascii_uppercase") and type(args[0]) is int:
            b = args[0]
            return b + 32 if name.endswith("lowercase") and 65 <= b <= 90 else b - 32 if name.endswith("uppercase") and 97 <= b <= 122 else b
        if name == "is_digit" and len(args) == 2:
            if type(args[0]) is not int or type(args[1]) is not int:
                return U
            return digit(args[0], args[1])
        if name == "to_digit" and len(args) == 2 and type(args[0]) is int and type(args[1]) is int:
            return ("opt", int(chr(args[0]), 36)) if digit(*args) else ("opt",)
        if name in ("is_some", "is_none") and type(args[0]) is tuple and args[0][:1] == ("opt",):
            return (len(args[0]) == 2) == (name == "is_some")
        if name == "new" and "RangeInclusive" in path:
            return ("range", args[0], args[1], True)
        return U

    # ------------------------------------------------------------ places
    def deref(self, loc, v):
        for _ in range(8):
            if type(v) is tuple and v[:1] == ("ref",):
                v = self.load(loc, v[1])
            else:
                break
        return v

    def norm(self, loc, pl):
        """The place with the references on the way resolved: (local, fields)."""
        l, path = pl["l"], []
        for e in pl["p"]:
            if e["k"] == "deref":
                cur = self.load(loc, (l, tuple(path)))
                if type(cur) is tuple and cur[:1] == ("ref",):
                    l, path = cur[1][0], list(cur[1][1])
            elif e["k"] == "field":
                path.append(e["i"])
            elif e["k"] == "downcast":
                path.append("v%d" % e["i"])
            elif e["k"] == "cindex" and not e.get("end"):
                path.append(("ix", e["off"]))
            else:
                path.append("?")
        return (l, tuple(path))

    def load(self, loc, np):
        v = loc.get(np[0], U)
        for e in np[1]:
            if v == U:
                return U
            while type(v) is tuple and v[:1] == ("ref",):
                v = self.load(loc, v[1])
            if type(e) is str and e.startswith("v"):
                continue
            if e == "?" or type(v) is not tuple:
                return U
            if type(e) is tuple:
                v = v[e[1]] if e[1] < len(v) else U
            elif v[:1] == ("clo",):
                v = v[2][e] if e < len(v[2]) else U
            elif v[:1] == ("opt",):
                v = v[1 + e] if 1 + e < len(v) else U
            elif v[:1] == ("iter",) or v[:1] == ("fn",) or v[:1] == ("range",):
                return U
            else:
                v = v[e] if e < len(v) else U
        return v

    def store(self, loc, pl, v):
        np = self.norm(loc, pl) if type(pl) is dict else pl
        if not np[1]:
            loc[np[0]] = v
        elif all(type(e) is int for e in np[1]) and len(np[1]) == 1 and type(loc.get(np[0])) is tuple and loc[np[0]][:1] not in (("clo",), ("opt",), ("iter",), ("ref",), ("fn",), U):
            x = list(loc[np[0]])
            if np[1][0] < len(x):
                x[np[1][0]] = v
                loc[np[0]] = tuple(x)
            else:
                loc[np[0]] = U
        else:
            loc[np[0]] = U

    def operand(self, loc, o):
        if o["k"] in ("copy", "move"):
            return self.load(loc, self.norm(loc, o["pl"]))
        if o["k"] == "const":
            return self.const(o)
        return U

    def const(self, o):
        for f in ("bool", "char", "int", "refint"):
            if f in o:
                x = o[f]
                return x if type(x) is not str else int(x) if f != "char" else ord(x[0])
        if "str" in o:
            return tuple(o["str"].encode())
        if "bytes" in o:
            return tuple(o["bytes"])
        if "fn" in o:
            return ("fn", o["fn"], o.get("fkey", o["ty"]))
        t = (self.d.get("types") or {}).get(o.get("ty")) or {}
        if t.get("k") == "closure" or str(o.get("ty", "")).startswith("{closure"):
            return ("clo", o["ty"], ())
        if "promoted" in o:
            ps = self.body.get("promoted") or []
            if o["promoted"] < len(ps) and ps[o["promoted"]]:
                rs = self.run(None, [], ps[o["promoted"]])
                return rs[0] if len(rs) == 1 else U
        return U

    def rvalue(self, loc, r):
        k = r["k"]
        if k == "use":
            return self.operand(loc, r["op"])
        if k in ("ref", "rawptr"):
            np = self.norm(loc, r["pl"])
            return ("ref", np)
        if k == "agg":
            ops = tuple(self.operand(loc, o) for o in r["ops"])
            if r.get("ak") == "closure":
                # captured references keep their targets here
                return ("clo", r["ty"], tuple(self.deref(loc, x) for x in ops))
            if r.get("ak") in ("tuple", "array"):
                return tuple(self.deref(loc, x) for x in ops)
            if "RangeInclusive" in str(r):
                return ("range", ops[0], ops[1], True)
            if "Range" in str(r.get("adt", "")) and len(ops) == 2:
                return ("range", ops[0], ops[1], False)
            return U
        if k == "discr":
            v = self.deref(loc, self.load(loc, self.norm(loc, r["pl"])))
            return len(v) - 1 if type(v) is tuple and v[:1] == ("opt",) else U
        if k == "bin":
            a, b = self.deref(loc, self.operand(loc, r["a"])), self.deref(loc, self.operand(loc, r["b"]))
            return self.binop(r["op"], a, b)
        if k == "un":
            a = self.deref(loc, self.operand(loc, r["a"]))
            return not a if type(a) is bool else U
        if k == "cast":
            v = self.operand(loc, r["op"])
            return v
        return U

    def binop(self, op, a, b):
        if U in (a, b) or type(a) is tuple or type(b) is tuple:
            if op in ("BitAnd", "&") and False in (a, b):
                return False
            if op in ("BitOr", "|") and True in (a, b):
                return True
            return U
        f = {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
             "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Sub": lambda: (a - b) & 255 if b <= a else U, "Add": lambda: a + b if a + b < 256 else U}.get(op.replace("WithOverflow", ""))
        return f() if f else U


def digit(b, base):
    return b < 128 and chr(b).isalnum() and int(chr(b), 36) < base
