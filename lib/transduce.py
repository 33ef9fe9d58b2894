"""A function from a string to a string, read off its MIR as a finite transducer.

The function takes the characters of its argument one at a time.  Its states are the points at
which it asks for the next character together with what it remembers there (every local which is
still used, over the finite domain below); the input alphabet is each ASCII character and one
symbol for all the others, which only compares as "greater than any ASCII character" and can
only be copied.  Text it has put into its result is output and no part of the state.  What is
outside this fragment raises Unknown.
"""
import re

NA = "NA"                        # any character above ASCII
SIGMA = tuple(range(128)) + (NA,)


class Unknown(Exception):
    pass


def some(v):
    return ("adt", 1, (v,), "Some")


NONE = ("adt", 0, (), "None")
OPQ = ("?",)


def ok(v):
    return ("adt", 0, (v,), "Ok")


def text(items):
    return ("s", "", (), tuple(items))


def istext(v):
    return type(v) is tuple and v[:1] == ("s",)


def cat(a, b):
    """Strings are (mark, before, after): the output so far, with a mark, lies between the two."""
    if a[1] and b[1]:
        raise Unknown("the result is put in twice")
    if a[1]:
        return ("s", a[1], a[2], a[3] + b[3])
    if b[1]:
        return ("s", b[1], a[3] + b[2], b[3])
    return text(a[3] + b[3])


def ischar(v):
    return v == NA or type(v) is int and type(v) is not bool


class State:
    def __init__(self):
        self.frames, self.mem, self.out = [], {}, None

    def copy(self):
        s = State()
        s.frames, s.mem, s.out = [dict(f) for f in self.frames], dict(self.mem), self.out
        return s


class Machine:
    def __init__(self, d, key):
        self.d, self.key = d, key
        self.clos = {}
        for k, b in d["bodies"].items():
            if b.get("closure") and "blocks" in b:
                self.clos.setdefault(b["locals"][1]["ty"].lstrip("&").replace("mut ", ""), k)
        self.steps = 0

    # ------------------------------------------------------------ the interface
    def start(self):
        """(output, state) up to the first request for a character."""
        body = self.d["bodies"][self.key]
        if body["argc"] != 1:
            raise Unknown("more than one argument")
        s = State()
        self.push(s, self.key, [("in",)], None)
        self.go(s)
        return self.flush(s)

    def next(self, s, c):
        """(output, state) after the character c; the state is None and a text is left when c is None."""
        s = s.copy()
        s.frames = [dict(f) for f in s.frames]
        self.resume(s, c)
        self.go(s)
        return self.flush(s)

    def finish(self, s):
        """(text put before the output, text put after it) at the end of the input."""
        for _ in range(20):
            s = s.copy()
            self.resume(s, None)
            self.go(s)
            if s.out is not None:
                v = s.out
                if not istext(v):
                    raise Unknown("the result is no text")
                return (v[2], v[3]) if v[1] else ((), v[3]) if not self.acc else self.bad("the output is lost")
            o, s = self.flush(s)
            if o:
                raise Unknown("output at the end")
        raise Unknown("the end of the text is asked for again and again")

    @staticmethod
    def bad(m):
        raise Unknown(m)

    acc = None

    def flush(self, s):
        """What was put into the result since the last time."""
        if s.out is not None:
            raise Unknown("it returns before the end of the text")
        self.prune(s)
        marked = [k for k, v in s.mem.items() if istext(v) and v[1]]
        if len(marked) > 1:
            raise Unknown("two copies of the result")
        if not marked:
            if self.acc:
                raise Unknown("the output is lost")
            cand = [k for k, v in s.mem.items() if istext(v) and self.isbuf(s, k)]
            if len(cand) != 1:
                raise Unknown("%d texts may be the result" % len(cand))
            self.acc = True
            k = cand[0]
            v = s.mem[k]
            s.mem[k] = ("s", "!", (), ())
            return v[3], s
        k = marked[0]
        v = s.mem[k]
        s.mem[k] = ("s", "!", v[2], ())
        return v[3], s

    def isbuf(self, s, k):
        f = s.frames[k[0]]
        if k[1] == "acc":
            return f["what"] in ("collect", "fold")
        return "key" in f and type(k[1]) is int and self.d["bodies"][f["key"]]["locals"][k[1]]["ty"].endswith("String")

    def frozen(self, s):
        return (tuple((f.get("key"), f.get("blk"), str(f.get("dest"))) if "data" not in f else ("@", f["what"], f["acc"], str(sorted(f["data"].items(), key=str))) for f in s.frames),
                tuple(sorted(s.mem.items(), key=str)))

    def prune(self, s):
        import absint
        keep = set()
        for i, f in enumerate(s.frames):
            if "data" in f:
                keep |= {k for k in s.mem if k[0] == i}
                continue
            b = self.d["bodies"][f["key"]]
            if "_tlive" not in b:
                b["_tlive"] = absint.BodyInfo("", {"blocks": b["blocks"], "path": "", "_local": True}).live
            lv = b["_tlive"][f["cont"]] if f.get("cont") is not None else ()
            keep |= {k for k in s.mem if k[0] == i and k[1] in lv}
        todo = list(keep)
        for f in s.frames:
            if "data" in f:
                todo += self.refs(tuple(f["data"].values()))
        seen = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += [r for r in self.refs(s.mem.get(k, ())) if r not in seen]
        s.mem = {k: v for k, v in s.mem.items() if k in seen}

    def refs(self, v):
        if type(v) is not tuple:
            return []
        if v[:1] == ("ref",):
            return [v[1]]
        return [r for x in v for r in self.refs(x)]

    # ------------------------------------------------------------ running
    def push(self, s, key, args, dest, cont=None):
        b = self.d["bodies"].get(key)
        if b is None or "blocks" not in b:
            raise Unknown(str(key))
        if len(s.frames) > 12:
            raise Unknown("recursion")
        if s.frames and "cont" in s.frames[-1]:
            s.frames[-1]["cont"] = cont
        i = len(s.frames)
        s.frames.append({"key": key, "blk": 0, "dest": dest, "cont": None})
        if b.get("closure"):
            rest = args[1] if len(args) == 2 and type(args[1]) is tuple and args[1][:1] == ("t",) else None
            xs = [args[0]] + (list(rest[1]) if rest is not None and (b["argc"] != 2 or len(rest[1]) == 1) else list(args[1:]))
            args = xs
        for j, a in enumerate(args):
            s.mem[(i, j + 1)] = a

    def go(self, s):
        while s.frames and s.out is None:
            self.steps += 1
            if self.steps > 400000:
                raise Unknown("too long")
            f = s.frames[-1]
            if "data" in f:
                return
            if self.block(s, f):
                return

    def block(self, s, f):
        """Run a block; True when it waits for a character."""
        i = len(s.frames) - 1
        b = self.d["bodies"][f["key"]]
        self.body = b
        bb = b["blocks"][f["blk"]]
        for st in bb["s"]:
            if st["k"] == "assign":
                self.store(s, i, st["pl"], self.rvalue(s, i, st["rv"]))
            elif st["k"] == "dead":
                s.mem.pop((i, st["l"]), None)
        t = bb["t"]
        k = t["k"]
        if k in ("goto", "drop", "falseedge"):
            f["blk"] = t["t"]
        elif k == "assert":
            v = self.operand(s, i, t["cond"])
            if type(v) is bool and v != t["exp"]:
                raise Unknown("it panics")
            f["blk"] = t["t"]
        elif k == "switch":
            v = self.operand(s, i, t["op"])
            if v == NA:
                if any(x > 127 for x, _ in t["ts"]):
                    raise Unknown("a character above ASCII is looked at")
                f["blk"] = t["else"]
            elif type(v) in (int, bool):
                f["blk"] = next((y for x, y in t["ts"] if x == int(v)), t["else"])
            else:
                raise Unknown("a choice on something unknown at %s" % t.get("sp"))
        elif k == "return":
            self.ret(s, s.mem.get((i, 0), ("t", ())))
        elif k == "call":
            return self.call(s, f, i, t)
        else:
            raise Unknown(k)

    def ret(self, s, v):
        f = s.frames.pop()
        i = len(s.frames)
        v = self.lift(s, v, i)
        for k in [k for k in s.mem if k[0] == i]:
            del s.mem[k]
        if not s.frames:
            s.out = v
            return
        if f["dest"] is not None:
            self.store(s, i - 1, f["dest"], v)

    def lift(self, s, v, i):
        """No reference to the frame that ends."""
        if type(v) is tuple and v[:1] == ("ref",) and v[1][0] == i:
            return self.lift(s, self.load(s, v), i)
        if type(v) is tuple and v and any(type(x) is tuple for x in v):
            return tuple(self.lift(s, x, i) if type(x) is tuple else x for x in v)
        return v

    def sync(self, s, fv, args):
        """The result of a function value which takes no character itself."""
        depth = len(s.frames)
        self.callv(s, fv, args, None)
        if len(s.frames) == depth:
            v, self.result = self.result, None
            return v
        mark = s.frames[depth]
        mark["sync"] = True
        while len(s.frames) > depth:
            f = s.frames[-1]
            if len(s.frames) == depth + 1 and "data" not in f:
                b = self.d["bodies"][f["key"]]
                if b["blocks"][f["blk"]]["t"]["k"] == "return":
                    for st in b["blocks"][f["blk"]]["s"]:
                        if st["k"] == "assign":
                            self.body = b
                            self.store(s, depth, st["pl"], self.rvalue(s, depth, st["rv"]))
                    v = self.lift(s, s.mem.get((depth, 0), ("t", ())), depth)
                    s.frames.pop()
                    for k in [k for k in s.mem if k[0] == depth]:
                        del s.mem[k]
                    return v
            self.steps += 1
            if self.steps > 400000:
                raise Unknown("too long")
            if "data" in f or self.block(s, f):
                raise Unknown("a character is taken inside an adapter")
        raise Unknown("sync")

    result = None

    def callv(self, s, fv, args, dest, cont=None):
        """Call a function value; a result is at hand in self.result or a frame was pushed."""
        for _ in range(6):
            if type(fv) is tuple and fv[:1] == ("ref",):
                r, fv = fv, self.load(s, fv)
            else:
                break
        if type(fv) is tuple and fv[:1] == ("clo",):
            k = self.clos.get(fv[1])
            if k is None:
                raise Unknown(fv[1])
            me = fv
            if self.d["bodies"][k]["locals"][1]["ty"].startswith("&"):
                # a closure by reference: keep what it captured in a cell of its own
                i = len(s.frames)
                s.mem[(i, "clo")] = fv
                me = ("ref", (i, "clo"), ())
            self.push(s, k, [me, ("t", tuple(args))], dest, cont)
            return
        if type(fv) is tuple and fv[:1] == ("fn",):
            k = next((k for k in (fv[2], fv[1]) if k in self.d["bodies"] and "blocks" in self.d["bodies"][k]), None)
            if k:
                self.push(s, k, list(args), dest, cont)
                return
            self.result = self.prim(s, fv[1], fv[1].split("::")[-1], list(args), {})
            return
        raise Unknown("a call of an unknown function")

    def call(self, s, f, i, t):
        fn = t["f"]
        path = fn.get("rpath") or fn.get("path") or ""
        name = fn.get("name") or (fn.get("path") or "").split("::")[-1]
        args = [self.operand(s, i, a) for a in t["args"]]
        tr = fn.get("trait") or ""
        if t.get("t") is None:
            raise Unknown("it panics (%s)" % path)
        f["blk"] = t["t"]
        f["cont"] = t["t"]
        if tr.startswith("std::ops::Fn") and len(args) == 2:
            xs = args[1][1] if type(args[1]) is tuple and args[1][:1] == ("t",) else (args[1],)
            self.callv(s, args[0], xs, t["dest"], t["t"])
            if self.result is not None:
                v, self.result = self.result, None
                self.store(s, i, t["dest"], v)
            return
        for k in (fn.get("key"), fn.get("rkey"), fn.get("rpath"), fn.get("path")):
            if k in self.d["bodies"] and "blocks" in self.d["bodies"][k]:
                self.push(s, k, args, t["dest"], t["t"])
                return
        v = [self.deref(s, a) for a in args]
        if v and type(v[0]) is tuple and v[0][:1] == ("chars",):
            r = args[0]
            if name in ("next", "next_if", "peek"):
                cell = self.target(s, r)
                it = v[0]
                if name == "next" and it[2] is not None:
                    self.put(s, cell, ("chars", it[1], None))
                    self.store(s, i, t["dest"], self.opt(it[2]))
                    return
                if name == "peek" and it[2] is not None:
                    self.store(s, i, t["dest"], self.opt(it[2]))
                    return
                if name == "next_if":
                    raise Unknown("next_if")
                f["wait"] = (name, cell, t["dest"])
                return True
            if name in ("for_each", "collect", "fold", "extend"):
                if v[0][2] is not None:
                    raise Unknown("peeked")
                return self.consume(s, i, name, args, v, t)
        if name == "extend" and len(v) == 2 and type(v[1]) is tuple and v[1][:1] == ("chars",):
            return self.consume(s, i, name, args, v, t)
        self.store(s, i, t["dest"], self.prim(s, path, name, args, t))

    def opt(self, c):
        return NONE if c == "end" else some(c)

    def consume(self, s, i, name, args, v, t):
        """An iterator method which takes all the characters."""
        if s.frames[i].get("sync"):
            raise Unknown("inside an adapter")
        data = {"iter": v[0] if name != "extend" else v[1], "f": (args[1] if name == "for_each" else args[2] if name == "fold" else ("t", ()))}
        if name == "collect":
            if "String" not in str(t.get("dty", "")):
                raise Unknown("collected into " + str(t.get("dty")))
            init = text(())
        else:
            init = args[1] if name == "fold" else ("t", ())
        j = len(s.frames)
        s.mem[(j, "acc")] = init
        s.frames.append({"data": data, "what": name, "acc": str(args[0]) if name == "extend" else "", "dest": t["dest"], "target": args[0] if name == "extend" else None})
        return True

    def resume(self, s, c):
        f = s.frames[-1]
        i = len(s.frames) - 1
        if "data" in f:
            it = f["data"]["iter"]
            if c is None:
                v = s.mem[(i, "acc")]
                s.frames.pop()
                del s.mem[(i, "acc")]
                self.store(s, i - 1, f["dest"], v)
                return
            for x in self.adapt(s, it, c):
                if f["what"] == "collect":
                    s.mem[(i, "acc")] = cat(s.mem[(i, "acc")], self.asText(s, x))
                elif f["what"] == "for_each":
                    self.sync(s, f["data"]["f"], [x])
                elif f["what"] == "fold":
                    s.mem[(i, "acc")] = self.sync(s, f["data"]["f"], [s.mem[(i, "acc")], x])
                elif f["what"] == "extend":
                    self.append(s, f["target"], x)
            return
        name, cell, dest = f.pop("wait")
        it = self.at(s, cell)
        if c is None:
            x = "end"
        else:
            xs = self.adapt(s, it, c)
            if len(xs) == 0:
                f["wait"] = (name, cell, dest)
                s.waiting = True
                raise Again()
            if len(xs) != 1:
                raise Unknown("several items from one character")
            x = xs[0]
        if name == "peek":
            self.put(s, cell, ("chars", it[1], x))
        self.store(s, i, dest, self.opt(x))

    def adapt(self, s, it, c):
        xs = [c]
        for kind, fv in it[1]:
            if kind == "map":
                xs = [self.sync(s, fv, [x]) for x in xs]
            elif kind == "filter":
                ys = []
                for x in xs:
                    i = len(s.frames)
                    r = self.sync(s, fv, [x])
                    if type(r) is not bool:
                        raise Unknown("filter")
                    ys += [x] if r else []
                xs = ys
            elif kind in ("flat_map", "filter_map"):
                ys = []
                for x in xs:
                    r = self.sync(s, fv, [x])
                    ys += self.items(r)
                xs = ys
            elif kind == "enumerate":
                xs = [("t", (OPQ, x)) for x in xs]
        return xs

    def items(self, v):
        if istext(v) and not v[1]:
            return list(v[3])
        if type(v) is tuple and v[:1] in (("a",), ("iter",)):
            return list(v[1])
        if type(v) is tuple and v[:1] == ("adt",) and v[3] in ("Some", "None"):
            return list(v[2])
        raise Unknown("flat_map")

    # ------------------------------------------------------------ std
    def asText(self, s, v):
        v = self.deref(s, v)
        if istext(v):
            return v
        if ischar(v):
            return text([v])
        raise Unknown("no text: %r" % (v,))

    def append(self, s, target, x):
        cell = self.target(s, target)
        v = self.at(s, cell)
        if not istext(v):
            raise Unknown("something is put into a text which is not known")
        self.put(s, cell, cat(v, self.asText(s, x)))

    def prim(self, s, path, name, args, t):
        v = [self.deref(s, a) for a in args]
        p = re.sub(r"<[^<>]*>", "", path)
        if name in ("push", "push_str", "add_assign", "write_str", "write_char", "insert", "insert_str"):
            if name.startswith("insert"):
                raise Unknown(name)
            self.append(s, args[0], v[1])
            return ok(("t", ())) if name.startswith("write") else ("t", ())
        if name == "write_fmt":
            self.append(s, args[0], v[1])
            return ok(("t", ()))
        if name == "add" and len(v) == 2 and istext(v[0]):
            return cat(v[0], self.asText(s, v[1]))
        if name in ("new", "default", "with_capacity") and ("String" in path or "String" in str(t.get("dty"))):
            return text(())
        if name in ("new_display", "new") and "Argument" in path and "Arguments" not in path:
            return v[0]
        if "Arguments" in path:
            return self.format(s, v)
        if name in ("chars", "char_indices") and v[0] == ("in",):
            if getattr(s, "taken", False):
                raise Unknown("the text is gone through twice")
            s.taken = True
            return ("chars", (("enumerate", None),) if name == "char_indices" else (), None)
        if name in ("len", "is_empty", "capacity") and v[0] == ("in",):
            return OPQ
        if v and type(v[0]) is tuple and v[0][:1] == ("chars",):
            it = v[0]
            if name in ("into_iter", "peekable", "by_ref", "fuse"):
                return args[0] if name == "by_ref" else it
            if name in ("map", "filter", "flat_map", "filter_map", "enumerate") and it[2] is None:
                return ("chars", it[1] + ((name, v[1] if len(v) > 1 else None),), None)
            if name == "size_hint":
                return OPQ
        if name in ("from", "into", "to_string", "to_owned", "clone", "deref", "as_str", "borrow", "as_ref", "into_boxed_str", "into_string", "must_use", "format", "identity", "new_v1", "as_mut", "deref_mut", "copied", "cloned", "into_iter") and len(v) >= 1:
            x = v[0]
            if ischar(x) and ("String" in str(t.get("dty")) or name == "to_string" or "String" in path):
                return text([x])
            if name in ("as_mut", "deref_mut"):
                return args[0]
            if istext(x) and x[1] and name in ("clone", "to_string", "to_owned"):
                raise Unknown("the result is copied")
            return x
        if name in ("eq", "ne") and len(v) == 2:
            r = self.equal(v[0], v[1])
            return r == (name == "eq")
        if name in ("lt", "le", "gt", "ge") and len(v) == 2:
            return self.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], v[0], v[1])
        if name == "contains" and len(v) == 2:
            if istext(v[0]) and not v[0][1] and ischar(v[1]):
                return v[1] in v[0][3]
            if v[0][:1] == ("a",):
                return v[1] in v[0][1]
            if v[0][:1] == ("range",) and ischar(v[1]):
                a, b, inc = v[0][1:]
                return self.binop("Le", a, v[1]) and self.binop("Le" if inc else "Lt", v[1], b)
        if name == "new" and "RangeInclusive" in path:
            return ("range", v[0], v[1], True)
        if name.startswith("is_ascii") and len(v) == 1 and ischar(v[0]):
            from preds import ASCII
            return False if v[0] == NA else ASCII[name](v[0]) if name in ASCII else Unknown.__call__(name)
        if name in ("is_digit", "to_digit") and len(v) == 2 and ischar(v[0]):
            from preds import digit
            if v[0] == NA:
                r = False
            else:
                r = digit(v[0], v[1])
            return r if name == "is_digit" else some(int(chr(v[0]), 36)) if r else NONE
        if name in ("take", "replace") and "mem" in path and len(args) >= 1:
            cell = self.target(s, args[0])
            old = self.at(s, cell)
            self.put(s, cell, v[1] if name == "replace" else False if type(old) is bool else text(()) if istext(old) else NONE if old[:1] == ("adt",) else self.bad("take"))
            return old
        if type(v[0] if v else None) is tuple and v[0][:1] == ("adt",) and len(v[0]) == 4:
            o = v[0]
            yes = o[3] in ("Some", "Ok")
            if name in ("is_some", "is_ok"):
                return yes
            if name in ("is_none", "is_err"):
                return not yes
            if name in ("unwrap", "expect", "unwrap_unchecked"):
                return o[2][0] if yes else self.bad("it panics")
            if name == "unwrap_or":
                return o[2][0] if yes else v[1]
            if name == "unwrap_or_else":
                return o[2][0] if yes else self.sync(s, v[1], [] if o[3] == "None" else list(o[2]))
            if name == "map":
                return (o[0], o[1], (self.sync(s, v[1], list(o[2])),), o[3]) if yes else o
            if name == "map_or":
                return self.sync(s, v[2], list(o[2])) if yes else v[1]
            if name == "map_or_else":
                return self.sync(s, v[2], list(o[2])) if yes else self.sync(s, v[1], [])
            if name == "and_then":
                return self.sync(s, v[1], list(o[2])) if yes else o
            if name == "take" and len(args) == 1:
                self.put(s, self.target(s, args[0]), NONE)
                return o
            if name in ("unwrap_or_default",) and yes:
                return o[2][0]
            if name == "branch":
                return ("adt", 0, o[2], "Continue") if yes else ("adt", 1, (o,), "Break")
        if name == "then" and type(v[0]) is bool:
            return some(self.sync(s, v[1], [])) if v[0] else NONE
        if name == "then_some" and type(v[0]) is bool:
            return some(v[1]) if v[0] else NONE
        if name in ("reserve", "shrink_to_fit"):
            return ("t", ())
        raise Unknown("%s at %s" % (path or name, t.get("sp")))

    def equal(self, a, b):
        if ischar(a) and ischar(b):
            if a == b == NA:
                raise Unknown("characters above ASCII are compared")
            return a == b
        if istext(a) and istext(b) and not a[1] and not b[1]:
            if NA in a[3] and NA in b[3]:
                raise Unknown("characters above ASCII are compared")
            return a[3] == b[3]
        if type(a) is tuple and type(b) is tuple and a[:1] == b[:1] == ("adt",):
            return a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.equal(x, y) for x, y in zip(a[2], b[2]))
        if type(a) is bool and type(b) is bool:
            return a == b
        raise Unknown("a comparison")

    def format(self, s, v):
        if len(v) == 1:
            return self.asText(s, v[0])
        t, args = v[0], v[1]
        if not istext(t) or args[:1] != ("a",):
            raise Unknown("format")
        t = bytes(t[3])
        args = list(args[1])
        out, i = text(()), 0
        while i < len(t) and t[i]:
            b = t[i]
            i += 1
            if b < 0x80:
                out = cat(out, text(t[i:i + b]))
                i += b
            elif b == 0xc0 and args:
                out = cat(out, self.asText(s, args.pop(0)))
            else:
                raise Unknown("format")
        return out

    # ------------------------------------------------------------ memory
    def deref(self, s, v):
        for _ in range(12):
            if type(v) is tuple and v[:1] == ("ref",):
                v = self.load(s, v)
            else:
                return v
        raise Unknown("references")

    def load(self, s, r):
        return self.at(s, (r[1], r[2]))

    def target(self, s, v):
        """The cell behind references."""
        if type(v) is not tuple or v[:1] != ("ref",):
            raise Unknown("no reference")
        for _ in range(12):
            x = self.load(s, v)
            if type(x) is tuple and x[:1] == ("ref",):
                v = x
            else:
                return (v[1], v[2])
        raise Unknown("references")

    def at(self, s, cell):
        v = s.mem.get(cell[0], OPQ)
        for e in cell[1]:
            v = self.part(s, v, e)
        return v

    def part(self, s, v, e):
        if type(v) is tuple and v[:1] == ("ref",):
            v = self.deref(s, v)
        if type(e) is str:
            return v
        if v == OPQ:
            return OPQ
        k = v[0] if type(v) is tuple and v else None
        xs = v[2] if k in ("adt", "clo") else v[1] if k in ("t", "a") else None
        if k == "s" and not v[1]:
            xs = v[3]
        if xs is None or e >= len(xs):
            raise Unknown("a part of %r" % (v,))
        return xs[e]

    def put(self, s, cell, x):
        if not cell[1]:
            s.mem[cell[0]] = x
            return
        s.mem[cell[0]] = self.update(s, s.mem.get(cell[0], ("t", ())), list(cell[1]), x)

    def update(self, s, v, path, x):
        if not path:
            return x
        e, rest = path[0], path[1:]
        if type(e) is str:
            return self.update(s, v, rest, x)
        k = v[0]
        j = 2 if k in ("adt", "clo") else 1
        xs = list(v[j])
        while len(xs) <= e:
            xs.append(OPQ)
        xs[e] = self.update(s, xs[e], rest, x)
        return v[:j] + (tuple(xs),) + v[j + 1:]

    def cell(self, s, i, pl):
        root, path = (i, pl["l"]), ()
        for e in pl["p"]:
            if e["k"] == "deref":
                v = self.at(s, (root, path))
                if type(v) is tuple and v[:1] == ("ref",):
                    root, path = v[1], v[2]
            elif e["k"] == "field":
                path += (e["i"],)
            elif e["k"] == "downcast":
                path += ("v",)
            elif e["k"] == "cindex" and not e.get("end"):
                path += (e["off"],)
            elif e["k"] == "index":
                n = s.mem.get((i, e.get("l")), OPQ)
                if type(n) is not int:
                    raise Unknown("an index")
                path += (n,)
            else:
                raise Unknown(e["k"])
        return root, path

    def store(self, s, i, pl, v):
        self.put(s, self.cell(s, i, pl), v)

    def operand(self, s, i, o):
        if o["k"] in ("copy", "move"):
            c = self.cell(s, i, o["pl"])
            v = self.at(s, c)
            if o["k"] == "move" and not c[1] and c[0][0] == i and not o["pl"]["p"]:
                s.mem.pop(c[0], None)
            return v
        if o["k"] == "const":
            return self.const(s, o)
        raise Unknown(o["k"])

    def const(self, s, o):
        if "bool" in o:
            return o["bool"]
        if "char" in o:
            return ord(o["char"][0]) if ord(o["char"][0]) < 128 else self.bad("a character above ASCII is named")
        for f in ("int", "refint"):
            if f in o:
                return int(o[f])
        if "str" in o:
            if any(ord(c) > 127 for c in o["str"]):
                raise Unknown("a character above ASCII is named")
            return text(map(ord, o["str"]))
        if "bytes" in o:
            return text(o["bytes"])
        if "fn" in o:
            return ("fn", o["fn"], o.get("fkey"))
        ty = str(o.get("ty", ""))
        if ty.startswith("{closure"):
            return ("clo", ty, ())
        if "promoted" in o:
            ps = self.body.get("promoted") or []
            if o["promoted"] < len(ps) and ps[o["promoted"]]:
                return self.promoted(ps[o["promoted"]])
        if o.get("zst"):
            return ("t", ())
        return OPQ

    def promoted(self, b):
        """A constant body without calls."""
        s = State()
        s.frames = [{"key": "", "blk": 0, "dest": None}]
        k = 0
        for _ in range(20):
            bb = b["blocks"][k]
            for st in bb["s"]:
                if st["k"] == "assign":
                    self.store(s, 0, st["pl"], self.rvalue(s, 0, st["rv"]))
            if bb["t"]["k"] == "return":
                return self.solid(s, s.mem.get((0, 0), OPQ))
            if bb["t"]["k"] == "call":
                fn = bb["t"]["f"]
                args = [self.operand(s, 0, a) for a in bb["t"]["args"]]
                self.store(s, 0, bb["t"]["dest"], self.prim(s, fn.get("rpath") or fn.get("path"), fn.get("name"), args, bb["t"]))
            k = bb["t"].get("t")
            if k is None:
                break
        return OPQ

    def solid(self, s, v):
        v = self.deref(s, v)
        return tuple(self.solid(s, x) if type(x) is tuple else x for x in v) if type(v) is tuple else v

    def rvalue(self, s, i, r):
        k = r["k"]
        if k == "use":
            return self.operand(s, i, r["op"])
        if k in ("ref", "rawptr"):
            c = self.cell(s, i, r["pl"])
            v = self.at(s, c)
            # a shared reference to a value which cannot change is the value
            if istext(v) and not v[1] and c[0] not in s.mem:
                return v
            if v == ("in",) or ischar(v) and not r.get("mut"):
                return v
            if c[0] not in s.mem and not c[1]:
                s.mem[c[0]] = OPQ
            return ("ref", c[0], c[1])
        if k == "agg":
            ops = tuple(self.operand(s, i, o) for o in r["ops"])
            ak = r.get("ak")
            if ak == "closure":
                return ("clo", r["ty"], ops)
            if ak == "tuple":
                return ("t", ops)
            if ak == "array":
                return ("a", ops)
            if ak == "adt":
                if "RangeInclusive" in r["adt"]:
                    return ("range", ops[0], ops[1], True)
                if re.search(r"ops::Range$", r["adt"]):
                    return ("range", ops[0], ops[1], False)
                return ("adt", r["vi"], ops, r.get("variant"))
            raise Unknown(str(ak))
        if k == "discr":
            v = self.deref(s, self.at(s, self.cell(s, i, r["pl"])))
            if type(v) is tuple and v[:1] == ("adt",):
                return v[1]
            raise Unknown("the kind of %r" % (v,))
        if k == "bin":
            return self.binop(r["op"], self.deref(s, self.operand(s, i, r["a"])), self.deref(s, self.operand(s, i, r["b"])))
        if k == "un":
            v = self.deref(s, self.operand(s, i, r["a"]))
            if type(v) is bool:
                return not v
            raise Unknown("un")
        if k == "cast":
            v = self.operand(s, i, r["op"])
            if v == NA and not re.search(r"u32|char|u64|i32|i64", str(r.get("to") or r.get("ty"))):
                raise Unknown("a cast cuts a character")
            return v
        if k == "repeat":
            raise Unknown(k)
        return OPQ

    def binop(self, o, a, b):
        cmp = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}
        if o in cmp and (a == NA or b == NA):
            if a == b or any(type(x) is int and x > 127 for x in (a, b)) or not (ischar(a) and ischar(b)):
                raise Unknown("a character above ASCII is compared")
            return cmp[o](1000, b) if a == NA else cmp[o](a, 1000)
        if type(a) in (int, bool) and type(b) in (int, bool):
            if o in cmp:
                return cmp[o](a, b)
            g = {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}
            if o in g:
                return bool(g[o]) if type(a) is bool else g[o]
            if o in ("Add", "AddUnchecked"):
                return a + b
            if o in ("Sub", "SubUnchecked") and a >= b:
                return a - b
            if o == "AddWithOverflow":
                return ("t", (a + b, False))
            if o == "SubWithOverflow" and a >= b:
                return ("t", (a - b, False))
        if OPQ in (a, b) and o in ("Add", "Sub", "Mul", "Div", "Shr"):
            return OPQ
        if OPQ in (a, b) and o.endswith("WithOverflow"):
            return ("t", (OPQ, False))
        raise Unknown("%s of %r and %r" % (o, a, b))


class Again(Exception):
    pass


def states(m, limit=4000):
    """Walk all states: yields (path, state, symbol, output, state after) and at the end (path, state, None, (before, after), None)."""
    o, s = m.start()
    yield (), None, "", o, s
    seen, todo = {m.frozen(s)}, [((), s)]
    while todo:
        path, s = todo.pop(0)
        for c in SIGMA:
            try:
                o2, s2 = m.next(s, c)
            except Again:
                o2, s2 = (), s
            yield path, s, c, o2, s2
            k = m.frozen(s2)
            if k not in seen:
                seen.add(k)
                if len(seen) > limit:
                    raise Unknown("too many states")
                todo.append((path + (c,), s2))
        yield path, s, None, m.finish(s), None


def against(m, spec):
    """Compare with a specification (start, step(state, c) -> (output, state), end(state) -> output).
    Returns (states, list of (input, output, expected))."""
    o, s = m.start()
    q = spec[0]
    bad = []
    seen, todo = set(), [((), s, q, o, ())]
    while todo:
        path, s, q, a, b = todo.pop(0)
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        a, b = a[n:], b[n:]
        if a and b or len(a) > 8 or len(b) > 8:
            bad.append((path, a, b))
            if len(bad) > 5:
                break
            continue
        k = (m.frozen(s), q, a, b)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 4000:
            raise Unknown("too many states")
        pre, post = m.finish(s)
        if pre or a + post != b + spec[2](q):
            bad.append((path + ("end",), pre + a + post, b + spec[2](q)))
            if len(bad) > 5:
                break
            continue
        for c in SIGMA:
            try:
                o2, s2 = m.next(s, c)
            except Again:
                o2, s2 = (), s
            e2, q2 = spec[1](q, c)
            todo.append((path + (c,), s2, q2, a + o2, b + e2))
    return len(seen), bad


def word(xs):
    return "".join("(end)" if x == "end" else "(other)" if x == NA else chr(x) for x in xs)
