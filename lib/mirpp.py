"""Readable MIR of one body (debugging aid)."""
import json, sys


def pl(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        k = e["k"]
        if k == "deref": s = "(*%s)" % s
        elif k == "field": s += "." + str(e["name"] if e["name"] is not None else e["i"])
        elif k == "index": s += "[_%d]" % e["local"]
        elif k == "downcast": s = "(%s as %s)" % (s, e["name"])
        else: s += "<%s>" % json.dumps(e)
    return s


def op(o):
    if o["k"] in ("copy", "move"): return ("" if o["k"] == "copy" else "move ") + pl(o["pl"])
    for k in ("int", "bool", "char", "str", "bytes", "fn", "refint", "promoted", "def", "zst"):
        if k in o: return "const %s=%r:%s" % (k, o[k], o["ty"])
    return "const?" + json.dumps(o)


def rv(r):
    k = r["k"]
    if k == "use": return op(r["op"])
    if k == "ref": return ("&mut " if r["mut"] else "&") + pl(r["pl"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "cast": return "%s as %s [%s]" % (op(r["op"]), r["ty"], r["ck"])
    if k == "discr": return "discr(%s)" % pl(r["pl"])
    if k == "agg": return "agg %s %s%s {%s}" % (r["ak"], r.get("adt") or r.get("def") or "", "::" + str(r.get("variant")) if r.get("variant") else "", ", ".join(op(x) for x in r["ops"]))
    return json.dumps(r)[:200]


def term(t):
    k = t["k"]
    if k == "call":
        f = t["f"]
        return "%s = %s%s(%s) -> %s   [%s key=%s]" % (pl(t["dest"]), f.get("path"), "<" + ", ".join(map(str, f.get("args", []))) + ">", ", ".join(op(a) for a in t["args"]), t["t"], f.get("rkind") + " " + str(f.get("rpath")), f.get("key"))
    if k == "switch": return "switch %s %s else %s" % (op(t["op"]), t["ts"], t["else"])
    if k == "assert": return "assert %s==%s %s %s -> %s" % (op(t["cond"]), t["exp"], t["msg"], [op(x) for x in t["ops"]], t["t"])
    if k == "drop": return "drop %s -> %s" % (pl(t["pl"]), t["t"])
    if k == "goto": return "goto %s" % t["t"]
    return k


def show(b):
    for i, l in enumerate(b["locals"]): print("  _%d: %s %s" % (i, l["ty"], l.get("name") or ""))
    print("  upvars", b["upvars"])
    for i, bb in enumerate(b["blocks"]):
        if bb["cleanup"]: continue
        print(" bb%d:" % i)
        for s in bb["s"]:
            if s["k"] == "assign": print("    %s = %s" % (pl(s["pl"]), rv(s["rv"])))
            elif s["k"] == "setdiscr": print("    discr(%s) = %s" % (pl(s["pl"]), s["vi"]))
            elif s["k"] == "intrinsic": print("    ", s["d"])
        print("    " + term(bb["t"]))


if __name__ == "__main__":
    d = json.load(open("/verif/.build/dump-all.json"))
    for k, b in d["bodies"].items():
        if sys.argv[1] in k:
            print(k)
            if len(sys.argv) > 2: show(b)
