import re
import facts, report

LEVEL = "proof"
DENY = re.compile(r"^<?(std|core|alloc)::(env|fs|net|process|thread|time|io|os|backtrace|arch)::|^<?(std|core|alloc)::sync::(?!Arc)|^(rand|getrandom|libc|once_cell|spin)::|::random\b|RandomState as |RandomState::new|"
                  r"::type_id|thread_local|LocalKey|Location::<.*>::caller|caller_location|std::panic::|available_parallelism")
ORDER = re.compile(r"^<?&?(mut )?'?_? ?(std|hashbrown)::collections::(hash_map|hash_set|hash|HashMap|HashSet)|std::collections::(HashMap|HashSet)")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|fmt|extract_if|next)\b")
ADDR = re.compile(r"::(as_ptr|ptr_eq|addr_eq|addr|expose_provenance|as_mut_ptr|into_raw)\b|std::fmt::Pointer|std::ptr::")


def check(rep):
    rep.rule = ("Effect analysis over the call graph: no entry point reaches a call into the environment, "
                "clock, random numbers, files or threads, an iteration in hash seed order or an observation of an address; no static item is mutable.")
    rep.assume = ["standard library and dependency functions outside the listed effect modules are functions of their arguments",
                  "ritelinked's map iterates in insertion order whatever the hash seed"]
    d = facts.extract("all")
    calls = 0
    eff, callers = {}, {}
    loc = {k: b for k, b in d["bodies"].items() if not b["span"].startswith("src/tests")}
    for k, b in loc.items():
        mine = b["span"].startswith("src/")
        for x in b["blocks"]:
            if x["cleanup"]:
                continue
            t = x["t"]
            for s in x["s"]:
                if mine and s["k"] == "assign" and s["rv"]["k"] == "cast" and re.search("Expose|PtrToPtr|FnPtrToPtr", s["rv"].get("ck", "")):
                    eff.setdefault(k, "%s: an address becomes a value" % b["span"])
                # closures and function items run where they are made
                if s["k"] == "assign" and s["rv"]["k"] == "agg" and s["rv"].get("ak") == "closure":
                    callers.setdefault("closure " + s["rv"]["ty"], set()).add(k)
            if t["k"] != "call":
                continue
            if t["f"].get("key"):
                callers.setdefault(t["f"]["key"], set()).add(k)
            if not mine:
                continue
            calls += 1
            p = t["f"].get("rpath") or t["f"].get("path") or ""
            full = p + " " + " ".join(map(str, t["f"].get("rargs") or []))
            why = None
            if DENY.search(p):
                why = "depends on more than its arguments"
            elif ADDR.search(p):
                why = "observes an address"
            elif ORDER.search(full) and ITER.search(p) and "ritelinked" not in p:
                why = "iterates in the order of a hash seed"
            if why:
                eff.setdefault(k, "%s calls %s, which %s" % (t.get("sp"), p, why))
    # closures: their own body is reached from where they are created
    up = {k: set(v) for k, v in callers.items()}
    for k, b in loc.items():
        if b["closure"]:
            root = k.split("::{closure")[0]
            for o in loc:
                if o.split(" <")[0] == root:
                    up.setdefault(k, set()).add(o)
    via = {k: (k, m) for k, m in eff.items()}
    todo = list(via)
    while todo:
        k = todo.pop()
        for c in up.get(k, ()):
            if c not in via:
                via[c] = via[k]
                todo.append(c)
    n = 0
    for f in d["fns"]:
        if f["path"].startswith("tests::") or not (f["exported"] or f["pub"] or f.get("trait")):
            continue
        n += 1
        v = via.get(f["key"])
        rep.oblige(v is None, f["path"].split(" <")[0], v and "%s at %s is not a function of its arguments: %s (in %s)" % (f["path"], f["span"], v[1], report.norm(v[0])))
    for it in d["items"]:
        if it["kind"].startswith("Static"):
            rep.oblige("mutability: Mut" not in it["kind"] and it.get("freeze") is not False, "static " + it["path"],
                       "static %s at %s can carry state from one call to the next" % (it["path"], it["span"]))
    rep.cov["effectful_functions"] = {report.norm(k): v for k, v in eff.items()}
    rep.floor("entry points", n, 100)
    rep.floor("calls", calls, 800)
