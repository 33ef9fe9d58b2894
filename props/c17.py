import facts

LEVEL = "proof"


def check(rep):
    rep.rule = ("Crate graph of the builds without the `std` feature as the compiler resolved it: no crate of the graph may be `std` or a runtime crate of it, "
                "and no item may name it; each of the builds must type check.")
    rep.assume = ["rustc's crate resolution: code can only reach std through a linked crate"]
    for c in ("core", "serde"):
        d = facts.extract(c)
        rep.need(not set(d["features"]) & {"std", "default"}, c, "the %s build enables std" % c)
        for x in sorted(set(d["crates"])):
            rep.oblige(x not in ("std", "panic_unwind", "panic_abort", "unwind", "std_detect", "test", "proc_macro"), "%s:%s" % (c, x),
                       "the build with features %s links the crate `%s`, which needs an operating system" % (d["features"], x))
        for it in d["items"]:
            if it["kind"] == "ExternCrate":
                rep.oblige(it["path"].split("::")[-1] not in ("std", "test"), "%s:extern crate %s" % (c, it["path"]), "extern crate %s at %s without the std feature" % (it["path"], it["span"]))
        n = 0
        for p, e in d["externs"].items():
            n += 1
            rep.oblige(e["crate"] not in ("std", "std_detect", "unwind"), "%s:%s" % (c, p), "call of %s, which is defined in `%s`" % (p, e["crate"]))
        rep.floor(c + " crates", len(d["crates"]), 5)
        rep.floor(c + " external functions", n, 100)
        rep.samples.append("%s: %s" % (d["features"], sorted(set(d["crates"]))))
    # with the feature the crate does use it (otherwise the test above looked at the wrong thing)
    rep.need("std" in facts.extract("default")["crates"], "std", "the default build does not link std")
