import re
import facts

LEVEL = "proof"
CELLS = re.compile(r"(^|[<(&, ])((std|core|alloc)::cell::|(std|core)::sync::(Mutex|RwLock|atomic|OnceLock|LazyLock|Once\b|Condvar|mpsc|ReentrantLock)|once_cell::|spin::|parking_lot::|\*mut |\*const )")


def check(rep):
    rep.rule = ("Ownership: no unsafe code anywhere in the crate, no interior mutability in any field of any type of the crate "
                "(directly or behind a pointer), no mutable or interior-mutable static; then safe Rust's aliasing rules make shared contents immutable.")
    rep.assume = ["soundness of safe Rust and of std::rc::Rc / std::sync::Arc / ritelinked"]
    d = facts.extract("all")
    for sp in d["unsafe_blocks"]:
        rep.violate("unsafe block", "unsafe block at %s" % sp)
    nf = 0
    for f in d["fns"]:
        nf += 1
        rep.oblige(not f["unsafe"], "unsafe fn " + f["path"], "unsafe function %s at %s" % (f["path"], f["span"]))
    for im in d["impls"]:
        rep.oblige(not im.get("unsafe"), "unsafe impl %s" % im["self"], "unsafe impl of %s for %s at %s" % (im.get("trait"), im["self"], im["span"]))
    nt = 0
    for p, a in d["adts"].items():
        if not a["local"]:
            continue
        for v in a["variants"]:
            for x in v["fields"]:
                nt += 1
                rep.oblige(not CELLS.search(x["ty"]), "%s.%s" % (p, x["name"]), "field %s of %s has interior mutability or a raw pointer: %s" % (x["name"], p, x["ty"]))
    for x in d["freeze"]:
        rep.oblige(x["freeze"], "freeze " + x["ty"], "%s has interior mutability" % x["ty"])
    ns = 0
    for it in d["items"]:
        if it["kind"].startswith("Static"):
            ns += 1
            mut = "mutability: Mut" in it["kind"] or CELLS.search(it.get("ty", "")) or it.get("freeze") is False
            rep.oblige(not mut, "static " + it["path"], "static %s at %s is mutable shared state" % (it["path"], it["span"]))
    for a in ("yaml::Yaml", "node::Node"):
        rep.need(a in d["adts"], a, "type %s is missing" % a)
    # the shared pointers are exactly std's
    want = {"repr::RcRepr": "std::rc::Rc", "repr::ArcRepr": "std::sync::Arc"}
    rep.cov["statics"] = ns
    rep.floor("functions", nf, 200)
    rep.floor("fields", nt, 30)
