import re
import facts

LEVEL = "proof"
WANT = {"repr::RcRepr": "std::rc::Rc", "repr::ArcRepr": "std::sync::Arc"}
LOOK = re.compile(r"(::type_id|::type_name|type_name_of_val|::size_of|::align_of|::needs_drop|::downcast|::strong_count|::weak_count|::ptr_eq|::as_ptr|::get_mut|::make_mut|::try_unwrap|::unwrap_or_clone|::into_inner|::into_raw|::is_unique)")


def check(rep):
    rep.rule = ("Parametricity: every function is generic over the pointer family; the two families may differ only in the `Repr` impl, which wraps its argument "
                "in Rc / Arc and does nothing else; no impl is given for one family only, and nothing observes the type, size or count of the pointer.")
    rep.assume = ["parametricity of safe Rust without specialisation, type ids and layout queries", "Rc and Arc agree on Deref, Clone, Eq, Hash and Debug"]
    d = facts.extract("all")
    seen = {}
    for im in d["impls"]:
        hit = [w for w in WANT if w in im["self"] or w in im.get("trait_ref", "").split(" as ")[0]]
        if not hit:
            continue
        if im["self"] in WANT:
            if im.get("trait") == "repr::Repr":
                seen[im["self"]] = im
                continue
            if im.get("derived"):
                continue
            # a family may only have the same impls as the other one
            other = [x for x in WANT if x != im["self"]][0]
            pair = any(o["self"] == other and o.get("trait_ref", "").replace(other, im["self"]) == im.get("trait_ref", "") for o in d["impls"])
            rep.oblige(pair, "impl %s for %s" % (im.get("trait"), im["self"]), "%s: %s has an impl (%s) the other pointer family lacks" % (im["span"], im["self"], im.get("trait")))
            continue
        rep.violate("impl %s" % im.get("trait_ref", im["self"]), "%s: impl for one pointer family only: %s" % (im["span"], im.get("trait_ref", im["self"])))
    for w in WANT:
        rep.need(w in seen, w, "%s does not implement the pointer family trait" % w)
    # associated pointer type and constructor
    n = 0
    bodies = {}
    for k, b in d["bodies"].items():
        if not b["span"].startswith("src/"):
            continue
        n += 1
        m = re.match(r"<(repr::\w+) as repr::Repr>::(\w+)", k)
        if m:
            bodies.setdefault(m.group(2), {})[m.group(1)] = (k, b)
        for x in b["blocks"]:
            t = x["t"]
            if t["k"] == "call":
                p = t["f"].get("rpath") or t["f"].get("path") or ""
                rep.obligations += 1
                rep.discharged += 1
                if LOOK.search(p):
                    sig = p + " " + " ".join(map(str, t["f"].get("rargs") or [])) + " " + (t.get("dty") or "")
                    if re.search(r"repr::|\bR\b|Rc\b|Arc\b|dyn ", sig):
                        rep.discharged -= 1
                        rep.violate(k.split(" <")[0] + ":" + p, "%s at %s observes the representation of the shared pointer: %s" % (k, t.get("sp"), p))
    def calls(b):
        out = []
        for x in b["blocks"]:
            if not x["cleanup"]:
                t = x["t"]
                if t["k"] == "call":
                    out.append(t["f"].get("rpath") or t["f"].get("path"))
                elif t["k"] == "switch" or t["k"] == "assert":
                    out.append("branch")
                for s in x["s"]:
                    if s["k"] == "assign" and s["rv"]["k"] in ("bin", "agg") :
                        out.append(s["rv"]["k"])
        return out
    for name, fam in sorted(bodies.items()):
        for w, (k, b) in sorted(fam.items()):
            c = calls(b)
            good = c == [WANT[w] + "::<T>::new"] or c == ["<%s<T> as std::convert::From<T>>::from" % WANT[w]]
            if name == "new_rc":
                rep.oblige(good, k, "%s at %s is not just %s::new of its argument: %s" % (k, b["span"], WANT[w], c))
                rep.samples.append("%s = %s" % (k, c))
            else:
                other = [x for x in WANT if x != w][0]
                o = fam.get(other)
                rep.oblige(o is not None and [x.replace(WANT[other], WANT[w]) for x in calls(o[1]) if x] == [x for x in c if x], k, "%s differs from its counterpart of the other pointer family" % k)
    for a, to in (("NodeRc", "node::Node<repr::RcRepr>"), ("NodeArc", "node::Node<repr::ArcRepr>")):
        al = [x["to"] for x in d["items"] if x["kind"] == "alias_to" and x["path"].split("::")[-1] == a]
        rep.oblige(al == [to], a, "the alias %s stands for %s" % (a, al))
    rep.floor("functions scanned", n, 250)
    rep.floor("pointer family impls", len(seen), 2)
