"""Per-variant tables of the node type, read off the provenance analysis."""
import facts
from flow import *

YAML, NODE = "yaml::Yaml", "node::Node"
RESULT, OPTION = "std::result::Result", "std::option::Option"


class Model:
    """The data model with the names the source uses today."""

    def __init__(self, rep, d):
        self.d, self.rep = d, rep
        self.ok = rep.need(YAML in d["adts"] and NODE in d["adts"], "types", "the node types are missing")
        self.variants = [v["name"] for v in d["adts"][YAML]["variants"]]
        self.pos = self.tag = self.yaml = None
        for f in d["adts"][NODE]["variants"][0]["fields"]:
            if f["ty"] == "u64":
                self.pos = f["name"]
            elif f["ty"] == "std::string::String":
                self.tag = f["name"]
            elif "PhantomData" not in f["ty"]:
                self.yaml = f["name"]
        rep.need(self.pos and self.tag and self.yaml, "fields", "the node's position, tag and content fields are not recognised")

    def key(self, path):
        """The generic instance of a function."""
        ks = [k for k in self.d["bodies"] if k == path or k.startswith(path + " <")]
        ks.sort(key=lambda k: ("repr::" in k, len(k)))
        return ks[0] if ks else None

    def node(self, name="self"):
        return V(("in", (name,)))

    def P(self, name="self"):
        return V(("in", (name, self.pos)))

    def T(self, name="self"):
        return V(("in", (name, self.tag)))

    def Y(self, name="self"):
        return V(("in", (name, self.yaml)))

    def payload(self, variant, name="self", i=0):
        return V(("in", (name, self.yaml, variant, str(i))))

    def assume(self, variant, name="self"):
        return {(name, self.yaml): variant, (name,): variant}


def adt(v, path, variant=None):
    """The fields of a value that is exactly this constructor."""
    if len(v) == 1:
        a = next(iter(v))
        if type(a) is tuple and a[0] == "adt" and a[1] == path and (variant is None or a[2] == variant):
            return a[3]
    return None


def Ok(v):
    x = adt(v, RESULT, "Ok")
    return x[0] if x else None


def Err(v):
    x = adt(v, RESULT, "Err")
    return x[0] if x else None


def isop(v, *names):
    """Arguments of a single primitive operation whose name ends so."""
    if len(v) == 1:
        a = next(iter(v))
        if type(a) is tuple and a[0] == "op" and any(a[1] == n or a[1].endswith("::" + n) or a[1].split(" <")[0].endswith("::" + n) for n in names):
            return a[2]
    return None


def pj(v, *names):
    """x of x.names[0].names[1]..."""
    if len(v) != 1:
        return None
    a = next(iter(v))
    for n in reversed(names):
        if type(a) is not tuple:
            return None
        if a[0] == "pj" and a[2] == n:
            a = a[1]
        elif a[0] == "in" and a[1][-1] == n:
            a = ("in", a[1][:-1])
        else:
            return None
    return V(a)


def inputs(v):
    """Argument parts the value is made of."""
    return {a[1] for a in atoms(v) if type(a) is tuple and a[0] == "in"}


def opsof(v):
    return {a[1] for a in atoms(v) if type(a) is tuple and a[0] == "op"}


def unknown(v):
    return any(a == "?" for a in atoms(v))


def conds(cs, n=4):
    return " & ".join(sorted(("" if w is True else "not " if w is False else str(w) + " ") + show(V(c), 70) for c, w in cs)[:n]) or "always"


def where(d, key):
    return "%s at %s" % (key.split(" <")[0], d["bodies"][key]["span"])
