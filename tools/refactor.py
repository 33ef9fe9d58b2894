"""Behaviour preserving edits: every check must stay quiet on them.

usage: refactor.py [-n] [-c C01,C02..] [name ..]   (-n: without the tests)   (works on copies under /tmp/yp-refactor)
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = "/tmp/yp-refactor"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(m, checks, tests=True):
    w = "%s/%s" % (W, m["name"])
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh("cp -a /repo %s/repo; rm -rf %s/repo/target; mkdir %s/verif; cp -a %s/check.py %s/lib %s/props %s/driver %s/witness %s/known-findings.json %s/verif/" % (
        (w, w, w) + (ROOT, ROOT, ROOT, ROOT, ROOT, ROOT, w)))
    for e in m["edits"]:
        p = "%s/repo/src/%s" % (w, e[0])
        s = open(p).read()
        if e[1] not in s:
            return m["name"], "NO MATCH: " + e[1]
        open(p, "w").write(s.replace(e[1], e[2], e[3] if len(e) > 3 else 1))
    if not tests:
        return m["name"], judge(w, checks)
    t = sh("cd %s/repo && CARGO_TARGET_DIR=%s/t cargo test --offline --all-features 2>&1" % (w, w)).stdout
    n = sh("cd %s/repo && CARGO_TARGET_DIR=%s/t cargo check --offline --no-default-features 2>&1" % (w, w)).stdout
    ok = len([l for l in t.splitlines() if re.match(r"test .*ok$", l)])
    err = [l for l in (t + n).splitlines() if re.match(r"error|test .*FAILED", l)]
    out = "tests %d%s" % (ok, "" if ok == 53 and not err else " " + " | ".join(err)[-400:])
    shutil.rmtree(w + "/t", ignore_errors=True)
    if ok == 53 and not err:
        out += judge(w, checks)
    shutil.rmtree(w, ignore_errors=True)
    return m["name"], out


def judge(w, checks):
    out = ""
    for p in checks:
        r = subprocess.run([sys.executable, "check.py", p], cwd=w + "/verif", env=dict(os.environ, YP_REPO=w + "/repo"), capture_output=True, text=True)
        if r.returncode:
            out += "\n   %s rc=%d %s" % (p, r.returncode, (r.stdout + r.stderr)[-700:] if r.returncode not in (0, 1) else r.stdout[:600])
    shutil.rmtree(w, ignore_errors=True)
    return out or "quiet"


def main():
    a = sys.argv[1:]
    tests = a[:1] != ["-n"]
    a = a[not tests:]
    allp = sorted(f[:3].upper() for f in os.listdir(ROOT + "/props") if f[0] == "c" and f.endswith(".py"))
    if a[:1] == ["-c"]:
        sel = a[1].split(",")
        a = a[2:]
    else:
        sel = [p for p in allp if p not in ("C01",)]
    ms = [m for m in json.load(open(HERE + "/refactorings.json")) if not a or m["name"] in a or m.get("group") in a]
    with ThreadPoolExecutor(7) as ex:
        for n, o in ex.map(lambda m: one(m, sel, tests), ms):
            print("==", n, o, flush=True)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
