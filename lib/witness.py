"""Type level witnesses: small crates which must (not) type check against /repo's crate."""
import fcntl, os, re, shutil
import facts


def crate(name, lib, features=None, default=True):
    d = os.path.join(facts.BUILD, "witness-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    f = ", ".join('"%s"' % x for x in features or [])
    with open(os.path.join(d, "Cargo.toml"), "w") as o:
        o.write('[package]\nname = "witness-%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'yaml-peg = { path = "%s", default-features = %s, features = [%s] }\n' % (name, facts.REPO, str(default).lower(), f))
    with open(os.path.join(d, "src", "lib.rs"), "w") as o:
        o.write(lib)
    lock = os.path.join(facts.REPO, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return d


def check(name, lib, **kw):
    """(type checks, error codes with their lines, log)."""
    os.makedirs(facts.BUILD, exist_ok=True)
    with open(os.path.join(facts.BUILD, "lock-witness"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = crate(name, lib, **kw)
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.update(CARGO_TARGET_DIR=os.path.join(facts.BUILD, "target-witness"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
        # cargo's freshness test looks at time stamps only
        fp = os.path.join(facts.BUILD, "target-witness", "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("yaml-peg", "witness")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        rc, log = facts._run(["cargo", "check", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")], env=env, cwd=d)
    # the library itself must compile, otherwise nothing is decided
    if rc and "could not compile `yaml-peg`" in log:
        raise facts.ToolError("the library does not compile:\n" + log[-3000:])
    if rc and "could not compile `witness" not in log:
        raise facts.ToolError("cargo check failed:\n" + log[-3000:])
    codes = []
    for m in re.finditer(r"error(?:\[(E\d+)\])?: (.*)\n\s*--> src/lib\.rs:(\d+)", log):
        codes.append((m.group(1) or "", int(m.group(3)), m.group(2)))
    return rc == 0, codes, log
