"""Build the MIR fact extractor and run it over /repo's current source, once per feature set."""
import fcntl, hashlib, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YP_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
CONFIGS = {
    "all": ["--all-features"],
    "default": [],
    "serde": ["--no-default-features", "--features", "serde"],
    "core": ["--no-default-features"],
}


class ToolError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise ToolError("no nightly rustc: " + out)
    return out.strip()


def driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        rc, out = _run(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", "-o", tmp, src])
        if rc:
            raise ToolError("fact extractor does not build:\n" + out[-4000:])
        os.rename(tmp, exe)
    return exe


def extract(config):
    """Facts of one feature set, from /repo's working tree as it is now."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        tgt = os.path.join(BUILD, "target-" + config)
        for sub in (".fingerprint", "build", "incremental"):
            fp = os.path.join(tgt, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("yaml-peg", "yaml_peg")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        out = os.path.join(BUILD, "facts-%s-%d.json" % (config, os.getpid()))
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.update(RUSTC_WORKSPACE_WRAPPER=exe, YP_FACTS=out, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true",
                   CARGO_INCREMENTAL="0", LD_LIBRARY_PATH=sysroot() + "/lib")
        rc, log = _run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml")] + CONFIGS[config], env=env, cwd=BUILD)
        if rc or not os.path.exists(out):
            raise ToolError("cargo check (%s) failed:\n%s" % (config, log[-4000:]))
        with open(out) as f:
            data = json.load(f)
        os.unlink(out)
    if data["crate"] != "yaml_peg":
        raise ToolError("facts are of crate " + data["crate"])
    return data


if __name__ == "__main__":
    for c in sys.argv[1:] or ["all"]:
        d = extract(c)
        json.dump(d, open(os.path.join(BUILD, "dump-%s.json" % c), "w"))
        print(c, len(d["fns"]), "functions", len(d["bodies"]), "bodies", len(d["adts"]), "adts", d["features"])
