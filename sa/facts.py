"""Build the MIR fact extractor and run it over /repo's current working tree."""
import hashlib, os, subprocess, sys, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
EXPECTED = ("rich", "tcss", "textual", "textual_macros")


def _h(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def driver_sources():
    d = os.path.join(VERIF, "driver")
    return sorted([os.path.join(d, "Cargo.toml"), os.path.join(d, "src", "main.rs")])


def repo_sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ("target", ".git", "node_modules")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock", ".tcss", ".css")):
                out.append(os.path.join(base, f))
    return sorted(out)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("command failed (%d): %s" % (r.returncode, " ".join(cmd)))
    return r.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def build_driver():
    key = _h(driver_sources())
    d = os.path.join(CACHE, "driver-" + key)
    exe = os.path.join(d, "debug", "mirfacts")
    if not os.path.exists(exe):
        env = dict(os.environ, CARGO_TARGET_DIR=d)
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        run(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(VERIF, "driver"), env=env)
    return exe, key


def ensure(fresh=False):
    """directory with facts for the current tree; fresh: extracted anew, whatever the cache holds"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dkey = build_driver()
        key = _h(repo_sources()) + "-" + dkey[:8]
        if fresh:
            key += "-%d" % os.getpid()
        out = os.path.join(CACHE, "facts-" + key)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        tmp = out + ".tmp"
        tgt = os.path.join(CACHE, "tgt-" + key)
        for p in (tmp, tgt):
            shutil.rmtree(p, ignore_errors=True)
        os.makedirs(tmp)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, VP_FACTS_DIR=tmp, RUSTC_WORKSPACE_WRAPPER=exe,
                   LD_LIBRARY_PATH=sysroot() + "/lib")
        env.pop("RUSTFLAGS", None)
        run(["cargo", "+nightly", "check", "--offline", "--locked", "-p", "textual"], cwd=REPO, env=env)
        for k in EXPECTED:
            if not os.path.exists(os.path.join(tmp, k + ".json")):
                raise SystemExit("no facts for crate " + k)
        shutil.rmtree(tgt, ignore_errors=True)
        open(os.path.join(tmp, "OK"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep the cache small
        old = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith("facts-")), key=os.path.getmtime)
        for p in old[:-6]:
            shutil.rmtree(p, ignore_errors=True)
        return out


if __name__ == "__main__":
    print(ensure())
