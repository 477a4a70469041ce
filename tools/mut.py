#!/usr/bin/env python3
"""mut.py SPEC.py [filter]: development aid. SPEC defines M=[(name, props, file, old, new)] ; name starting with 'ok' must stay quiet."""
import sys, os, subprocess
W = "/tmp/mutrepo" + os.environ.get("MUT_SUFFIX", "")
if not os.path.exists(W):
    subprocess.run(["git", "clone", "-q", os.environ.get("MUT_ORIGIN", "/repo"), W], check=True)
def git(*a):
    subprocess.run(["git", "-C", W] + list(a), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
git("fetch", "-q", "origin"); git("checkout", "-q", "-f", "origin/HEAD")
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
for m in ns["M"]:
    name, props = m[0], m[1]
    edits = [m[2:]] if isinstance(m[2], str) else m[2]
    if flt not in name:
        continue
    git("checkout", "-q", "-f", "origin/HEAD")
    bad = False
    for fn, old, new in edits:
        p = os.path.join(W, fn)
        t = open(p).read()
        if old not in t:
            print(name, "NO MATCH in", fn); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad:
        continue
    for pr in props.split(","):
        r = subprocess.run([sys.executable, "sa/run.py", "--property", pr], cwd="/verif", env=dict(os.environ, VP_REPO=W, VP_CACHE="/tmp/mutcache" + os.environ.get("MUT_SUFFIX", "")), capture_output=True, text=True)
        want = 0 if name.startswith("ok") else 1
        v = [l for l in r.stdout.splitlines() if "violated" in l]
        tag = "good" if r.returncode == want else "**BAD**"
        print(tag, name, pr, "rc", r.returncode, (v[0][:200] if v else (r.stderr.strip().splitlines() or [""])[-1][:200]), flush=True)
