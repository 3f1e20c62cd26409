#!/usr/bin/env python3
"""Behaviour-preserving edits (tools/refactors/*.py) on which the checks must stay quiet.
usage: refactor.py [idprefix ...]"""
import glob, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def refactor(id, props, edits):
    R[id] = (props.split(), edits)
for f in sorted(glob.glob(os.path.join(here, "tools", "refactors", "*.py"))):
    exec(open(f).read())
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def run(id):
    props, edits = R[id]
    tmp = tempfile.mkdtemp(prefix="refac", dir="/tmp")
    out = []
    try:
        r = os.path.join(tmp, "repo")
        sh(f"git clone -q {os.environ.get("VREPO", "/repo")} {r}", "/")
        for f, old, new in edits:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1:
                return f"{id}: pattern occurs {t.count(old)} times in {f}: {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod")
        b = sh("go build ./... 2>&1 && go test -count=1 ./... 2>&1", r, env=env)
        if "FAIL" in b.stdout or b.returncode:
            return f"{id}: build or tests fail: " + b.stdout[:600]
        for p in props:
            x = sh(f"timeout 850 /tmp/seed_analyzer -property {p} -repo {r} -out {tmp}/ev", r, env=dict(env, GOFLAGS="-mod=readonly"))
            lines = x.stdout.strip().splitlines()
            out.append(f"{id} {p}: " + ("quiet" if x.returncode == 0 else f"ALARM rc={x.returncode} | " + (lines[1].strip()[:420] if len(lines) > 1 else x.stdout[:300])))
        return "\n".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    args = sys.argv[1:]
    print(sh("go build -o /tmp/seed_analyzer .", os.path.join(here, "analyzer"), env=dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off")).stdout, end="")
    ids = [i for i in R if not args or any(i.startswith(a) for a in args)]
    with ThreadPoolExecutor(4) as ex:
        for x in ex.map(run, ids):
            print(x, flush=True)
