#!/usr/bin/env python3
"""Builds and confirms /verif/seeded/<id>/ from the definitions in tools/seeds/*.py.
usage: seeds.py [id ...]   (all when none given);  seeds.py --check [id ...] runs the property's check on each."""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, pkg, demo, needs, what, race=False, timeout=120):
    SEEDS[id] = dict(prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, what=what, race=race, timeout=timeout)
for f in sorted(glob.glob(os.path.join(here, "tools", "seeds", "*.py"))):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# exits 0 when the property holds, nonzero when the demonstration fails
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/zz_verif_demo_test.go"
printf '{"Replace":{"%%s/%(pkg)s/zz_verif_demo_test.go":"%%s/zz_verif_demo_test.go"}}' "$PWD" "$t" > "$t/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
go test %(race)s-overlay "$t/overlay.json" -run '^TestVerifDemo' -count=1 -timeout %(timeout)ds ./%(pkg)s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build(id, s):
    d = os.path.join(here, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        sh(f"git clone -q /repo {r}", "/")
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1:
                return f"{id}: pattern occurs {t.count(old)} times in {f}: {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.go.txt"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=s["pkg"], race="-race " if s["race"] else "", timeout=s["timeout"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod")
        b = sh("go build ./... && go vet ./... >/dev/null 2>&1; go test -count=1 ./... 2>&1", r, env=env)
        if "FAIL" in b.stdout:
            return f"{id}: tests fail with the patch:\n" + "\n".join(l for l in b.stdout.splitlines() if "FAIL" in l or "_test.go" in l)[:800]
        x = sh(f"bash {d}/demo.sh", r, env=env)
        if x.returncode == 0:
            return f"{id}: demo passes with the patch"
        if "build failed" in x.stdout or "setup failed" in x.stdout:
            return f"{id}: demo does not build: {x.stdout[:600]}"
        sh("git checkout -q -- .", r)
        x = sh(f"bash {d}/demo.sh", r, env=env)
        if x.returncode != 0:
            return f"{id}: demo fails on the unchanged tree: {x.stdout[:600]}"
        return f"{id}: ok"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def check(id, s, binp):
    tmp = tempfile.mkdtemp(prefix="seedc", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        sh(f"git clone -q /repo {r}", "/")
        a = sh(f"git apply {here}/seeded/{id}/patch.diff", r)
        if a.returncode: return f"{id}: patch does not apply"
        x = sh(f"timeout 850 {binp} -property {s['prop']} -repo {r} -out {tmp}/ev", r, env=dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly"))
        lines = x.stdout.strip().splitlines()
        return f"{id} ({s['prop']}): " + ("CAUGHT" if x.returncode == 1 else f"MISSED rc={x.returncode}") + (" | " + lines[1].strip()[:220] if len(lines) > 1 else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    args = sys.argv[1:]
    chk = "--check" in args
    args = [a for a in args if a != "--check"]
    from concurrent.futures import ThreadPoolExecutor
    ids = [i for i in SEEDS if not args or any(i.startswith(a) for a in args)]
    if chk:
        binp = "/tmp/seed_analyzer"
        sh(f"go build -o {binp} .", os.path.join(here, "analyzer"), env=dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off"))
        f = lambda i: check(i, SEEDS[i], binp)
    else:
        f = lambda i: build(i, SEEDS[i])
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(f, ids):
            print(r, flush=True)
