#!/usr/bin/env python3
"""mkseed.py ID PROP PKGDIR FILE -- reads a JSON spec from stdin:
{"edits":[[file,old,new],...], "test": go test source, "needs":..., "breaks":...}
Applies the edits in a scratch copy of /repo, checks build+stable tests+demo, writes /verif/seeded/ID."""
import sys, json, os, subprocess, shutil, tempfile
def sh(c, cwd=None, t=600):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
DEMO = '''#!/bin/bash
# exit 0: property holds on this input; nonzero: broken. Run with cwd = repository root.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
cp "$R/go.mod" "$T/go.mod"; cp "$HERE/go.sum.txt" "$T/go.sum"
printf '{"Replace":{"%%s":"%%s"}}' "$R/%(pkg)s/zz_demo_test.go" "$HERE/demo_test.go.txt" > "$T/ov.json"
go test -vet=off -count=1 -modfile "$T/go.mod" -overlay "$T/ov.json" -run '^TestZZDemo$' "./%(pkg)s"
'''
def main():
    t = sys.stdin.read()
    spec = eval(t)
    id, prop, pkg = sys.argv[1:4]
    W = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh(f"cp -a /repo {W}/repo")
        for f, old, new in spec["edits"]:
            p = f"{W}/repo/{f}"; s = open(p).read()
            n = s.count(old)
            if n != 1: print(f"{id}: edit matches {n} times in {f}: {old!r}"); return 1
            open(p, "w").write(s.replace(old, new))
        rc, patch = sh("git diff", cwd=f"{W}/repo")
        D = f"/verif/seeded/{id}"
        os.makedirs(D, exist_ok=True)
        open(D + "/patch.diff", "w").write(patch)
        open(D + "/demo.sh", "w").write(DEMO % {"pkg": pkg}); os.chmod(D + "/demo.sh", 0o755)
        open(D + "/demo_test.go.txt", "w").write(spec["test"])
        shutil.copy("/opt/vp/owcrypt.sum", D + "/go.sum.txt")
        json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        rc, o = sh(f"bash {D}/demo.sh", cwd="/repo")
        if "WANTHEX" in spec["test"]:  # fill in the value of the unchanged code
            import re
            g = re.search(r"got=([0-9a-f]+)", o)
            if not g: print(f"{id}: no got= in\n{o[-1500:]}"); return 1
            open(D + "/demo_test.go.txt", "w").write(spec["test"].replace("WANTHEX", g.group(1)))
            rc, o = sh(f"bash {D}/demo.sh", cwd="/repo")
        if rc != 0: print(f"{id}: demo fails on the unchanged tree\n{o[-1500:]}"); return 1
        rc, o = sh(f"bash {D}/demo.sh", cwd=f"{W}/repo")
        if rc == 0: print(f"{id}: demo passes with the change"); return 1
        if "FAIL" not in o or "build failed" in o: print(f"{id}: demo does not build\n{o[-1500:]}"); return 1
        print(f"{id}: demo shows: " + " ".join([l.strip() for l in o.splitlines() if "demo" in l.lower() or "panic" in l][:2])[:300])
        # stable tests with the change
        shutil.copy("/opt/vp/owcrypt.sum", f"{W}/m.sum"); shutil.copy("/repo/go.mod", f"{W}/m.mod")
        rc, o = sh(f"export GOFLAGS='-mod=mod -modfile={W}/m.mod' GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off; go build ./... && go test -vet=off -count=1 ./... -json > {W}/t.json", cwd=f"{W}/repo")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ok = set()
        for l in open(f"{W}/t.json"):
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        o = "MISSING " + str(sorted(stable - ok)) + o
        if "MISSING []" not in o: print(f"{id}: stable tests: {o[-800:]}"); return 1
        print(f"{id}: ok")
        return 0
    finally:
        shutil.rmtree(W)
sys.exit(main())
