# Helper for planted bugs: mkseed(id, property, needs, breaks, edits, pkg, test)
# writes seeded/<id>/ from edits (file, old, new) made to /repo and undone.
import json, os, subprocess
D = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration; nonzero: it is broken
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$W"' EXIT
cp "$D/demo_test.go.txt" "$W/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/PKG/zz_demo_verif_test.go\\": \\"$W/demo_test.go\\"}}" > "$W/overlay.json"
go test RACE-vet=off -count=1 -timeout 250s -overlay "$W/overlay.json" -run '^TestVerifDemo$' ./PKG
'''
def mkseed(id, prop, needs, breaks, edits, pkg, test, race=False):
    d = os.path.join(D, id); os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip()
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f); s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("PKG", pkg).replace("RACE", "-race " if race else ""))
    open(os.path.join(d, "demo_test.go.txt"), "w").write(test.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
