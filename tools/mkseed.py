#!/usr/bin/env python3
"""mkseed.py FILE...: turn seed descriptions into /verif/seeded/<id>/.
A description is a Python file setting id, prop, needs, breaks, edits=[(file, old, new)],
pkg (directory of the demo test), test (Go test source; tests named TestZZ...), and optionally
race=True, or script (a bash body used instead of a Go test)."""
import sys, os, subprocess, tempfile, json, shutil
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%szz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1%s -timeout 120s -overlay "$tmp/overlay.json" -run '^TestZZ' ./%s
'''
for fn in sys.argv[1:]:
    g = {}
    exec(open(fn).read(), g)
    d = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -q -m base" % (d, d), shell=True)
        for f, old, new in g["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1: print(g["id"], "edit does not apply uniquely:", f, s.count(old), repr(old[:60])); sys.exit(1)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d, "diff"]).decode()
    finally:
        shutil.rmtree(d)
    o = os.path.join(OUT, g["id"]); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    if "test" in g:
        pkg = g.get("pkg", "")
        pre = pkg + "/" if pkg else ""
        open(o + "/demo_test.go.txt", "w").write(g["test"])
        open(o + "/demo.sh", "w").write(DEMO % (pre, " -race" if g.get("race") else "", pkg))
    else:
        open(o + "/demo.sh", "w").write("#!/bin/bash\n" + g["script"])
    for n, t in g.get("files", {}).items(): open(o + "/" + n, "w").write(t)
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    print("wrote", o)
