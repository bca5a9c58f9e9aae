#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from the list below: each planted bug is an edit (file, old, new) of /repo's HEAD, a demonstration program and a description.
import json, os, subprocess, sys, textwrap
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour demo.go checks holds, nonzero otherwise.  Run with cwd at the repository.
here="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
echo "{\\"Replace\\":{\\"$PWD/zz_demo/main.go\\":\\"$here/demo.go\\"}}" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && timeout 60 ./demo
'''
HEAD = '''package main

import (
	"fmt"
	"os"
%s
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf("BROKEN: "+format+"\\n", args...)
		os.Exit(1)
	}
}

var _ = fmt.Sprint

func main() {
	defer func() {
		if r := recover(); r != nil {
			check(false, "panic: %%v", r)
		}
	}()
%s}
'''
REPO = os.environ.get("GOSYM_REPO", "/repo")
def seed(id, prop, edits, imports, body, needs, breaks):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    saved = {}
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            saved.setdefault(p, s)
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        for p, s in saved.items(): open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go", "w").write(HEAD % ("".join('\t"%s"\n' % i for i in imports), textwrap.indent(textwrap.dedent(body).strip(), "\t") + "\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
W = "github.com/arr-ai/wbnf/"
def parses(src): return src
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlist.py")).read())
