#!/usr/bin/env python3
# mutants.py DIR OUT FILES...: tries every mutant of the files in DIR, a scratch copy of the repository (one per process), and writes those to OUT that build and pass the stable tests.
import json, os, subprocess, sys
root, out, files = sys.argv[1], sys.argv[2], sys.argv[3:]
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GOMAXPROCS="2")
n = k = 0
with open(out, "a") as o:
    for f in files:
        p = os.path.join(root, f)
        src = open(p, "rb").read()
        for line in subprocess.run(["/tmp/mutate", f], cwd=root, capture_output=True, text=True).stdout.splitlines():
            m = json.loads(line); n += 1
            open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:])
            try:
                r = subprocess.run(["go", "test", "-timeout", "20s", "./..."], cwd=root, env=env, capture_output=True, text=True, timeout=120)
                if r.returncode == 0:
                    k += 1; o.write(json.dumps(m) + "\n"); o.flush()
            except subprocess.TimeoutExpired: pass
        open(p, "wb").write(src)
print(n, k)
