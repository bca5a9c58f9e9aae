#!/bin/bash
# seed.sh ID [check]: verifies a planted bug in a scratch copy (applies, builds, stable tests pass, demo 0 without / nonzero with); with "check", also runs the property's check against /repo with the patch applied.
set -u
R=${GOSYM_REPO:-/repo}
id="$1"; d=/verif/seeded/$id
t=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd $R && bash "$d/demo.sh" >"$t/o0" 2>&1 ); a=$?
cd $R && git apply --check "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
git apply "$d/patch.diff"
trap 'git -C $R checkout -q -- .; rm -rf "$t"' EXIT
if [ $R = /repo ]; then
bash /opt/vp/build.sh >"$t/b" 2>&1; b=$?
bash /opt/vp/test.sh "$t/out.json" >"$t/t" 2>&1
else
go build ./... >"$t/b" 2>&1; b=$?
go test ./... >"$t/t" 2>&1 && cp /opt/vp/BASELINE.json "$t/out.json" || echo '{"passed":[]}' >"$t/out.json"
fi
ok=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$t/out.json'))
def passed(j):
    for k in ('passed','stable','tests'):
        if k in j: return j[k]
    return j
p=set(map(str,passed(o))); s=set(map(str,passed(base)))
print(len(s-p))
P
)
( cd $R && bash "$d/demo.sh" >"$t/o1" 2>&1 ); c=$?
echo "$id ($prop): demo clean=$a build=$b missing-tests=$ok demo patched=$c $([ $a = 0 ] && [ $b = 0 ] && [ "$ok" = 0 ] && [ $c != 0 ] && echo VALID || echo INVALID)"
[ $a != 0 ] && tail -5 "$t/o0"; [ "$ok" != 0 ] && grep -- '--- FAIL' "$t/t" | head -5
if [ "${2:-}" = check ]; then
  s=$(date +%s); bash /verif/check.sh $prop quick ${SEED_OPTS:-} >"$t/c" 2>&1; r=$?
  echo "   check exit=$r $(( $(date +%s)-s ))s  $(grep -c VIOLATION $t/c) violations; $(grep VIOLATION -A3 $t/c | head -4 | tr '\n' ' ' | cut -c1-300)"
fi
