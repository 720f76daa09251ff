#!/bin/bash
# bugtest.sh ID [check...]: validates seeded/ID in a private mount namespace (build, stable tests, demo with and
# without the patch) and runs the named checks (default: the bug's own) against the patched copy.  Never touches /repo.
set -u
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
bug=$here/seeded/$id
w=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r" && cp -a "$bug" "$w/d" && rm -f "$w"/d/*.diff "$w"/d/meta.json
checks=${*:-$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")}
export w checks here bug SKIPTEST=${SKIPTEST:-}
unshare -m bash -c '
mount --bind "$w/r" /repo || exit 9
cd /repo
timeout 300 bash "$w/d/demo.sh" >"$w/demo0" 2>&1; echo "demo unchanged: $?"
git apply "$bug/patch.diff" || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh || echo BUILD-FAILED
timeout 300 bash "$w/d/demo.sh" >"$w/demo1" 2>&1; echo "demo patched: $?"; tail -3 "$w/demo1" | cut -c1-300
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh "$w/o.json" >"$w/tlog" 2>&1
python3 - "$w/o.json" <<PY
import json, sys
o = json.load(open(sys.argv[1])); s = json.load(open("/opt/vp/BASELINE.json"))["stable"]
p = set(o["passed"]) if "passed" in o else {k for k, v in o.items() if v in ("passed", "pass", True)}
bad = [x for x in s if x not in p]
print("stable tests failing:", len(bad), bad[:3])
PY
fi
cp -a "$here" "$w/v"; rm -rf "$w/v/out"; cd "$w/v"
for c in $checks; do timeout 900 ./run.py $c >"$w/log.$c" 2>&1; echo "check $c: $?"; grep -a -B1 "^VIOLATION\|^ERROR\|inconcl" "$w/log.$c" | cut -c1-250 | head -8; tail -1 "$w/log.$c" | cut -c1-200; done
'
