#!/bin/bash
# try_bug.sh ID [CHECK...]: validates seeded/ID in a scratch copy of /repo and
# runs the checks (default: the property's own) against it.
ID=$1; shift
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- . 
cp -a "$D" "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
# the demo runs with cwd = the tree
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1); r0=$?
git -C "$W/repo" apply "$D/patch.diff" || { echo "$ID: does not apply"; exit 1; }
if [ -z "$SKIP_TESTS" ]; then
  (cd "$W/repo" && PYTHONHASHSEED=0 timeout 300 /opt/venv/bin/python -m pytest -q --rootdir="$W/repo" -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml="$W/junit.xml" >"$W/t" 2>&1)
  python3 /opt/vp/results.py "$W/out.json" "junit:$W/junit.xml" >/dev/null 2>&1
  tests=$(python3 - "$W/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return {k for k,v in d.get('tests',d).items() if v in('passed','pass',True)}
m=passed(b)-passed(o)
print('tests ok' if not m else 'TESTS FAIL '+', '.join(sorted(m)[:3]))
P
)
fi
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1); r1=$?
echo "$ID [$PROP]: demo clean=$r0 patched=$r1; $tests"
[ "$r0" = 0 ] || tail -5 "$W/d0"
[ "$r1" != 0 ] || tail -5 "$W/d1"
[ -n "$NOCHECK" ] && exit 0
for c in ${@:-$PROP}; do
  out=$(VERIF_REPO="$W/repo" python3 /verif/check.py $c --no-evidence --no-minimise ${ARGS} 2>&1); rc=$?
  echo "   $ID: $c rc=$rc $(echo "$out" | grep -m1 '^seed\|HARNESS' | cut -c1-220)"
done
