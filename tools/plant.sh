#!/bin/bash
# plant.sh ID            confirms a planted change: applies, builds, stable tests pass, demo clean=0 patched!=0
# plant.sh ID check [P..] also runs the checks (default: the property in meta.json) with the change applied to /repo
# works in a scratch copy /tmp/wt-plant of /repo, except for running checks, which is undone at once
set -u
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; d=$V/seeded/$id
export HOME=/root PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
W=$(mktemp -d /tmp/plant-XXXXXX); trap 'rm -rf "$W"' EXIT
if [ "${2:-}" != only ]; then
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- . 
cp -r "$d" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1); r=$?
[ $r = 0 ] || { echo "$id: demo fails on clean tree ($r)"; tail -20 "$W/clean.log"; exit 1; }
git -C "$W/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(cd "$W/repo" && go1.27 build $(go1.27 list -e ./... | grep -v -e examples -e /testing)) || { echo "$id: no build"; exit 1; }
(cd "$W/repo" && go1.27 test -json -vet=off -count=1 $(go1.27 list -e ./... | grep -v examples) >"$W/t.json" 2>/dev/null)
python3 - "$W/t.json" <<'P' || { echo "$id: stable tests fail"; exit 1; }
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
m=st-ok
print(*sorted(m),sep='\n') if m else None
sys.exit(1 if m else 0)
P
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/bad.log" 2>&1); r=$?
[ $r != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
echo "$id: counts; demo says: $(grep -m1 -E 'demo_test.go:|panic:' "$W/bad.log" | cut -c1-160)"
fi
[ $# -ge 2 ] || exit 0
shift 2
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$d/patch.diff" || exit 1
for p in "$@"; do
	s=$(date +%s); out=$(cd "$V" && timeout 900 ./check.sh $p quick 2>&1); r=$?
	echo "$id: $p exit $r after $(( $(date +%s) - s )) s: $(grep -m1 VIOLATION <<<"$out" | cut -c1-150)"
	[ $r = 1 ] || tail -3 <<<"$out"
done
git -C /repo checkout -q -- .
