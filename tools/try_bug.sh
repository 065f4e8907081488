#!/bin/bash
# try_bug.sh ID [test] [check...] : evaluates seeded/ID in a private mount namespace over a copy of /repo.
#   "test" also runs the stable test suite; the checks default to the property in meta.json.
ID=$1; shift
D=/verif/seeded/$ID; [ -d "$D" ] || D=/verif/sensitivity/$ID
[ "$1" = test ] && { TEST=1; shift; }
CHK=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/trybug-XXXXXX)
cp -a /repo "$W/repo"; cp -a /opt/vunit "$W/vunit"; mkdir -p "$W/reports" "$W/pycache" "$W/ev" "$W/rp" "$W/demo"
cp -a "$D"/. "$W/demo"; rm -f "$W/demo/meta.json" "$W/demo"/*.diff
export W D CHK TEST ID
unshare -m bash -c '
mount --bind "$W/repo" /repo; mount --bind "$W/vunit" /opt/vunit; mount --bind "$W/reports" /opt/vp/reports 2>/dev/null
mkdir -p /verif/evidence /verif/replays; mount --bind "$W/ev" /verif/evidence; mount --bind "$W/rp" /verif/replays
[ -d /opt/pycache ] && mount --bind "$W/pycache" /opt/pycache
cd /repo
bash /opt/vp/build.sh >"$W/b0.log" 2>&1 || echo "$ID: BASE BUILD FAILED"
timeout 300 bash "$W/demo/demo.sh" >"$W/d0.log" 2>&1; echo "$ID: demo on unchanged tree: exit $? (want 0)"; tail -n 3 "$W/d0.log"
git apply "$D/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >"$W/b1.log" 2>&1 || { echo "$ID: BUILD FAILED"; tail -5 "$W/b1.log"; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d1.log" 2>&1; echo "$ID: demo with patch: exit $? (want nonzero)"; tail -n 3 "$W/d1.log"
[ -n "$TEST" ] && { bash /opt/vp/test.sh "$W/out.json" >"$W/t.log" 2>&1; echo "$ID: tests: $(tail -n 1 "$W/t.log")"; }
cd /verif
for c in $CHK; do ./run $c quick > "$W/c.log" 2>&1; rc=$?; echo "$ID: check $c exit $rc: $(grep -m1 -A1 "VIOLATION\|HARNESS" "$W/c.log") $(tail -n 1 "$W/c.log")"; grep -m2 "^  " "$W/c.log"; done
'
rm -rf "$W"
