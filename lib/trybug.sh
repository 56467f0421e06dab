#!/bin/bash
# trybug.sh <seeded dir name> [check ids...]: confirm a planted bug and run checks against it (default: its property's).
# Works on a scratch copy of /repo, which it removes; for development, no check needs it.
set -u
B=$1; D=/verif/seeded/$1; shift
export PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1 MPLBACKEND=Agg
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; git -C "$T/repo" checkout -q -- .
cp -a "$D" "$T/demo"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
cd "$T/repo"
timeout 300 bash "$T/demo/demo.sh" >"$T/clean.log" 2>&1; c=$?
git apply "$D/patch.diff" || { echo "$B: patch does not apply"; exit 2; }
PYTHONPATH="$T/repo" timeout 200 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p pytest_timeout --timeout=140 -o junit_family=xunit2 --junitxml="$T/junit.xml" >"$T/test.log" 2>&1
/usr/bin/python3 /opt/vp/results.py "$T/out.json" "junit:$T/junit.xml" >/dev/null 2>&1
p=$(python3 - "$T/out.json" <<'P'
import json,sys
try:
    r=json.load(open(sys.argv[1])); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok=r.get('passed',r)
    print('stable-pass' if all(t in ok for t in s) else 'STABLE-FAIL')
except OSError:
    print('NO-RESULT')
P
)
timeout 300 bash "$T/demo/demo.sh" >"$T/bug.log" 2>&1; b=$?
echo "$B: demo clean=$c bug=$b tests=$p"; [ $c = 0 ] || tail -5 "$T/clean.log"; [ $b != 0 ] || tail -5 "$T/bug.log"
IDS="$*"; [ -n "$IDS" ] || IDS=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for i in $IDS; do (cd /verif && LCP_REPO="$T/repo" ./run.sh $i >"$T/$i.log" 2>&1; echo "  $i rc=$? $(grep -m1 -E 'broken|ERROR' $T/$i.log)"); done
