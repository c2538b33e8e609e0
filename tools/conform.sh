#!/bin/bash
# Runs improver's own unit tests against the stand-in (conformance of the stand-in).
# usage: conform.sh OUTDIR [pytest file globs]
OUT=${1:?}; shift
mkdir -p "$OUT"
REPO=${VERIF_REPO:-/repo}
cd "$REPO"
export PYTHONPATH=$REPO:/verif/standin PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
if [ $# -eq 0 ]; then
  FILES=$(find improver_tests -name 'test_*.py' | grep -v -e /acceptance/ | sort)
else FILES=$(printf "%s\n" "$@"); fi
echo "$FILES" | xargs -P 8 -I{} bash -c '
f={}; o="'$OUT'"/$(echo $f | tr / _).log
timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x --maxfail=1000 --timeout=120 --tb=short -rfE $f > $o 2>&1
'
cat "$OUT"/*.log | grep -E '^(FAILED|ERROR) ' | sort > "$OUT"/failed.txt
grep -hE '(passed|failed|error)' "$OUT"/*.log | grep -E '^[0-9=]* ?.* in [0-9.]+s' | python3 -c "
import sys,re
t={}
for l in sys.stdin:
    for n,k in re.findall(r'(\d+) (passed|failed|errors?|skipped)',l):
        k=k.rstrip('s') if k.startswith('error') else k
        t[k]=t.get(k,0)+int(n)
print(t)"
