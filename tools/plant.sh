#!/bin/bash
# plant.sh ID [check ...]: applies seeded/ID to a scratch copy of /repo, builds, tests, runs the demonstration with and without it,
# and runs the named checks against the copy.  NOTEST=1 skips the tests.
ID=$1; shift
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/plant-XXXXXX)
cp -a /repo $W/repo
trap 'rm -rf "$W"' EXIT
cd $W/repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH=$W/repo/src NUMBA_CACHE_DIR=$W/numba
cp -r $D $W/demo; rm -f $W/demo/*.diff
bash $W/demo/demo.sh >$W/o1 2>&1; A=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $W/demo/demo.sh >$W/o2 2>&1; B=$?
echo "$ID: demo without=$A with=$B"
[ $A -ne 0 ] && tail -3 $W/o1; tail -2 $W/o2
if [ -z "$NOTEST" ]; then
  NUMBA_DISABLE_JIT=1 timeout -s INT 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors tests >$W/t1 2>&1
  timeout -s INT 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 -m benchmark --benchmark-disable tests >$W/t2 2>&1
  echo "$ID: tests $(tail -1 $W/t1) | $(tail -1 $W/t2)"; grep -h ^FAILED $W/t1 $W/t2 | head -3
fi
cd /verif
for c in "$@"; do
  LAMBERTHUB_REPO=$W/repo ./check $c >$W/c 2>&1; R=$?
  echo "$ID: check $c exit $R"; grep -B1 -m3 -h VIOLATION $W/c | cut -c1-260
done
