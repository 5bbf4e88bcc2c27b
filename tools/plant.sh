#!/bin/bash
# plant.sh <id> <check>: take the edit made in /tmp/plant/repo, store it as seeded/<id>/patch.diff, confirm it (tests, demo) and run the check on it
id=$1; chk=$2; R=/tmp/plant/repo; S=/verif/seeded/$id
cd $R || exit 2
if [ "$3" != "keep" ]; then git diff > $S/patch.diff; else git checkout -q -- .; git apply $S/patch.diff || exit 2; fi
[ -s $S/patch.diff ] || { echo "no diff"; exit 2; }
# tests in the scratch copy
( cd $R && PYTHONPATH=$R:/opt/vp/plugins PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -p vp_seed -W ignore --tb=line --ignore=tests/test_sqpdfo_all.py tests 2>&1 | tail -3 )
( cd /repo && bash $S/demo.sh >/tmp/plant/demo_clean.log 2>&1 ); echo "demo clean: $?"
( cd $R && bash $S/demo.sh >/tmp/plant/demo_patched.log 2>&1 ); echo "demo patched: $?"; tail -3 /tmp/plant/demo_patched.log
VERIF_REPO=$R /verif/run $chk --noevidence --seed 1 --show 1 2>&1 | tail -12
git -C $R checkout -q -- .
git -C /repo status --short
