#!/bin/bash
# tools/tryseed.sh ID [CHECK...]: apply a seeded change to a scratch copy of /repo, run stable tests, its demo and the checks.
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=/tmp/tryseed.$$
cp -a /repo $T && git -C $T checkout -q -- .
trap 'rm -rf /tmp/tryseed.'$$ EXIT
(cd $T && bash $S/demo.sh >/tmp/seed_demo0.txt 2>&1); D0=$?
git -C $T apply $S/patch.diff || exit 2
R=$(cd $T && . /opt/vp/env.sh && PYTHONPATH=$T timeout 400 $PY -m pytest -q -p no:cacheprovider --tb=short $(for m in diagnostics_panel nslx panel sur sur_error sur_lag; do echo --ignore=spreg/tests/test_$m.py; done) spreg 2>&1 | tail -2 | tr '\n' ' ')
(cd $T && bash $S/demo.sh >/tmp/seed_demo1.txt 2>&1); D1=$?
echo "$ID ($P): tests: $R | demo clean=$D0 patched=$D1"
for c in ${@:-$P}; do
  OUT=$(cd /verif && VERIF_REPO=$T python3 check.py $c --no-evidence 2>&1); RC=$?
  echo "   $c rc=$RC $(echo "$OUT" | grep -c '^VIOLATION') violations; $(echo "$OUT" | grep '^  ' | head -3 | cut -c1-110 | tr '\n' '|')"
done
