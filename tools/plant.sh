#!/bin/bash
# tools/plant.sh ID [--notest] : confirm the planted bug seeded/ID in a scratch copy of /repo and run its property's check on it.
ID=$1; HERE=$(cd "$(dirname "$0")/.." && pwd); S=$HERE/seeded/$ID; [ -d "$S" ] || S=$HERE/seeded-more/$ID; R=/tmp/plant-$ID
rm -rf "/tmp/plant-$ID"; cp -a /repo "$R" || exit 3
mkdir -p $R.s; for f in build.sh test.sh one-file.sh results.py; do sed "s#/repo#$R#g; s#/opt/vp/build.sh#$R.s/build.sh#g; s#/opt/vp/one-file.sh#$R.s/one-file.sh#g; s#/opt/vp/results.py#$R.s/results.py#g" /opt/vp/$f | sed "s#^unset GITHUB_ACTIONS PYTHONPATH#unset GITHUB_ACTIONS; export PYTHONPATH=$R#" > $R.s/$f; done
trap 'rm -rf "/tmp/plant-'$ID'" "/tmp/plant-'$ID'.s"' EXIT
run_demo() { (cd $R && timeout 300 bash $S/demo.sh > $R.s/demo.out 2>&1); }
(cd $R && git checkout -q -- . && git clean -q -fd)
bash $R.s/build.sh > $R.s/b0 2>&1 || { echo "$ID base build failed"; exit 3; }
run_demo; d0=$?; tail -3 $R.s/demo.out
git -C $R apply $S/patch.diff || { echo "$ID patch does not apply"; exit 3; }
bash $R.s/build.sh > $R.s/b1 2>&1 || { echo "$ID build failed"; tail -5 $R.s/b1; exit 3; }
run_demo; d1=$?; tail -3 $R.s/demo.out
if [ "$2" != "--notest" ]; then
  bash $R.s/test.sh $R.s/t.json > $R.s/t.log 2>&1
  python3 - $R.s/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=set(json.load(open(sys.argv[1]))['passed'])
print('lost:', [x for x in b if x not in t])
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd $HERE && VF_REPO=$R ./check.sh $P) > $R.s/c.out 2>&1; c=$?
grep -E '^  \[|VIOLATION|ERROR' $R.s/c.out | head -5 | cut -c1-220
echo "PLANT $ID property=$P demo_base=$d0 demo_patched=$d1 check=$c"
