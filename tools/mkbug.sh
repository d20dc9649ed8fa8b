#!/bin/bash
# mkbug.sh <id> [check ids...]: /verif/seeded/<id>/ holds patch.diff, main.rs, meta.json.
# Confirms the planted bug (applies, builds, stable tests pass, demo passes before and fails after) and runs checks against it.
id=$1; shift
d=/verif/seeded/$id
cp /verif/tools/demo/demo.sh $d/; cp /verif/tools/demo/src/mock.rs $d/; chmod +x $d/demo.sh
cd /repo
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
if [ -z "$NODEMO" ]; then
bash $d/demo.sh > /tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash $d/demo.sh > /tmp/demo1.log 2>&1; r1=$?
echo "demo clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 /tmp/demo0.log; tail -3 /tmp/demo1.log
[ -n "$NOTEST" ] || bash /tmp/ckt.sh 2>&1 | tail -3
else
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
fi
cd /verif
for c in "$@"; do python3 analysis/run.py $c | cut -c1-300 | tail -4; done
