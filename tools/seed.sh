#!/bin/bash
# tools/seed.sh ID [notest] : confirms a planted change in scratch copies mounted over /repo and /verif (mount namespace)
id=$1; notest=$2
S=/tmp/seed-$id; rm -rf "$S"; mkdir -p $S/verif $S/demo
cp -a /repo $S/repo
(cd /verif && tar c --exclude=./build --exclude=./replays --exclude=./seeded --exclude=./.git .) | tar x -C $S/verif
cp -a /verif/seeded/$id $S/patch; cp -a /verif/seeded/$id/. $S/demo/; rm -f $S/demo/*.diff $S/demo/*.patch $S/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('$S/patch/meta.json'))['property'])")
unshare -m bash -c "
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
bash /opt/vp/build.sh >$S/b0 2>&1 || echo BASE-BUILD-FAILED
timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; echo \"$id base demo: \$? (want 0)\"
git apply $S/patch/patch.diff || { echo APPLY-FAILED; exit; }
bash /opt/vp/build.sh >$S/b1 2>&1 || { echo PATCHED-BUILD-FAILED; tail -5 $S/b1; exit; }
timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; echo \"$id patched demo: \$? (want non-zero): \$(tail -1 $S/d1 | cut -c1-150)\"
if [ -z '$notest' ]; then bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1; python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$S/t.json'));print('$id stable tests failing:',[x for x in b['stable'] if x not in t['passed']])\"; fi
cd /verif; for p in ${3:-$prop}; do s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py \$p >$S/c.\$p 2>&1; echo \"$id check \$p: exit \$? \$((\$(date +%s)-s)) s: \$(grep -m1 'crash\|not-lin\|mismatch\|^  [a-z].*: ' $S/c.\$p | cut -c1-200)\"; grep -A0 '^  [a-z0-9]*: [a-z-]* ' $S/c.\$p | grep -v ': ok' | head -3 | cut -c1-300; done
"
rm -rf "$S"
