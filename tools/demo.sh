#!/bin/bash
# tools/demo.sh ID : base and patched demo only
id=$1; S=/tmp/dm-$id; rm -rf "$S"; mkdir -p $S; cp -a /repo $S/repo; cp -a /verif/seeded/$id $S/d
cd $S/repo; timeout 300 bash $S/d/demo.sh >$S/o0 2>&1; echo "$id base $? $(tail -1 $S/o0 | cut -c1-150)"
git apply $S/d/patch.diff; timeout 300 bash $S/d/demo.sh >$S/o1 2>&1; echo "$id patched $? $(tail -1 $S/o1 | cut -c1-200)"
rm -rf "$S"
