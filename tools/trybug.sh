#!/bin/bash
# trybug.sh ID [PROPERTY]: the planted change in /verif/seeded/ID, tried in a scratch copy of /repo:
# demo passes without and fails with it, and what its property's check says about it.
set -u
id=$1; D=/verif/seeded/$id; S=/tmp/bug.$id; B=/tmp/bugb.$id; L=/tmp/buglog; mkdir -p $L
[ -n "$id" ] || exit 2
rm -rf "/tmp/bug.$id" "/tmp/bugb.$id"; mkdir -p $S $B; cp -a /repo/. $S/
(cd $S && bash $D/demo.sh >$L/$id.clean 2>&1); c=$?
git -C $S apply $D/patch.diff || { echo "$id: patch does not apply"; exit 2; }
(cd $S && bash $D/demo.sh >$L/$id.bug 2>&1); b=$?
p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
VERIF_REPO=$S VERIF_BUILD=$B/o VERIF_STATE=$B/s python3 /verif/tools/run.py ${2:-$p} quick >$L/$id.check 2>&1; k=$?
echo "$id: demo clean=$c bug=$b; check ${2:-$p} exit=$k $(grep -a VIOLATION -B1 $L/$id.check | head -1 | cut -c1-160)"
rm -rf "/tmp/bug.$id" "/tmp/bugb.$id"
