#!/bin/bash
# tryseed.sh <id>: confirms a planted bug in a scratch copy: applies, builds, stable test passes, demo 0 / non-0
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo $w/repo || exit 1
cd $w/repo
bash $d/demo.sh >$w/clean.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash $d/demo.sh >$w/bug.log 2>&1; b=$?
echo "$id: clean=$a bug=$b"
[ $a -ne 0 ] && tail -30 $w/clean.log
[ $b -eq 2 ] && tail -40 $w/bug.log
tail -3 $w/bug.log
exit 0
