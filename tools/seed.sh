#!/bin/bash
# seed.sh <name>: validates /tmp/seedwork/<name>/{patch.diff,main.rs,meta.json} in a scratch copy and installs it in seeded/.
# (patch is made in the scratch copy /tmp/rf; see seednew)
n="$1"; w=/tmp/seedwork/$n; s=/verif/seeded/$n
[ -f $w/demo.sh ] || cp /verif/tools/demo.sh $w/demo.sh; chmod +x $w/demo.sh
[ -d /tmp/rf ] || git clone -q /repo /tmp/rf
cd /tmp/rf && git fetch -q origin && git reset -q --hard "$(git -C /repo rev-parse HEAD)" 
bash $w/demo.sh > /tmp/seedwork/$n.base.log 2>&1; b=$?
git apply $w/patch.diff || { echo "$n: patch does not apply"; exit 1; }
bash $w/demo.sh > /tmp/seedwork/$n.patched.log 2>&1; p=$?
git checkout -q -- .
[ $b = 0 ] && [ $p != 0 ] || { echo "$n: demo base=$b patched=$p"; tail -5 /tmp/seedwork/$n.base.log /tmp/seedwork/$n.patched.log; exit 1; }
# stable tests with the patch, in /repo itself
git -C /repo apply $w/patch.diff || exit 1
t=$(bash /tmp/runtests.sh 2>&1 | tail -3)
git -C /repo checkout -q -- .
echo "$n: demo ok (patched rc=$p); tests: $t"
case "$t" in *"'failed': 0"*) ;; *) exit 1;; esac
mkdir -p $s && cp $w/patch.diff $w/demo.sh $w/meta.json $s/ && for f in main.rs demo.py; do [ -f $w/$f ] && cp $w/$f $s/; done; true
