#!/bin/bash
# seed.sh NAME [quick|no]: confirms the planted change seeded/NAME in a scratch
# copy of /repo that only this process sees at /repo: it applies, builds, passes
# the stable tests, its demo passes without and fails with it; then runs the
# property's check against it.
set -u
N=$1; S=/verif/seeded/$N; W=/tmp/seed/$N
export P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export N S
rm -rf "/tmp/seed/$N" "/tmp/seed/$N.ev"; mkdir -p /tmp/seed "/tmp/seed/$N.ev"
cp -a /repo "$W"; git -C "$W" checkout -q -- .
export MODE=${2:-quick} W
unshare -m bash -c '
mount --bind $W /repo; mount --bind $W.ev /verif/evidence
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh >$W.demo0 2>&1; a=$?
git apply $S/patch.diff || exit 1
for f in $(git diff --name-only); do
 git diff -U0 $f | grep -a "^@@" | sed "s/^@@ -\([0-9,]*\) .*/\1/" | while read r; do
  l=${r%,*}; k=1; case $r in *,*) k=${r#*,};; esac
  [ $k = 0 ] && continue
  git blame -s -L $l,+$k HEAD -- $f | grep -v "^^d7d80e5" && echo "LINES ADDED BY US"
 done
done
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILS
t=$(bash /opt/vp/test.sh $W.json | tail -1)
timeout 300 bash $S/demo.sh >$W.demo1 2>&1; b=$?
echo "$N $P: $t; demo clean=$a patched=$b"
[ $a = 0 ] || tail -5 $W.demo0
[ $b != 0 ] || echo DEMO PASSES
if [ $MODE != no ]; then cd /verif; ./run.sh $P $MODE > $W.chk 2>&1; c=$?
echo "$N: check exit $c"; grep -a "VIOLATION\|^unit\|OK" $W.chk | cut -c1-260; fi
'
rm -rf "/tmp/seed/$N" "/tmp/seed/$N.ev"
