#!/bin/bash
# plant.sh ID [nocheck|notest]...: confirm a planted bug in a scratch copy of /repo and see whether the check of its property catches it.
# Needs the privilege to make a mount namespace (development only; no registered check uses this).
id=$1; shift
D=/verif/seeded/$id
P=/tmp/plant; mkdir -p $P
[ -d $P/repo ] || cp -a /repo $P/repo
git -C $P/repo checkout -q -- . ; git -C $P/repo fetch -q /repo HEAD && git -C $P/repo checkout -q FETCH_HEAD
rm -rf "/tmp/plant/demo"; mkdir -p $P/demo; cp -r $D/. $P/demo; rm -f $P/demo/*.diff $P/demo/meta.json
(cd /repo && bash $P/demo/demo.sh >$P/demo.out 2>&1); r=$?; echo "demo unchanged: $r"; [ $r = 0 ] || tail -5 $P/demo.out
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
opts=" $* "
unshare -m bash -c "
mount --bind $P/repo /repo
cd /repo
git apply $D/patch.diff || { echo APPLY FAILED; exit 1; }
bash /opt/vp/build.sh >$P/build.out 2>&1 || { echo BUILD FAILED; tail -5 $P/build.out; git checkout -q -- .; exit 1; }
if [[ '$opts' != *' notest '* ]]; then bash /opt/vp/test.sh $P/test.json >$P/test.out 2>&1; tail -n 1 $P/test.out; fi
bash $P/demo/demo.sh >$P/demo.out 2>&1; echo \"demo patched: \$?\"; tail -n 3 $P/demo.out
if [[ '$opts' != *' nocheck '* ]]; then VERIF_BUILD=$P/vbuild timeout 900 python3 /verif/check.py $prop > $P/check.out 2>&1; echo \"check $prop: \$?\"; grep -E 'VIOLATION|violat' $P/check.out | head -3; fi
git checkout -q -- .
"
