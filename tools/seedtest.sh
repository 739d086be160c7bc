#!/bin/bash
# seedtest.sh <id>...: is the planted bug valid (applies, builds, passes the tests, demo 0 / nonzero), and is it caught?
# works on a scratch copy of /repo; CHECK=1 also runs the property's check against the patched copy
set -u
for id in "$@"; do
  d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo $w/repo
  mkdir $w/demo; cp -a $d/. $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  sed "s#cd /repo#cd $w/repo#; s#/repo/_build#$w/repo/_build#g" /opt/vp/build.sh > $w/build.sh
  (cd $w/repo && git checkout -q -- . && bash $w/build.sh programs) >/dev/null 2>&1 || echo "$id: clean build failed"
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh) >$w/clean.log 2>&1; a=$?
  (cd $w/repo && git apply $d/patch.diff) || echo "$id: patch does not apply"
  (cd $w/repo && bash $w/build.sh programs) >$w/b.log 2>&1 || { echo "$id: patched build failed"; tail -3 $w/b.log; }
  t=$(cd $w/repo && python3 -m pytest -q -p no:cacheprovider --timeout=120 tests 2>&1 | tail -1)
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh) >$w/bad.log 2>&1; b=$?
  echo "$id [$prop]: demo clean=$a patched=$b   tests: $t"
  [ $a = 0 ] || tail -3 $w/clean.log
  if [ -n "${CHECK:-}" ]; then for p in ${PROPS:-$prop}; do (cd /verif && VREPO=$w/repo timeout 900 python3-vt check.py $p quick | tail -${TAIL:-4} | cut -c1-400); done; fi
  rm -rf "$w"
done
