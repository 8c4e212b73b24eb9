#!/bin/bash
# seed.sh start            : fresh scratch copy of $BASE at $W/repo (edit it there)
# seed.sh keep ID PROP "needs" "breaks" < demo.rs : diff it, run the tests, run the demo with and without; keep as seeded/ID
#   (with SH=file, that script is the demo, without demo.rs)
# seed.sh run ID [PROP]    : run the property's check against the change, applied to $BASE
W=${W:-/tmp/sw}; BASE=${BASE:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
case $1 in
start) if [ -d $W/repo/.git ]; then git -C $W/repo checkout -q -- . && git -C $W/repo fetch -q $BASE HEAD && git -C $W/repo reset -q --hard FETCH_HEAD; else mkdir -p $W && cp -a $BASE $W/repo; fi; git -C $W/repo log --oneline | head -1;;
keep)
  D=$V/seeded/$2; mkdir -p $D
  if [ -n "$SH" ]; then cp $SH $D/demo.sh; else cat > $D/demo.rs; cp $V/tools/demo.sh.tmpl $D/demo.sh; fi; chmod +x $D/demo.sh
  python3 -c 'import json,sys; json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},open(sys.argv[4],"w"),indent=1)' "$3" "$4" "$5" $D/meta.json
  git -C $W/repo diff > $D/patch.diff
  [ -s $D/patch.diff ] || { echo empty patch; exit 1; }
  . /opt/vp/env.sh; export INSTA_WORKSPACE_ROOT=$W/repo
  cd $W/repo || exit 1
  cargo test --workspace --all-features --no-fail-fast --offline --locked > $W/t.log 2>&1; rc=$?
  grep -E "^test .*FAILED|^error" $W/t.log | head; [ $rc = 0 ] || { echo "TESTS FAIL"; }
  (cd $W/repo && bash $D/demo.sh) > $W/d.log 2>&1; b=$?
  (cd $BASE && bash $D/demo.sh) > $W/d0.log 2>&1; a=$?
  echo "tests rc=$rc demo: unchanged=$a patched=$b"; tail -3 $W/d.log; [ $a = 0 ] || tail -5 $W/d0.log
  git -C $W/repo checkout -q -- .
  [ $rc = 0 ] && [ $a = 0 ] && [ $b != 0 ] && echo KEPT || echo "NOT OK"
;;
run)
  git -C $BASE apply $V/seeded/$2/patch.diff || exit 9
  p=${3:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $V/seeded/$2/meta.json)}
  cd $V; python3 check.py $p quick > /tmp/seedrun.log 2>&1; rc=$?
  git -C $BASE checkout -q -- .
  echo "$2 $p rc=$rc"; grep -E "VIOLATION|ERROR|KNOWN" /tmp/seedrun.log | head -3
;;
esac
