#!/bin/bash
# seedtest.sh ID... : confirms each planted bug in a scratch copy mounted over /repo in a private mount namespace:
# builds, passes the tests, demo fails with / passes without; then runs the property's quick check on it
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; s=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=/tmp/seedtest.$id; rm -rf "$t"; mkdir -p "$t/repo"; cp -a /repo/. "$t/repo/"; cp -a "$s" "$t/demo"
  unshare -m bash -c "
    mount --bind $t/repo /repo; cd /repo; git checkout -q -- .
    bash /opt/vp/build.sh >$t/b0.log 2>&1 || echo BUILD0-FAILED
    bash $t/demo/demo.sh >$t/d0.log 2>&1; echo -n \"$id $p demo-clean=\$? \"
    git apply $s/patch.diff || echo PATCH-FAILED
    bash /opt/vp/build.sh >$t/b1.log 2>&1 || echo BUILD-FAILED
    bash $t/demo/demo.sh >$t/d1.log 2>&1; echo -n \"demo-bug=\$? \"
    [ -n \"$NOTEST\" ] || { bash /opt/vp/test.sh $t/out.json >$t/t.log 2>&1; echo -n \"tests: \$(tail -1 $t/t.log) \"; }
    cd $V; timeout 900 ./check $p quick >$t/c.log 2>&1; echo \"check=\$? \$(grep -m1 ^VIOLATION $t/c.log) \$(grep -c ^INCONCL $t/c.log) inc\"
  "
  cp $t/c.log /tmp/seed.$id.log;  [ -n "$KEEP" ] || rm -rf "$t"
}
for i in "$@"; do one $i; done
