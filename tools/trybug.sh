#!/bin/bash
# trybug.sh ID...: in a private mount namespace per bug (a scratch copy mounted over /repo): demo on the unchanged tree,
# apply, build, stable tests, demo, and this property's quick check. Prints one line per bug.
one() {
  id=$1; S=/verif/seeded/$id; W=/tmp/bug.$id
  rm -rf "/tmp/bug.$id"; mkdir -p "$W/demo"; cp -a /repo "$W/repo"; cp "$S"/* "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
  unshare -Urm bash -c '
    id=$1; S=/verif/seeded/$id; W=/tmp/bug.$id
    mount --bind $W/repo /repo; cd /repo
    bash $W/demo/demo.sh > $W/demo0.log 2>&1; d0=$?
    git apply $S/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh > $W/build.log 2>&1; b=$?
    bash $W/demo/demo.sh > $W/demo1.log 2>&1; d1=$?
    P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
    c=-; t=-
    if [ "$NOCHECK" != 1 ]; then rm -rf $W/verif; cp -a /verif $W/verif; mount --bind $W/verif /verif; (cd /verif; timeout 890 python3-vt check.py $P > $W/check.log 2>&1); c=$?; fi
    if [ "$NOTEST" != 1 ]; then bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
      t=$(python3 -c "
import json;b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"];o=json.load(open(\"$W/out.json\"))
m=[x for x in b if x not in o[\"passed\"]];print(\"pass\" if not m else \"FAIL:\"+\",\".join(m)[:200])"); fi
    echo "$id: $P demo-unchanged=$d0 build=$b demo-patched=$d1 tests=$t check-exit=$c $(grep -m1 VIOLATION $W/check.log 2>/dev/null | cut -c1-150)"
  ' _ "$id"
  [ "$KEEP" = 1 ] || rm -rf "/tmp/bug.$id"
}
for i in "$@"; do one "$i"; done
