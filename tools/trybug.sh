#!/bin/bash
# trybug.sh ID [check ids...]: apply a planted bug to /repo, build, run the
# existing tests, its demonstration and the named checks; then restore.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 2; }
git -C /repo worktree prune
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 2; }
( cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1 ); echo "$id demo on unchanged: $?"
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/bug-build.log 2>&1 || echo "$id DOES NOT BUILD"
bash /opt/vp/test.sh /tmp/bug-tests.json 2>&1 | tail -1
( cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1 ); echo "$id demo with bug: $?"
for c in "$@"; do
  ( cd /verif && VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-7} timeout 900 python3 checks/$c.py >/tmp/bug-$id-$c.log 2>&1 ); rc=$?
  echo "$id check $c: exit $rc $(grep -m1 VIOLATION /tmp/bug-$id-$c.log)"; grep -m1 -A1 VIOLATION /tmp/bug-$id-$c.log | tail -1 | cut -c1-300
done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
