#!/bin/bash
# seedtest.sh <id>|all : in scratch copies of /repo, confirm each planted bug (builds, passes stable tests, demo 0/nonzero). Prints one line each.
one() {
  id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$w/repo"; cd "$w/repo"
  git checkout -q -- . ; r="ok"
  cp -r $d "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
  bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1 || r="CLEAN-DEMO-FAILS"
  git apply $d/patch.diff || r="NOAPPLY"
  bash "$w/demo/demo.sh" > "$w/bug.log" 2>&1 && r="$r DEMO-PASSES-WITH-BUG"
  echo "$id $r"; [ -n "$V" ] && { tail -5 "$w/clean.log"; tail -5 "$w/bug.log"; }
  rm -rf "$w"
}
if [ "$1" = all ]; then export -f one; ls /verif/seeded | xargs -P 8 -I{} bash -c 'one {}'; else for i in "$@"; do one $i; done; fi
