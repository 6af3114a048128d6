#!/bin/bash
# Confirm the planted bug in scratch copy $SC (default /tmp/sc), which holds the edited tree:
#   seed.sh <id>     writes /verif/seeded/<id>/patch.diff, runs the tests, and the demo both ways.
# seed.sh --init makes the scratch copy; seed.sh --check <id> <property...> runs checks against it in /repo.
SC=${SC:-/tmp/sc}
. /opt/vp/env.sh
if [ "$1" = --init ]; then
  rm -rf /tmp/sc; cp -a /repo "$SC"; exit
fi
if [ "$1" = --check ]; then
  id=$2; shift 2
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
  for c in "$@"; do
    timeout 900 bash /verif/check.sh $c quick > /tmp/chk.$c 2>&1; r=$?
    echo "$id $c exit=$r $(grep -c VIOLATION /tmp/chk.$c) $(grep '^  \[' /tmp/chk.$c | head -1 | cut -c1-220)"
  done
  git -C /repo checkout -- .
  exit
fi
id=$1; S=/verif/seeded/$id
cd "$SC" || exit 1
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
cargo nextest run --workspace --no-fail-fast --offline > /tmp/seed.log 2>&1 || { echo "TESTS FAIL"; grep -E "^\s+FAIL|error" /tmp/seed.log | head; exit 1; }
cargo test --workspace --doc --offline > /tmp/seed.doc 2>&1 || { echo "DOCTESTS FAIL"; exit 1; }
bash $S/demo.sh > /tmp/seed.demo1 2>&1; a=$?
git stash -q
bash $S/demo.sh > /tmp/seed.demo0 2>&1; b=$?
git stash drop -q
echo "$id patched=$a (want nonzero) clean=$b (want 0)"
[ $a -ne 0 ] && [ $b -eq 0 ] || { tail -n 5 /tmp/seed.demo1 /tmp/seed.demo0; exit 1; }
