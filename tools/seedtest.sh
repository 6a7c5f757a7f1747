#!/bin/bash
# usage: seedtest.sh <seed dir> [check]   confirm a planted change in a scratch copy of /repo
# and, with "check", run the property's quick check against it in /repo (undone straight afterwards)
set -u
s="$(readlink -f "$1")"
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
w=$(mktemp -d /tmp/seedtest.XXXX); trap 'rm -rf "$w"' EXIT
git -C /repo worktree prune
cp -a /repo "$w/repo"
cd "$w/repo" || exit 2
git checkout -q -- . ; git clean -fdq src
bash "$s/demo.sh" >"$w/a" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$s: patch does not apply"; exit 2; }
cargo build --offline --quiet 2>"$w/b" || { echo "$s: does not build"; tail "$w/b"; exit 2; }
t=$(cargo test --offline 2>&1 | grep -c "^test .*FAILED")
bash "$s/demo.sh" >"$w/c" 2>&1; c=$?
echo "$(basename $s) property=$prop demo unchanged=$a patched=$c failing tests=$t $(tail -1 $w/c | cut -c1-150)"
[ $a = 0 ] && [ $c != 0 ] && [ $c != 3 ] && [ $t = 0 ] || { echo "   NOT VALID"; cat "$w/a" "$w/c" | tail -20; exit 1; }
if [ "${2:-}" = check ]; then
  git -C /repo apply "$s/patch.diff" || exit 2
  cd /verif; t0=$(date +%s); for i in ${3:-$prop}; do VERIF_DIR=/tmp/vd VERIF_SEED=${VERIF_SEED:-1} ./check $i quick >"$w/o" 2>&1; r=$?
  echo "   check $i: exit $r in $(( $(date +%s) - t0 )) s: $(grep -E '^case' $w/o | head -1 | cut -c1-200)"; done
  git -C /repo checkout -- .
fi
