#!/bin/bash
# Applies each planted bug (default: all) to a scratch copy of /repo, runs its
# property's check on it, and says whether the bug is caught.
cd "$(dirname "$0")/.." || exit 2
one() {
  d=${1%/}; id=$(basename "$d"); t=$(mktemp -d /tmp/rb_XXXXXX)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$PWD/$d/patch.diff" || { echo "$id does not apply"; rm -rf "$t"; return; }
  s=$(date +%s)
  VERIF_REPO=$t/repo timeout 900 python3 run.py "$p" > "$t/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$t/out"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s) - s ))s: $(grep -v ^VIOL "$t/out" | tail -2 | head -1 | cut -c1-150)"
  rm -rf "$t"
}
export -f one
printf '%s\n' "${@:-seeded/*/}" | xargs -I{} bash -c 'ls -d {}' | xargs -P "${J:-2}" -I{} bash -c 'one {}'
