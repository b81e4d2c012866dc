#!/bin/bash
# Run every quick check against a copy of /repo with the behaviour-preserving
# rewrites of first.py and second.py applied: all must stay quiet.
set -e
cd "$(dirname "$0")/../.."
d=$(mktemp -d /tmp/refactor.XXXXXX)
cp -a /repo "$d/r"
python3 tools/refactor/first.py "$d/r"; python3 tools/refactor/second.py "$d/r"
(cd "$d/r" && go build ./...)
for i in $(seq -w 1 34); do
  if VERIF_REPO="$d/r" VERIF_TIER=${VERIF_TIER:-quick} python3 run.py "C$i" > "$d/log" 2>&1; then echo "C$i quiet"; else echo "C$i ALARM"; tail -3 "$d/log"; fi
done
rm -rf -- "$d"
