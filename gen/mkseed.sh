#!/bin/bash
# mkseed.sh ID: checks the planted bug in seeded/ID (patch.diff, demo.sh, meta.json) in a scratch copy:
# applies, builds, passes the stable tests, demo passes without and fails with it.
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; S=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; cp -a "$D" "$S/d"; cd "$S/repo"
bash "$S/d/demo.sh" >"$S/o1" 2>&1 || { echo "demo fails on the unchanged tree"; tail -5 "$S/o1"; exit 1; }
git apply "$D/patch.diff" || exit 1
go build ./... || exit 1
if [ -z "$NOTEST" ]; then
go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok" && { echo "tests fail"; exit 1; }
fi
bash "$S/d/demo.sh" >"$S/o2" 2>&1 && { echo "demo passes with the patch"; exit 1; }
tail -2 "$S/o2"; echo "seed $1 fine"
