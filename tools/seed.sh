#!/bin/bash
# seed.sh ID: confirm a planted bug in a scratch copy of /repo: it applies,
# builds, passes the stable tests, and its demo tells the two trees apart.
V="$(cd "$(dirname "$0")/.." && pwd)"; D="$V/seeded/$1"
. /opt/vp/env.sh
S="$(mktemp -d /tmp/seed.XXXXXX)"; trap 'rm -rf -- "$S"' EXIT
cp -a /repo "$S/repo"; cp -a "$D" "$S/d"; cd "$S/repo" || exit 2
git checkout -q -- . ; git clean -fdq
bash "$S/d/demo.sh" >"$S/out1" 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
go build ./... || { echo "$1: does not build"; exit 1; }
go vet ./... >/dev/null 2>&1 || true
go test ./... 2>&1 | grep -E '^(---|FAIL|panic)' | head -5
bash "$S/d/demo.sh" >"$S/out2" 2>&1; b=$?
echo "$1: demo unchanged=$a patched=$b"; [ $a = 0 ] || tail -20 "$S/out1"; tail -4 "$S/out2"
