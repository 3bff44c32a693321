#!/bin/bash
# Renders the filing in fx/ and compares every answer with want.txt, which was
# checked by hand against the property. Run from the repository root.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf -- "$tmp"' EXIT
cp -r "$here/fx" "$tmp/fx" && cp "$here/main.go.txt" "$tmp/main.go" && cp "$repo/go.sum" "$tmp/go.sum" || exit 9
sed -e 's|^module .*|module ecksbee.com/telefacts/demo|' "$repo/go.mod" > "$tmp/go.mod" || exit 9
printf '\nrequire ecksbee.com/telefacts v0.0.0\nreplace ecksbee.com/telefacts => %s\n' "$repo" >> "$tmp/go.mod"
cd "$tmp" || exit 9
race=""; if [ -e "$here/race" ]; then race=-race; fi
go build $race -o demo . || exit 9
timeout 120 ./demo fx > got.txt 2> err.txt
rc=$?
if [ "$rc" -ne 0 ]; then tail -n 20 err.txt; echo "the program failed ($rc)"; exit 1; fi
if [ "${1:-}" = record ]; then cp got.txt "$here/want.txt"; exit 0; fi
diff "$here/want.txt" got.txt || { echo "the answers are wrong"; exit 1; }
echo "the answers are right"
