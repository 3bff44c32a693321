#!/bin/bash
# mkbug.sh <id> <property> <replay file> "<needs>" "<what it breaks>"
# Records the change in /repo's working tree as a planted bug with a demo that
# renders the filing of the replay file.
set -eu
id="$1" prop="$2" replay="$3" needs="$4" breaks="$5"
here="$(cd "$(dirname "$0")/.." && pwd)"
d="$here/seeded/$id"
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ]
git -C /repo checkout -- .
cp "$here/tools/bug/demo.sh" "$here/tools/bug/main.go.txt" "$d/"
if [ -n "$replay" ] && [ "$prop" != C25 ]; then "$here/run.sh" files "$prop" "$replay" "$d/fx"; fi
# requests over HTTP instead of the library, given in REQ; a program of its own, given in PROG
if [ -n "${REQ:-}" ]; then
  printf '%s\n' "$REQ" > "$d/fx/requests.txt"
  cp "$here/tools/bug/web.go.txt" "$d/main.go.txt"
  [ -z "${LINKS:-}" ] || for f in $LINKS; do "$here/tools/bug/links.sh" "$d/fx" "$f"; done
fi
[ -z "${PROG:-}" ] || { cp "$PROG" "$d/main.go.txt"; mkdir -p "$d/fx"; touch "$d/fx/empty"; }
[ -z "${RACE:-}" ] || touch "$d/race"
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
(cd /repo && bash "$d/demo.sh" record && bash "$d/demo.sh")
git -C /repo apply "$d/patch.diff"
(cd /repo && if bash "$d/demo.sh" > /tmp/mkbug.out 2>&1; then echo "DEMO DOES NOT SHOW IT"; else head -n 12 /tmp/mkbug.out; fi)
git -C /repo checkout -- .
