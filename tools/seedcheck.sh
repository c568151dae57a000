#!/bin/bash
# seedcheck.sh SEED [CHECK...]: confirms a planted bug in a scratch copy of
# /repo (applies, builds, passes the stable tests, demonstration fails with it
# and passes without it), then runs the given checks (default: the property it
# breaks) of a scratch copy of the harness against it. Nothing in /repo or
# /verif changes.
set -u
root=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
s=$root/seeded/$id
w=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GO111MODULE=on
mkdir "$w/demo"; for f in "$s"/*; do case $f in *.diff|*.patch|*/meta.json) ;; *) cp -a "$f" "$w/demo/";; esac; done
if [ -z "${FAST:-}" ]; then
(cd "$w/repo" && bash "$w/demo/demo.sh" >"$w/o" 2>&1) || { echo "$id: DEMO FAILS ON UNCHANGED TREE"; tail -5 "$w/o"; exit 2; }
fi
git -C "$w/repo" apply "$s/patch.diff" || { echo "$id: does not apply"; exit 2; }
if [ -z "${FAST:-}" ]; then
(cd "$w/repo" && go build ./... ) || { echo "$id: DOES NOT BUILD"; exit 2; }
if (cd "$w/repo" && bash "$w/demo/demo.sh" >"$w/o" 2>&1); then echo "$id: DEMO PASSES WITH THE CHANGE"; exit 2; fi
tail -3 "$w/o" | cut -c1-300
sed "s#cd /repo #cd $w/repo #" /opt/vp/test.sh >"$w/test.sh"
timeout 500 bash "$w/test.sh" "$w/t.json" >/dev/null 2>&1
python3 - "$w/t.json" <<'P' || { echo "$id: STABLE TESTS FAIL"; exit 2; }
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set(json.load(open(sys.argv[1]))['passed'])
miss=[s for s in st if s not in ok]
print("stable missing:",len(miss),miss[:5])
sys.exit(1 if miss else 0)
P
fi
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cp -a "$root/harness" "$w/h"; sed -i "s#=> /repo#=> $w/repo#" "$w/h/go.mod"
mkdir -p "$w/v/evidence"; cp "$root/known_findings.json" "$w/v/" 2>/dev/null
for c in "$@"; do
 r=(); [ "$c" = R04 ] && { r=(-race); export HARNESS_RACE=1; }
 (cd "$w/h" && go build "${r[@]}" -tags verif -o "$w/hx" .) || { echo "$id: harness does not build"; exit 2; }
 "$w/hx" run "$w/v" "$c" >"$w/o" 2>&1; rc=$?
 if [ $rc = 1 ]; then echo "$id: CAUGHT by $c: $(grep -m1 -A2 VIOLATION "$w/o" | tr '\n' ' ' | cut -c1-250)"; elif [ $rc = 0 ]; then echo "$id: $c quiet"; else echo "$id: $c rc=$rc"; tail -3 "$w/o"; fi
done
