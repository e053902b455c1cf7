#!/bin/bash
# tools/tryseed.sh ID [PROP...]: confirm a planted change in a scratch copy of /repo and run the checks against it
# (prints: applies / stable tests / demo clean / demo patched / verdict of each check)
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd); dir=$here/seeded/$id
copy=$(mktemp -d /tmp/rp.XXXXXX)
trap 'rm -rf "$copy"' EXIT
cp -a /repo "$copy/repo"; repo=$copy/repo
mkdir "$copy/demo"; cp -a "$dir"/. "$copy/demo"; rm -f "$copy"/demo/*.diff "$copy"/demo/meta.json
(cd "$repo" && bash "$copy/demo/demo.sh" >"$copy/d0.log" 2>&1); c0=$?
git -C "$repo" apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 2; }
(cd "$repo" && bash "$copy/demo/demo.sh" >"$copy/d1.log" 2>&1); c1=$?
[ $c0 = 0 ] || tail -5 "$copy/d0.log"
if [ -z "$NOTEST" ]; then
  sed "s#/repo#$repo#g; /build.sh/d" /opt/vp/test.sh >"$copy/test.sh"
  bash "$copy/test.sh" "$copy/out.json" >"$copy/t.log" 2>&1
  t=$(python3 - "$copy/out.json" <<'P'
import json, sys
d = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable']) - set(d['passed'])) or 'pass')
P
)
else t=skipped; fi
[ $# = 0 ] && set -- $(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$dir/meta.json")
v=
for p in "$@"; do
  (cd "$here" && SX_REPO=$repo SX_EVIDENCE=$copy/ev timeout 900 python3-vt run.py "$p" >"$copy/c.log" 2>&1); c=$?
  v="$v $p=$c[$(grep -c '^VIOLATION' "$copy/c.log")]"
  [ -n "$SHOW" ] && grep -A1 '^VIOLATION' "$copy/c.log" | cut -c1-400
done
echo "$id: demo clean=$c0 patched=$c1 tests=$t checks:$v"
