#!/bin/bash
# tools/tryrefactor.sh REPO-COPY [PROP...]: run the stable tests and the checks against a refactored copy of /repo (all should be quiet)
here=$(cd "$(dirname "$0")/.." && pwd); repo=$(cd "$1" && pwd); shift
tmp=$(mktemp -d /tmp/rf.XXXXXX); trap 'rm -rf "$tmp"' EXIT
if [ -z "$NOTEST" ]; then
  sed "s#/repo#$repo#g; /build.sh/d" /opt/vp/test.sh >"$tmp/test.sh"
  bash "$tmp/test.sh" "$tmp/out.json" >"$tmp/t.log" 2>&1
  python3 - "$tmp/out.json" <<'P'
import json, sys
d = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
print('tests', sorted(set(b['stable']) - set(d['passed'])) or 'pass')
P
fi
[ $# = 0 ] && set -- $(seq -f C%02g 1 27)
for p in "$@"; do
  (cd "$here" && SX_REPO=$repo SX_EVIDENCE=$tmp/ev timeout 900 python3-vt run.py "$p" >"$tmp/c.log" 2>&1); c=$?
  echo "$p=$c $(tail -1 "$tmp/c.log" | grep -o 'wall=.*')"
  [ $c = 0 ] || { grep -A2 '^VIOLATION' "$tmp/c.log" | cut -c1-400 | head -12; tail -3 "$tmp/c.log" | cut -c1-300; }
done
