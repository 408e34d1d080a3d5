#!/bin/bash
# Every check: the same seeds twice, with other worker counts and hash seeds, must do exactly the same.
# usage: tools/determinism.sh [runs] [properties...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-60}; shift
[ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 26)
export DST_OUT=$(mktemp -d)
bad=0
for c in "$@"; do
  a=$(PYTHONHASHSEED=0 /opt/venv/bin/python check.py "$c" --digest --runs "$n" --workers 8 | grep DIGEST)
  b=$(PYTHONHASHSEED=77 /opt/venv/bin/python check.py "$c" --digest --runs "$n" --workers 5 | grep DIGEST)
  if [ -n "$a" ] && [ "$a" = "$b" ]; then echo "$c same"; else echo "$c DIFFERENT $a $b"; bad=1; fi
done
rm -r "$DST_OUT"
exit $bad
