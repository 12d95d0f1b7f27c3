#!/bin/bash
# tools/bug.sh ID [check ids...]: validate a planted bug in a scratch copy of /repo:
# it applies, the demo passes without / fails with it, the tests pass with it, the given checks catch it.
set -u
id=$1; shift
base=${BASE:-$(cd "$(dirname "$0")/.." && pwd)}
d=$base/seeded/$id
REPO=${REPO:-/repo}
w=/tmp/w/bug_$id
rm -rf "$w"; mkdir -p /tmp/w; cp -a $REPO "$w"
. /opt/vp/env.sh
export PYTHONPATH=$w/src
( cd "$w" && bash "$d/demo.sh" >/tmp/w/demo0.$id.log 2>&1 ); r0=$?
( cd "$w" && git apply "$d/patch.diff" ) || { echo "$id DOES NOT APPLY"; exit 1; }
( cd "$w" && bash "$d/demo.sh" >/tmp/w/demo1.$id.log 2>&1 ); r1=$?
echo "$id: demo unchanged=$r0 bug=$r1"
if [ "${TESTS:-1}" = 1 ]; then
  cd "$w"
  { find src/wax -name '*_test.py'; echo doc; } | PYTHONPATH=$w/src xargs -P 6 -I{} bash -c 'f={}; if [ "$f" = doc ]; then f="--doctest-modules $(find src/wax -name "*.py" ! -name "*_test.py" | tr "\n" " ")"; fi; /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --rootdir=. --timeout=300 $f </dev/null 2>&1 | grep -E "^(FAILED|ERROR)|failed" '
  echo "$id: tests done"
fi
unset PYTHONPATH
for c in "$@"; do echo "== $c"; WAX_SRC=$w/src $base/run.sh $c quick | cut -c1-300 | tail -3; done
rm -rf "$w"
