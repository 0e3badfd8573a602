#!/bin/bash
# tools/plant.sh ID [-t]: checks /verif/seeded/ID (edit.py makes the change in a scratch copy when patch.diff is absent).
# prints OK when the patch applies, the stable tests pass with it and the demonstration tells the trees apart
id=$1; d=${V:-/verif}/seeded/$id; w=/tmp/bugs/$id
mkdir -p /tmp/bugs; rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 1
if [ -f /tmp/bugs/$id.edit.py ]; then /opt/venv/bin/python /tmp/bugs/$id.edit.py || { echo EDIT FAILED; exit 1; }; git diff > "$d/patch.diff"; else git apply "$d/patch.diff" || { echo NO APPLY; exit 1; }; fi
cat "$d/patch.diff" | grep '^[-+]'
export PYTHONPATH=
(cd /repo && bash "$d/demo.sh" > /tmp/bugs/$id.good 2>&1); g=$?
(cd "$w" && bash "$d/demo.sh" > /tmp/bugs/$id.bad 2>&1); b=$?
PYTHONPATH="$w/py" /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider py/desimeter/test > /tmp/bugs/$id.tests 2>&1; t=$?
tail -1 /tmp/bugs/$id.tests
echo "demo unchanged=$g patched=$b tests=$t"; tail -3 /tmp/bugs/$id.bad
[ $g = 0 ] && [ $b != 0 ] && [ $t = 0 ] && echo OK $id
rm -rf "$w"
