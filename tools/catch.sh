#!/bin/bash
# tools/catch.sh ID: applies the change of /verif/seeded/ID to /repo, runs the property's quick check, undoes it
id=$1; d=/verif/seeded/$id; p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply "$d/patch.diff" || exit 9
cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 vf/run.py $p > /tmp/bugs/$id.check 2>&1; r=$?
git -C /repo checkout -- .
grep -m1 VIOLATION /tmp/bugs/$id.check | cut -c1-300; echo "$id $p exit=$r $( [ $r = 1 ] && echo CAUGHT || echo MISSED)"
