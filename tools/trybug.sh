#!/bin/bash
# trybug.sh ID [CHECK]: applies a planted bug, runs the property's check, undoes it.
D=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply $D/patch.diff || exit 3
cd /verif; python3 bin/check.py $P > /tmp/try.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $P rc=$rc $(grep -c '^----' /tmp/try.out) violations, $(grep ' jobs,' /tmp/try.out)"; [ "$rc" = 1 ] || tail -5 /tmp/try.out
