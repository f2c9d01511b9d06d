#!/bin/bash
# trybug.sh ID [Cxx]: the check of its property on a planted change
s=/verif/seeded/$1
c=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 3
(cd /verif && python3 check.py $c quick | tail -${L:-4})
git -C /repo checkout -- .
