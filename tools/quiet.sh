#!/bin/bash
# quiet.sh KIND [CHECKS...]: the stable tests and the checks on a scratch copy of /repo rewritten by refactor.py (bound over /repo in a private namespace)
k=$1; shift
d=$(mktemp -d /tmp/quiet.XXXXXX)
cp -a /repo "$d/repo"
/opt/venv/bin/python /verif/tools/refactor.py "$k" "$d/repo" || exit 3
checks=$(echo ${*:-$(seq -f 'C%02g' 1 33)})
export RK_FACTOR=${RK_FACTOR:-1}
unshare -Urm bash -c "mount --bind $d/repo /repo && cd /verif && bash /opt/vp/build.sh > $d/build.log 2>&1; bash /opt/vp/test.sh $d/o.json > /dev/null 2>&1
/opt/venv/bin/python -c \"
import json
o = json.load(open('$d/o.json')); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); x = b - set(o.get('passed') or o.get('pass') or []); print('stable tests failing:', len(x), sorted(x)[:3])\"
for c in $checks; do /opt/venv/bin/python run_check.py \$c > $d/\$c.out 2>&1; r=\$?; echo $k \$c \$r; if [ \$r != 0 ]; then grep -m3 -A6 violated $d/\$c.out || tail -5 $d/\$c.out; fi; done"
rm -rf "$d"
