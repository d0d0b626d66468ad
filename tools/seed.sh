#!/bin/bash
# seed.sh ID...: try planted bugs in a scratch copy of /repo (build, stable
# tests, demo with and without the change).  With CHECK=1 also runs the check
# of the bug's property on the changed copy.
here=$(dirname "$(dirname "$(realpath "$0")")")
copy=/tmp/seedrepo
if [ ! -d $copy/src ]; then
    mkdir -p $copy
    git -C /repo archive HEAD | tar -x -C $copy
    (cd $copy && git init -q . && cp /repo/.gitignore . && git add -A -f . && git -c user.name=x -c user.email=x commit -qm base)
fi
sync_copy() { # bring the copy to /repo's HEAD
    rm -rf /tmp/seedsync && mkdir /tmp/seedsync
    git -C /repo archive HEAD | tar -x -C /tmp/seedsync
    rsync -rc --delete --exclude=_build --exclude=.git /tmp/seedsync/ $copy/ 2>/dev/null ||
        python3 - <<PY
import os,filecmp,shutil
for r,_,fs in os.walk('/tmp/seedsync'):
    for f in fs:
        s=os.path.join(r,f); d=s.replace('/tmp/seedsync','$copy')
        if not os.path.exists(d) or not filecmp.cmp(s,d,False):
            os.makedirs(os.path.dirname(d),exist_ok=True); shutil.copyfile(s,d)
PY
    rm -rf /tmp/seedsync
}
sed "s#/repo#$copy#g" /opt/vp/build.sh > /tmp/seedbuild.sh
sed "s#/repo#$copy#g; s#/opt/vp/build.sh#/tmp/seedbuild.sh#" /opt/vp/test.sh > /tmp/seedtest.sh
for id in "$@"; do
    d=$here/seeded/$id
    sync_copy
    bash /tmp/seedbuild.sh > /tmp/seed.log 2>&1 || { echo "$id: base build fails"; continue; }
    (cd $copy && timeout 300 bash $d/demo.sh > /tmp/seed.demo0 2>&1); base=$?
    (cd $copy && patch -s -p1 < $d/patch.diff) || { echo "$id: patch fails"; continue; }
    bash /tmp/seedtest.sh /tmp/seed.json > /tmp/seed.log 2>&1
    tests=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
s=b.get('stable') or b.get('passed') or b
s=s if isinstance(s,list) else list(s)
m=[t for t in s if t not in r['passed']]
print('%d/%d stable pass'%(len(s)-len(m),len(s)), m[:5])
PY
)
    (cd $copy && timeout 300 bash $d/demo.sh > /tmp/seed.demo1 2>&1); chg=$?
    echo "$id: demo base=$base changed=$chg; $tests"
    [ $base != 0 ] && tail -5 /tmp/seed.demo0
    [ $chg = 0 ] && tail -5 /tmp/seed.demo1
    if [ -n "$CHECK" ]; then
        p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
        VERIF_REPO=$copy VERIF_SEED=1 VERIF_TIER=quick python3 $here/check.py $p 2>&1 | tail -${LINES_OUT:-6}
    fi
done
sync_copy
