#!/bin/bash
# seedtest.sh <id> [notest]: verify a planted bug in a scratch copy of /repo: applies, builds, demo 0 without / non-zero with it, stable tests, and what the check says
id=$1; S=/verif/seeded/$id; d=/tmp/seed/$id; rm -rf /tmp/seed/$id; mkdir -p /tmp/seed; cp -a /repo $d
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
ns() { unshare -Urm bash -c "mount --bind $d /repo && cd /repo && $1"; }
mkdir -p $d.demo; cp $S/* $d.demo/; rm -f $d.demo/*.diff $d.demo/meta.json
t0=$(date +%s); ns "timeout 300 bash $d.demo/demo.sh" >$d.demo/clean.log 2>&1; c=$?; t1=$(date +%s)
(cd $d && git apply $S/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
ns "bash /opt/vp/build.sh" >$d.demo/build.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 $d.demo/build.log; exit 1; }
ns "timeout 300 bash $d.demo/demo.sh" >$d.demo/bug.log 2>&1; b=$?
r=skipped
if [ "$2" != notest ]; then ns "bash /opt/vp/test.sh $d.demo/out.json" >$d.demo/test.log 2>&1
r=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('$d.demo/out.json'))['passed']);m=[x for x in b if x not in o];print('ok' if not m else 'BROKEN %s'%m[:4])"); fi
v=$(VERIF_REPO=$d timeout 900 /verif/check.py $prop quick 2>&1 | grep -E "VIOLATION|\[pbt\] failure|error" | head -2 | cut -c1-200 | tr '\n' ';')
echo "$id ($prop): demo clean=$c bug=$b ($((t1-t0))s) tests=$r check: ${v:-MISSED}"
rm -rf /tmp/seed/$id
