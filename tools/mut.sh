#!/bin/bash
# mut.sh <prop> <patch-command run in a copy of /repo>: run the quick check against a changed copy (development aid)
d=$(mktemp -d /tmp/mut/XXXXXX); cp -a /repo/include /repo/src $d/; cd $d && git init -q . >/dev/null 2>&1; git add -A >/dev/null; bash -c "$2"; git diff --stat | tail -1
VERIF_REPO=$d timeout 600 /verif/check.py $1 quick 2>&1 | grep -E "VIOLATION|total|pbt\]|FAILED|error" | cut -c1-220 | head -${3:-4}
cd /; rm -rf $d
