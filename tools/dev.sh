#!/bin/bash
# dev.sh <prop> <dir>: build the binaries of a property into dir (development aid)
cd /verif && python3 - "$1" "$2" <<'PY'
import sys; sys.path.insert(0,'/verif'); sys.argv=[sys.argv[0]]+sys.argv[1:]
import check, os
os.makedirs(sys.argv[2], exist_ok=True)
print([e for b,e in (check.build(sys.argv[1], sys.argv[2]) or [])])
PY
