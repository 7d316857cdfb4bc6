#!/bin/bash
# mut.sh FILE(in /repo) PYTHON-REPLACE-FROM TO ID...   plants a change, runs checks, undoes it
f=/repo/$1; shift
python3 - "$f" "$1" "$2" <<'P' || exit 9
import sys
f,a,b=sys.argv[1:]
s=open(f).read(); assert s.count(a)>=1,(f,a); open(f,'w').write(s.replace(a,b,1))
P
shift 2
for id in "$@"; do timeout 900 python3 /verif/run.py $id 2>&1 | cut -c1-600 | tail -12; echo "   -> $id rc ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
