#!/bin/bash
cd "$(dirname "$0")"
LL=$(ls -t $(find build/srv -name wat_srv.ll)|head -1); rm -f /tmp/o2.log
h=$1; p=$2; shift 2
symx/target/release/symx --ll $LL --harness $h --param "$p" --out /tmp/o2.log --workers ${W:-8} --budget ${B:-100} --max-viol ${MV:-200} "$@"; echo rc=$?
grep '^S' /tmp/o2.log | cut -c1-700
python3 - <<'PY'
import collections
V=[l.rstrip('\n').split('\t') for l in open('/tmp/o2.log') if l[0] in 'VI']
print(collections.Counter((v[0],v[1],v[2][:150]) for v in V).most_common(12))
seen=collections.Counter()
for v in V:
    k=(v[1],v[2][:150]); seen[k]+=1
    if seen[k]<=12: print(v[1],v[2][:250], v[3][:60],[bytes.fromhex(x).decode('latin1') for x in v[4].split(';')] if len(v)>4 else '')
PY
grep '^R' /tmp/o2.log | cut -f2 | sort | uniq -c
