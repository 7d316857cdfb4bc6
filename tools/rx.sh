#!/bin/bash
# run entries of a group verbosely: rx.sh GROUP [flags] ENTRY...
g=$1; shift; cd /verif
LL=$(ls -t .build/h-$g/x86_64-unknown-linux-gnu/release/deps/vxh-*.ll | head -1)
.build/vx/release/vx --ir $LL --out /tmp/r-$g.json --verbose "$@" 2>&1 | tail -${TAIL:-6}
python3 - /tmp/r-$g.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print({k:d[k] for k in ('parse_secs','wall_secs','ir_functions','workers','lost_workers','stop')})
for v in d['violations']+d['errors']: print('!!',v['entry'],v['message'],'\n',v['backtrace'][:2500]); print(str(v['inputs'])[:1500],v.get('reached'))
t={}; E={}; R={}
for w in d['workers_stats']:
  for k,v in w.items():
    if k in('max_query_ns',): t[k]=max(t.get(k,0),v)
    elif isinstance(v,(int,float)): t[k]=t.get(k,0)+v
    elif k=='entries':
      for e,s in v.items():
        z=E.setdefault(e,{})
        for a,b in s.items(): z[a]=max(z.get(a,0),b) if a.startswith('max') else z.get(a,0)+b
    elif k=='reached':
      for e,s in v.items(): R.setdefault(e,set()).update(s)
t['solver_s']=t.pop('solver_ns')/1e9; t['max_query_s']=t.pop('max_query_ns')/1e9
print(t)
for e in E: print(' ',e,E[e],sorted(R.get(e,[])))
for s in d['samples'][:1]: print('  sample',str(s)[:200])
P
