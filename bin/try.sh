#!/bin/bash
# development aid: runs one entry of a harness crate and prints a summary: try.sh CRATE ENTRY [secs]
O=/verif/.build/out/try.$2.jsonl; mkdir -p /verif/.build/out
S=$(date +%s.%N)
/verif/.build/engine/release/symex /verif/.build/ll/$1.ll $2 $O 8 ${3:-120} 2>&1 | tail -5
python3 - $O $2 $S <<'P'
import json,sys,time,collections
t=collections.Counter(); reach=collections.Counter(); v=collections.OrderedDict(); e=collections.OrderedDict()
for l in open(sys.argv[1],errors='replace'):
    j=json.loads(l); k=j['kind']
    if k=='stats':
        for x in('paths','done','pruned','panics_ok','forks','steps','asserts_sym','queries','hits','unknowns'): t[x]+=j[x]
        t['solver_s']+=j['solver_s']
        for a,b in j['reach'].items(): reach[a]+=b
    elif k in('violation','error'):
        d=v if k=='violation' else e
        d.setdefault(j['msg'],[]).append(([x[2] for x in j['inputs']],j['notes']))
print(sys.argv[2],f'{time.time()-float(sys.argv[3]):.1f}s',{k:round(x,2) for k,x in t.items()},dict(reach))
for n,d in(('VIOL',v),('ERR',e)):
    for m,i in list(d.items())[:12]:
        print(n,m[:300],len(i)); [print('    ',' '.join(a[0])[:200],[str(x)[:1200] for x in a[1][:6]]) for a in i[:2]]
P
