import sys,os,collections,json,time
sys.path.insert(0,'/verif/harness')
import gen,pool,tlc
n=int(sys.argv[1]); seed=int(sys.argv[2]) if len(sys.argv)>2 else 1
foci=sys.argv[3].split(',') if len(sys.argv)>3 else None
t=time.time()
scs=gen.batch(seed,n,foci)
by={s['id']:s for s in scs}
tr=pool.run(scs)
print('run',time.time()-t); t=time.time()
for x in tr:
    if 'machinery' in x: print(x['machinery']); sys.exit(2)
tbs={x['id']:x.pop('tb') for x in tr}
res,g,d=tlc.validate('OptimTrace',tr)
print('tlc',time.time()-t,g,d, 'events',sum(len(x['ev']) for x in tr), 'dead',sum(r[0] for r in res.values()))
cnt=collections.Counter(); ex={}
for i,(dead,cl) in sorted(res.items()):
    for c,l in cl: cnt[c]+=1; ex.setdefault(c,[]).append((i,l))
for c,k in cnt.most_common(): print(c,k,ex[c][:4])
json.dump({x['id']:x for x in tr},open('/tmp/w/tr.json','w')); json.dump(by,open('/tmp/w/sc.json','w')); json.dump(tbs,open('/tmp/w/tb.json','w'))
