import json,sys,collections
d=json.load(open(sys.argv[1] if len(sys.argv)>1 else '.build/mir.json'))
fns={f['id']:f for f in d['fns']}
c=collections.Counter(); ex={}
def fr(x):
    return x
for f in d['fns']:
    for b in f.get('blocks') or []:
        t=b[1]
        if t and t[0]=='call' and not b[3]:
            x=t[1]
            if 'ptr' in x: c['<ptr>']+=1; continue
            i=x.get('inst')
            if i is not None and i in fns and 'blocks' in fns[i]: continue
            k=(x['decl'], x.get('path'), x.get('ik'))
            c[k]+=1; ex[k]=f['path']
for k,n in sorted(c.items(),key=lambda t:str(t[0])): print(n,k,ex.get(k,''))
print(len(d['fns']), sum('blocks' in f for f in d['fns']), len(d['types']), len(d['roots']))
