import json,sys
d=json.load(open('.build/mir.json'))
T=d['types']
for f in d['fns']:
    if sys.argv[1] in f['path'] :
        print('FN',f['id'],f['path'],f['args'],'argc',f['argc'],'spread',f['spread'],f.get('span'))
        if 'blocks' in f:
            for i,l in enumerate(f['locals']): print('  local',i,T[l if isinstance(l,int) else l[0]]['n'])
            for i,b in enumerate(f['blocks']):
                print(' bb',i,'cleanup' if b[3] else '',b[2])
                for s in b[0]: print('    ',json.dumps(s))
                print('    T',json.dumps(b[1]))
        n=int(sys.argv[2]) if len(sys.argv)>2 else 1
        sys.argv[2:]=[str(n-1)]
        if n<=1: break
