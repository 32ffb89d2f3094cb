import json,sys
d=json.load(open(sys.argv[1]))
p=d['plan']
print(d['rule'],d['detail'])
for w in p.get('worlds',[]): print('world',w['index'],[(c['name'],c['kind'],c['vals']) for c in w['cols']], 'y',w.get('y'))
for m in p.get('models',[]): print('model',m)
for k in p:
    if k not in('worlds','models','ops'): print(k,str(p[k])[:600])
for o in p.get('ops',[]): print(o)
for e in d['last_events'][-40:]: print('   ',e)
