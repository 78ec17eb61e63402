"""show which fields differ between observations of the same slot in a replay file (development aid)"""
import json,sys
def diff(a,b,p=''):
    if type(a)!=type(b): print(' ',p,str(a)[:200],str(b)[:200]);return
    if isinstance(a,dict):
        for k in a: diff(a[k],b.get(k),p+'/'+k)
    elif isinstance(a,list):
        if len(a)!=len(b): print(' ',p,'len',len(a),len(b))
        for i,(x,y) in enumerate(zip(a,b)): diff(x,y,p+'/%d'%i)
    elif a!=b: print(' ',p,a,b)
d=json.load(open(sys.argv[1])); first={}
for e in d['events']:
    if e['op'].startswith('obs'):
        k=(e['op'],e.get('s'),e.get('n'))
        if k in first: print(k, e['m']); diff(first[k]['r'],e['r'])
        else: first[k]=e
print(json.dumps(d['events'][-1])[:300])
print(json.dumps([c for c in d['commands'] if c['op']=='put'])[:3000])
