import json,sys
d=json.load(open(sys.argv[1])); n=d.get('step',0)
s=d['script']; print({k:v for k,v in s.items() if k!='rounds'})
for r in s.get('rounds',[]): print('round',[[ (o['o'],o['d']) for o in l] for l in r])
for k,e in enumerate(d['trace']['ev'][:n+3]):
    print(k+1,{a:b for a,b in e.items() if b not in (0,'',[])})
