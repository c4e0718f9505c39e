import json,re,collections
D=json.load(open('all.json'))
M="january february march april may june july august september october november december".split()
W="monday tuesday wednesday thursday friday saturday sunday".split()
names={};rel={};orders={};relrx={};nosp=[]
for l in D['L']:
    n=l['Name']; orders[n]=l['Order']
    if l['NoSpace']: nosp.append(n)
    names[n]={w:t[0] for w,t in (l['Tr'] or {}).items() if len(t)==1 and (t[0] in M or t[0] in W)}
    rel[n]=l['Rel'] or {}
    relrx[n]=l['RelRx'] or []
out='/verif/harness/data/'
def dump(f,o): open(out+f,'w').write(json.dumps(o,ensure_ascii=False,sort_keys=True,separators=(',',':'))+'\n')
dump('names.json',names);dump('rel.json',rel);dump('relrx.json',relrx);dump('orders.json',orders);dump('nospace.json',nosp)
dump('ranks.json',{'locales':D['LocaleOrder'],'languages':D['LanguageOrder']})
s=open('/repo/internal/timezone/timezones.go').read()
tz=re.findall(r'`(.+?)`:\s*(-?\d+),',s)
off=[(a,int(b)) for a,b in tz if a.startswith('UTC') and len(a)>3]
abb=[(a,int(b)) for a,b in tz if not(a.startswith('UTC') and len(a)>3)]
dump('tz.json',{'offsets':off,'abbr':abb})
print(len(off),len(abb),[a for a,n in collections.Counter(a for a,_ in abb).items() if n>1])
print(sum(map(len,names.values())),sum(map(len,rel.values())),sum(map(len,relrx.values())))
print(collections.Counter(r[1] for v in relrx.values() for r in v).most_common(40))
print(collections.Counter(orders.values()),nosp)
print(rel['en'],relrx['en'])
