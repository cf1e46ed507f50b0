#!/usr/bin/env python3
# writes DESIGN.md from tools/design/ (prose), properties.jsonl, checks.json, not_applicable.json and seeded/
import json,glob,os,re,sys
V='/verif'; D=V+'/tools/design/'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=json.load(open(V+'/checks.json')); na=json.load(open(V+'/not_applicable.json'))
caught=json.load(open(D+'caught.json')) if os.path.exists(D+'caught.json') else {}
for f in glob.glob('/tmp/sm.*.txt'):   # results of the last runs against the planted bugs
    i=os.path.basename(f)[3:-4]; t=open(f,errors='replace').read()
    o=re.findall(r'^FAILED OBLIGATION (\S+)',t,re.M)
    inp='reproduce:' in t
    if not os.path.isdir(V+'/seeded/'+i): continue
    caught[i]=('obligation `%s`%s'%(o[0],' (+%d)'%(len(o)-1) if len(o)>1 else '') if o else 'no obligation')+(', input' if inp else ', no input')
json.dump(caught,open(D+'caught.json','w'),indent=1,sort_keys=True)
out=[open(D+'DESIGN.head').read()]
for p in props:
    i=p['id']; out.append('### %s %s\n'%(i,p['title']))
    if i in checks:
        c=checks[i]; n=c['note']
        out.append('Contracts: %s. %s.\n\n'%(', '.join('contracts/%s.spec'%s for s in c['specs']), n))
    else: out.append('Not applicable: %s.\n\n'%na[i])
rows=['| change | property | what it breaks | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('\n',' ').replace('|','/'),caught.get(i,'')))
t=open(D+'DESIGN.tail').read()
out.append(t.replace('SEEDTABLE','\n'.join(rows)).replace('NATABLE','\n'.join('- %s: %s.'%(k,v) for k,v in na.items())))
text=''.join(x if x.startswith('#') or x.startswith('\n') else x for x in out).replace('title\n','title\n')
open(V+'/DESIGN.md','w').write(text)
