"""rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json and meta/caught.json"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(V+'/meta/caught.json'))
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'),c.get(d,'not run')))
p=V+'/DESIGN.md'; s=open(p).read()
i=s.index('## Seeded changes')
s=s[:i]+'''## Seeded changes

("not run": not in the last sweep of all changes.)
Each was written from a property's text and the code, passes the repository's tests, and has a demonstration. "Caught" names the check (quick tier) that reports it.

| change | property | needs | breaks | caught |
|---|---|---|---|---|
'''+'\n'.join(rows)+'\n'
open(p,'w').write(s)
