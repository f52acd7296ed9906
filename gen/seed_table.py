# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)
import json,glob,os,re
rows=[]
for p in sorted(glob.glob(os.path.join(os.path.dirname(__file__),'..','seeded','*','meta.json'))):
    m=json.load(open(p)); rows.append((m['property'],p.split('/')[-2],m['needs'],m['what_it_breaks'],m.get('note','')))
rows.sort()
t='| property and check | seed | needs | breaks | first seen |\n|---|---|---|---|---|\n'+''.join('| %s | %s | %s | %s | %s |\n'%(a,b,c.replace('|','/'),d.replace('|','/'),n or 'caught as it was') for a,b,c,d,n in rows)
f=os.path.join(os.path.dirname(__file__),'..','DESIGN.md'); s=open(f).read()
b='<!-- seeds -->\n'; e='<!-- /seeds -->\n'
if b not in s: s=s.replace('## 7. Planted bugs\n','## 7. Planted bugs\n\nEach was written from the text of its property and the code, passes the existing tests, and is caught by the quick check of its property.\n\n'+b+e)
s=s[:s.index(b)+len(b)]+t+s[s.index(e):]; open(f,'w').write(s)
