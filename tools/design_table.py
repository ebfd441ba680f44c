import json,os,re
p='DESIGN.md'
s=open(p).read()
rows=[]
also={'endless-shuffle':'P12','shared-texts':'P04, P05'}
for i in sorted(os.listdir('seeded')):
    d=json.load(open('seeded/%s/meta.json'%i))
    c=d['property']+(', '+also[i] if i in also else '')
    rows.append('| %s | %s | %s | %s |'%(i,c,d['what_it_breaks'],d['needs']))
t='<!-- table -->\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- end -->'
if 'SEEDED_TABLE' in s:
    s=s.replace('SEEDED_TABLE',t)
else:
    s=re.sub(r'<!-- table -->.*<!-- end -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
