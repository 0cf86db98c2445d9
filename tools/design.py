"""Refreshes the planted-bug table of DESIGN.md from tools/bugs.py."""
import os,re
r=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns={}; exec(open(r+'/tools/bugs.py').read(),ns)
rows=['| id | property | caught by | needs |','|---|---|---|---|']
for b in ns['BUGS']:
    if os.path.isdir(f"{r}/seeded/{b['id']}"): rows.append(f"| {b['id']} | {b['property']} | {b['property']} | {b['needs'].replace('|','/')} |")
t='\n'.join(rows); p=r+'/DESIGN.md'; s=open(p).read()
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE','<!-- seeds -->\n'+t+'\n<!-- /seeds -->')
else: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+t+'\n<!-- /seeds -->',s,flags=re.S)
open(p,'w').write(s)
