#!/usr/bin/env python3
"""Lists seeds whose patch removes no line of the original repository (such do not count)."""
import subprocess,os,re
base='c50715f'
def orig(p):
    r=subprocess.run(['git','-C','/repo','show',f'{base}:{p}'],capture_output=True,text=True); return set(l.strip() for l in r.stdout.split('\n'))
for s in sorted(os.listdir('seeded')):
    f=f'seeded/{s}/patch.diff'
    if not os.path.exists(f): print(s,'no patch'); continue
    cur=None; rem=[]; ok=False
    for l in open(f):
        if l.startswith('--- a/'): cur=l[6:].strip()
        elif l.startswith('-') and not l.startswith('---'):
            t=l[1:].strip(); rem.append(t)
            if len(t)>3 and not t.startswith('//') and t in orig(cur): ok=True
    if not ok: print(s,'REMOVES', 'nothing' if not rem else rem[:2])
