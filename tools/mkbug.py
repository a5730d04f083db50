#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE 'needs' 'what it breaks' < "old\n====\nnew" [n-th occurrence in argv[6]]: writes seeded/ID/patch.diff and meta.json."""
import subprocess, sys, os, json, shutil
id, prop, f, needs, what = sys.argv[1:6]
nth = int(sys.argv[6]) if len(sys.argv) > 6 else 0
W = '/tmp/w/gen'
if not os.path.exists(W): subprocess.run(['git','clone','-q','/repo',W],check=True)
subprocess.run(['git','-C',W,'fetch','-q','/repo','HEAD'],check=True); subprocess.run(['git','-C',W,'reset','-q','--hard','FETCH_HEAD'],check=True)
txt = sys.stdin.read().rstrip('\n')
for part in txt.split('\n@@@@\n'):
    ff = f
    if part.startswith('FILE '): ff, part = part.split('\n',1); ff = ff[5:]
    a, b = part.split('\n====\n') if '\n====\n' in part else (part.replace('\n====',''), '')
    p = f'{W}/{ff}'; s = open(p).read(); c = s.count(a)
    assert c >= 1 and (c == 1 or len(sys.argv) > 6), (id, 'occurrences', c)
    segs = s.split(a); s = a.join(segs[:nth+1]) + b + a.join(segs[nth+1:]); open(p,'w').write(s)
d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
open(f'{d}/patch.diff','w').write(subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout)
subprocess.run(['git','-C',W,'checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(f'{d}/meta.json','w'),indent=1)
for x in ['demo.sh','Cargo.toml.in','Cargo.lock.in']:
    if not os.path.exists(f'{d}/{x}'): shutil.copy(f'/verif/tools/demo/{x}',f'{d}/{x}')
