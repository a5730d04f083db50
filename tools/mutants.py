#!/usr/bin/env python3
"""mutants.py FILE: runs candidate breakages (see tools/mutants/*.txt): stable tests first, then the checks of the property on survivors.
Format per entry:  ### id | property[,property] | file   then old text, a line ====, new text. Results appended to /tmp/w/mut/results.txt."""
import subprocess, sys, os, re, json
W=os.environ.get('W','/tmp/w'); R=f'{W}/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(f'{W}/mut',exist_ok=True); sh('/verif/tools/scratch.sh init')
done = set(l.split()[0] for l in open(f'{W}/mut/results.txt')) if os.path.exists(f'{W}/mut/results.txt') else set()
def log(s): open(f'{W}/mut/results.txt','a').write(s+'\n'); print(s, flush=True)
for ent in re.split(r'^### ', open(sys.argv[1]).read(), flags=re.M)[1:]:
    head, body = ent.split('\n',1); id, props, f = [x.strip() for x in head.split('|')]
    if id in done: continue
    old, new = body.rstrip('\n').split('\n====\n') if '\n====\n' in body.rstrip('\n')+'\n' and not body.rstrip('\n').endswith('\n====') else (body.rstrip('\n')[:-5], '')
    sh(f'git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
    nth = 0
    m = re.match(r'#(\d+) ', old)
    if m: nth = int(m.group(1)); old = old[m.end():]
    p=f'{R}/{f}'; s=open(p).read(); c=s.count(old)
    if c==0 or (c>1 and not m): log(f'{id} BADPATCH occurrences={c}'); continue
    segs=s.split(old); open(p,'w').write(old.join(segs[:nth+1])+new+old.join(segs[nth+1:]))
    os.makedirs(f'{W}/seed/{id}', exist_ok=True)
    os.makedirs(f'/verif/seeded/_{id}', exist_ok=True)
    open(f'/verif/seeded/_{id}/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    if '-c' not in sys.argv:
        t=sh(f'NOEXPLAIN={"" if "interactive" in f else 1} /verif/tools/scratch.sh test _{id}').stdout
        m=re.search(r'STABLE TESTS (\w+) (\d+) of 199 (.*)', t)
        lost=[x for x in json.loads(m.group(3).replace("'",'"'))] if m else ['?']
        n=int(m.group(2)) if m else 0
        ok = m and (n==199 or ('interactive' not in f and n>=190 and all('explain' in x for x in lost)))
        res=f'{id} tests={"pass" if ok else "FAIL(%d)"%(199-n)}'
        if not ok: log(res+' '+','.join(lost)[:150]); __import__("shutil").rmtree(f"/verif/seeded/_{id}", ignore_errors=True); continue
    else: res=id
    for prop in props.split(','):
        o=sh(f'/verif/tools/scratch.sh check _{id} {prop}').stdout
        v=re.search(r'exit (\d+)',o.strip().splitlines()[-1]) if o.strip() else None
        cl=re.search(r'run (\d+) \(seed \d+\) violates \w+: \[([^\]]*)\]',o)
        res+=f' {prop}:{"caught@%s[%s]"%(cl.group(1),cl.group(2)) if v and v.group(1)=="1" and cl else ("quiet" if v and v.group(1)=="0" else "ERR")}'
    log(res)
