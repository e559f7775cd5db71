#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], main=rust source)].
Writes seeded/<id>/ with a patch against /repo's HEAD."""
import sys, os, json, shutil, subprocess, tempfile, runpy
V = '/verif'
spec = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(f"git -C /repo archive HEAD | tar -x -C {t} && cd {t} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm a", shell=True)
    for f, old, new in s['edits']:
        p = f"{t}/{f}"; txt = open(p).read()
        assert txt.count(old) == 1, (s['id'], f, txt.count(old), old)
        open(p, 'w').write(txt.replace(old, new))
    open(f"{d}/patch.diff", 'w').write(subprocess.check_output(['git', '-C', t, 'diff']).decode())
    shutil.rmtree(t)
    for x in ('demo.sh', 'util.rs'): shutil.copy(f"{V}/tools/seed_common/{x}", d)
    if 'demo' in s:
        open(f"{d}/demo.sh", 'w').write(s['demo']); os.remove(f"{d}/util.rs")
    if 'main' in s: open(f"{d}/main.rs", 'w').write(s['main'])
    for name, txt in s.get('files', {}).items(): open(f"{d}/{name}", 'w').write(txt)
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['what']}, open(f"{d}/meta.json", 'w'), indent=1)
    print(s['id'])
