#!/usr/bin/env python3
"""seed.py SPECFILE [ids]: builds /verif/seeded/<id> from specs [(id, prop, edits, demo, needs, breaks)], verifying each."""
import sys, os, subprocess, shutil, json, importlib.util, tempfile
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
BASE='/tmp/sw/repo'
def sh(c, cwd=None, t=600):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
orig = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
for id, prop, edits, demo, needs, breaks in m.SEEDS:
    if only and id not in only: continue
    if os.path.exists(BASE): shutil.rmtree(BASE)
    sh('git -C /repo worktree prune; mkdir -p /tmp/sw; cp -a /repo '+BASE)
    try:
        for f, old, new in edits:
            p=os.path.join(BASE,f); t=open(p,encoding='utf-8').read()
            if callable(old): open(p,'w',encoding='utf-8').write(old(t)); continue
            assert t.count(old)==1, (id, f, t.count(old), old)
            open(p,'w',encoding='utf-8').write(t.replace(old,new))
    except AssertionError as e:
        print(id,'EDIT', e); continue
    diff=sh('git diff', BASE).stdout
    # removed lines must be original
    d='/verif/seeded/'+id
    stage='/tmp/sw/stage'; shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)
    open(stage+'/demo.py','w',encoding='utf-8').write('# coding: utf-8\n'+m.HEAD+demo.strip('\n')+'\n')
    open(stage+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec timeout 120 "$PY" -B "$(dirname "$0")/demo.py"\n')
    open(stage+'/patch.diff','w',encoding='utf-8').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(stage+'/meta.json','w',encoding='utf-8'), ensure_ascii=False, indent=1)
    clean=sh('bash %s/demo.sh'%stage, '/repo'); bad=sh('bash %s/demo.sh'%stage, BASE)
    t=sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 /opt/venv/bin/python -m pytest -q -p no:cacheprovider utg/tests 2>&1 | tail -8", BASE).stdout
    # which removed lines are not original?
    foreign=[]
    for f,_,_ in edits:
        base=sh('git show %s:%s'%(orig,f),'/repo').stdout.split('\n')
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:] not in base: foreign.append(l)
    okc, okb, okt = clean.returncode==0, bad.returncode!=0, ('passed' in t and 'failed' not in t and 'error' not in t)
    print(id, prop, 'clean', clean.returncode, 'bad', bad.returncode, 'tests', okt, 'notoriginal', len(foreign))
    if not okc: print(clean.stdout[-500:])
    if not okt: print('   ', '\n    '.join(x[:160] for x in t.split('\n')[-8:]))
    if okc and okb and okt and not foreign:
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(stage,d)
    elif foreign: print('   ', foreign[:3])
shutil.rmtree('/tmp/sw', ignore_errors=True)
