import sys,os,subprocess,json,shutil,time
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for id in ids:
    d='/verif/seeded/'+id
    meta=json.load(open(d+'/meta.json')); base='/tmp/catch-repo-%d'%os.getpid()
    shutil.rmtree(base,ignore_errors=True); subprocess.run(['cp','-a','/repo',base])
    subprocess.run(['git','apply',d+'/patch.diff'],cwd=base,check=True)
    t=time.time()
    p=subprocess.run(['python3','check.py',meta['property']],cwd='/verif',env=dict(os.environ,UTG_REPO=base,VERIF_SEED='1'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    v=[l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    print(id,meta['property'],'rc',p.returncode,'CAUGHT' if p.returncode==1 and v else 'MISSED','%.0fs'%(time.time()-t), flush=True)
    if not(p.returncode==1 and v): print(p.stdout[-600:])
shutil.rmtree(base,ignore_errors=True)
