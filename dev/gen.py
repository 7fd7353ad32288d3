"""gen.py specs.py : makes /verif/seeded/<id>, verifies in a scratch copy, runs the property's check."""
import sys, os, subprocess, shutil, json, importlib.util, re
from concurrent.futures import ThreadPoolExecutor
SRC='/repo'
def sh(cmd, cwd=None, env=None, timeout=1200):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=timeout)
    return p.returncode, p.stdout+p.stderr
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(spec, runtests=True):
    sid=spec['id']; scratch=f'/tmp/seedgen/w_{sid}'
    shutil.rmtree(scratch,ignore_errors=True)
    sh(f'cp -a {SRC} {scratch}')
    try:
        for f,old,new in spec['edits']:
            p=f'{scratch}/src/tenkit/{f}'
            b=open(p,'rb').read()
            crlf=b'\r\n' in b
            s=b.decode().replace('\r\n','\n')
            assert s.count(old)==1,(sid,f,s.count(old),old)
            s=s.replace(old,new)
            if crlf: s=s.replace('\n','\r\n')
            open(p,'wb').write(s.encode())
        d=f'/verif/seeded/{sid}'
        os.makedirs(d,exist_ok=True)
        patch=subprocess.run('git diff',shell=True,cwd=scratch,capture_output=True).stdout
        open(d+'/patch.diff','wb').write(patch)
        open(d+'/demo.py','w').write(spec['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write('#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(d+'/meta.json','w'),indent=1)
        c0,o0=sh(f'bash {d}/demo.sh',cwd=SRC)
        c1,o1=sh(f'bash {d}/demo.sh',cwd=scratch)
        res=f'{sid} [{spec["property"]}]: demo clean={c0} patched={c1}'
        ok = c0==0 and c1!=0
        if not ok: res+='\n   CLEAN '+o0[-600:]+'\n   PATCHED '+o1[-600:]
        else: res+=' ('+o1.strip().split('\n')[-1][:110]+')'
        if runtests:
            rep=f'/tmp/seedgen/{sid}.xml'
            sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 2 --randomly-seed=0 --randomly-dont-reorganize -o junit_family=xunit2 --junitxml={rep} src',cwd=scratch,env={'PYTHONPATH':scratch+'/src','OPENBLAS_NUM_THREADS':'1','PYTHONDONTWRITEBYTECODE':'1','MPLBACKEND':'Agg'})
            import xml.etree.ElementTree as ET
            passed=set(); 
            for tc in ET.parse(rep).iter('testcase'):
                if not any(c.tag in('failure','error','skipped') for c in tc): passed.add((tc.get('classname'),tc.get('name')))
            names={f'{a}.{b}' for a,b in passed}|{f'{a}::{b}' for a,b in passed}
            missing=[t for t in STABLE if not (t in names or t.split(': ')[-1] in names)]
            if missing:
                ok=False; res+=f'\n   TESTS BROKEN {len(missing)} {missing[:3]} e.g. have {sorted(names)[:1]}'
        if ok:
            c2,o2=sh(f'/opt/venv/bin/python run.py {spec["property"]} --workers 4',cwd=os.environ.get('VER','/verif'),env={'VERIF_REPO':scratch,'VERIF_SEED':'1'},timeout=3000)
            line=[l for l in o2.split('\n') if l.startswith(spec['property']+':')]
            res+=f'\n   check rc={c2} '+('CAUGHT ' if c2==1 and 'VIOLATION' in o2 else '*** MISSED *** ')+(line[0][:150] if line else o2[-200:])
        return res
    except Exception as e:
        import traceback; return f'{sid}: EXC '+traceback.format_exc()[-800:]
    finally:
        shutil.rmtree(scratch,ignore_errors=True)
spec=importlib.util.spec_from_file_location('specs',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
S=[s for s in m.SPECS if not only or s['id'] in only]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,S): print(r,flush=True)
