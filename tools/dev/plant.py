"""plant.py bugs.py [ids]: each bug = dict(id, prop, file, edits=[(old,new)], needs, breaks, demo)"""
import importlib.util, json, os, pathlib, shutil, subprocess, sys
spec=importlib.util.spec_from_file_location("bugs", sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=set(sys.argv[2:])
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY='/opt/venv/bin/python'
DEMO_SH='#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
def blame():
    out={}
    for f in subprocess.run(['git','-C','/repo','ls-files','binobj'],capture_output=True,text=True).stdout.split():
        b=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.splitlines()
        out[f]=[l.startswith('^') for l in b]
    return out
BL=blame()
for b in m.BUGS:
    if only and b['id'] not in only: continue
    shutil.rmtree('/tmp/wt',ignore_errors=True)
    shutil.copytree('/repo','/tmp/wt',symlinks=True,ignore=shutil.ignore_patterns('__pycache__','.pytest_cache'))
    bad=None
    edits=b['edits'] if isinstance(b['edits'],dict) else {b['file']:b['edits']}
    for f,es in edits.items():
        p=pathlib.Path('/tmp/wt')/f; s=p.read_text()
        for old,new in es:
            if s.count(old)!=1: bad=f'{f}: {s.count(old)} occurrences of {old!r}'; break
            s=s.replace(old,new)
        p.write_text(s)
    if bad: print(b['id'],'BAD EDIT',bad); continue
    diff=subprocess.run(['git','-C','/tmp/wt','diff'],capture_output=True,text=True).stdout
    # originality of removed lines
    cur=None;ln=0;orig=mine=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('@@'): ln=int(l.split()[1][1:].split(',')[0])
        elif l.startswith('+') : pass
        elif l.startswith('-'):
            if BL[cur][ln-1]: orig+=1
            else: mine+=1
            ln+=1
        elif l.startswith(' '): ln+=1
    r=subprocess.run(f'cd /tmp/wt && env -u PYTHONPATH PYTHONPATH=/tmp/wt TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -p no:cacheprovider --no-cov --import-mode importlib --randomly-seed=0 --randomly-dont-reorganize --timeout=300 -o junit_family=xunit2 --junitxml=/tmp/junit.xml tests >/tmp/pt.log 2>&1; /usr/bin/python3 /opt/vp/results.py /tmp/pt.json junit:/tmp/junit.xml',shell=True,capture_output=True,text=True)
    o=json.load(open('/tmp/pt.json')); passed=set(o['passed']) if 'passed' in o else {k for k,v in o.items() if v=='passed'}
    miss=BASE-passed
    d=pathlib.Path('/verif/seeded')/b['id']; 
    t=pathlib.Path('/tmp/dm'); shutil.rmtree(t,ignore_errors=True); t.mkdir()
    (t/'demo.sh').write_text(DEMO_SH); (t/'demo.py').write_text(b['demo'].lstrip('\n'))
    c=subprocess.run(['bash',str(t/'demo.sh')],cwd='/repo',capture_output=True,text=True)
    x=subprocess.run(['bash',str(t/'demo.sh')],cwd='/tmp/wt',capture_output=True,text=True)
    ok=not miss and c.returncode==0 and x.returncode!=0 and orig>0 and 'ModuleNotFound' not in x.stderr
    print(b['id'],'OK' if ok else 'REJECTED',f'orig={orig} mine={mine}','missing tests:',sorted(miss)[:3],'clean',c.returncode,c.stderr[-300:] if c.returncode else '','patched',x.returncode,x.stderr.strip().splitlines()[-1:] )
    if ok:
        shutil.rmtree(d,ignore_errors=True); d.mkdir(parents=True)
        (d/'patch.diff').write_text(diff); (d/'demo.sh').write_text(DEMO_SH); (d/'demo.py').write_text(b['demo'].lstrip('\n')); os.chmod(d/'demo.sh',0o755)
        (d/'meta.json').write_text(json.dumps({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},indent=1)+'\n')
shutil.rmtree('/tmp/wt',ignore_errors=True)
