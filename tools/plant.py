"""plant.py ID PROPERTY FILE NEEDS BREAKS  (old/new text from files /tmp/pl/old /tmp/pl/new, demo body /tmp/pl/demo.py with lang arg)"""
import sys, os, subprocess, json, shutil
def plant(id, prop, edits, needs, breaks, demo, lang='jython', files={}, force=False):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    wt = '/tmp/wt_' + id
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    for f, old, new in edits:
        p = wt + '/' + f
        b = open(p, 'rb').read()
        old, new = old.encode('latin-1'), new.encode('latin-1')
        assert b.count(old) == 1, (f, b.count(old))
        open(p, 'wb').write(b.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    run = {'jython': 'env JYTHONPATH=/opt/jylib PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME=/root LANG=C.UTF-8 jython -B',
           'py3': 'env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore'}[lang]
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nexec %s "$(dirname "$0")/demo.py"\n' % run)
    for n, t in files.items():
        open(d + '/' + n, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, capture_output=True, text=True, timeout=300)
    print(id, 'clean rc', a.returncode, 'patched rc', b.returncode)
    if a.returncode != 0 or b.returncode == 0:
        print(a.stdout[-1500:], a.stderr[-1500:], '----', b.stdout[-1500:], b.stderr[-1500:])
    shutil.rmtree(wt)
    st = subprocess.check_output(['git', '-C', '/repo', 'status', '--short']).decode()
    if st: print('repo dirty', st)
