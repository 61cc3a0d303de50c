"""seed.py SPEC.py...: builds /verif/seeded/<id>/ from a spec (ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS) and tries it in a scratch copy (demo before/after; tests with -t)"""
import sys, os, subprocess, json, shutil
W = '/tmp/seedwt'
E = dict(os.environ, PATH='/opt/venv/bin:/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', CCACHE_DISABLE='1')
E.pop('PYTHONPATH', None)
SH = '#!/bin/bash\nset -u\nexport PATH=/opt/venv/bin:$PATH MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_WAIT_POLICY=passive OPENBLAS_NUM_THREADS=1\nexec python "$(dirname "$0")/demo.py"\n'
PRE = 'import sys, os\nsys.path.insert(0, os.getcwd())\nimport tempfile, numpy as np\n'


def sh(c, **k): return subprocess.run(c, shell=True, env=E, capture_output=True, text=True, **k)


def build():
    r = sh('python setup_compile.py build_ext --inplace', cwd=W)
    assert r.returncode == 0, r.stderr[-3000:]


for spec in [a for a in sys.argv[1:] if a != '-t']:
    g = {}
    exec(open(spec).read(), g)
    d = os.environ.get('SEED_DIR', '/verif/seeded') + '/' + g['ID']
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(W):
        subprocess.run(['cp', '-a', '/repo', W], check=True); build()
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', cwd=W)
    open(d + '/demo.py', 'w').write(PRE + g['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    pyx = any(f.endswith(('.pyx', '.pxd')) for f in [e[0] for e in g['EDITS']])
    build() 
    r0 = sh(f'bash {d}/demo.sh', cwd=W)
    for e in g['EDITS']: # (file, old, new[, number of the occurrence])
        f, o, n = e[:3]
        s = open(f'{W}/{f}').read()
        assert s.count(o) == 1 or len(e) > 3, (f, o, s.count(o))
        t = s.split(o); k = e[3] % (len(t) - 1) if len(e) > 3 else 0
        open(f'{W}/{f}', 'w').write(o.join(t[:k + 1]) + n + o.join(t[k + 1:]))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    base = sh('git rev-list --max-parents=0 HEAD', cwd='/repo').stdout.split()[-1][:12]
    for f in {e[0] for e in g['EDITS']}: # Lines removed have to be those of the original repository
        old = set(sh(f'git blame -s --root -l HEAD -- {f}', cwd=W).stdout.splitlines())
        mine = {l.split(')', 1)[1] for l in old if not l.lstrip('^').startswith(base[:11])}
        for l in open(d + '/patch.diff'):
            if l.startswith('-') and not l.startswith('---') and ' ' + l[1:].rstrip('\n') in mine: print('  NOT ORIGINAL:', l.rstrip())
    if pyx: build()
    r1 = sh(f'bash {d}/demo.sh', cwd=W)
    print(g['ID'], 'unchanged', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-400:] if r0.returncode else '', (r1.stdout + r1.stderr)[-200:])
    if '-t' in sys.argv:
        t = sh('python -m pytest -q -x -p no:cacheprovider -n 8 --timeout=600 cosmic_profiles/tests', cwd=W)
        print(t.stdout[-200:])
    sh('git checkout -q -f .', cwd=W)
