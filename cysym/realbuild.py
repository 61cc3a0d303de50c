"""Builds the real package from the current tree into a scratch directory (never in /repo)."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures, sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def _env():
    e = dict(os.environ)
    e['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['CCACHE_DISABLE'] = '1'; e['PYTHONDONTWRITEBYTECODE'] = '1'; e['LANG'] = 'C.UTF-8'
    for k in ('PYTHONPATH', 'PYTHONHOME'): e.pop(k, None)
    return e


def build(dest=None):
    """returns the path of a directory containing an importable cosmic_profiles"""
    dest = dest or tempfile.mkdtemp(prefix='cysym_real_')
    src = os.path.join(REPO, 'cosmic_profiles')
    pkg = os.path.join(dest, 'cosmic_profiles')
    shutil.copytree(src, pkg, ignore=shutil.ignore_patterns('for_docs', 'tests', '*.so', '*.c', '__pycache__', 'viz', 'cat'))
    exts = []
    for d, _, fs in os.walk(pkg):
        for f in fs:
            if f.endswith('.pyx'): exts.append(os.path.join(d, f))
    inc = subprocess.run([PY, '-c', 'import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()["include"])'],
                         capture_output=True, text=True, env=_env()).stdout.split('\n')

    def one(p):
        rel = os.path.relpath(p, dest)
        mod = rel[:-4].replace('/', '.')
        c = p[:-4] + '.c'
        r = subprocess.run([PY, '-m', 'cython', '-3', '--module-name', mod, '-I', '.', '-o', c, rel], cwd=dest, capture_output=True, text=True, env=_env())
        if r.returncode: return r.stderr[-3000:]
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-fopenmp', '-O1', '-g0', '-w', '-fno-strict-overflow', '-DNDEBUG', '-fwrapv', '-I', inc[0], '-I', inc[1], c, '-o', p[:-4] + '.so'],
                           capture_output=True, text=True, env=_env(), cwd=dest)
        return r.stderr[-3000:] if r.returncode else None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, exts) if e]
    if errs: raise RuntimeError('build of the real package failed:\n' + '\n'.join(errs))
    return dest


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else None))
