"""Build (or find) the f90 extensions of the repository under test.

Extensions are never written in the repository: they are compiled in a cache
outside it, keyed by the sources, unless the ones in the tree are known to
come from the present sources.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.build')
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NAMES = ('realspace', 'fourierspace')


def _sha(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _in_tree(name, src):
    """The extension of the tree, if the build stamp says it is up to date"""
    found = glob.glob(os.path.join(os.path.dirname(src), name + '_wrap*.so'))
    stamp = '/opt/vp-build/%s.stamp' % name
    if len(found) == 1 and REPO == '/repo' and os.path.exists(stamp):
        with open(stamp) as fh:
            txt = fh.read()
        if _sha(src) in txt and _sha(found[0]) in txt:
            return found[0]
    return None


def build(name):
    src = os.path.join(REPO, 'atooms', 'postprocessing', name + '.f90')
    key = os.path.join(CACHE, '%s-%s' % (name, _sha(src)[:24]))
    found = glob.glob(os.path.join(key, name + '_wrap*.so'))
    if found:
        return found[0]
    so = _in_tree(name, src)
    if so:
        return so
    tmp = tempfile.mkdtemp(prefix='ppbuild-')
    try:
        env = dict(os.environ)
        env['PATH'] = os.path.dirname(PYTHON) + ':' + env.get('PATH', '')
        shutil.copy(src, tmp)
        out = subprocess.run([PYTHON, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir',
                              os.path.join(tmp, 'b'), '-m', name + '_wrap', name + '.f90'],
                             cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        found = glob.glob(os.path.join(tmp, name + '_wrap*.so'))
        if not found:
            sys.stderr.write(out.stdout.decode(errors='replace')[-3000:])
            raise RuntimeError('could not build ' + src)
        os.makedirs(CACHE, exist_ok=True)
        part = tempfile.mkdtemp(dir=CACHE)
        shutil.copy(found[0], part)
        try:
            os.rename(part, key)
        except OSError:
            shutil.rmtree(part)
        return glob.glob(os.path.join(key, name + '_wrap*.so'))[0]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_all():
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        return dict(zip(NAMES, ex.map(build, NAMES)))


if __name__ == '__main__':
    for k, v in build_all().items():
        print(k, v)
