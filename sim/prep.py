"""Private, content-addressed copy of the library under test.

The checks never run code out of /repo directly: they copy /repo/intvalpy to
/verif/.build/lib-<hash of every input>/ and put a freshly compiled extension beside it.
The extension in /repo is reused only when the repository's own build stamp proves that it was
built from exactly the sources in the tree; otherwise it is compiled here with setup.py.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl, time

REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build'))
PY = '/opt/venv/bin/python'
SO = 'intvalpy/kernel/interval_arithmetics.cpython-312-x86_64-linux-gnu.so'
CSRC = ('.pyx', '.pxd', '.pxi', '.h')


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _walk():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'intvalpy')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith(('.so', '.pyc', '.cpp', '.c', '.o')):
                continue
            out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def _ext_inputs(files):
    return ['setup.py', 'pyproject.toml', 'intvalpy/_version.py'] + \
        sorted(f for f in files if f.endswith(CSRC))


def _stamp_ok(files):
    try:
        with open(os.path.join(REPO, 'build/ext.stamp')) as f:
            stamp = [l.split(None, 1) for l in f.read().splitlines() if l.strip()]
        got = {p.strip(): h for h, p in stamp}
        want = {p: _sha(os.path.join(REPO, p)) for p in _ext_inputs(files) + [SO]}
        return got == want
    except (OSError, ValueError):
        return False


class BuildError(Exception):
    pass


def prepare(log=lambda *a: None):
    """returns the directory to put on sys.path (contains intvalpy/)"""
    os.makedirs(BUILD, exist_ok=True)
    files = _walk()
    ext = hashlib.sha256(''.join(p + _sha(os.path.join(REPO, p)) for p in _ext_inputs(files)).encode()).hexdigest()[:24]
    tot = hashlib.sha256((ext + ''.join(p + _sha(os.path.join(REPO, p)) for p in files)).encode()).hexdigest()[:24]
    lib = os.path.join(BUILD, 'lib-' + tot)
    so = os.path.join(BUILD, 'so-' + ext + '.so')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(lib, '.ok')):
            os.utime(lib)
            return lib
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
        try:
            for p in files + ['setup.py', 'pyproject.toml']:
                os.makedirs(os.path.dirname(os.path.join(tmp, p)) or tmp, exist_ok=True)
                shutil.copyfile(os.path.join(REPO, p), os.path.join(tmp, p))
            if not os.path.exists(so):
                if _stamp_ok(files):
                    log('extension: reused (stamp matches sources and binary)')
                    shutil.copyfile(os.path.join(REPO, SO), so + '.tmp')
                else:
                    log('extension: compiling')
                    shutil.copyfile(os.path.join(REPO, 'README.md'), os.path.join(tmp, 'README.md'))
                    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PIP_NO_INDEX='1')
                    env.setdefault('HOME', '/root')
                    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=tmp, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode or not os.path.exists(os.path.join(tmp, SO)):
                        raise BuildError('extension does not build:\n' + r.stdout[-4000:])
                    shutil.copyfile(os.path.join(tmp, SO), so + '.tmp')
                os.rename(so + '.tmp', so)
            shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
            shutil.copyfile(so, os.path.join(tmp, SO))
            open(os.path.join(tmp, '.ok'), 'w').close()
            if os.path.exists(lib):
                shutil.rmtree(lib)
            os.rename(tmp, lib)
        finally:
            if os.path.isdir(tmp):
                shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(('lib-', 'so-'))),
                     key=os.path.getmtime)
        for p in old[:-12]:
            if p in (lib, so):
                continue
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    return lib


if __name__ == '__main__':
    t = time.time()
    print(prepare(print), round(time.time() - t, 1), 's')
