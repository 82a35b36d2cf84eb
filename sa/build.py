"""Dump the MIR of /repo's current working tree with the rustc_private driver (built on demand, cached by content)."""
import fcntl, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('VP_WORK', os.path.join(HERE, 'work'))
REPO = os.environ.get('VP_REPO', '/repo')
CRATES = ('pyo3_bindgen_engine', 'pyo3_bindgen.bin', 'pyo3_bindgen', 'pyo3_bindgen_macros')


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def digest(root, exts=('.rs', '.toml', '.lock')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'examples', 'tests', 'benches', 'work'))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def sysroot_lib():
    return sh(['rustc', '+nightly', '--print', 'sysroot'])[1].strip() + '/lib'


def driver():
    src = os.path.join(HERE, 'driver')
    tgt = os.path.join(WORK, 'driver-target')
    stamp = os.path.join(WORK, 'driver.' + digest(src))
    exe = os.path.join(tgt, 'release', 'mirdump')
    if not (os.path.exists(stamp) and os.path.exists(exe)):
        env = dict(os.environ, CARGO_TARGET_DIR=tgt)
        env.pop('RUSTC_WORKSPACE_WRAPPER', None)
        rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--manifest-path', os.path.join(src, 'Cargo.toml')], env)
        if rc:
            raise BuildError('the MIR driver does not build:\n' + out[-3000:])
        open(stamp, 'w').close()
    return exe


def run_driver(manifest, packages, dumpdir, target, extra_env=None, clean=(), locked=True, more=()):
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot_lib(), VP_DUMP_DIR=dumpdir or '', CARGO_TARGET_DIR=target,
               RUSTC_WORKSPACE_WRAPPER=driver(), RUST_BACKTRACE='0')
    if os.path.exists('/usr/bin/python3.12'):
        env.setdefault('PYO3_PYTHON', '/usr/bin/python3.12')
    if dumpdir is None:
        env.pop('VP_DUMP_DIR', None)
    env.update(extra_env or {})
    fp = os.path.join(target, 'debug', '.fingerprint')
    if os.path.isdir(fp):       # cargo's freshness cache would skip the wrapper
        for d in os.listdir(fp):
            if d.startswith(tuple(clean)):
                shutil.rmtree(os.path.join(fp, d))
    cmd = ['cargo', '+nightly', 'check', '--manifest-path', manifest, '--offline'] + (['--locked'] if locked else []) + list(more)
    for p in packages:
        cmd += ['-p', p]
    return sh(cmd, env)


def dump():
    """-> directory with one JSON per crate of /repo"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest(REPO) + '-' + digest(os.path.join(HERE, 'driver'))
        out = os.path.join(WORK, 'dump-' + key)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        for d in os.listdir(WORK):
            if d.startswith('dump-') and d != 'dump-' + key:
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        rc, log = run_driver(os.path.join(REPO, 'Cargo.toml'),
                             ['pyo3_bindgen', 'pyo3_bindgen_cli', 'pyo3_bindgen_macros', 'pyo3_bindgen_engine'],
                             tmp, os.path.join(WORK, 'target'), clean=('pyo3_bindgen',))
        if rc:
            raise BuildError('/repo does not compile:\n' + log[-4000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + '.json'))]
        if missing:
            raise BuildError('no MIR dumped for ' + ', '.join(missing) + '\n' + log[-2000:])
        open(os.path.join(tmp, 'done'), 'w').close()
        os.rename(tmp, out)
        return out


if __name__ == '__main__':
    print(dump())
