"""Building: the MIR dumper, the std models, the MIR of /repo (both profiles), the replay harness."""
import glob
import hashlib
import os
import shutil
import subprocess
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
LOG = []


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(env or {})
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    LOG.append((' '.join(cmd), round(time.time() - t, 1), p.returncode))
    return p.returncode, p.stdout.decode(errors='replace')


def must(r, what):
    if r[0] != 0:
        raise RuntimeError('%s failed:\n%s' % (what, r[1][-4000:]))
    return r[1]


def forget(target, *names):
    for prof in ('debug', 'release'):
        for n in names:
            for p in glob.glob(os.path.join(B, target, prof, '.fingerprint', n + '-*')):
                shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(os.path.join(B, target, prof, 'build', n), ignore_errors=True)


_lib = []


def nightly_lib():
    if not _lib:
        r = sh(['rustc', '+nightly', '--print', 'sysroot'], V)
        _lib.append(must(r, 'rustc +nightly').strip() + '/lib')
    return _lib[0]


def tools():
    """The MIR dumper (built with the nightly compiler it links)."""
    out = os.path.join(B, 'mirdump')
    must(sh(['cargo', '+nightly', 'build', '--offline'], os.path.join(V, 'mirdump'), {'CARGO_TARGET_DIR': out}), 'mirdump build')
    return os.path.join(out, 'debug', 'mirdump')


def dump(exe, crate, cwd, target, out, release=False):
    env = {'LD_LIBRARY_PATH': nightly_lib(), 'RUSTC_WRAPPER': exe, 'MIRDUMP_CRATE': crate, 'MIRDUMP_OUT': out, 'CARGO_TARGET_DIR': os.path.join(B, target)}
    forget(target, crate)
    if os.path.exists(out):
        os.unlink(out)
    cmd = ['cargo', '+nightly', 'check', '--lib', '--offline', '-p', crate]
    if release:
        cmd.append('--release')
    must(sh(cmd, cwd, env), 'MIR dump of ' + crate)
    if not os.path.exists(out):
        raise RuntimeError('no MIR dump of %s was written' % crate)
    return out


def models(exe):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(V, 'models', 'src', '*.rs')) + glob.glob(os.path.join(V, 'mirdump', 'src', '*.rs'))):
        h.update(open(f, 'rb').read())
    out = os.path.join(B, 'models.json')
    tag = out + '.tag'
    if os.path.exists(out) and os.path.exists(tag) and open(tag).read() == h.hexdigest():
        return out
    dump(exe, 'models', os.path.join(V, 'models'), 'modtarget', out)
    open(tag, 'w').write(h.hexdigest())
    return out


def mir(exe, release=False):
    out = os.path.join(B, 'mir_release.json' if release else 'mir_debug.json')
    return dump(exe, 'zkhash', os.path.join(V, 'harness'), 'mirtarget', out, release)


def harness(release=False, fresh=True):
    if fresh:
        for n in ('zkhash', 'harness'):
            for p in glob.glob(os.path.join(B, 'harness', 'release' if release else 'debug', '.fingerprint', n + '-*')):
                shutil.rmtree(p, ignore_errors=True)
    cmd = ['cargo', 'build', '--offline']
    if release:
        cmd.append('--release')
    must(sh(cmd, os.path.join(V, 'harness'), {'CARGO_TARGET_DIR': os.path.join(B, 'harness')}), 'harness build')
    return os.path.join(B, 'harness', 'release' if release else 'debug', 'harness')


if __name__ == '__main__':
    os.makedirs(B, exist_ok=True)
    t = time.time()
    e = tools()
    models(e)
    mir(e)
    mir(e, True)
    harness()
    harness(True)
    for l in LOG:
        print(*l)
    print('setup', round(time.time() - t, 1), 's')
