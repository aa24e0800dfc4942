"""Builds the MIR dump of /repo's current working tree (never of a copy kept from an earlier tree).

The driver (driver/, a rustc_private binary) is injected as RUSTC_WORKSPACE_WRAPPER under
`cargo +nightly check`, so it sees exactly what the build sees, and writes <crate>.json.
The cache key is the content of every tracked-or-untracked source file that feeds the build plus
the driver's own sources, so a stale dump cannot be used for a changed tree.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def files_under(root, skip=('target', '.git')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                out.append(os.path.join(d, f))
    return out


def tree_hash(roots):
    h = hashlib.sha256()
    for r in roots:
        for f in files_under(r):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def driver_bin():
    return os.path.join(VERIF, 'driver', 'target', 'debug', 'mirdump')


def build_driver():
    rc, out = run(['cargo', '+nightly', 'build', '--offline', '--quiet'], os.path.join(VERIF, 'driver'),
                  {'CARGO_TARGET_DIR': os.path.join(VERIF, 'driver', 'target'), 'RUSTFLAGS': ''})
    if rc != 0:
        raise BuildError('driver build failed:\n' + out)
    return driver_bin()


def dump():
    """Return (path of pt.json, path of example json or None)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash([REPO, os.path.join(VERIF, 'driver')])
        release = os.environ.get('SA_PROFILE') == 'release'
        if release:
            key = key[:22] + 'Re'
        d = os.path.join(CACHE, key)
        if os.path.exists(os.path.join(d, 'pt.json')):
            return d
        b = build_driver()
        rc, sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], VERIF)
        sysroot = sysroot.strip().splitlines()[-1]
        tgt = tempfile.mkdtemp(prefix='mirdump-target-')
        out = tempfile.mkdtemp(prefix='mirdump-out-', dir=CACHE)
        try:
            # Work on the tree itself; only the build output goes elsewhere. --locked is not used because
            # Cargo.lock is an ignored file; --offline keeps resolution to what is installed.
            rc, log = run(['cargo', '+nightly', 'check', '--lib', '--examples', '--offline'] + (['--release'] if release else []), REPO, {
                'CARGO_TARGET_DIR': tgt, 'RUSTC_WORKSPACE_WRAPPER': b, 'MIRDUMP_OUT': out, 'RUSTFLAGS': '',
                'LD_LIBRARY_PATH': sysroot + '/lib:' + os.environ.get('LD_LIBRARY_PATH', '')})
            if rc != 0 or not os.path.exists(os.path.join(out, 'pt.json')):
                raise BuildError('cargo check under the dump driver failed (rc=%d):\n%s' % (rc, log[-4000:]))
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.rename(out, d)
            out = None
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
            if out:
                shutil.rmtree(out, ignore_errors=True)
        # keep the cache small
        ents = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE) if len(x) == 24)
        for _, x in ents[:-int(os.environ.get('SA_KEEP', '6'))]:
            shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
        return d


if __name__ == '__main__':
    print(dump())
