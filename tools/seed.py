#!/usr/bin/env python3
"""Make or re-check planted bugs.  seed.py check ID...  : validate in a scratch copy and run the property's check on it."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, t=600):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=t)
    return r.returncode, r.stdout


def stable(out):
    import re
    return sorted(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))


def check(i, quick=False):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        c = w + '/repo'
        sh('cp -a /repo %s' % c)
        if not quick:
            rc, o = sh('bash %s/demo.sh' % d, cwd=c)
            if rc:
                return 'demo fails on the clean tree\n' + o[-1500:]
        rc, o = sh('git apply %s/patch.diff' % d, cwd=c)
        if rc:
            return 'patch does not apply ' + o
        if not quick:
            rc, o = sh('cargo test --offline --no-fail-fast', cwd=c)
            if rc or len(stable(o)) < 10:
                return 'tests fail with the patch\n' + o[-1500:]
            rc, o = sh('bash %s/demo.sh' % d, cwd=c)
            if rc == 0:
                return 'demo does not notice the patch\n' + o[-500:]
        e = dict(os.environ, SA_REPO=c, SA_KEEP='20')
        r = subprocess.run('python3 %s/check.py %s' % (V, meta['property']), shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        rc, o = r.returncode, r.stdout
    finally:
        shutil.rmtree(w)
    return 'valid, %s: %s' % ('CAUGHT' if rc == 1 and 'VIOLATION property=%s ' % meta['property'] in o else 'MISSED rc=%d' % rc, o.strip().split('\n')[0][:260])


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as x:
        for i, r in zip(ids, x.map(lambda i: check(i, sys.argv[1] == 'quick'), ids)):
            print(i, r, flush=True)
