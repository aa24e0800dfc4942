"""run every check, print the ones that are not quiet"""
import subprocess, sys, time
sys.path.insert(0, '/verif/sa')
import props
from concurrent.futures import ThreadPoolExecutor
def f(c):
    t = time.time()
    r = subprocess.run(['python3', '/verif/check.py', c], capture_output=True, text=True)
    return c, r.returncode, r.stdout[-400:], time.time() - t
l = sys.argv[1:] or list(props.TABLE)
bad = 0
with ThreadPoolExecutor(7) as ex:
    for c, rc, o, t in ex.map(f, l):
        if rc:
            bad += 1
            print(c, rc, o)
print('%d checks, %d not quiet' % (len(l), bad))
