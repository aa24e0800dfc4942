#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decide one property on /repo's current tree. Exit 0 holds, 1 violated."""
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    rc = [1]
    cks = []
    release = None
    if tier == 'thorough' and 'SA_PROFILE' not in os.environ:
        # the same analysis on the MIR of the release profile (debug assertions and overflow checks compiled out)
        import json
        import subprocess
        p = subprocess.run([sys.executable, os.path.abspath(__file__), pid, 'thorough'], env=dict(os.environ, SA_PROFILE='release'), stdout=subprocess.PIPE, text=True)
        if p.returncode:
            sys.stdout.write('in the release profile:\n' + p.stdout)
            sys.stdout.flush()
            os._exit(1)
        release = json.load(open(os.path.join(HERE, 'evidence', pid + '.json')))['coverage']['obligations']

    def go():
        import build
        import ck as CK
        import props
        ck = None
        try:
            ck = CK.Ck(pid, tier)
            cks.append(ck)
            props.TABLE[pid](ck)
            if release is not None:
                ck.counts['obligations in the release profile, all hold'] = release
            rc[0] = ck.finish()
        except build.BuildError as e:
            rp = os.path.join(HERE, 'evidence', 'replay', pid + '.txt')
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write(str(e))
            print('the tree does not build: ' + str(e)[-1500:])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        except Exception as e:
            # fail closed: what cannot be analysed is not claimed to hold
            traceback.print_exc()
            if ck is not None:
                ck.fail('analysis-incomplete', type(e).__name__, str(e)[:500])
                ck.technique = ck.technique or 'incomplete'
                rc[0] = ck.finish()
    t = threading.Thread(target=go)
    t.start()
    # a violation is reported soon even if other obligations take long; what cannot be decided in time is not claimed to hold
    start, first = time.time(), None
    while t.is_alive():
        t.join(0.5 if time.time() - start > 20 else 0.05)
        now = time.time()
        first = (first or now) if cks and cks[0].viol else None
        late = now - start > (600 if tier == 'quick' else 3600)
        if t.is_alive() and cks and (late or first is not None and now - first > 120):
            if late:
                cks[0].fail('analysis-incomplete', pid, 'not decided within the time limit')
            cks[0].technique = cks[0].technique or 'incomplete'
            rc[0] = cks[0].finish() or 1
            break
    sys.stdout.flush()
    os._exit(rc[0])


main()
