"""mk(id, prop, [(file, old, new[, nth])], demo {file: rust test code}, needs, breaks)"""
import os, json, subprocess, shutil
V=os.environ.get('SEEDDIR','/verif/seeded/')
DEMO='''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken. Works on a scratch copy of the tree.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" && cp -a Cargo.toml Cargo.lock src "$w/repo/" || exit 3
[ -d examples ] && cp -a examples "$w/repo/"
[ -d target ] && cp -a target "$w/repo/"
cd "$w/repo" || exit 3
unset CARGO_TARGET_DIR
for f in "$here"/*.rs; do
  cat "$f" >> "src/$(basename "$f")"
done
timeout 250 cargo test --offline --lib vp_demo -- --test-threads 1 > "$w/log" 2>&1
rc=$?
tail -25 "$w/log"
[ $rc -eq 0 ] || exit 1
grep -q 'vp_demo.* ok' "$w/log" || exit 1
exit 0
'''
def mk(id, prop, edits, demo, needs, breaks):
    d=V+id
    os.makedirs(d, exist_ok=True)
    R='/tmp/mkrepo'
    shutil.rmtree(R, ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',R])
    for e in edits:
        f,o,n=e[:3]
        s=open(R+'/src/'+f).read()
        assert s.count(o)==1, (f,o,s.count(o))
        open(R+'/src/'+f,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','diff'],cwd=R).decode()
    assert diff
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO)
    for f,code in demo.items():
        open(d+'/'+f,'w').write('\n#[cfg(test)]\nmod vp_demo {\n    #![allow(unused)]\n'+code+'\n}\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(R)
