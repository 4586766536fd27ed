#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ text),
optionally threads (OMP_NUM_THREADS), flags.  Writes seeded/<id>/ and tries the demo with and without the patch."""
BASE='2f4281d'
import sys,os,json,subprocess,tempfile,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=os.path.join(V,'seeded',ns['id']); os.makedirs(d,exist_ok=True)
w=tempfile.mkdtemp(prefix='seed',dir='/tmp')
subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
r=w+'/r'
open(d+'/demo.cpp','w').write(ns['demo'])
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the planted change; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
g++ %s -std=c++11 -w -fopenmp -I"$PWD" "$d/demo.cpp" %s -o "$t/demo" || exit 2
cd "$t" && OMP_NUM_THREADS=%d timeout 120 ./demo
''' % (ns.get('flags','-O1 -g -DNDEBUG'), ns.get('srcs','*.cpp reordering/*.cpp synk/barrier.cpp synk/synk.cpp'), ns.get('threads',4)))
json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(d+'/meta.json','w'),indent=1)
def demo(): return subprocess.run(['bash',d+'/demo.sh'],cwd=r).returncode
a=demo()
for f,o,n in ns['edits']:
    p=r+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
open(d+'/patch.diff','w').write(subprocess.check_output(['git','diff'],cwd=r,text=True))
b=demo()
own=set()
for f in {e[0] for e in ns['edits']}:
    blame=subprocess.check_output(['git','blame','-s','HEAD','--',f],cwd=r,text=True).splitlines()
    orig=subprocess.check_output(['git','show',BASE+':'+f],cwd=r,text=True).splitlines()
    for l in subprocess.check_output(['git','diff','-U0','--',f],cwd=r,text=True).splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:] not in orig: own.add(l)
if own: print('NOT ORIGINAL:',own)
print(ns['id'],'demo clean',a,'patched',b, 'OK' if a==0 and b!=0 else 'BAD')
if '--check' in sys.argv:
    q=subprocess.run(['python3',V+'/check.py',ns['prop'],'quick'],env=dict(os.environ,SPMP_REPO=r),cwd=V,stdout=subprocess.PIPE,text=True)
    print('check rc',q.returncode); print('\n'.join(q.stdout.split('\n')[:4]))
shutil.rmtree(w)
