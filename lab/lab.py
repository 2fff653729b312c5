#!/usr/bin/env python3
"""Development aid: apply a set of edits (refactorings or bugs) to a scratch copy and list what the relational analysis says.
usage: lab.py refactor1.py [name...]   Each file defines E = [(name, file, old, new), ...]"""
import os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
wt = os.environ.get('LAB_WT', '/tmp/lab_wt')
src, names = sys.argv[1], sys.argv[2:]
ns = {}
exec(open(os.path.join(here, src)).read(), ns)
if os.path.isdir(wt):
    shutil.rmtree(wt)
subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
for ent in os.listdir('/repo'):
    if not os.path.exists(os.path.join(wt, ent)):
        os.symlink(os.path.join('/repo', ent), os.path.join(wt, ent))
for name, f, old, new in ns['E']:
    if names and name not in names:
        continue
    p = os.path.join(wt, 'src', f)
    s = open(p).read()
    if s.count(old) != 1:
        print('!! %s: %d matches' % (name, s.count(old)))
        continue
    open(p, 'w').write(s.replace(old, new))
import re
for name, pat, rep in ns.get('REN', []):
    if names and name not in names:
        continue
    n = 0
    for f in ns['ALL']:
        p = os.path.join(wt, 'src', f)
        if os.path.exists(p):
            s, k = re.subn(pat, rep, open(p).read())
            n += k
            open(p, 'w').write(s)
    if not n:
        print('!! %s: no match' % name)
env = dict(os.environ, VERIF_REPO=wt)
r = subprocess.run([sys.executable, os.path.join(os.path.dirname(here), 'tools', 'conf.py')], env=env)
sys.exit(r.returncode)
