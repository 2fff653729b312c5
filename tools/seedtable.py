#!/usr/bin/env python3
"""seedtable.py [id...]: apply each planted bug to a scratch copy of /repo and list the checks that report it -> table for DESIGN.md section 7"""
import glob, json, os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/seedtable_wt'
subprocess.run('rm -rf /tmp/seedtable_wt; cp -a /repo ' + D, shell=True, check=True)
ids = [c.get('property_id', c.get('property')) for c in json.load(open(V + '/MANIFEST.json'))['checks']]
env = dict(os.environ, VERIF_REPO=D)


def run(p):
    r = subprocess.run(['python3', 'sa/check.py', p], cwd=V, env=env, capture_output=True, text=True)
    return p if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else None


print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = f.split('/')[-2]
    if sys.argv[1:] and n not in sys.argv[1:]:
        continue
    d = json.load(open(f))
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=D, check=True)
    subprocess.run(['git', 'apply', os.path.dirname(f) + '/patch.diff'], cwd=D, check=True)
    with cf.ThreadPoolExecutor(6) as ex:
        hit = [p for p in ex.map(run, ids) if p]
    print('| %s: %s | %s | %s | %s |' % (n, d['what_it_breaks'], d['property'], d['needs'], ', '.join(hit) or 'none'), flush=True)
subprocess.run('rm -rf /tmp/seedtable_wt', shell=True)
