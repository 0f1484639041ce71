#!/usr/bin/env python3
"""seedrun.py [-t] [ID...]: applies each planted bug to a copy of /repo and runs its property's check on it (-t: thorough)."""
import sys, os, json, shutil, subprocess, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'thorough' if '-t' in args else 'quick'
ids = [a for a in args if a != '-t'] or sorted(os.listdir(VERIF + '/seeded'))
for i in ids:
    d = VERIF + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seedrun-')
    try:
        shutil.copytree('/repo', t + '/repo')
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t + '/repo')
        t0 = time.time()
        r = subprocess.run(['python3', 'check.py', p], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=t + '/repo', VERIF_TIER=tier))
        print(i, p, 'apply', a.returncode, 'exit', r.returncode, '%ds' % (time.time() - t0),
              next((l[:150] for l in r.stdout.splitlines() if l.startswith('#')), r.stderr[-200:]), flush=True)
    finally:
        shutil.rmtree(t)
