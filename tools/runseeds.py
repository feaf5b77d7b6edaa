#!/usr/bin/env python3
"""tools/runseeds.py [-p PROP] [ID...]: run the check of each planted bug's property on a scratch copy of /repo with the bug applied (CM_REPO)."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
for i in sorted(os.listdir(V + '/seeded')):
    if ids and i not in ids: continue
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    t = tempfile.mkdtemp(prefix='rs', dir='/tmp')
    try:
        subprocess.run('git clone -q /repo %s/r && git -C %s/r apply %s/seeded/%s/patch.diff' % (t, t, V, i), shell=True, check=True)
        r = subprocess.run('%s/check %s quick' % (V, m['property']), shell=True, cwd=V, env=dict(os.environ, CM_REPO=t + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-32s %s exit=%d %s%s' % (i, m['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', ' (no input)' if v and all('no-failing' in l for l in v) else ''), flush=True)
        if '-v' in sys.argv: print(r.stdout[-1500:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
