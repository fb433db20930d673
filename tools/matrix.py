#!/usr/bin/env python3
"""Which checks catch which planted bugs: matrix.py [--all] [SEED...]   (development tool)
Applies each seeded patch to a scratch copy of /repo and runs the quick check of its property
(--all: of every property) against the copy."""
import sys, os, subprocess, shutil, tempfile, json
V = '/verif'
args = [a for a in sys.argv[1:] if a != '--all']
every = '--all' in sys.argv
ids = [c['property'] if 'property' in c else c['id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for s in sorted(args or os.listdir(V + '/seeded')):
    d = V + '/seeded/' + s
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='matrix.', dir='/tmp')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo', check=True)
        r = []
        for p in (ids if every else [prop]):
            q = subprocess.run([V + '/bin/gosym', 'check', p, '--tier', 'quick', '--noevidence', '--repo', w + '/repo'], cwd=V, capture_output=True, text=True)
            if q.returncode == 1 and 'VIOLATION property=' + p in q.stdout: r.append(p)
            elif q.returncode: r.append(p + '?' + str(q.returncode))
        print(s, 'own' if prop in r else 'MISSED', ' '.join(r), flush=True)
    finally:
        shutil.rmtree(w)
