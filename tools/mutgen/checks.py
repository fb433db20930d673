#!/usr/bin/env python3
"""Second half of the mutation study: checks.py RES.jsonl OUT.jsonl [i/n]: which quick check
catches the mutants that survive the stable tests."""
import json, sys, subprocess, os, shutil, tempfile, time
V = os.environ.get('V', '/verif')
ALL = ['C%02d' % i for i in range(1, 20)]
core = 'C08 C09 C10 C11 C07 C12 C04 C14 C13 C05 C06'.split()
order = {'sender.go': core, 'core.go': core, 'input_selector.go': 'C11 C12 C08 C04 C14 C10'.split(), 'send_buffer.go': core, 'conn.go': 'C09 C10 C08 C14'.split(),
 'pipeline.go': 'C04 C06 C07 C02 C03 C08 C10 C13 C14 C01'.split(), 'pool.go': 'C13 C01 C03 C14'.split(), 'health.go': 'C15 C10 C14 C08'.split(), 'memcache.go': 'C15 C10 C08 C17 C14'.split(),
 'reader.go': 'C05 C06 C07 C03 C13'.split(), 'parser.go': 'C03 C06 C05'.split(), 'builder.go': 'C01 C13 C04'.split(), 'command.go': 'C01 C13 C04 C08'.split(),
 'netconn/netconn.go': 'C17 C16 C09'.split(), 'netconn/auth.go': 'C16 C17'.split(), 'options.go': 'C17 C11'.split(), 'errors.go': 'C03 C06'.split(), 'stats/stats.go': 'C18 C19 C17'.split(), 'stats/parser.go': 'C18 C19'.split()}
muts = [m for m in map(json.loads, open(sys.argv[1])) if m['status'] == 'survives']
import random
random.Random(7).shuffle(muts)
muts.sort(key=lambda m: m['Op'] == 'swap')
limit = int(os.environ.get('LIMIT', '5'))  # checks tried per mutant
key = lambda m: (m['File'], m['Pos'], m['End'], m['New'], m['Op'])
done = {key(json.loads(l)) for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
out = open(sys.argv[2], 'a')
d = tempfile.mkdtemp(prefix='mutc.', dir='/tmp'); r = d + '/repo'
shutil.copytree('/repo', r, symlinks=True)
full = os.environ.get('FULL')
for m in muts:
    if key(m) in done: continue
    done.add(key(m))
    src = open('/repo/memcache/' + m['File'], 'rb').read(); f = r + '/memcache/' + m['File']
    open(f, 'wb').write(src[:m['Pos']] + m['New'].encode() + src[m['End']:])
    o = order[m['File']]; l = o + ([c for c in ALL if c not in o] if full else [])
    if not full: l = l[:limit]
    t = time.time(); m['by'] = ''
    for c in l:
        p = subprocess.run([V + '/bin/gosym', 'check', c, '--tier', 'quick', '--noevidence', '--repo', r, '--verif', V], cwd=V, capture_output=True, text=True)
        if p.returncode == 1 and 'VIOLATION' in p.stdout: m['by'] = c; break
        if p.returncode: m.setdefault('odd', []).append(c + ':' + p.stdout[-200:]); break
    m['t'] = time.time() - t
    open(f, 'wb').write(src)
    out.write(json.dumps(m) + '\n'); out.flush()
shutil.rmtree(d)
