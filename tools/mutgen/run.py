#!/usr/bin/env python3
"""Mutation study (development tool, no check uses it): run.py MUTANTS.jsonl OUT.jsonl [workers]
Keeps the mutants that build and pass the stable tests; each result is one JSON line."""
import json, sys, subprocess, os, shutil, tempfile, threading, queue, re
muts = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], 'a')
W = int(sys.argv[3]) if len(sys.argv) > 3 else 6
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
mod = 'github.com/QuangTung97/go-memcache/'
tops = {}
for s in stable:
    p, t = s[len(mod):].rsplit('/Test', 1) if s.count('/Test') else (None, None)
    m = re.match(r'(memcache(?:/netconn|/stats)?)/((?:Test|Fuzz|Example)\w*)', s[len(mod):])
    tops.setdefault(m.group(1), set()).add(m.group(2))
bad = json.load(open('/tmp/clean_tests.json')) if os.path.exists('/tmp/clean_tests.json') else {}
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
def sh(cmd, cwd, t=120):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, 'timeout'
def work():
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    r = d + '/repo'
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = r + '/memcache/' + m['File']
        src = open('/repo/memcache/' + m['File'], 'rb').read()
        open(f, 'wb').write(src[:m['Pos']] + m['New'].encode() + src[m['End']:])
        st = 'survives'
        rc, o = sh('go build ./... ', r)
        if rc: st = 'build'
        else:
            for p in ['memcache/stats', 'memcache/netconn', 'memcache']:
                if p not in tops or (p == 'memcache') == m['File'].startswith('stats/') : continue
                if p == 'memcache/stats' and '/' not in m['File']: continue
                run = '^(' + '|'.join(sorted(tops[p] - set(bad.get(p, [])))) + ')$'
                rc, o = sh(f"go test -vet=off -count=1 -failfast -timeout 12s -run '{run}' ./{p}", r)
                if rc: st = 'killed'; break
        m['status'] = st
        open(f, 'wb').write(src)
        with lock:
            out.write(json.dumps(m) + '\n'); out.flush()
    shutil.rmtree(d)
ts = [threading.Thread(target=work) for _ in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
