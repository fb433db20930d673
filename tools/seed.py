#!/usr/bin/env python3
"""Confirms a planted bug and keeps it: seed.py SPEC.py...   (development tool, no check uses it)
A spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo (Go source of demo_test.go),
pkg (default memcache), flags, lib (default: demo_lib with the package's name)."""
import sys, os, subprocess, shutil, tempfile, json
V = '/verif'
def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
for spec in sys.argv[1:]:
    s = dict(pkg='memcache', flags='', lib=True, times=3)
    def T(body, imports='', pkg='memcache_test', name='memcache'):
        imps = ['testing', 'time'] + imports.split()
        std = sorted({i for i in imps if '/go-memcache/' not in i}); own = sorted({i for i in imps if '/go-memcache/' in i} | ({'github.com/QuangTung97/go-memcache/memcache'} if name == 'memcache' else set()))
        return 'package ' + pkg + '\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in std) + '\n' + ''.join('\t"%s"\n' % i for i in own) + ')\n\n' + body.strip() + '\n'
    s['T'] = T
    exec(open(spec).read(), s)
    work = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    repo = work + '/repo'
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        d = work + '/demo'
        os.mkdir(d)
        open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
        name = s['demo'].split('package ', 1)[1].split()[0]
        if s['lib']:
            open(d + '/demo_lib_test.go', 'w').write(open(V + '/tools/demo_lib.go.txt').read().replace('package memcache_test', 'package ' + name))
        open(d + '/demo.sh', 'w').write(open(V + '/tools/demo.sh.txt').read().replace('@PKG@', s['pkg']).replace('@FLAGS@', s['flags']))
        os.chmod(d + '/demo.sh', 0o755)
        ok = True
        for i in range(s['times']):
            rc, out = sh(d + '/demo.sh', repo)
            if rc != 0:
                print(s['id'], 'DEMO FAILS ON CLEAN TREE', out[-1500:]); ok = False; break
        if not ok: continue
        for f, old, new in s['edits']:
            t = open(repo + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT matches', t.count(old), 'times in', f, repr(old)); ok = False; break
            open(repo + '/' + f, 'w').write(t.replace(old, new))
        if not ok: continue
        rc, out = sh('gofmt -l . ; go vet ./memcache/... ; git diff > ../patch.diff', repo)
        if out.strip(): print(s['id'], 'vet:', out[:500])
        rc, out = sh('go build ./...', repo)
        if rc: print(s['id'], 'BUILD', out); continue
        fails = 0
        for i in range(s['times']):
            rc, out = sh(d + '/demo.sh', repo, 320)
            fails += rc != 0
        if fails < s['times']:
            print(s['id'], 'DEMO ONLY FAILS', fails, 'of', s['times'], out[-800:]); continue
        demo_out = out
        # the stable tests
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        st = {}
        mod = 'github.com/QuangTung97/go-memcache/'
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for q in ('memcache', 'memcache/netconn', 'memcache/stats'):
            b = work + '/' + q.replace('/', '_') + '.test'
            if sh(f'go test -vet=off -c -o {b} ./{q}', repo)[0] or not os.path.exists(b): continue
            for n in sh(f'{b} -test.list .', repo + '/' + q)[1].split(): jobs.append((q, b, n))
        def one(j):
            q, b, n = j
            return q, sh(f"go tool test2json -p {mod}{q} {b} -test.v=test2json -test.timeout=60s -test.run '^{n}$'", repo + '/' + q)
        def note(results):
            for q, (rc, out) in results:
                for l in out.splitlines():
                    try: e = json.loads(l)
                    except ValueError: continue
                    if e.get('Test') and e['Action'] in ('pass', 'fail', 'skip'): st[mod + q + '/' + e['Test']] = e['Action']
        note(ThreadPoolExecutor(6).map(one, jobs))
        tops = {k[len(mod):] for k in stable if st.get(k) != 'pass'}
        note(map(one, [j for j in jobs if any((j[0] + '/' + j[2]) == x or x.startswith(j[0] + '/' + j[2] + '/') for x in tops)]))
        npass = sum(v == 'pass' for v in st.values()); nfail = sum(v == 'fail' for v in st.values())
        broken = [k for k in stable if st.get(k) != 'pass']
        if broken:
            print(s['id'], 'TESTS BROKEN', broken[:6], len(broken)); continue
        dst = V + '/seeded/' + s['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        shutil.copy(work + '/patch.diff', dst)
        json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        print(s['id'], 'KEPT; demo says:', [l for l in demo_out.splitlines() if 'demo' in l][:2], npass, nfail)
        if os.environ.get('CHECK', '1') == '1':
            for p in [s['prop']] + s.get('also', []):
                rc, out = sh(f'{V}/bin/gosym check {p} --tier quick --noevidence --repo {repo}', V, 1000)
                print('   check', p, 'rc', rc, [l for l in out.splitlines() if 'VIOLATION' in l][:2] or out[-300:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
