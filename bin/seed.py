#!/usr/bin/env python3
"""development aid: turns bin/seeds.py into /verif/seeded/<id>/ after confirming each in /tmp/sd/repo, a scratch copy of /repo with its own target folder (cp -a /repo, and /opt/vp/{build,test}.sh and shadow/ with the paths changed); seed.py [ids]; -r: rewrite even if present"""
import sys, os, subprocess as sp, json, shutil
V = '/verif'; S = {}
def seed(id, prop, edits, demo, needs, breaks, sh=None): S[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, sh=sh)
exec(compile(open(V + '/bin/seeds.py').read(), 'seeds.py', 'exec'))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(c, t=900): return sp.run(c, shell=True, cwd='/tmp/sd/repo', capture_output=True, text=True, timeout=t)
def demo(d):
    x = '/tmp/sd/demo'; shutil.rmtree(x, ignore_errors=True); shutil.copytree(d, x); t = open(x + '/demo.sh').read(); open(x + '/demo.sh', 'w').write(t.replace('/repo/target', '/tmp/sd/target').replace('/repo', '/tmp/sd/repo'))
    r = run(f'bash {x}/demo.sh', 300); return r.returncode, (r.stdout + r.stderr)[-300:]
assert not run('git status --porcelain').stdout.strip()
ids = [a for a in sys.argv[1:] if a != '-r'] or [i for i in S if not os.path.exists(f'{V}/seeded/{i}/patch.diff')]
ok = True
for i in ids:
    s = S[i]; d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
    if s['sh']: open(d + '/demo.sh', 'w').write(s['sh'])
    else: shutil.copy(V + '/bin/demo.sh', d + '/demo.sh')
    if s['demo']: open(d + '/demo.rs', 'w').write(s['demo'])
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    a, out = demo(d)
    if a: print(i, 'demo fails on the unchanged tree:', a, out); shutil.rmtree(d); continue
    try:
        for f, x, y in s['edits']:
            t = open('/tmp/sd/repo/' + f).read(); assert t.count(x) == 1, (i, f, x, t.count(x)); open('/tmp/sd/repo/' + f, 'w').write(t.replace(x, y))
        diff = run('git diff').stdout
        b = run('bash /tmp/sd/build.sh')
        if b.returncode: print(i, 'does not build', b.stderr[-1500:]); shutil.rmtree(d); continue
        run('bash /tmp/sd/test.sh /tmp/seed.json')
        lost = base - set(json.load(open('/tmp/seed.json'))['passed'])
        c, out2 = demo(d)
        if lost or c == 0 or c == 3: print(i, 'NOT KEPT: tests lost', sorted(lost)[:3], 'demo', c, out2); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(diff); print(i, 'kept; demo', c, out2[-150:].replace('\n', ' '))
    finally:
        run('git checkout -- .')
run('bash /tmp/sd/build.sh')
