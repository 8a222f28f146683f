#!/usr/bin/env python3
"""Decides one property: rebuilds the harness from /repo, runs the symbolic executor on its entries,
replays what it reports against the real (native) code, writes evidence/<id>.json."""
import sys, os, json, subprocess, time, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
sys.path.insert(0, V + '/bin')
import props
B = V + '/.build'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ENV = dict(os.environ, VERIF_TIER=TIER)

def native(crate, entry, inputs, timeout=20):
    """run the real code on concrete inputs, unprivileged, inside a scratch folder it alone can write"""
    d = tempfile.mkdtemp(prefix='cmverif.', dir='/tmp')
    try:
        os.mkdir(d + '/w'); os.mkdir(d + '/io')
        with open(d + '/io/in', 'w') as f: f.write(''.join(str(v) + '\n' for v in inputs))
        for p in (d, d + '/w', d + '/io'): os.chown(p, 65534, 65534)
        env = dict(PATH='/usr/bin:/bin', HOME=d, SYMEX_INPUTS=d + '/io/in', SYMEX_OBS=d + '/io/obs', SYMEX_FSROOT=d + '/w', VERIF_TIER=TIER, RUST_BACKTRACE='0')
        try:
            r = subprocess.run([B + '/run/' + crate, entry], cwd=d + '/w', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, user=65534, group=65534, extra_groups=[])
            rc, out = r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired: rc, out = 'timeout', ''
        try: obs = open(d + '/io/obs').read().split()
        except FileNotFoundError: obs = []
        return rc, out, obs
    finally: shutil.rmtree(d, ignore_errors=True)

def stage(crate):
    """a copy of the native binary any user may run"""
    os.makedirs(B + '/run', exist_ok=True)
    for p in (V, B, B + '/run'): os.chmod(p, os.stat(p).st_mode | 0o055)
    t = B + '/run/' + crate
    shutil.copy(B + '/h/release/' + crate, t + '.tmp'); os.chmod(t + '.tmp', 0o755); os.rename(t + '.tmp', t)

def reproduced(rc): return rc in (96, 99) or (isinstance(rc, int) and rc < 0) or rc == 'timeout'

def main():
    if sys.argv[1] == '--replay':
        j = json.load(open(sys.argv[2])); stage(j['crate'])
        rc, out, obs = native(j['crate'], j['entry'], [x[2] for x in j['inputs']])
        print(out); print('exit', rc, 'reproduced' if reproduced(rc) else 'NOT reproduced')
        sys.exit(1 if reproduced(rc) else 0)
    pid = sys.argv[1]; only = sys.argv[2:]
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(B + '/engine/release/symex'):
        if subprocess.call(['bash', '-c', '. bin/env.sh; cd engine; CARGO_TARGET_DIR=/verif/.build/engine cargo build --release'], cwd=V): print('engine build failed'); sys.exit(2)
    crates = sorted({e['crate'] for e in P['entries']})
    for c in crates:
        r = subprocess.run(['bash', 'bin/build.sh', c, '40'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: print(r.stdout.decode()); print('harness build failed:', c); sys.exit(2)
        stage(c)
    tb = time.time() - t0
    known = props.known(pid)
    rd = f'{B}/replay/{pid}'; shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
    pool = ThreadPoolExecutor(8)
    tot = dict(paths=0, done=0, pruned=0, panics_ok=0, forks=0, steps=0, asserts=0, asserts_sym=0, queries=0, hits=0, solver_s=0.0, unknowns=0)
    viol, errors, funcs, samples, validated, knownhit, ent = [], [], set(), [], 0, {}, []
    for e in P['entries']:
        if only and e['name'] not in only: continue
        name = e['name']; out = f'{B}/out/{pid}.{name}.jsonl'; os.makedirs(B + '/out', exist_ok=True)
        lim = e.get('secs', 240) if TIER == 'quick' else e.get('tsecs', 3600)
        te = time.time()
        r = subprocess.run([B + '/engine/release/symex', f'{B}/ll/{e["crate"]}.ll', name, out, '8', str(lim)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: errors.append(f'{name}: engine exit {r.returncode}: {r.stdout.decode("utf8", "replace")[-400:]}')
        L = []
        try:
            for l in open(out, errors='replace'):
                try: L.append(json.loads(l))
                except ValueError: errors.append(f'{name}: bad output line')
        except FileNotFoundError: errors.append(f'{name}: no output')
        reach, s1, v1 = {}, [], []
        nst = 0; q = dict(paths=0, queries=0, solver_s=0.0, asserts_sym=0)
        for j in L:
            k = j['kind']
            if k == 'stats':
                nst += 1
                for x in tot: tot[x] += j[x]
                for x in q: q[x] += j[x]
                funcs.update(j['funcs'])
                for a, b in j['reach'].items(): reach[a] = reach.get(a, 0) + b
            elif k == 'error': errors.append(f'{name}: {j["msg"]} inputs={[x[2] for x in j["inputs"]][:40]}')
            elif k == 'violation': v1.append(j)
            elif k == 'sample': s1.append(j)
        if nst == 0: errors.append(f'{name}: the engine gave no result')
        for lab in e.get('reach', ['end']):
            if not reach.get(lab) and not v1: errors.append(f'{name}: vacuous, "{lab}" never reached')
        # violations: replay each kind against the real code
        seen = {}
        for j in v1:
            if seen.get(j['msg'], 0) >= 3 or sum(seen.values()) > 60: continue
            seen[j['msg']] = seen.get(j['msg'], 0) + 1
            rc, o, _ = native(e['crate'], name, [x[2] for x in j['inputs']])
            if not reproduced(rc): errors.append(f'{name}: counterexample does not replay (exit {rc}): {j["msg"]} {j["inputs"][:40]} {o[-300:]}'); continue
            hit = next((k for k in known if k['entry'] == name and k['match'] in o), None)
            if hit: knownhit[hit['id']] = hit; continue
            path = f'{rd}/{len(viol)}.json'
            json.dump(dict(property=pid, crate=e['crate'], entry=name, msg=j['msg'], inputs=j['inputs'], notes=j['notes'], native_exit=rc, native_output=o[-4000:]), open(path, 'w'), indent=1)
            viol.append((j['msg'], path, o))
        # samples: the model of each completed path has to behave the same natively
        s1 = s1[:48]
        for j, (rc, o, obs) in zip(s1, pool.map(lambda j: native(e['crate'], name, [x[2] for x in j['inputs']]), s1)):
            if rc == 0 and obs == j['obs']: validated += 1
            else: errors.append(f'{name}: sample path disagrees with the real code (exit {rc}): inputs {[x[2] for x in j["inputs"]][:60]} obs {j["obs"][:20]} native {obs[:20]} {o[-200:]}')
        for j in s1[:3]: samples.append(dict(entry=name, inputs={x[0] + '#' + str(i): x[2] for i, x in enumerate(j['inputs'])} , notes=j['notes'], observed=j['obs'][:16]))
        ent.append(dict(entry=name, paths=q['paths'], queries=q['queries'], solver_s=round(q['solver_s'], 3), symbolic_assertions=q['asserts_sym'], reach=reach, wall_s=round(time.time() - te, 2)))
        if os.environ.get('CHECK_V'): print(ent[-1])
    for k in known:
        if k['id'] in knownhit: print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    own = sorted(f for f in funcs if 'cairo_m' in f or 'cairo-m' in f)
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', coverage=dict(
        states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated, samples=samples or ['none'],
        bounds=P['bounds'], outside_bounds=P['outside'], entries=ent, functions_encoded=len(funcs), repo_functions_encoded=own[:400],
        instructions_executed=tot['steps'], assertions_checked=tot['asserts'], assertions_decided_by_solver=tot['asserts_sym'],
        solver_queries=tot['queries'], queries_answered_from_models=tot['hits'], solver_time_s=round(tot['solver_s'], 2), solver_unknowns=tot['unknowns'],
        paths_completed=tot['done'], paths_infeasible=tot['pruned'], paths_ending_in_allowed_panic=tot['panics_ok'], harness_build_s=round(tb, 1), errors=errors[:20], known_findings=[k['id'] for k in knownhit.values()]),
        assumptions=props.TRUST + P.get('assume', []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for m, p, o in viol[:12]:
        print(f'VIOLATION property={pid} replay={p}'); print('  ', m.strip(), '|', ' '.join(o.split())[-600:])
    for x in errors[:12]: print('ERROR', x[:1500])
    print(f'{pid}: {tot["paths"]} paths, {tot["asserts"]} assertions ({tot["asserts_sym"]} by solver), {tot["queries"]} queries, {tot["solver_s"]:.1f}s solver, {validated} traces validated, {time.time()-t0:.1f}s (build {tb:.1f}s)')
    sys.exit(1 if viol else 2 if errors else 0)
main()
