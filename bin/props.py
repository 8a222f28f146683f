#!/usr/bin/env python3
"""The properties, the harness entries that decide each, their bounds; generates properties.jsonl and MANIFEST.json."""
import json, sys, glob, os
V = '/verif'
TRUST = [
    'symex (engine/): an executor for the LLVM IR rustc emits for the harness plus the whole of /repo\'s crates it calls; z3 5.3 decides feasibility and assertions; sampled completed paths are replayed natively and every counterexample is replayed before it is reported',
    'the IR is rustc nightly-2025-04-06 output at opt-level 2 with overflow checks on (debug profile semantics for arithmetic overflow)',
    'chumsky 0.10.1 is built from stubs/chumsky, whose only change is that four combinators return boxed parsers (compile-time only)',
    'allocation never fails; addresses come from one deterministic allocator; random hash seeds are fixed; one thread',
]
PROPS, NA = {}, {}
def E(name, crate='front', reach=('end',), secs=300, tsecs=3600): return dict(name=name, crate=crate, reach=list(reach), secs=secs, tsecs=tsecs)
def prop(id, title, statement, over, text, why, files, mech, entries, bounds, outside, note='', assume=()):
    assert len(title) <= 80, title
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, entries=entries, bounds=bounds, outside=outside, note=note, assume=list(assume))
def na(id, title, statement, over, text, why, files, mech, reason):
    NA[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason)
def known(pid):
    p = V + '/known_findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['known'] if k['property'] == pid]
for f in sorted(glob.glob(V + '/bin/props.d/*.py')): exec(compile(open(f).read(), f, 'exec'))

def gen():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in sorted([*PROPS.values(), *NA.values()], key=lambda p: p['id']):
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[dict(property=i, quick_cmd=f'python3 bin/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 bin/check.py {i}', technique='symbolic execution of the compiled code (LLVM IR) with an SMT solver', level='model_checking',
        level_note=f'Every value and branch within the bounds is decided by the solver over the real code. Bounds: {p["bounds"]} Outside: {p["outside"]} Trusts the executor and the reference in the harness; sampled paths and all counterexamples are replayed natively.' + (' ' + p['note'] if p['note'] else '')) for i, p in sorted(PROPS.items())],
        not_applicable=[dict(property=i, reason=p['reason']) for i, p in sorted(NA.items())],
        notes='Harnesses in h/ compile the crates of /repo by path; engine/ executes their LLVM IR symbolically; bin/check.py runs a property. Known findings: known_findings.json.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__':
    if sys.argv[1] == 'crates': print(' '.join(sorted({e['crate'] for p in PROPS.values() for e in p['entries']})))
    elif sys.argv[1] == 'gen': gen()
    elif sys.argv[1] == 'ids': print(' '.join(sorted(PROPS)))
