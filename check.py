#!/usr/bin/env python3
"""One property check.   python3 check.py P01 [--tier quick|thorough]

1. Deductive part: regenerates every verification condition of the property's
   contracts from the current source and discharges them (pyvc, z3/cvc5).
2. Bounded part: run-time contract checking of the real code (labelled bounded).
Exit 0: held on everything decided.  Exit 1: VIOLATION line."""
import json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_PY = '/opt/venv/bin/python'
VT = 'python3-vt'
SRC = os.environ.get('TORON_SRC', '/repo/src')

# multiples of the scenarios' base case counts in the quick tier (about half a minute per check)
QUICK = {'P01': 20, 'P02': 20, 'P03': 12, 'P05': 9, 'P06': 25, 'P07': 12, 'P08': 20, 'P19': 9, 'P24': 15, 'P25': 7, 'P27': 10}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TORON_SRC=SRC)
    e.pop('PYTHONPATH', None)
    return e


def prove(prop, tier, tmp):
    out = os.path.join(tmp, 'proof.json')
    p = subprocess.run([VT, '-m', 'pyvc.run', prop, '--tier', tier, '--out', out], cwd=HERE, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return {'contracts': [], 'crash': p.stdout[-2000:]}
    return json.load(open(out))


def harness(prop, tmp, seed, scale, seconds, tag, jobs=6):
    if not os.path.exists(os.path.join(HERE, 'harness', prop.lower() + '.py')):
        return None
    out = os.path.join(tmp, f'harness-{tag}.json')
    p = subprocess.run([REPO_PY, '-m', 'harness.run', prop, '--out', out, '--seed', str(seed), '--scale', str(scale),
                        '--seconds', str(seconds), '--jobs', str(jobs)], cwd=HERE, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return {'scenarios': {}, 'findings': [], 'crash': p.stdout[-2000:], 'wall': 0}
    return json.load(open(out))


def selftest():
    p = subprocess.run([VT, '-c', 'import z3, cvc5; from pyvc import spec; spec.load_all(); print("contracts:", sum(map(len, spec.REGISTRY.values())))'],
                       cwd=HERE, env=env())
    q = subprocess.run([REPO_PY, '-c', 'import sys; sys.path.insert(0, %r); import toron; from harness import core; print(toron.__file__)' % SRC],
                       cwd=HERE, env=env())
    sys.exit(p.returncode or q.returncode)


def main():
    if '--selftest' in sys.argv:
        selftest()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    strict = os.environ.get('VERIF_STRICT')
    t0 = time.time()
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    listed = {k['sig']: k for k in known['findings'] if k['property'] == prop}
    with tempfile.TemporaryDirectory(prefix='verif-check-') as tmp:
        with ThreadPoolExecutor(2) as ex:
            fp = ex.submit(prove, prop, tier, tmp)
            fh = ex.submit(harness, prop, tmp, seed, QUICK.get(prop, 3.0) if tier == 'quick' else max(40.0, 5 * QUICK.get(prop, 3.0)),
                           150 if tier == 'quick' else 600, 'main')
            proof, har = fp.result(), fh.result()
        obs = [(c, o) for c in proof['contracts'] for o in c['obligations']]
        unb = [(c, o) for c, o in obs if not c['bounded']]
        failed = [(c, o) for c, o in obs if o['status'] == 'failed']
        undecided = [f"{c['contract']}: {o['name']}" for c, o in obs if o['status'] == 'unknown'] + \
            [f"{c['contract']}: {c['error']}" for c in proof['contracts'] if c['error']]
        if proof.get('crash'):
            undecided.append('proof engine: ' + proof['crash'][-500:])
        viols, notes = [], []

        def collect(h):
            if h is None:
                return
            if h.get('crash'):
                notes.append('bounded part did not run: ' + h['crash'][-800:])
            for n, s in h['scenarios'].items():
                for v in s['violations']:
                    if v.get('sig') in listed:
                        continue
                    viols.append(v)
                for x in s['skips'][:1]:
                    notes.append(f'scenario {n} skipped: {x}')
                for x in s['errors'][:1]:
                    notes.append(f'scenario {n} harness error: {x[-600:]}')
        collect(har)
        if failed and not viols:     # look harder for a failing input
            har2 = harness(prop, tmp, seed + 1000, 12.0, 150, 'extended')
            collect(har2)
        for f in (har or {}).get('findings', []):
            if f['sig'] in listed and f['fails']:
                print(f"KNOWN-FINDING: property={prop} {listed[f['sig']]['what']}")
            elif f['sig'] not in listed and f['fails']:
                viols.append({'scenario': 'finding', 'case': f['sig'], 'message': 'unlisted finding ' + f['sig'], 'sig': f['sig']})
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(v['case'])))
        path = os.path.join(rdir, f'{prop}.json')
        json.dump({'property': prop, 'scenario': v['scenario'], 'case': v['case'], 'message': v['message'],
                   'failed_obligations': [{'contract': c['contract'], 'targets': c['targets'], **o} for c, o in failed],
                   'replay': f'cd {HERE} && {REPO_PY} -m harness.run --replay {path}'}, open(path, 'w'), indent=1)
        print(f'{prop}: {v["scenario"]}: {v["message"][:1500]}')
        for c, o in failed:
            print(f"failed obligation [{c['contract']}] {o['name']}")
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    elif failed:
        path = os.path.join(rdir, f'{prop}.json')
        json.dump({'property': prop, 'scenario': None, 'case': None,
                   'failed_obligations': [{'contract': c['contract'], 'targets': c['targets'], **o} for c, o in failed]},
                  open(path, 'w'), indent=1)
        for c, o in failed:
            print(f"failed obligation [{c['contract']}] {o['name']}: {o['detail'][:500]}")
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        rc = 1
    scen = (har or {}).get('scenarios', {})
    ev = sum(s['evaluations'] for s in scen.values())
    dn = sum(s['distinct'] for s in scen.values())
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    entry = [c for c in man['checks'] if c['property'] == prop]
    level = entry[0]['level'] if entry else 'other'
    trusted = sorted({t for c in proof['contracts'] for t in c['trusted']} |
                     {'contract used in place of callee: ' + t for c in proof['contracts'] for t in c['used_contracts']})
    cov = {}
    if unb or level == 'proof':
        cov.update(obligations=len(unb), discharged=sum(o['status'] == 'proved' for c, o in unb),
                   checker_cmd=f'{VT} -m pyvc.run {prop}',
                   trusted_base=['pyvc (VC generator in /verif/pyvc: Python semantics, sum/sequence calculus)',
                                 'z3 / cvc5', 'CPython, SQLite'] + trusted)
    cov['functions_under_contract'] = sorted({t for c in proof['contracts'] for t in c['targets']})
    cov['functions_inlined_from_source'] = sorted({f for c in proof['contracts'] for f in c['functions']})
    cov['contracts'] = [{'contract': c['contract'], 'title': c['title'], 'targets': c['targets'],
                         'kind': ('bounded: ' + c['bounded']) if c['bounded'] else 'unbounded',
                         'obligations': len(c['obligations']), 'proved': sum(o['status'] == 'proved' for o in c['obligations']),
                         'backends': sorted({o['backend'] for o in c['obligations'] if o['backend']}),
                         'paths': c['paths'], 'solver_s': c['solver_time'], 'wall_s': c['wall'],
                         'undecided': c['error']} for c in proof['contracts']]
    if any(c['bounded'] for c in proof['contracts']):
        bo = [o for c, o in obs if c['bounded']]
        cov['bounded_symbolic_obligations'] = {'generated': len(bo), 'discharged': sum(o['status'] == 'proved' for o in bo)}
    cov['solver_seconds'] = round(sum(c['solver_time'] for c in proof['contracts']), 2)
    if har is not None:
        cov['bounded_runtime_check'] = {n: {k: s[k] for k in ('evaluations', 'planned', 'trivial', 'distinct')} for n, s in scen.items()}
        cov['evaluations'] = ev
        cov['distinct_nontrivial'] = dn
        cov['rule'] = ('bounded run-time contract checks on the real code: seeded generator per scenario; a case is non-trivial when it is '
                       'inside the scope of the contract and ran to a verdict; distinct by content hash')
        cov['samples'] = [{'scenario': n, 'case': s['samples'][0]} for n, s in scen.items() if s['samples']][:4]
    cov['explanation'] = 'deductive obligations are counted separately from the bounded run-time cases; bounded cases are never counted as proved'
    cov['undecided'] = undecided
    cov['notes'] = notes
    assumptions = ['floats are treated as real numbers and ints as mathematical integers in the proofs',
                   'repositories are replaced by their contracts (abstract tables); the SQL behind them is covered only by the bounded checks',
                   'generators are run to completion at their first use'] if obs else []
    assumptions += trusted
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols) or (1 if rc else 0)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop}: obligations {sum(o["status"] == "proved" for c, o in obs)}/{len(obs)} proved; bounded cases {ev} ({dn} distinct);'
          f' {time.time() - t0:.1f} s' + (f'; undecided {len(undecided)}' if undecided else '') + (f'; notes {len(notes)}' if notes else ''))
    for x in (undecided + notes)[:8]:
        print('  note:', x[:400])
    if rc == 0 and not obs and ev == 0:
        print('nothing was checked')
        sys.exit(2)
    if rc == 0 and strict and (undecided or notes):
        sys.exit(3)
    sys.exit(rc)


if __name__ == '__main__':
    main()
