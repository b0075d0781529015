"""python -m harness.run PROP --out FILE [--scale F] [--seed N] [--seconds S]   (repository python)
   python -m harness.run --replay FILE"""
import argparse, json, multiprocessing as mp, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SRC = os.environ.get('TORON_SRC', '/repo/src')
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
from harness import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--out')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--seconds', type=float, default=60)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.replay:
        rep = json.load(open(a.replay))
        core.load(rep['property'])
        sc = [s for s in core.REGISTRY[rep['property']] if s.name == rep['scenario']][0]
        status, msg, sig = core.run_case(sc, rep['case'])
        print(status, msg)
        sys.exit(1 if status == 'violation' else 0 if status in ('ok', 'trivial') else 2)
    t = time.time()
    import toron
    assert os.path.abspath(toron.__file__).startswith(os.path.abspath(SRC)), toron.__file__
    core.load(a.prop)
    deadline = time.time() + a.seconds
    tasks = []
    for sc in core.REGISTRY[a.prop]:
        if a.only and a.only not in sc.name:
            continue
        fixed = len(list(sc.cases() if callable(sc.cases) else (sc.cases or [])))
        total = fixed + max(1, int(sc.n * a.scale)) if sc.n else fixed
        shards = max(1, min(2 * a.jobs, total // 8 or 1))
        step = -(-total // shards)
        for s in range(0, total, step):
            tasks.append((a.prop, sc.name, a.seed, s, min(total, s + step), deadline))
    tasks.sort(key=lambda t: t[3] / max(1, t[4] - t[3]))      # scenarios take turns
    with mp.get_context('fork').Pool(a.jobs) as pool:
        outs = pool.map(core.run_shard, tasks, chunksize=1)
    scen = {}
    for o in outs:
        s = scen.setdefault(o['scenario'], {'evaluations': 0, 'planned': 0, 'trivial': 0, 'hashes': set(), 'samples': [],
                                            'violations': [], 'skips': [], 'errors': []})
        for k in ('evaluations', 'trivial', 'planned'):
            s[k] += o[k]
        s['hashes'].update(o['hashes'])
        for k in ('samples', 'violations', 'skips', 'errors'):
            s[k] += o[k]
    for s in scen.values():
        s['distinct'] = len(s.pop('hashes'))
    finds = []
    for f in core.finding.ALL:
        if f.prop == a.prop:
            try:
                finds.append({'sig': f.sig, 'fails': bool(f.fn())})
            except Exception as e:
                finds.append({'sig': f.sig, 'fails': None, 'error': repr(e)})
    rep = {'property': a.prop, 'scenarios': scen, 'findings': finds, 'wall': round(time.time() - t, 2)}
    if a.out:
        json.dump(rep, open(a.out, 'w'), default=core.jdefault)
    else:
        for n, s in scen.items():
            print(n, {k: v for k, v in s.items() if k in ('evaluations', 'planned', 'trivial', 'distinct')},
                  'skips', s['skips'][:1], 'errors', len(s['errors']), 'violations', len(s['violations']))
            for e in s['errors'][:1]:
                print(e)
            for v in s['violations'][:2]:
                print('  VIOL', v['message'][:700], '\n   case', json.dumps(v['case'])[:500])
        print(finds, rep['wall'])


if __name__ == '__main__':
    main()
