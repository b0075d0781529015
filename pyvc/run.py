"""python3-vt -m pyvc.run PROP [--tier T] [--out FILE] [-j N] [-v]: discharge every contract of a property."""
import json, multiprocessing as mp, os, sys, time


def job(args):
    prop, name, budget = args
    from pyvc import spec
    spec.load_all()
    c = [c for c in spec.REGISTRY[prop] if c.name == name][0]
    return spec.run_contract(c, budget)


def main():
    prop = sys.argv[1]
    def opt(f, d):
        return sys.argv[sys.argv.index(f) + 1] if f in sys.argv else d
    tier, out, j = opt('--tier', 'quick'), opt('--out', None), int(opt('-j', '8'))
    from pyvc import spec
    spec.load_all()
    cs = spec.REGISTRY.get(prop, [])
    t = time.time()
    tasks = [(prop, c.name, c.budget * (1 if tier == 'quick' else 3)) for c in sorted(cs, key=lambda c: -c.budget)]
    rs = []
    if tasks:
        with mp.get_context('fork').Pool(min(j, len(tasks)), maxtasksperchild=1) as pool:
            rs = pool.map(job, tasks, chunksize=1)
    rep = {'property': prop, 'contracts': sorted(rs, key=lambda r: r['contract']), 'wall': round(time.time() - t, 2)}
    if out:
        json.dump(rep, open(out, 'w'))
    else:
        for r in rep['contracts']:
            bad = [o for o in r['obligations'] if o['status'] != 'proved']
            print(f"{prop} {r['contract']}: {len(r['obligations']) - len(bad)}/{len(r['obligations'])} paths {r['paths']} {r['wall']}s"
                  + (f"  ERROR {r['error']}" if r['error'] else ''))
            for o in bad:
                print('    ', o['status'], o['name'], o['detail'][:1000 if '-v' in sys.argv else 200].replace('\n', ' '))


if __name__ == '__main__':
    main()
