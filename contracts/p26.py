"""Upgrading older files: the migration is one transaction, and leaves records alone that it only has to rename."""
import time
from pyvc.spec import contract
from pyvc.effects import const
from pyvc.provenance import Provenance
from pyvc.machine import Obligation
from pyvc.values import Unsupported
from .transactions import ASSUMED, record, where

MIGRATE = 'toron.dal1.migrations:apply_migrations'


def run(m, **given):
    E = Provenance()
    t = time.time()
    try:
        o, w = E.function('toron.dal1.migrations', 'apply_migrations', given)
        o = list(o)
    except (Unsupported, RecursionError) as e:
        m.obligations.append(Obligation('apply_migrations: effects', 'unknown', time.time() - t, 'effects', f'outside the verified subset: {e}'))
        return None
    m.inlined |= set(E.inlined)
    m.trusted |= set(ASSUMED) | {'pure: ' + ', '.join(sorted(E.pure))}
    m.path_count += len(o)
    m.queries += E.storage_calls
    return E, o, w, time.time() - t


@contract('P26', MIGRATE, 'the upgrade is committed as a whole or not at all, for every failure of every statement')
def upgrade_all_or_nothing(m):
    r = run(m)
    if r is None:
        return
    E, o, w, t = r
    ret = [x for x in o if x[0] != 'raise']
    done = [x for x in ret if x[1].tx.commits]
    if not done:
        m.obligations.append(Obligation('an upgrade can finish', 'unknown', t, 'effects', 'no path commits: vacuous'))
    record(m, 'on return everything written is committed, at once', [x for x in ret if x[1].tx.active or x[1].tx.dirty or x[1].tx.commits > 1], t, where(w))
    exc = [x for x in o if x[0] == 'raise']
    record(m, 'an error of the data, the schema or the code commits nothing and leaves nothing open', [x for x in exc if not x[2].startswith('*') and (x[1].tx.active or x[1].tx.commits)], 0, where(w))
    record(m, 'nothing is ever committed in part', [x for x in exc if x[1].tx.commits > 1 or x[1].tx.commits and x[1].tx.dirty], 0, where(w))


@contract('P26', MIGRATE, 'in read-only mode no statement that writes is executed')
def read_only_refused(m):
    r = run(m, mode=const('ro'))
    if r is None:
        return
    E, o, w, t = r
    m.obligations.append(Obligation('nothing is written in read-only mode', 'failed' if w else 'proved', t, 'effects', where(w)))
    refused = any(x[0] == 'raise' and not x[2].startswith('*') for x in o)
    m.obligations.append(Obligation('an old file is refused in read-only mode', 'proved' if refused else 'failed', 0, 'effects', '' if refused else 'no refusal'))


RENAMED = {'node_index', 'location', 'structure'}
REPLACED = {'new_link', 'new_mapping', 'new_quantity', 'edge', 'crosswalk', 'relation', 'quantity'}


@contract('P26', MIGRATE, 'index records, locations and structures are renamed only, and weights and attribute groups are not touched')
def upgrade_frame(m):
    r = run(m)
    if r is None:
        return
    E, o, w, t = r
    for table in sorted(RENAMED):
        texts = [x for site in sorted(w.get(table, ())) for x in E.statements.get((site.rsplit(':', 1)[0], int(site.rsplit(':', 1)[1])), ())]
        bad = [x for x in texts if x.split()[:2] != ['ALTER', 'TABLE'] or 'RENAME TO' not in ' '.join(x.split())]
        m.obligations.append(Obligation(f'{table} is only renamed', 'failed' if bad else 'proved', t, 'effects', '; '.join(bad)[:300]))
    extra = {k: v for k, v in w.items() if k not in RENAMED | REPLACED | {'property', '(constraints)'}}
    m.obligations.append(Obligation('no other table is written', 'failed' if extra else 'proved', 0, 'effects', where(extra)))
