"""Transactions, frames and derived data of every public dataspace operation, from its source down to the SQL statements.

The obligations are generated from the class `toron.space:DataSpace` as it stands: one group per public method and property.
The analysis (pyvc/effects.py) covers every input, every outcome of every branch, any number of loop iterations and every
statement at which storage, the caller's data or an interruption can raise.
"""
import ast
import time
from pyvc.spec import contract
from pyvc.effects import Effects, ANY
from pyvc.machine import Obligation
from pyvc.values import Unsupported

SPACE = 'toron.space:DataSpace'


def operations(E):
    node = E.find_class('toron.space', 'DataSpace')
    names = []
    for n in node.body:
        if isinstance(n, ast.FunctionDef) and not n.name.startswith('_') and n.name not in names:
            deco = {d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in n.decorator_list}
            if not deco & {'classmethod', 'staticmethod'}:
                names.append(n.name)
    return names


ASSUMED = [
    'sqlite3: a statement takes effect completely or raises; COMMIT that raises stores nothing; ROLLBACK of an open transaction does not fail',
    'functions outside the repository have no access to the database except through a handle passed to them',
]


def analyse(m, names=None):
    """{operation: (outcomes, writes, seconds)}; unsupported operations become undecided obligations."""
    E = Effects()
    sp = E.space()
    out = {}
    for n in operations(E):
        if names is not None and n not in names:
            continue
        t = time.time()
        try:
            o, w = E.method(sp, n)
            out[n] = (list(o), w, time.time() - t)
        except (Unsupported, RecursionError) as e:
            m.obligations.append(Obligation(f'DataSpace.{n}: effects', 'unknown', time.time() - t, 'effects', f'outside the verified subset: {e}'))
    for n in (names or []):
        if n not in out and not any(n in o.name for o in m.obligations):
            m.obligations.append(Obligation(f'DataSpace.{n}: effects', 'unknown', 0, 'effects', 'no such operation'))
    m.inlined |= set(E.inlined)
    m.trusted |= set(ASSUMED) | {'pure: ' + ', '.join(sorted(E.pure))}
    m.path_count += sum(len(o) for o, _, _ in out.values())
    m.queries += E.storage_calls
    return E, out


def record(m, name, bad, seconds, trace):
    """Discharged when no outcome is in `bad`; the failing outcomes are the counterexample."""
    detail = '; '.join(sorted({f'{k} {v if k == "raise" else ""}: {s.tx}' for k, s, v in bad})[:6])
    m.obligations.append(Obligation(name, 'failed' if bad else 'proved', seconds, 'effects', detail + (f' | writes: {trace}' if bad else '')))


def where(w):
    return ', '.join(f'{t} at {sorted(p)}' for t, p in sorted(w.items()))


@contract('P11', [SPACE + '.*'], 'every public operation commits everything it wrote at once when it returns, and nothing when it raises')
def all_or_nothing(m):
    E, ops = analyse(m)
    for n, (o, w, t) in ops.items():
        ret = [x for x in o if x[0] != 'raise']
        exc = [x for x in o if x[0] == 'raise']
        if not ret:
            m.obligations.append(Obligation(f'DataSpace.{n}: can return', 'unknown', t, 'effects', 'no path returns: vacuous'))
        record(m, f'DataSpace.{n}: what it wrote is committed together on return', [x for x in ret if x[1].tx.active or x[1].tx.commits > 1 or x[1].tx.dirty], t, where(w))
        record(m, f'DataSpace.{n}: nothing is committed and nothing left open when it raises', [x for x in exc if x[1].tx.active or x[1].tx.commits or x[1].tx.dirty], 0, where(w))


def current(m, derived, names=None):
    E, ops = analyse(m, names)
    for n, (o, w, t) in ops.items():
        sources = {tab for verb, tab in E.DERIVED[derived][0]}
        if not sources & set(w):
            continue
        bad = [x for x in o if derived in x[1].tx.stale]
        record(m, f'DataSpace.{n}: {derived} is brought up to date before it commits', bad, t, where(w))


@contract('P14', [SPACE + '.*'], 'no operation ends with index records inserted or deleted and the index hash not stored again')
def index_hash_current(m):
    current(m, 'index hash')


@contract('P10', [SPACE + '.*'], 'no operation ends with index records changed and the granularity of a partition not stored again')
def granularity_current(m):
    current(m, 'granularity')


LOADING = ['insert_mappings', 'insert_mappings2', 'update_mappings', 'delete_mappings']


@contract('P04', [SPACE + '.' + n for n in LOADING], 'after mappings change, the proportions of every source id of the link (the undefined one included) are computed again')
def proportions_current(m):
    m.trusted.add('refresh_proportions: its own contract (p04.refresh_defined, p04.refresh_undefined); the link it is called with is the one whose mappings changed')
    current(m, 'proportions', LOADING)


@contract('P04', [SPACE + '.' + n for n in LOADING], 'after mappings were inserted or deleted, the hash and completeness of the link are stored again')
def link_current(m):
    current(m, 'link hash and completeness', LOADING)


# ------------------------------------------------------------------ frames
def frame(m, allowed):
    E, ops = analyse(m, list(allowed))
    for n, (o, w, t) in ops.items():
        extra = {k: v for k, v in w.items() if k not in allowed[n]}
        m.obligations.append(Obligation(f'DataSpace.{n}: writes only {", ".join(sorted(allowed[n])) or "nothing"}', 'failed' if extra else 'proved', t, 'effects', where(extra)))


WEIGHTS = {'weight', 'weight_group'}
MAPPINGS = {'mapping', 'link'}
QUANTITIES = {'quantity', 'label_location', 'attribute_group'}
LABELS = {'label_index', 'label_location', 'label_structure', '(constraints)', 'property'}
PARTITIONS = {'label_structure', 'property'}


def named(names, tables):
    return {n: set(tables) for n in names.split()}


@contract('P15', [SPACE + '.insert_weights', SPACE + '.update_weights', SPACE + '.delete_weights'], 'operations on weights touch weights and weight groups only')
def weights_frame(m):
    frame(m, {**named('insert_weights update_weights delete_weights edit_weight_group', WEIGHTS), **named('add_weight_group drop_weight_group', WEIGHTS | {'property'}),
              **named('set_default_weight_group', {'property'})})


@contract('P04', [SPACE + '.insert_mappings', SPACE + '.update_mappings', SPACE + '.delete_mappings', SPACE + '.reify_mappings'], 'operations on mappings touch mappings and links only')
def mappings_frame(m):
    frame(m, named('insert_mappings insert_mappings2 update_mappings delete_mappings reify_mappings', MAPPINGS))


@contract('P18', [SPACE + '.add_link', SPACE + '.edit_link', SPACE + '.drop_link'], 'operations on links touch links (and the mappings of a dropped link) only')
def links_frame(m):
    frame(m, {**named('add_link edit_link', {'link'}), **named('drop_link', MAPPINGS)})


@contract('P20', [SPACE + '.insert_quantities', SPACE + '.insert_quantities2'], 'loading quantities touches quantities, locations and attribute groups only')
def quantities_frame(m):
    frame(m, named('insert_quantities insert_quantities2', QUANTITIES))


@contract('P21', [SPACE + '.delete_unmatched_quantities', SPACE + '.delete_quantities_without_index'], 'deleting unmatched quantities touches quantities, locations and attribute groups only')
def unmatched_frame(m):
    frame(m, {**named('delete_unmatched_quantities delete_quantities_without_index', QUANTITIES), **named('select_unmatched_quantities select_quantities_without_index', ())})


@contract('P17', [SPACE + '.delete_index'], 'deleting index records never touches quantities, locations or attribute groups')
def delete_frame(m):
    frame(m, named('delete_index', {'label_index', 'weight', 'mapping', 'weight_group', 'link', 'property', 'label_structure'}))


@contract('P23', [SPACE + '.change_label_order', SPACE + '.change_attribute_order', SPACE + '.rename_label_column'], 'reordering writes display preferences only; renaming touches column names and preferences, no weight, mapping or quantity')
def columns_frame(m):
    frame(m, {**named('change_label_order change_attribute_order', {'property'}), **named('rename_label_column rename_index_columns drop_index_columns', LABELS)})


@contract('P09', [SPACE + '.add_partition_definitions', SPACE + '.drop_partition_definitions'], 'changing partition definitions touches the structure and the definitions only')
def partitions_frame(m):
    frame(m, named('add_partition_definitions add_partition_definition drop_partition_definitions', PARTITIONS))


@contract('P25', [SPACE + '.select_index', SPACE + '.select_weights', SPACE + '.select_mappings', SPACE + '.select_quantities', SPACE + '.select_quantities2'], 'reading a dataspace changes nothing in it')
def reading_changes_nothing(m):
    frame(m, named('select_index select_weights select_mappings select_quantities select_quantities2 path_hint unique_id domain partition_definitions get_registered_attributes max_index_id '
                   'get_label_columns index_columns weight_groups get_weight_group get_default_weight_group links get_link', ()))


# ------------------------------------------------------------------ saving to a file
@contract('P12', ['toron.dal1.data_connector:DataConnector.save_to_file'], 'the destination holds the previous content or all of the new content at every point, and no temporary file is left')
def saving(m):
    from pyvc.files import Files
    E = Files()
    t = time.time()
    o = list(E.save())
    dt = time.time() - t
    m.inlined |= set(E.inlined)
    m.path_count += len(o)
    m.queries += E.storage_calls
    m.trusted |= {'os.replace: puts the complete file under the new name at once, or raises and changes nothing', 'VACUUM INTO and backup: the file is complete when they return',
                  'removing the temporary file does not fail', 'no interruption between the creation of the temporary file and the next statement'}
    names = {'torn': 'the destination never holds anything but the previous or the complete new content'}
    record(m, 'save_to_file: ' + names['torn'], [x for x in o if x[1].tx.target == 'torn'], dt, '')
    record(m, 'save_to_file: the new content is in place on return', [x for x in o if x[0] != 'raise' and x[1].tx.target != 'new'], 0, '')
    record(m, 'save_to_file: no temporary file is left on return', [x for x in o if x[0] != 'raise' and x[1].tx.tmp != 'absent'], 0, '')
    record(m, 'save_to_file: no temporary file is left when it raises or is interrupted', [x for x in o if x[0] == 'raise' and x[1].tx.tmp != 'absent'], 0, '')
    if not any(x[0] != 'raise' for x in o):
        m.obligations.append(Obligation('save_to_file: can return', 'unknown', 0, 'effects', 'no path returns: vacuous'))
