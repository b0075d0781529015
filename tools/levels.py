NOTES = ('Each check has two separately counted parts: deductive obligations generated from the current source by /verif/pyvc and discharged by z3/cvc5, '
         'and bounded run-time contract checks of the real code (never counted as proved). See DESIGN.md.')
NA = {}
B = 'bounded run-time contract checks of the real code against an independent oracle'
LEVELS = {
    'P01': ('proof', 'disaggregate_value and DataSpace._disaggregate proved for all structures, locations, record lists, weights and quantities (reals for floats) over assumed contracts of the repositories; the SQL and the reader pipeline are bounded run-time checks'),
    'P02': ('proof', 'quantize_values sum/cardinality proved for all item lists of one sign; mapper-level whole-number behaviour bounded'),
    'P11': ('fault_enumeration', 'faults injected at every storage call and every iterator position of each modifying operation; bounded'),
    'P12': ('fault_enumeration', 'faults and interruptions injected at every step of saving; bounded'),
}
D = ' (deductive part: '
for _p, _t in {
    'P03': 'translation of a reader by the mappings of the chosen link, for any content',
    'P04': 'proportions, link hash and completeness after every operation on mappings',
    'P05': 'which links compete and which is the fallback',
    'P06': 'operators, combinators and specificity for any text',
    'P10': 'granularity equals the entropy; stored again after every change of index records',
    'P14': 'the hash covers exactly the ids, in order; index hash stored again after every change of index records',
    'P15': 'conflict resolution for any stored and new value; frames',
    'P16': 'merging records for any weights and groups',
    'P17': 'deletion of a record for any weights and mappings',
    'P18': 'lookup of links for any stored links and text',
    'P07': 'flags kept, read, compared and united for any values and bytes',
    'P08': 'index codes for any id and any text',
    'P19': 'which records each mapping row is matched with, for any rows',
    'P20': 'every row stored once with its location, attributes and value; the value summed or skipped; frames',
    'P24': 'reading and reshaping tables of any size',
    'P21': 'what counts as unmatched, for any data; frames',
    'P22': 'quoting of names, and provenance of the text of every statement',
    'P23': 'orders of columns for any lists and offsets; frames',
    'P25': 'reading changes nothing',
    'P26': 'the upgrade is one transaction, frames',
    'P27': 'accepted exactly when no name collides',
    'P09': 'frames of partition operations',
}.items():
    LEVELS[_p] = ('exploration', B + D + _t + '; obligations over all inputs, counted separately)')
for _i in range(3, 28):
    LEVELS.setdefault(f'P{_i:02d}', ('exploration', B))
