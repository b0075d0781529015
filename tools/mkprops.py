#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
OUT = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
      'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
      'why_tests_cant': ' '.join(why.split()),
      'anchors': {'files': ['src/toron/' + f for f in files],
                  'mechanism': [{'name': n, 'where': w} for n, w in mech],
                  'state': [{'name': n, 'meaning': me, 'where': w} for n, me, w in state],
                  'observe_at': list(observe), 'hook_needed': hook}})

prop('P01', 'Disaggregation conserves every stored quantity and follows the weights',
  '''When a dataspace is read, every stored quantity whose location matches at least one index record is split over
  exactly the matching records: the shares add up to the stored value, each share is proportional to the record's weight
  in the weight group selected for the quantity's attributes, and every record gets an equal share when all the weights are zero.
  The undefined record (index id 0) receives a share only when it is the only match, and a record with no weight in the
  chosen group is refused with an error rather than silently skipped.''',
  ['inputs', 'histories'],
  'every index table, every set of weights (including all-zero groups), every stored quantity value and every granularity at which it is stored',
  'the tests read a handful of 4-8 row dataspaces; conservation and proportionality are arithmetic facts over any number of records, weights and quantities',
  ['data_service.py', 'space.py', 'reader.py', 'dal1/repositories.py'],
  [('disaggregate_value', 'data_service.py'), ('DataSpace._disaggregate', 'space.py'), ('DataSpace.__call__', 'space.py')],
  [('weight', 'weight of an index record in a weight group', 'dal1/schema.py'), ('quantity', 'stored quantities', 'dal1/schema.py')],
  ['DataSpace.__call__ output rows', 'disaggregate_value output'])

prop('P02', 'Quantised shares are whole numbers with the same total (largest remainders)',
  '''Quantising the shares of one quantity (all of one sign, with a known total) returns one value per share, each less than 1 away from
  the share it replaces and whole except for at most one value which carries the fractional part of the total, and the values add up exactly to the total.
  The units that truncation leaves over go to the shares with the largest fractional parts, ties are broken by a hash of the index id,
  so the outcome is deterministic and does not depend on the order in which the shares arrive.''',
  ['inputs'],
  'every list of distinct index ids and same-sign values, in every order, for every total equal to their sum',
  'unit tests use lists of 3-6 shares; the sum, nearness and order-independence claims quantify over all lists, orders and hash ties',
  ['_utils.py', 'space.py', 'reader.py'],
  [('quantize_values', '_utils.py'), ('splitmix64', '_utils.py'), ('DataSpace._disaggregate quantize branch', 'space.py')],
  (), ['quantize_values output', 'DataSpace.__call__(quantize=True)'])

prop('P03', 'Translating data through a link conserves totals',
  '''Translating rows from one dataspace to another gives, for every input row whose index id has stored mappings in the link chosen for its attributes,
  output rows whose values add up to the input value and are proportional to the stored proportions, reported under the target's index ids and with unchanged attributes.
  Rows of the undefined record, and rows with no mapping, keep their full value under the target's undefined record; translation only goes ahead when the source still matches the link's recorded index hash.''',
  ['inputs', 'histories'],
  'every reader content, every link with mappings whose proportions sum to one, every selector-based choice among several links',
  'tests translate two or three hand-written crosswalks; conservation has to hold for any number of rows, links, attributes and proportions',
  ['reader.py', 'data_service.py', 'graph.py', 'dal1/repositories.py'],
  [('NodeReader.translate', 'reader.py'), ('generate_mapping_elements / make_get_link_id_func', 'data_service.py'), ('_translate', 'graph.py')],
  [('mapping', 'mapping records with proportions', 'dal1/schema.py')],
  ['NodeReader rows after translate / >>'])

prop('P04', 'Stored mapping proportions are value shares that sum to one per source id',
  '''After mappings are inserted, updated, deleted, merged, imported from a mapper or completed by reification, the stored proportions of each
  (link, source id) pair lie between 0 and 1 and sum to 1, each equal to the record's value divided by the pair's total, or equal shares when the total is zero.
  A record for the undefined source id maps only to the undefined index record.''',
  ['inputs', 'histories'],
  'every history of mapping inserts, updates, deletions, index merges and deletions, for every mapping value (including zero)',
  'the tests check proportions after single operations on small tables; the invariant must survive any history of mapping-affecting operations',
  ['data_models.py', 'space.py', 'mapper.py', 'graph.py', 'data_service.py', 'dal1/repositories.py'],
  [('BaseMappingRepository.refresh_proportions', 'data_models.py'), ('MappingRecord.__post_init__', 'data_models.py'),
   ('DataSpace.insert_mappings2/update_mappings/delete_mappings/reify_mappings', 'space.py')],
  [('mapping.proportion', 'share of the source id', 'dal1/schema.py')],
  ['DataSpace.select_mappings'])

prop('P05', 'The most specific matching selector wins, otherwise the default',
  '''For any attributes, the weight group (or link) used is the one whose matching selectors have the greatest specificity provided that greatest value is unique,
  and the default one when nothing matches or the greatest specificity is shared. Only selectors that match the attributes count, and the answer does not depend on the order in which the candidates are listed.''',
  ['inputs', 'configurations'],
  'every set of weight groups/links, every list of selectors attached to them, every attribute dictionary, every enumeration order',
  'unit tests give a few hand-picked selector sets; ties, equal sums from different selectors and candidate order form an unbounded space',
  ['selectors.py', 'data_service.py', 'space.py'],
  [('get_greatest_unique_specificity', 'selectors.py'), ('GetMatchingKey', 'selectors.py'), ('find_matching_weight_groups', 'data_service.py'), ('make_get_link_id_func', 'data_service.py')],
  (), ['get_greatest_unique_specificity result', 'weights used by DataSpace.__call__'])

prop('P06', 'Selectors mean what their CSS-like text says and survive a text round trip',
  '''A selector matches a row exactly when its operator relation (presence, equality, whitespace-separated word, dash prefix, prefix, suffix, substring; case-folded on request) holds between the attribute and its value,
  and the combinators :is(), :where(), :not() and juxtaposition compute or, or, not-any and and, with the specificity the CSS rules give. Parsing the printed text of any selector yields an equal selector,
  equal selectors hash alike, and malformed text is rejected with a syntax error.''',
  ['inputs', 'programs'],
  'every selector expression tree, attribute name, value text (quotes, backslashes, whitespace, newlines) and row',
  'tests enumerate a few dozen literal selectors; the text round trip and the meaning range over all nested expressions and strings',
  ['selectors.py'],
  [('SimpleSelector and containers', 'selectors.py'), ('parse_selector / SelectorTransformer', 'selectors.py')],
  (), ['selector call result', 'specificity', 'str() / parse_selector'])

prop('P07', 'Bit flags round-trip between flags and bytes',
  '''Building bit flags from any sequence of truthy and falsy values and reading them back as bytes, as a sequence, by position or by slice, and building from those bytes again, preserves exactly the flags up to trailing zeros.
  Two bit flags are equal, and then hash equal, exactly when they have the same set positions, and their union has exactly the positions set in either.''',
  ['inputs'],
  'every flag sequence of every length and every byte string',
  'the tests use literal sequences up to about 16 bits; the encoding is defined for all lengths, including byte boundaries and trailing zeros',
  ['_utils.py', 'dal1/schema.py'],
  [('BitFlags', '_utils.py'), ('toron_apply_bit_flag', 'dal1/schema.py')],
  (), ['bytes(BitFlags)', 'list(BitFlags)', '==', 'hash', '|'])

prop('P08', 'Index codes decode to the id they encode, and corrupt codes are rejected',
  '''The code produced for an index id of a dataspace decodes back to the same id in that dataspace. Text that is not such a code — another dataspace's code, a changed id or checksum, or malformed text — is recognised as invalid and raises an error when decoded.''',
  ['inputs'],
  'every index id that can be stored, every domain and dataspace id, every text',
  'tests check two literal codes; validity is a predicate over all strings and ids',
  ['cli/common.py', 'data_service.py', 'space.py', '_utils.py', 'formatters.py'],
  [('index code helpers', 'see grep: make/parse index code')],
  (), ['encode/decode functions', 'CLI id columns'])

prop('P09', 'Partition structures are closed under union and keep every definition',
  '''The structure computed from partition definitions contains every definition given, the empty partition and the union of any two members, each exactly once and nothing that is not a union of given definitions (plus the whole set of columns when index records are added).
  The minimal generating set computed from a structure generates the same closed family, and it contains no partition that is the union of its other members.''',
  ['inputs', 'histories'],
  'every family of subsets of the label columns and every history of adding, dropping and renaming definitions and columns',
  'tests list a few families; closure, generation and minimality quantify over all families of sets',
  ['partitions.py', 'data_service.py', 'space.py', 'dal1/label_manager.py'],
  [('make_structure', 'partitions.py'), ('find_minimal_partition_generating_set', 'partitions.py'), ('rebuild_structure_table', 'data_service.py')],
  [('label_structure', 'stored partitions', 'dal1/schema.py')],
  ['DataSpace.partition_definitions', 'structure rows'])

prop('P10', 'Granularity is the entropy of the partition and is kept up to date',
  '''The granularity stored with each partition equals the Shannon entropy (in bits) of the index records grouped by that partition's labels under equal record probabilities, so it is 0 for one group, log2 of the record count for all-distinct records, and never decreases when labels are added.
  It is current after every operation that adds, changes, merges or deletes index records or changes columns and partition definitions, and both ways of computing it agree.''',
  ['inputs', 'histories'],
  'every index table, every partition and every history of index, column and partition changes',
  'tests recompute a few literal values; the formula and its freshness quantify over all tables and histories',
  ['data_service.py', 'space.py', 'dal1/optimizations.py', 'dal1/schema.py'],
  [('calculate_granularity', 'data_service.py'), ('optimised SQL calculate_granularity', 'dal1/optimizations.py'), ('refresh_structure_granularity', 'data_service.py')],
  [('label_structure._granularity', 'entropy of the partition', 'dal1/schema.py')],
  ['structure rows after each public operation'])

prop('P11', 'Every modifying operation is all-or-nothing',
  '''If a modifying dataspace operation raises, whether from bad input in any row, a storage error, or an error in the caller's data iterator, the stored content afterwards is exactly what it was before the call, and no transaction stays open.
  If it returns, all of its effects are stored together.''',
  ['inputs', 'fault_sequences', 'crash_points'],
  'every public modifying operation, and every point inside it (every row, every storage call) at which an error can occur',
  'tests cause a few validation errors; failure at an arbitrary storage call or iterator position is not reachable by sampling inputs',
  ['space.py', 'dal1/data_connector.py', 'data_service.py', 'mapper.py', 'graph.py'],
  [('DataSpace._managed_transaction', 'space.py'), ('transaction_begin/commit/rollback', 'dal1/data_connector.py')],
  [('SQLite transaction', 'open or not', 'dal1/data_connector.py')],
  ['table contents before and after a failing call'])

prop('P12', 'Saving to a file replaces it completely or not at all',
  '''Writing a dataspace to a file leaves, at every point where it can fail or be interrupted, the previous file content intact under that name, or the complete new content; afterwards no temporary file is left behind when the call returns or raises.
  Writing onto a read-only file, or a path that is not a file, is refused.''',
  ['fault_sequences', 'crash_points'],
  'every failure of a file-system or database step during saving, at every position, for new and existing targets',
  'tests save successfully and test permissions once; the guarantee is about failures at each intermediate step',
  ['dal1/data_connector.py', 'space.py'],
  [('DataConnector.save_to_file', 'dal1/data_connector.py'), ('best_effort_fsync', 'dal1/data_connector.py')],
  (), ['directory contents and target bytes after a failed save'])

prop('P13', 'Files round-trip, and access modes are enforced',
  '''Reading back a saved dataspace gives the same content in every table (columns, index, weights, partitions, quantities, links, mappings, properties) and the same identity, and later changes to the in-memory copy do not touch the file.
  A file bound for reading and writing records changes directly, a file bound read-only can never be modified, and a bound path must exist unless creation was requested.''',
  ['inputs', 'histories', 'configurations'],
  'every dataspace content, every access mode and every kind of path spelling',
  'tests round-trip nearly empty dataspaces; content, path spelling and mode combinations are unbounded',
  ['dal1/data_connector.py', 'space.py', 'dal1/schema.py'],
  [('read_from_file / bind_file / save_to_file', 'dal1/data_connector.py'), ('make_sqlite_uri_filepath', 'dal1/data_connector.py'), ('verify_permissions', 'dal1/data_connector.py')],
  (), ['DataSpace content after read_file/bind_file'])

prop('P14', 'Index records keep unique labels and stable ids, and the index hash tracks them',
  '''Label combinations of index records are unique, no label column is ever null or an empty string for a defined record, record ids never change or get reused by inserting, and the undefined record (id 0, all labels "-") always exists and cannot be changed or deleted.
  The stored index hash always equals the hash of the ascending list of current index ids, so equal id sets give equal hashes whatever the history.''',
  ['inputs', 'histories'],
  'every history of index insertions, updates, merges and deletions and column changes',
  'tests check short scripted histories; the invariant and hash freshness must survive any history and any hash input',
  ['data_service.py', 'space.py', '_utils.py', 'data_models.py', 'dal1/repositories.py', 'dal1/schema.py'],
  [('refresh_index_hash_property', 'data_service.py'), ('SequenceHash', '_utils.py'), ('IndexRepository guards', 'dal1/repositories.py')],
  [('property index_hash', 'hash of sorted ids', 'data_service.py')],
  ['DataSpace.select_index', 'index_hash property'])

prop('P15', 'Weights obey the conflict mode and completeness is truthful',
  '''Inserting a weight for a record that already has one aborts, is ignored, replaces the value or adds to it exactly as the chosen conflict mode says, with the same final weights for the same rows however they are batched, and weights belong only to defined records with at most one per group and record.
  A weight group is flagged complete exactly when every defined index record has a weight in it, and at most one weight group is the default.''',
  ['inputs', 'histories'],
  'every sequence of weight and index changes, in every conflict mode, with any number of groups',
  'tests exercise each mode on one or two rows; completeness must follow every history',
  ['data_models.py', 'space.py', 'data_service.py', 'dal1/repositories.py'],
  [('BaseWeightRepository.add_or_resolve', 'data_models.py'), ('DataSpace.insert_weights/update_weights/delete_weights', 'space.py'), ('weight_group_is_complete', 'dal1/repositories.py')],
  [('weight', 'weights', 'dal1/schema.py'), ('is_complete', 'stored flag', 'dal1/schema.py')],
  ['DataSpace.select_weights', 'WeightGroup.is_complete'])

prop('P16', 'Merging index records adds up their weights and mappings',
  '''When records are merged, the surviving record's weight in each group is the sum of the merged records' weights, and its mapping value for each link and source id is the sum of theirs, with proportions added as well; the weights and mappings of the other records are untouched and the merged ids are gone.
  Totals per weight group and per link are unchanged by a merge.''',
  ['inputs', 'histories'],
  'every group of records with any weights and mappings, in any number of groups and links',
  'tests merge two records with one weight; sums range over arbitrary groups, links and missing entries',
  ['data_models.py', 'space.py', 'dal1/repositories.py'],
  [('BaseWeightRepository.merge_by_index_id', 'data_models.py'), ('BaseMappingRepository.merge_by_index_id', 'data_models.py'), ('DataSpace.update_index(merge_on_conflict)', 'space.py')],
  (), ['select_weights / select_mappings after update_index(..., merge_on_conflict=True)'])

prop('P17', 'Deleting an index record removes exactly its data',
  '''Deleting an index record removes that record, its weights and its mappings and nothing else, leaves mapping proportions of affected source ids summing to one, and refuses the undefined record.
  If removal would leave a source id with no mapping while keeping the rest, the source is mapped to the undefined record rather than dropped, and completeness flags are refreshed.''',
  ['inputs', 'histories'],
  'every index table with any weights, links and mappings, and any set of records selected for deletion',
  'tests delete single records in small tables; the frame condition (nothing else changes) quantifies over everything else stored',
  ['data_service.py', 'space.py', 'dal1/repositories.py'],
  [('delete_index_record', 'data_service.py'), ('DataSpace.delete_index', 'space.py')],
  (), ['select_index / select_weights / select_mappings before and after delete_index'])

prop('P18', 'A link reference resolves to the right dataspace or is refused',
  '''A reference to another dataspace resolves to links by exact unique id, else by file name hint (with or without extension), else by a unique-id prefix of at least seven characters; a reference that fits more than one dataspace is refused as ambiguous and one that fits none yields nothing.
  For each other dataspace, link names are unique and exactly one link is the default whenever there is any.''',
  ['inputs', 'histories'],
  'every set of links, every reference string and every history of adding, editing and dropping links',
  'tests cover a few fixed links; resolution and the one-default invariant quantify over all link sets and histories',
  ['data_service.py', 'space.py', 'dal1/repositories.py'],
  [('find_links_by_ref / get_links_by_ref / get_link', 'data_service.py'), ('DataSpace.add_link/edit_link/drop_link', 'space.py')],
  [('link', 'links', 'dal1/schema.py')],
  ['DataSpace.get_link', 'DataSpace.links'])

prop('P19', 'A mapper turns every mapping row into links between matching records',
  '''Every mapping row whose left and right labels match index records contributes its whole value to exactly the combinations of matching records, distributed by weights where a row matches several records and equally otherwise (or refused beyond the allowed limit), so that the value written to a link equals the value of the matched rows.
  Rows that match no record contribute nothing and are counted as such.''',
  ['inputs', 'histories'],
  'every mapping table, pair of dataspaces, weight group and matching limit',
  'tests run a few small mapping files; conservation and exactness of matching range over all tables',
  ['mapper.py', 'graph.py', 'space.py'],
  [('Mapper.match_records / iter_mappings', 'mapper.py'), ('load_mapping', 'graph.py')],
  (), ['mappings stored by load_mapping', 'Mapper.iter_mappings'])

prop('P20', 'Loading quantities stores every accepted row and accounts for the rest',
  '''Each input row with a numeric value adds that value at the location of its labels and the attribute group of its attributes, where rows with the same location and attributes accumulate only as separate stored values that sum to the input total; rows with a missing value or missing attributes are skipped with a warning and never stored partly.
  Equal label combinations and equal attribute dictionaries are stored once, and selecting the quantities returns the loaded labels, attributes and values.''',
  ['inputs', 'histories'],
  'every table of label columns, attributes and values, in every column order and row order and batch split',
  'tests load a handful of rows; totals and de-duplication range over all tables and batches',
  ['space.py', 'data_models.py', 'dal1/repositories.py'],
  [('DataSpace.insert_quantities/insert_quantities2', 'space.py'), ('get_by_labels_add_if_missing', 'data_models.py'), ('get_by_value_add_if_missing', 'data_models.py')],
  [('quantity', 'quantities', 'dal1/schema.py')],
  ['DataSpace.select_quantities'])

prop('P21', 'Quantities that match no index record are found and removed exactly',
  '''The quantities reported as matching no index record are exactly those whose location labels agree with no index record (blank labels match anything) or whose labelled columns are not a partition in the structure, and deleting them removes exactly those and nothing else.
  Locations and attribute groups are cleaned up only when no quantity uses them any more.''',
  ['inputs', 'histories'],
  'every location/index table pair, every partition structure, any number of quantities per location',
  'tests have one or two unmatched rows; exactness (neither more nor less) quantifies over every table',
  ['data_service.py', 'space.py', 'dal1/repositories.py'],
  [('find_nonmatching_locations', 'data_service.py'), ('find_locations_without_structure/index/quantity', 'data_service.py'), ('delete_quantities_without_index / delete_unmatched_quantities', 'space.py')],
  (), ['select_quantities_without_index', 'select_unmatched_quantities', 'delete counterparts'])

prop('P22', 'Any column name and label text is stored and returned verbatim',
  '''Label column names containing quotes, spaces, SQL keywords or any other printable text, and label, attribute and domain values of any text, behave like plain ones in every operation: they are stored and returned verbatim and never change which statement runs.
  A name that cannot be stored is refused with an error before anything changes.''',
  ['inputs'],
  'every string used as column name, label, attribute name or value, group or link name',
  'tests quote a few literal names; SQL building must be right for all strings in every statement that embeds a name',
  ['dal1/schema.py', 'dal1/repositories.py', 'dal1/label_manager.py', 'dal1/optimizations.py', 'dal1/migrations.py'],
  [('format_identifier', 'dal1/schema.py'), ('repositories using quoted names', 'dal1/repositories.py')],
  (), ['every public operation run with hostile names'])

prop('P23', 'Reordering and renaming columns never changes the data',
  '''Changing the display order of labels or attributes only permutes the listing: the moved element goes the requested number of places, stopping at either end, and the others keep their relative order.
  Renaming or reordering label columns keeps every record's id and labels, partitions and display order (under the new names), and dropping columns that are not needed for uniqueness keeps the other columns unchanged.''',
  ['inputs', 'histories'],
  'every list, element and offset, and every history of renames and reorderings',
  'tests move a few elements; the permutation law covers all lists and offsets',
  ['data_service.py', 'space.py', 'dal1/label_manager.py'],
  [('change_element_order', 'data_service.py'), ('get/set_labels_in_display_order', 'data_service.py'), ('LabelManager', 'dal1/label_manager.py')],
  (), ['get_label_columns', 'get_registered_attributes', 'select_index'])

prop('P24', 'Tabular input of every accepted kind is read as the same rows',
  '''The same table supplied as rows with header, as dictionaries, as a data frame, or as rows with separate column names is read as the same sequence of rows and columns with no value lost, reordered or duplicated; malformed tables are refused with an error.
  Turning wide tables into long ones emits exactly one row per record and stacked column that has a value, with the other columns unchanged, for an empty table too.''',
  ['inputs'],
  'every table in every accepted form, with any number of rows and columns',
  'tests use two- or three-row tables; loss, duplication and reordering range over all tables and lazily read iterators',
  ['_utils.py', 'space.py'],
  [('normalize_tabular', '_utils.py'), ('make_readerlike / make_dictreaderlike', '_utils.py'), ('wide_to_long / wide_to_narrow', '_utils.py'), ('eagerly_initialize', '_utils.py')],
  (), ['normalize_tabular / wide_to_long output', 'data accepted by insert_*'])

prop('P25', 'Reading and pivoting aggregate without losing or double counting values',
  '''A reader yields at most one row per index record and attribute combination, whose value is the sum of everything collected for it, and the total over all rows equals the total of what was read or translated.
  A pivoted table has in each cell the sum of the values with that row and column key, every key appears once, and the sum of all cells equals the sum of the values.''',
  ['inputs'],
  'every multiset of (index id, attributes, value) triples, every choice of pivot columns',
  'tests read a few dozen rows; group-by-sum correctness is a statement over all multisets',
  ['reader.py', 'data_models.py'],
  [('NodeReader.__init__/_generate_reader_output', 'reader.py'), ('pivot_reader', 'reader.py')],
  (), ['NodeReader rows', 'pivot_reader output'])

prop('P26', 'Opening an older file upgrades it without changing its data',
  '''A file written by an earlier supported version opens with the same index, weights, quantities, links and mappings it had, with ids unchanged, and ends up with the structure of the current version; upgrading again changes nothing.
  A file with an unsupported or damaged schema is refused.''',
  ['inputs', 'histories'],
  'every content of an older-version file',
  'tests upgrade a single fixture per version; preservation ranges over all contents',
  ['dal1/migrations.py', 'dal1/schema.py', 'dal1/data_connector.py'],
  [('apply_migrations', 'dal1/migrations.py'), ('verify_schema', 'dal1/schema.py')],
  (), ['DataSpace content after opening an old file'])

prop('P27', 'Names that would collide are refused before anything is created',
  '''A new label column is refused when its name is empty, reserved, repeated, already a column, or equal to an existing weight group or registered attribute; a registered attribute or weight group is likewise refused when its name collides with a label column, and otherwise accepted.
  Whenever a dataspace operation accepts a set of names, label columns, weight groups and registered attributes remain pairwise disjoint.''',
  ['inputs', 'histories'],
  'every set of existing and new names, in every order of operations',
  'tests try a few colliding names; the disjointness invariant must hold for all names and orders of creation',
  ['data_service.py', 'space.py'],
  [('validate_new_index_columns', 'data_service.py'), ('set_registered_attributes', 'data_service.py'), ('DataSpace.add_weight_group', 'space.py')],
  (), ['errors raised by add_index_columns, rename, add_weight_group, set_registered_attributes'])

# ---- corrected statements (after building the checks and reading the code paths they exercise)
ST = {}
ST['P03'] = '''Translating rows from one dataspace to another gives, for every input row whose index id has stored mappings in the link chosen for its attributes
(the link with the uniquely most specific matching selector, otherwise the default link), output rows whose values add up to the input value and are proportional to the stored proportions,
reported under the target's index ids and labels and with unchanged attributes. Values of the undefined source record stay under the target's undefined record.
Translation is refused with an error when there is no link to choose, or when the source's current index does not match the hash recorded with the link.'''
ST['P04'] = '''After mappings are inserted, updated, deleted, merged, imported from a mapper or completed by reification, the stored proportions of each
link and defined source id lie between 0 and 1 and sum to 1, each equal to the record's value divided by the pair's total, or equal shares when the total is zero
(when records are merged their proportions are added). Mappings of the undefined source id always have proportion 0, and mapping it to the undefined index record is refused.
The link's stored completeness flag and recorded hash of its source ids are current after each of these operations.'''
ST['P05'] = '''For any attributes, every candidate (weight group or link) is rated by the greatest specificity among its selectors that match the attributes; the candidate used is the one with the greatest rating that no other candidate shares
(ties fall through to the next lower rating), and the default one is used when nothing matches or no rating is unique. Only selectors that match the attributes count, only complete weight groups take part in reading a dataspace,
and the answer does not depend on the order in which the candidates are listed.'''
ST['P06'] = '''A selector matches a row exactly when its operator relation (presence, equality, whitespace-separated word, dash prefix, prefix, suffix, substring; case-folded on request) holds between the attribute and its value,
and the combinators :is(), :where(), :not() and juxtaposition compute or, or, not-any and and, with the specificity the CSS rules give. Parsing the printed text of any selector yields an equal selector,
equal selectors hash alike, and parsing malformed text raises a syntax error.'''
ST['P08'] = '''The code produced for an index id of a dataspace decodes back to the same id in that dataspace. Decoding accepts a text only if its checksum equals the one computed from its id and the dataspace's unique id,
so a code of which only the id (below 2^32) or only the checksum was changed is always refused, as is text that has not the form of a code; refusal is an error, never a wrong id.'''
ST['P09'] = '''The structure computed from partition definitions contains every definition given and the union of any of them, each exactly once, and nothing that is not a union of given definitions.
The minimal generating set computed from a structure generates the same closed family, and it contains no partition that is the union of its other members. The stored structure of a dataspace is always the one computed from its current definitions.'''
ST['P12'] = '''Writing a dataspace to a file leaves, at every point where it can fail or be interrupted, the previous file content intact under that name, or the complete new content; when the call returns or raises (also when it is interrupted) no temporary file is left behind.
Writing onto a read-only file, onto a directory, or into a missing directory is refused with an error.'''
ST['P14'] = '''Label combinations of index records are unique, no label of a defined record is ever null or an empty string, record ids never change or get reused by inserting, and the undefined record (id 0, all labels "-") always exists and cannot be changed or deleted.
The stored index hash always equals the hash of the ascending list of current index ids, so equal id sets give equal hashes whatever the history.'''
ST['P15'] = '''Inserting a weight for a record that already has one aborts, is ignored, replaces the value or adds to it exactly as the chosen conflict mode says, with the same final weights for the same rows however they are batched, and weights belong only to defined records with at most one per group and record.
After every operation that changes weights or index records, each affected weight group is flagged complete exactly when every defined index record has a weight in it, and at most one weight group is the default.'''
ST['P17'] = '''Deleting an index record removes that record, its weights and its mappings and nothing else, and refuses the undefined record. A record with an ambiguous mapping (one not matched on every label column) is not deleted but refused, leaving everything unchanged.
Proportions of the remaining mappings still sum to one per source id, and completeness flags, index hash and link hashes are refreshed.'''
ST['P18'] = '''A reference to another dataspace resolves to links by exact unique id, else by file name hint (with or without the .toron extension), else by a unique-id prefix of at least seven characters; a reference that fits more than one dataspace is refused as ambiguous and one that fits none finds no link.
For each other dataspace, link names are unique and at most one link is the default; its first link becomes the default unless told otherwise.'''
ST['P19'] = '''Every mapping row whose left and right labels match index records contributes its whole value to exactly the combinations of matching records, distributed by source and target weights (or equally when the weights add up to zero) where a row matches several records,
so that the value written to a link equals the value of the matched rows. Rows that match no record on a side, that match more records than the allowed limit, or whose records overlap with a finer-grained row (unless overlapping is allowed) contribute nothing and are reported.'''
ST['P20'] = '''Each accepted input row with a numeric value is stored at the location of its labels and the attribute group of its attributes; there is one stored quantity for each location and attribute group, and a further row for the same pair is refused, ignored, replaces the value or is added to it
exactly as the loading function and its conflict mode say. Rows with a missing value or without attributes are skipped with a warning and rows with invalid labels or an unknown partition are refused unless allowed; skipped rows leave nothing behind.
Equal label combinations and equal attribute dictionaries are stored once, and selecting the quantities returns the loaded labels, attributes and values.'''
ST['P21'] = '''The quantities reported as matching no index record are exactly those whose location labels agree with no index record (blank labels match anything; the undefined record counts as an index record) or whose labelled columns are not a partition in the structure, and deleting them removes exactly those and nothing else.
Locations and attribute groups are cleaned up only when no quantity uses them any more.'''
ST['P22'] = '''Label column names containing quotes, spaces, SQL keywords or any other printable text, and label, attribute and domain values of any text, behave like plain ones in every operation: they are stored and returned verbatim and never change which statement runs.
A column name that cannot be stored (a NUL character, an unpaired surrogate, a reserved name, or a duplicate up to letter case) is refused with an error before anything changes.'''
ST['P23'] = '''Changing the display order of labels or attributes only permutes the listing: the moved element goes the requested number of places, stopping at either end, and the others keep their relative order.
Renaming or reordering label columns keeps every record's id and labels, partitions and display order (under the new names). Dropping columns that are not needed for uniqueness keeps the other columns' labels and order unchanged and restricts the partitions to the remaining columns.'''
ST['P24'] = '''The same table (distinct column names, the same keys in every record) supplied as rows with header, as dictionaries, or as rows with separate column names, in a list or a one-pass iterator, is read as the same sequence of rows and columns with no value lost, reordered or duplicated; input of no tabular form is refused with an error.
Turning wide tables into long ones emits exactly one row per record and stacked column, in order, with the other columns unchanged, and nothing for an empty table.'''
ST['P25'] = '''A reader yields at most one row per index record and attribute combination, whose value is the sum of everything collected for it, and the total over all rows equals the total of what was read or translated.
A pivoted table has in each cell the sum (or the mean, when asked for) of the values with that row and column key, every key appears once, values without any of the pivoted attributes are left out, and the sum of all cells equals the sum of the values taken in.'''
ST['P26'] = '''A file written by an earlier supported version (schema 0.2.0 or 0.3.0) opens with the same index, weights, locations, quantities, links and mappings it had, with ids unchanged (quantities repeated for one location and attributes are added up, and mappings of nothing to nothing are dropped), and ends up with the structure of the current version; upgrading again changes nothing.
A file with an unsupported or damaged schema is refused, as is an older file opened read-only.'''
ST['P27'] = '''A new label column is refused when its name is reserved, repeated, already a column, or equal to a registered attribute; a registered attribute is likewise refused when its name is reserved or equals a label column, and names without a collision are accepted.
Whenever a dataspace operation accepts a set of names, label columns and registered attributes remain pairwise disjoint and free of reserved names. A refused name leaves everything unchanged.'''
AN = {'P08': [('index_id_to_code', 'cli/common.py'), ('index_code_to_id', 'cli/common.py')],
      'P03': None}
for _p in P:
    if _p['id'] in ST:
        _p['statement'] = ' '.join(ST[_p['id']].split())
    if AN.get(_p['id']):
        _p['anchors']['mechanism'] = [{'name': n, 'where': w} for n, w in AN[_p['id']]]
    if _p['id'] == 'P24':
        _p['quantifier']['text'] = 'every table in every accepted form, with any number of rows and columns'

with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
