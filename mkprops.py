"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

SP='src/toron/space.py'; DS='src/toron/data_service.py'; RD='src/toron/reader.py'
RP='src/toron/dal1/repositories.py'; DC='src/toron/dal1/data_connector.py'
SC='src/toron/dal1/schema.py'; LM='src/toron/dal1/label_manager.py'; OP='src/toron/dal1/optimizations.py'
MG='src/toron/dal1/migrations.py'; MP='src/toron/mapper.py'; GR='src/toron/graph.py'
SE='src/toron/selectors.py'; UT='src/toron/_utils.py'; PT='src/toron/partitions.py'; CLI='src/toron/cli'

p('C01','Disaggregation splits every quantity by weight and conserves totals',
 "Disaggregating a space returns, for every index record and attribute set, exactly the sum of the shares of the stored quantities: each quantity is split only among the records whose labels match its location, in proportion to their weights in the applicable weight group (evenly when those weights sum to zero, never to the undefined record unless it is the only match). "
 "The shares of each stored quantity add up to its value, so the total of every attribute set is conserved. "
 "The applicable weight group is the complete group whose selectors match the attributes (domain included) with the greatest unique specificity, otherwise the default group; filtering by selectors or summing by chosen attributes only drops or merges attribute sets and never changes a share.",
 ['inputs','histories','configurations'],
 'Every label set, partition structure, weight assignment (zeros, ties, huge/small ratios), finite stored quantities at any structure level incl. negative and fractional values, weight-group selectors, call selectors and sum_by_attrs, after any edit history.',
 'Unit tests check a few fixed 2-3 column spaces; the level/weights/selector combinations and the shortcut taken for the finest structures are sampled at single points.',
 [SP,DS,RD,RP],[('per-structure disaggregation loop',SP+':_disaggregate'),('proportional split with zero-weight fallback',DS+':disaggregate_value'),('weight group choice',SE+':get_greatest_unique_specificity'),('grouped output',RD+':_generate_reader_output')],
 observe=['rows of space(...)'])
p('C02','Translation through a link applies its proportions and conserves totals',
 "Translating disaggregated quantities to another space gives each target record exactly the sum over source records of the quantity times the proportion the used link holds for that pair, keeping attributes unchanged; when the link maps every source record, totals per attribute set are conserved. "
 "For each attribute set the link used is the complete, up-to-date link whose selectors match with the greatest unique specificity, otherwise the default link. "
 "Quantities of the undefined record stay undefined, translating twice composes the two mappings, and without any current default link the translation is refused rather than returning numbers.",
 ['inputs','histories','configurations'],
 'Every source/target index, mapping (many-to-many, ambiguous, undefined targets), set of links with selectors and default flags, finite disaggregated quantities, chains of translations, in-memory and on-drive readers.',
 'Tests translate a handful of small literal mappings; link choice x mapping shape x chained translation is unbounded.',
 [RD,DS,GR,RP],[('reader translation',RD+':NodeReader.translate'),('link choice and staleness check',DS+':make_get_link_id_func'),('stored proportions',RP+':MappingRepository.refresh_proportions')],
 observe=['rows of space(...) >> other'])
p('C03','Quantized results are whole, total-preserving and within one of exact',
 "When quantization is requested, each whole-valued quantity is split (or translated) into whole-valued shares that add up exactly to the quantity, each strictly within one of the proportional share handed in (up to the float error of those shares); a quantity with a fractional part keeps its exact total with at most one share left non-whole. "
 "Extra units go to the shares with the largest fractional parts, and ties are resolved the same way on every run and for every order of the inputs.",
 ['inputs'],
 'Every list of shares and total with magnitudes below 2**50, both signs, any number of ties, any record ids, both direct use and through disaggregation and translation.',
 'Tests use a few literal lists; the remainder allocation depends on floating point sums, signs and tie order.',
 [UT,SP,RD],[('largest remainder method',UT+':quantize_values'),('tie break hash',UT+':splitmix64')],observe=['rows of space(quantize=True) and >> other'])
p('C04','A failed operation changes nothing and leaves the space usable',
 "Whenever an operation on a space raises - because of an invalid row at any position, an input iterator that raises, a database error at any statement it executes, or an interrupt - the complete observable contents of the space (including completeness flags, fingerprints, partition definitions and properties) are exactly what they were before the call. "
 "The space stays usable: no transaction stays open and the same operation repeated without the fault succeeds with the same outcome as if the failure had never happened.",
 ['fault_sequences','histories'],
 'Every mutating operation of the space, in any prior state, with the fault at every statement / every input row, for in-memory, cached and file-bound spaces.',
 'Tests trigger a few validation errors only; no test injects a database error or an interrupt midway through a multi-table update.',
 [SP,DS,RP,LM,DC],[('transaction context manager',SP+':_managed_transaction')],observe=['full dump of tables and public views before/after'])
p('C05','A crash leaves a file as it was before or after the interrupted operation',
 "If the process dies at any moment while a change is being applied to a space bound to an existing file, reopening the file for writing shows exactly the state before or the state after that operation; a change whose call returned is still there. "
 "If it dies at any moment while saving a space to a path, that path holds either its previous content (or no file) or the complete new content, never a partial one.",
 ['crash_points','histories'],
 'Every mutating operation on a bound file and every save (fsync on and off, new or existing destination), killed at every file-system call that modifies data or directories.',
 'No existing test kills the process; the crash points lie between individual writes and renames.',
 [DC,SP],[('single transaction per operation',SP+':_managed_transaction'),('temp file + fsync + atomic replace',DC+':save_to_file')],observe=['file reopened by a fresh process after kill'])
p('C06','Saving and loading preserves everything',
 "A space written to a file and read back (in memory, cached to drive, or bound) is observably equal to the original: same unique id, domain, columns, records and ids, partitions, weights and groups, attributes, quantities, links, mappings, flags and properties, and gives the same disaggregations and translations. "
 "Saving never modifies the space being saved, replaces an existing destination completely, and saving the reloaded space again changes nothing further; ids assigned after reloading continue as they would have in the original.",
 ['histories','inputs','configurations'],
 'Every state reachable by any history of operations, all load modes, fsync on/off, unusual but legal paths and text values.',
 'Tests save and load near-empty spaces; equality over every table and subsequent behaviour is never compared.',
 [DC,SP,'src/toron/data_access.py'],[('VACUUM INTO / backup copy',DC+':save_to_file'),('backup load',DC+':read_from_file'),('bind',DC+':bind_file')],observe=['full dump and public views'])
p('C07','Behaviour does not depend on where the space is stored',
 "The same sequence of operations yields the same results, the same errors and the same final contents whether the space lives in memory, in an on-drive cache, bound to a file, or is saved and reloaded between any two operations.",
 ['histories','configurations'],
 'Every history of public operations and every choice of storage, including switching storage between operations.',
 'Existing tests run almost entirely on in-memory spaces; on-drive connections are set up by different code.',
 [DC,SP,SC],[('connection set-up per storage mode',DC+':acquire_connection'),('per-connection functions, triggers and pragmas',SC+':create_functions_and_temporary_triggers')],observe=['return values, exception types, dumps after each step'])
p('C08','Index records behave as a keyed table with permanent ids',
 "Inserting, updating, selecting and deleting index records agrees with a simple keyed table: label tuples are unique, rows with blank labels are never stored, conflict policies (abort, ignore, replace) do exactly what they say, criteria select exactly the matching rows (none for unknown columns), and partial deletes remove only what was asked. "
 "Every record keeps its id for life and an id is never given to another record, even after deletion, save or reload. "
 "The undefined record always exists and can never be altered or removed.",
 ['histories','inputs'],
 'Every history of insert/update/delete with any conflict policy, row order, column order and extra columns, in all storage modes.',
 'Tests use fixed short sequences; id reuse and policy interactions show only across histories.',
 [SP,RP,SC,DS],[('autoincrement ids and undefined-record triggers',SC+':create_schema_tables'),('conflict policies',SP+':insert_index'),('deletion with clean-up',DS+':delete_index_record')],observe=['select_index, max id, return of operations'])
p('C09','The index fingerprint tracks the id set and stale links are refused',
 "A space's index fingerprint is a function of its set of record ids alone: it changes exactly when a record is added, merged away or removed, and never because of label, weight, quantity or mapping changes. "
 "A link is treated as current exactly while the other space's records are the ones it was made for; once records were added to or removed from the other space, translation by that link is refused (or falls to no link) until it is relinked.",
 ['histories','inputs'],
 'Every edit history on both sides of a link, every id set (gaps, long runs, order of deletion).',
 'Tests compare single hash literals; whether every id-changing path refreshes the fingerprint depends on history.',
 [DS,UT,SP],[('fingerprint refresh',DS+':refresh_index_hash_property'),('sequence hash',UT+':SequenceHash'),('staleness check',DS+':make_get_link_id_func')],
 state=[('index_hash','fingerprint of ids','property table'),('other_index_hash','fingerprint of linked ids','link table')],observe=['property values, translation outcome'])
p('C10','Weights follow the requested policy and completeness flags tell the truth',
 "Inserting, updating and deleting weights agrees with a simple (group, record) to value table under every conflict policy, and never touches other groups or other records. "
 "A weight group of a space with records is reported complete exactly when every defined index record has a weight in it, after every operation including inserting, merging and deleting records. "
 "The default group is always an existing group, and disaggregation is refused while the default group is missing or incomplete.",
 ['histories','inputs'],
 'Every history of weight, weight-group and index operations; duplicate rows, partial label matches, non-finite or negative or non-numeric values, any group names.',
 'Completeness is maintained incrementally by many operations; tests check it after single calls from fixed states.',
 [SP,RP,DS],[('completeness check',RP+':WeightRepository.weight_group_is_complete'),('incremental flag updates',SP+':insert_weights, delete_weights, insert_index, update_index, delete_index')],
 state=[('is_complete','every defined record has a weight','weight_group table')],observe=['weight_groups, select_weights'])
p('C11','Mapping proportions always partition each source record',
 "For every link and every source record it maps, the stored proportions of the target records sum to one and each equals the pair's mapping value divided by the source record's total mapping value (evenly across the records it is mapped to when the total is zero), after every insert, update, delete, merge or reify. "
 "A link of a space with records is reported complete exactly when every local index record other than the undefined one is mapped in it. "
 "Mapping operations agree with a simple table keyed by link, source record, target record and level, and never touch other links.",
 ['histories','inputs'],
 'Every history of mapping and index operations on one or several links, any values (zeros, tiny, huge), any levels.',
 'Proportions are refreshed piecemeal per touched source record by six different operations; tests inspect single calls.',
 [SP,RP,DS],[('proportion refresh',RP+':MappingRepository.refresh_proportions'),('completeness',RP+':MappingRepository.mapping_is_complete')],
 state=[('proportion','share of source record','mapping table'),('is_locally_complete','all records mapped','link table')],observe=['mapping table, select_mappings, links'])
p('C12','Structure levels are the closure of the partitions with true granularity',
 "The levels a space works with are exactly the empty level, every union of the declared partitions, and the whole set of columns, each once. "
 "The granularity of each level always equals the value computed from the current records and depends only on them, no matter which operations led there or whether the fast or the generic computation is used. "
 "Adding or dropping partitions is order-independent and never touches records or quantities.",
 ['histories','inputs'],
 'Every sequence of partition and column changes and record edits, up to six columns.',
 'Granularity is refreshed incrementally after edits; tests compare a few literals.',
 [DS,PT,OP,SP],[('structure closure',PT+':make_structure'),('granularity',DS+':calculate_granularity'),('fast path',OP+':*'),('refresh after edits',DS+':refresh_structure_granularity')],
 state=[('_granularity','information measure of a level','structure table')],observe=['structure rows vs recomputation'])
p('C13','Attribute selectors parse, match and rank by one fixed semantics',
 "Every well-formed selector text is accepted and matches an attribute set exactly as the documented CSS-like semantics says (operators, case-insensitivity, any-of, negation, zero-specificity, conjunction), malformed text is rejected with a clear error, and printing a parsed selector and parsing it again gives an equal selector that behaves the same. "
 "Specificity follows the documented rules, and choosing among keyed selectors ranks each key by the most specific of its selectors that match and returns the single key with the greatest rank, or the default when none or several share it, independent of order.",
 ['inputs'],
 'Every selector text from the grammar (quotes, escapes, unicode identifiers, whitespace, nesting lists) and malformed mutations, every attribute set.',
 'Tests list single examples per operator; parsing, matching and ranking are compositional over unbounded inputs.',
 [SE],[('grammar and transformer',SE+':selector_grammar'),('greatest unique specificity',SE+':get_greatest_unique_specificity')],observe=['parse_selector, call, str, specificity'])
p('C14','Label mappings resolve to exactly the records they describe',
 "Loading a mapping assigns each row to the record its index code names or, without a code, only to records whose labels agree with every label the row gives, splits its value among several matches in proportion to their weights (within the match limit), gives rows of higher granularity precedence over lower ones unless overlap is allowed, and otherwise reports the row as skipped. "
 "For every row used on both sides, the value it contributes to the link (pairs of two undefined records aside) sums to the row's value, and rows that match nothing, match too many records, use invalid levels or have a blank value contribute nothing at all.",
 ['inputs','configurations'],
 'Every pair of spaces, mapping rows at any mixture of levels, match limits, overlap settings, weight zeros, directions, and row orders.',
 'Tests check a few literal mappings per option; interactions of ambiguity, limits and overlap are sampled.',
 [MP,GR,DS,CLI+'/command_mapping.py'],[('record matching',MP+':Mapper.match_records'),('joint split',MP+':Mapper.iter_mappings'),('load into nodes',GR+':load_mapping')],observe=['mapping rows in the target space, log counts'])
p('C15','Merging, removing or refining records keeps totals of dependents',
 "Merging index records adds up their weights and mapping values, so group totals, per-source mapping totals and translated totals are unchanged and the merged-away record disappears everywhere. "
 "Deleting a record removes its weights and keeps all other data; it is refused while removal would strand approximate mappings. "
 "Turning approximate mappings into exact ones changes only their level, and no proportion changes by it; it is refused without effect where an exact mapping of the same pair already exists.",
 ['histories','inputs'],
 'Every merge/delete/reify sequence over records with any weights and mappings at mixed levels and several links.',
 'Dependents live in other tables and are rewritten by bulk statements; tests cover single merges.',
 [SP,RP,DS],[('merge of weights and mappings',RP+':merge_by_index_id'),('delete guard',DS+':delete_index_record'),('reify',SP+':reify_mappings')],observe=['weights, mappings, translations before/after'])
p('C16','Quantities are stored and reported exactly as given',
 "Loaded quantities are stored once per location and attribute set with exactly the given values under each policy for existing values (abort, ignore, replace, sum), rows with invalid labels, levels, attributes or values are rejected or skipped as documented and counted, and listing returns exactly what is stored. "
 "Quantities listed as having no matching index or level are exactly those that disaggregation could not place, and the corresponding delete operations remove exactly those.",
 ['histories','inputs'],
 'Every batch of rows (duplicates, blank labels, undefined labels, unknown attributes, non-numeric values), policies and prior contents, interleaved with index and partition changes.',
 'Tests use small fixed batches; policy x duplicate x validity combinations are unbounded.',
 [SP,RP,DS],[('loading',SP+':insert_quantities2, insert_quantities'),('unmatched lookup',DS+':find_nonmatching_locations')],observe=['select_quantities*, delete_*'])
p('C17','No operation leaves dangling data behind',
 "After every operation, in every storage mode, each weight belongs to an existing group and record, each mapping to an existing link and record, and each quantity to an existing location and attribute set. "
 "Dropping a weight group or link removes all its data and nothing else, so a group or link created later always starts empty.",
 ['histories','configurations'],
 'Every history of operations over every storage mode, including spaces reloaded or bound from files.',
 'Referential enforcement is a per-connection setting; tests look at in-memory spaces right after creation.',
 [SC,DC,SP],[('foreign keys and cascades',SC+':create_schema_tables'),('connection set-up',DC+':acquire_connection')],observe=['orphan queries on raw tables; new group/link is empty'])
p('C18','Opening an older file migrates it without losing or changing data',
 "Opening a file written with any supported older format version yields a space with the same records, ids, labels, partitions, weights, links, mappings and (numeric) quantities (same-location same-attribute duplicates summed), fully usable with the current operations, and equal to one built natively with the same contents. "
 "Opening read-only never changes the old file, and a migration that fails or is interrupted leaves the file unchanged.",
 ['inputs','fault_sequences','crash_points'],
 'Every content of an old-format file (several columns, mappings with and without level, duplicates, domains of any shape) with a fault at any statement of the migration.',
 'Tests migrate a few fixed files; data variety and failure points are unbounded.',
 [MG,DC],[('versioned migration in one transaction',MG+':apply_migrations')],observe=['dump of migrated space vs model'])
p('C19','Spaces never affect files or spaces they should not',
 "A file opened read-only or read into memory is never modified, byte for byte, by any later operation; every attempted change through a read-only binding is refused. "
 "Two spaces never influence each other: a change to a space, its copies or its readers affects only that space, and a failed save leaves the destination and its directory exactly as they were, or, if it failed only after the finished file was moved into place, with the complete new file.",
 ['histories','configurations','fault_sequences'],
 'Every mix of open modes on the same file and any operation sequences; save failures at every file operation.',
 'Tests check single calls; isolation must hold for every interleaving of objects.',
 [DC,SP],[('access modes',DC+':bind_file'),('private copies',DC+':read_from_file'),('cleanup of temp file',DC+':save_to_file')],observe=['file digests, directory listings, dumps'])
p('C20','Exported CSV loads back to the same data',
 "Index, quantity and mapping data written by the command line can be loaded back by the same commands: loading an export into the space it came from changes nothing, loading exported index and quantities into an equally structured empty space reproduces the same records, weights and quantities, and loading exported mappings into the emptied link of the same two spaces reproduces the same pairs and values. "
 "An export lists every record, stored quantity, mapped pair and unmatched record exactly once; an index code is accepted exactly for the space and record it was made for, and text of any content (other than a record's own index code) survives the trip.",
 ['inputs','histories'],
 'Every space contents including commas, quotes, newlines, unicode, blank and look-alike values, unmatched and ambiguous mapping rows.',
 'Tests compare the CSV of a few literal spaces, one direction at a time.',
 [CLI+'/common.py',CLI+'/command_index.py',CLI+'/command_quantity.py',CLI+'/command_mapping.py'],[('index codes',CLI+'/common.py:index_id_to_code'),('readers and writers',CLI+'/command_*.py')],observe=['stdout CSV and file dumps'])
p('C21','Names, labels and values of any text are only ever data',
 "Column names, labels, attribute names and values, weight-group, link and domain names, selectors and file names containing any legal text (spaces, quotes, SQL or JSON syntax, wildcards, keywords, unicode, look-alike numbers) behave exactly as plain ones do in every operation: stored and returned verbatim, matched only by equality, and never able to change other data. "
 "Text that cannot be accepted, such as column names differing from others or from reserved names only by case, is refused with an error and no effect.",
 ['inputs','histories'],
 'Every injective renaming of plain names and values in any history by hostile text.',
 'Tests use tame names; most statements are built by string formatting with identifiers.',
 [SC,RP,LM,OP,MP],[('identifier quoting',SC+':format_identifier'),('parameter binding',RP+':*')],observe=['same history with tame and hostile text'])
p('C22','Concurrent users of one file see and make only whole operations',
 "When several processes or space objects work on the same file at once, every operation either takes effect completely or fails with an error (such as a locked file) and no effect, no reported success is lost, and the final contents and every complete read correspond to executing the successful operations one after another in some order. "
 "Summary values such as completeness flags and fingerprints agree with the data at the end.",
 ['schedules','histories'],
 'Every interleaving of operations of several writers and readers bound to the same file.',
 'No existing test runs two spaces concurrently on a file.',
 [SP,DC],[('one transaction per operation and file locking',SP+':_managed_transaction')],observe=['timestamped client histories and final dump'])
p('C23','Readers return a stable snapshot, once, and clean up after themselves',
 "A reader returns every (record, attributes) row exactly once with its columns in the stated order, whether iterated at once or in pieces, interleaved with other readers, converted to a data frame or pivoted, and whether cached on drive or in memory; later changes to quantities or weights of the space do not change it (records being neither added nor removed meanwhile). "
 "Pivoting yields the same totals as the plain rows that have at least one of the pivoted attributes. "
 "Closing or dropping a reader or space removes its temporary files and never affects the space.",
 ['histories','schedules','configurations'],
 'Every interleaving of iteration, conversion, translation, edits and closing over several readers.',
 'Tests iterate single readers fully; snapshot and interleaving behaviour depends on order of calls.',
 [RD],[('temporary reader database',RD+':NodeReader'),('pivot',RD+':pivot_reader')],observe=['rows, temp directory listing'])
p('C24','Reshaping tables loses and invents nothing',
 "Converting wide tables to long form yields, for each input row and each stacked column in order, exactly one output row holding the untouched other cells, the column's name and the cell's value, for sequences, mappings and CSV readers alike, and consumes its input lazily. "
 "Any tabular input form (rows with header, rows with separate columns, mappings with the same keys, readers) is understood as the same table.",
 ['inputs'],
 'Every table shape, cell values, duplicate or missing cells (read as None; the narrow form needs all cells), column selections and names; new names that collide are refused.',
 'Tests use a few literal tables.',
 [UT],[('wide_to_long',UT+':wide_to_long'),('wide_to_narrow',UT+':wide_to_narrow'),('normalisation',UT+':normalize_tabular')],observe=['output rows'])
p('C25','Changing columns keeps all data and their meaning',
 "Adding, renaming, reordering (for display) and dropping label columns keeps every record's id and its other labels, all weights, quantities and mappings, and every partition definition expressed in the current names. "
 "Display order is always a permutation of the current columns, renaming affects names only, and a column change that would make records indistinguishable or use an invalid or colliding name is refused without effect.",
 ['histories','inputs'],
 'Every sequence of column operations interleaved with data operations.',
 'Column changes rewrite schema and several properties; tests apply one change to small spaces.',
 [SP,LM,DS],[('column changes',LM+':LabelManager'),('partition rename',DS+':rename_partition_definitions'),('display order',DS+':get_labels_in_display_order')],observe=['all views before/after'])
p('C26','Command-line edits equal API edits, back up first and fail cleanly',
 "Each command-line edit has exactly the effect of the corresponding API operation and nothing else, exits zero exactly when that operation succeeds, and a failing command leaves the file's contents unchanged. "
 "Unless backups are disabled, the backup file afterwards holds exactly the contents before the command; commands that only show data never modify the file.",
 ['inputs','histories'],
 'Every command sequence with valid and invalid arguments.',
 'Tests call individual command functions on simple files.',
 [CLI+'/main.py',CLI+'/command_add.py',CLI+'/command_update.py',CLI+'/command_remove.py',CLI+'/command_rename.py',CLI+'/common.py'],[('dispatch',CLI+'/main.py:main'),('backup',CLI+'/common.py:process_backup_option')],observe=['exit code, stdout, file and backup dumps'])
p('C27','Links and weight groups keep unique names and a single default',
 "Within a space, weight-group names are unique and at most one group is the default; for each other space, link names are unique and at most one link is the default, the first link becoming it unless told otherwise. "
 "Looking up a link by name, space, id prefix or file name finds exactly the one described or reports that it is missing or ambiguous, and editing or dropping a group or link changes that one only.",
 ['histories','inputs'],
 'Every sequence of adding, editing, dropping and looking up groups and links to several other spaces.',
 'Tests use one or two groups or links; default hand-over depends on history.',
 [SP,DS,RP],[('link lookup',DS+':find_links_by_ref, get_link'),('default handling',SP+':add_link, edit_link, add_weight_group')],observe=['links, weight_groups, get_link'])
p('C28','What a space says about itself and its links is true',
 "The text shown for a space, in Python and by the info command, gives exactly its domain, partitions in display order with their granularity, weight groups, registered attributes, incoming links per other space and creation time, each marked as default or incomplete exactly when it is. "
 "The description of a link and the messages when a mapping is loaded count exactly the records matched, missing and no longer existing on either side, also after either space has changed. "
 "Describing works for every space in every storage mode, and changes nothing.",
 ['histories','inputs'],
 'Every space reachable by operations, and every later change of the spaces it is linked to.',
 'Tests show a few fixed spaces right after they are made.',
 [SP,DS,GR,CLI+'/command_info.py','src/toron/formatters.py'],[('space text',DS+':get_dataspace_info_text'),('formatting','src/toron/formatters.py:format_granularity, sort_partition_definitions'),('link counts',GR+':_get_mapping_stats, get_mapping_info_str')],observe=['repr, info output, link descriptions, log messages'])
p('C29','Committed changes and flushed saves survive a power failure',
 "When a power failure loses what was not yet flushed to the drive, in any combination, a bound file holds the contents before or after the interrupted operation, and the destination of a flushing save holds the complete old or the complete new file. "
 "Changes of a bound file and flushing saves that had returned are not lost. "
 "Upgrading a file of an older format is interrupted just as safely.",
 ['crash points','histories'],
 'Every moment of every operation and save, and every combination of data and names that had not been flushed.',
 'Tests never lose unflushed data; whether something was flushed in time cannot be seen in a running process.',
 [DC,SP,'src/toron/dal1/migrations.py'],[('saving',DC+':DataConnector.save_to_file'),('flushing',DC+':best_effort_fsync'),('connections',DC+':get_sqlite_connection')],observe=['file-system calls and data, files after the failure'])
p('C30','Legacy nodes hold exactly what their edits describe',
 "Through any sequence of edits a legacy node holds exactly the columns, records, weights with their completeness, category levels with their granularity, and quantities that the edits describe; a refused edit leaves it as it was, and saving and reloading changes nothing. "
 "Removing columns is refused or merges records with equal remaining labels, keeping the total of each weighting and of each quantity. "
 "Disaggregating gives each quantity that can be placed to matching records by weight, keeping totals.",
 ['histories','inputs','faults'],
 'Every sequence of column, record, weight, category and quantity edits of the legacy node class, failing ones included, every text as name or label, and every set of quantities.',
 'Tests apply single edits to one small fixed table with plain names; edits after a refused edit, hostile column names and merged duplicates are not among them.',
 ['src/toron/xnode.py','src/toron/_dal.py','src/toron/_schema.py'],[('edits','src/toron/_dal.py:DataAccessLayer.set_data'),('adding','src/toron/xnode.py:xNode.add_index_columns'),('disaggregating','src/toron/_dal.py:DataAccessLayer.static_disaggregate')],observe=['contents of the node after each edit and reload, refused edits, disaggregated rows'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
