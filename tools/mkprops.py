"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
TZ = 'src/acetimetools/tzcompiler.py'
EX = 'src/acetimetools/extractor/extractor.py'
TR = 'src/acetimetools/transformer/transformer.py'
AR = 'src/acetimetools/transformer/artransformer.py'
GO = 'src/acetimetools/transformer/gotransformer.py'
CM = 'src/acetimetools/transformer/commenter.py'
BE = 'src/acetimetools/bufestimator/bufestimator.py'
ZI = 'src/acetimetools/bufestimator/zone_info_inliner.py'
GA = 'src/acetimetools/generator/argenerator.py'
GC = 'src/acetimetools/generator/cgenerator.py'
GG = 'src/acetimetools/generator/gogenerator.py'
GP = 'src/acetimetools/generator/pygenerator.py'
GJ = 'src/acetimetools/generator/jsongenerator.py'
GZ = 'src/acetimetools/generator/zonelistgenerator.py'
BY = 'src/acetimetools/generator/byteutils.py'
AT = 'src/acetimetools/datatypes/attyping.py'


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w}
                                        for n, w in mech],
                          'observe_at': observe or []}})


p('C01', 'Emitted zonedb reproduces TZDB local time over the requested years',
  'For every zone that a successful compile emits, the UTC offset, the DST '
  'offset and the abbreviation derived from the emitted eras and rules equal '
  'those the TZDB source defines (as zic reads it) at every instant of the '
  'requested years [start_year, until_year), and of the one-year margin on '
  'each side that the consuming libraries look into. This holds whatever mix '
  'of eras, UNTIL forms, rule years, months, ON forms, AT suffixes, SAVE '
  'values and letters the source uses, including pruned eras and rules and '
  'the synthetic anchor rule.',
  ['inputs', 'configurations'],
  'every TZDB source (era histories x rule sets) and every year window and '
  'scope',
  'The tests never run a compile: they exercise leaf helpers on a handful of '
  'literals; era/rule pruning, anchors and window edges are untested.',
  [TR, EX, GP, AT],
  [('era pruning and extension', TR + ':_remove_zone_eras_too_old,'
    '_remove_zone_eras_too_new,_extend_zone_eras_until'),
   ('rule pruning with latest prior rules', TR + ':_remove_rules_too_old_or_new'
    ',find_latest_prior_rules'),
   ('anchor rules', TR + ':_create_rules_with_anchor_transition,'
    '_get_anchor_rule'),
   ('field expansion', TR + ':_create_zones_with_*,_create_rules_with_*')],
  ['generated zone_infos.*, zone_policies.*', 'zonedb.json'])

p('C02', 'Claims of accuracy and truncation are truthful',
  'A compile claims an unlimited accurate range (start_year_accurate or '
  'until_year_accurate at infinity, or an untruncated zone) only when nothing '
  'it emitted was cut on that side, and then the emitted local time equals '
  'the source on that whole side; otherwise the claimed bound is the requested '
  'year. A zone is marked truncated on a side exactly when one of its eras, or '
  'a rule of a policy one of its emitted eras uses, was removed on that side, '
  'and the database-wide flags are the disjunction over emitted zones.',
  ['inputs', 'configurations'],
  'every source and every placement of eras and rules relative to the window',
  'No test builds a database or looks at any truncation flag.',
  [TR, AT, GP, GA, GC],
  [('truncation bookkeeping', TR + ':_update_truncation_status,'
    '_calc_accurate_years'),
   ('rule truncation', TR + ':_remove_rules_too_old_or_new')],
  ['zonedb.json flags', 'Accurate Years / Truncated header lines',
   'kZoneContext'])

p('C03', 'Every zone, link and policy is emitted or reported as removed',
  'After a successful compile every zone, link and policy named in the source '
  'is either present in every emitted database of that run or listed with a '
  'non-empty reason in the removed section, never both and never neither, and '
  'no name is emitted that the source (or include list) does not have. In '
  'extended and complete scope a compile that would drop any zone or link not '
  'excluded by the include list fails instead of emitting, and no failing '
  'compile leaves a partial database behind.',
  ['inputs', 'configurations'],
  'every source, containing any subset of valid, unsupported and malformed '
  'zones, policies and links, under every scope and include list',
  'Removal paths and the include list have no tests at all.',
  [TR, EX, TZ, GP, GA, GC, GJ, GZ],
  [('removal bookkeeping', TR + ':merge_comments/add_comment at each filter'),
   ('count check', TR + ':_verify_zones_and_links_count'),
   ('include filters', TR + ':_filter_include_zones,_filter_include_links')],
  ['zonedb.json', 'Unsupported zones/policies/links sections', 'zones.txt'])

p('C04', 'Every emitted database is structurally sound',
  'In every emitted database each zone has at least one era, its eras have '
  'strictly increasing valid UNTIL dates and the last never ends (a zone whose '
  'UNTIL years decrease in the source is not emitted); every policy '
  'begins with exactly one anchor rule at minus infinity with zero DST, so '
  'some rule applies in any year; every policy reference resolves, every '
  'emitted policy is used, and every link targets an emitted zone.',
  ['inputs', 'configurations'],
  'every source and window, including windows before, inside and after the '
  'data, and all combinations of removals that cascade between maps',
  'Invariants relate several passes over several maps; the tests call no '
  'pass.',
  [TR, GP, GA, GC, GG],
  [('verification passes', TR + ':_verify_rules_have_anchors,'
    '_verify_zones_until_year,_verify_policies_from_year'),
   ('cascade removal', TR + ':_remove_zones_without_rules,'
    '_remove_links_to_missing_zones,_remove_unused_policies'),
   ('monotonic eras', TR + ':_remove_zones_with_non_monotonic_until')],
  ['all emitted artifacts'])

p('C05', 'Extraction reads every source line with its TZDB meaning',
  'Reading the region files yields exactly the rules, eras and links that the '
  'TZDB grammar defines for them, in source order, for every arrangement of '
  'Rule, Zone, continuation, Link, comment and blank lines, any white space, '
  'trailing comments, and every legal spelling of month, year, day, time and '
  'suffix. Comment text never becomes data and no line affects the meaning of '
  'another record.',
  ['inputs', 'histories'],
  'every sequence of source lines and every spelling of each field',
  'test_extractor checks three helper functions on about ten literals; the '
  'line-level state machine is not run.',
  [EX],
  [('line state machine', EX + ':_parse_zone_file,_read_line'),
   ('line parsers', EX + ':_process_rule_line,_process_zone_line,'
    'parse_at_time_string,month_to_index')],
  ['zonedb.json zones_map/policies_map/links_map'])

p('C06', 'Granularity: strict removes, nostrict truncates toward zero, noted',
  'Under --strict no emitted time, offset or DST value differs from its source '
  'value, and exactly those zones or policies with a value off the configured '
  'granularity are removed with a reason. Under --nostrict such values are '
  'truncated toward zero to the granularity, everything on the granularity is '
  'unchanged, and each zone or policy with a truncated value is noted.',
  ['inputs', 'configurations'],
  'every UNTIL, AT, STDOFF, RULES and SAVE value (either sign) and every '
  'granularity setting and scope',
  'Only truncate_to_granularity itself is tested, on a few integers.',
  [TR, TZ],
  [('truncation', TR + ':truncate_to_granularity,div_to_zero'),
   ('strict filters', TR + ':_create_zones_with_expanded_until_time,'
    '_create_zones_with_expanded_offset_string,'
    '_create_zones_with_rules_expansion,_create_rules_with_expanded_at_time,'
    '_update_rules_with_expanded_delta_offset'),
   ('scope defaults', TZ + ':main')],
  ['zonedb.json', 'emitted tables'])

p('C07', 'Arduino and C tables encode each record losslessly and in range',
  'Decoding the emitted Arduino and C tables (packed time codes, remainders, '
  'suffix modifiers, DST nibbles, tiny years, letter and format strings, era '
  'and rule counts and references) gives back exactly the eras and rules of '
  'the compiled database, for every scope. No emitted number exceeds the '
  'storage of its field; a value the format cannot hold makes the compile fail '
  'or the item be removed with a reason.',
  ['inputs', 'configurations'],
  'every value of every field up to and beyond its encoding limits, every '
  'scope and language',
  'Generators are never run by the tests.',
  [AR, GA, GC, TR],
  [('packing', AR + ':_to_encoded_time_minutes,_to_encoded_time_seconds,'
    '_process_rules_delta,_process_eras_stdoff_delta'),
   ('emission', GA + ',' + GC)],
  ['zone_infos.{cpp,c}', 'zone_policies.{cpp,c}'])

p('C08', 'Go tables encode each record losslessly and in range',
  'Decoding the emitted Go byte strings with their offset tables gives back '
  'exactly the zones, eras, policies, rules, names, letters, formats, ids and '
  'link targets of the compiled database, with records sorted by id, and the '
  'companion unpacked test records say the same. A database that exceeds an '
  'offset, index or count field makes the compile fail instead of wrapping.',
  ['inputs', 'configurations'],
  'every value of every field and every table size up to and beyond the '
  'limits of the 8- and 16-bit offsets and indexes',
  'Only write_i8..write_u32 are unit-tested on a few values.',
  [GO, GG, BY],
  [('offset tables and limits', GO + ':_collect_*_strings,transform'),
   ('record packing', GG)],
  ['zone_infos.go', 'zone_policies.go', 'zone_registry.go', '*_test.go'])

p('C09', 'All outputs of one compile describe the same database',
  'The Python, C, Arduino, Go, JSON and zone-list outputs and the in-memory '
  'database handed to the buffer-size estimator contain the same zones, links, '
  'policies, eras and rules with the same field values for the same input and '
  'flags, wherever the output language does not itself limit the field. The '
  'Python modules are valid, self-contained modules whose registries hold '
  'exactly the emitted zones and links.',
  ['inputs', 'configurations'],
  'every source and window; every choice of output language',
  'No test produces any output.',
  [GP, GJ, GZ, ZI, GA, GC, GG],
  [('one transformed database feeds all generators', TZ + ':main'),
   ('inliner', ZI)],
  ['all output files', 'argument of ZoneProcessor'])

p('C10', 'Identifiers are stable hashes and registries are complete and sorted',
  'The id of every zone and link, in every output, is the 32-bit djb2 hash of '
  'its own full name and nothing else, and is unique in the '
  'database. Each zone registry lists exactly the emitted zones, each '
  'zone-and-link registry exactly the emitted zones and links, sorted by '
  'ascending id (a binary search over it finds every entry), and a link entry '
  'leads to its target zone.',
  ['inputs', 'configurations'],
  'every set of zone and link names, in every source order, for every language '
  'and scope',
  'hash_name is tested on three strings; registries are never generated.',
  [TR, GA, GC, GG, GP, AR, GO],
  [('hash', TR + ':hash_name,_generate_zone_ids,_generate_link_ids'),
   ('sorting', GO + ':_generate_zone_and_link_index_map and the registry '
    'writers')],
  ['zone_registry.*', 'kZoneId constants', 'zonedb.json zone_ids/link_ids'])

p('C11', 'Name compression is lossless',
  'Expanding the keyword bytes of every emitted compressed zone or link name '
  'with the emitted fragment table gives back the exact name, the table is '
  'used only for whole path components, indexes stay below the printable '
  'range, and with compression off the names are emitted verbatim.',
  ['inputs', 'configurations'],
  'every set of zone and link names: any component repetition count, depth '
  'and length around the thresholds, up to the fragment-count limit',
  'Compression is untested (only the escaping of one C string is).',
  [AR, GA, GC],
  [('fragment selection', AR + ':_generate_fragments,_extract_fragments'),
   ('substitution', AR + ':_compress_name'),
   ('escaping', GA + ':compressed_name_to_c_string')],
  ['zone_infos.{cpp,c} names and kFragments', 'zonedb.json compressed_names'])

p('C12', 'Output is a function of the source content, not of its order',
  'Compiling the same TZDB content with the same flags gives the same output '
  'files (apart from the recorded command line and the key order of JSON '
  'objects), whatever the order of the zones, policies, links, region files '
  'and include-list lines, whatever the hash seed of the process, and however '
  'often it is repeated.',
  ['inputs', 'configurations', 'schedules'],
  'every permutation of top-level records and region files, every process '
  'hash seed',
  'A test run fixes one order and one hash seed (PYTHONHASHSEED=0).',
  [EX, TR, AR, GO, CM, AT, GA, GC, GG, GP],
  [('sorted emission', 'sorted() in generators and _sort_comments')],
  ['all output files'])

p('C13', 'Zones do not interfere with each other',
  'The eras, rules, id and notes emitted for a zone depend only on that '
  "zone's own source lines, the policies it names and the flags: adding, "
  'removing or breaking other zones, policies or links, or naming it in an '
  'include list, never changes them. Compiling a database equals compiling its '
  'zones one at a time and taking the union.',
  ['inputs', 'histories'],
  'every subset of a set of zones that share policies, names and fragments',
  'Interference needs whole compiles of several related inputs.',
  [TR, EX, CM, GP],
  [('per-zone filters over shared policy maps', TR)],
  ['zonedb.json', 'python modules'])

p('C14', 'Basic scope keeps exactly the zones its processor supports',
  'In basic scope a zone is emitted exactly when no era in the window ends at '
  'an UNTIL with month, day, time or non-wall suffix or uses a fixed DST '
  'offset, and each of its policies has, for the window, at least one rule, '
  'no two transitions in one month and no transition on January 1; every '
  'exclusion is listed with its reason, and links follow their zones.',
  ['inputs', 'configurations'],
  'every combination of era and rule features inside and outside the window',
  'No test selects any scope.',
  [TR],
  [('basic filters', TR + ':_remove_zone_with_non_simple_until_year,'
    '_remove_policies_multiple_transitions_in_month,'
    '_remove_policies_with_border_transitions,'
    '_remove_zones_invalid_until_time_suffix')],
  ['zonedb.json zones_map and removed_zones', 'zone_infos.cpp'])

p('C15', 'Buffer-size estimates are the true maxima over the checked years',
  'For every zone the reported buffer size is the maximum transition-buffer '
  'size the zone processor reports over all years checked, with the earliest '
  'year where it occurs; the database maximum is the maximum over zones, and a '
  'maximum above the supported limit fails the compile unless explicitly '
  'ignored. The scan covers every year from one before to one after the '
  'requested and generated range and stops early only once the processor has '
  'called the year two before it terminal.',
  ['inputs', 'configurations', 'histories'],
  'every answer sequence of the zone processor (sizes and terminal flags per '
  'year) and every year range',
  'The estimator needs the external acetime package and is not tested.',
  [BE, ZI, TZ],
  [('year scan', BE + ':_find_max_buffer_sizes,_calculate_buf_sizes_per_zone'),
   ('limit', BE + ':BufSizeEstimator.transform')],
  ['zonedb.json buf_sizes,max_buf_size,estimator_*', 'calls to ZoneProcessor',
   'kZoneBufSize constants'])

p('C16', 'Tiny years round-trip or saturate without changing meaning',
  'For every base year, a year within range is emitted as the signed 8-bit '
  'distance from the base and decodes to itself, years beyond it saturate to '
  'the minus or plus infinity code of their kind (rule year or UNTIL year), '
  'the four infinity and invalid values map to their own reserved codes, and '
  'the mapping is monotonic. A requested start or until year that does not fit '
  'is refused.',
  ['inputs', 'configurations'],
  'every 16-bit year and every base year',
  'Tests check about a dozen (year, base) pairs.',
  [TR, GA, GC, TZ],
  [('mapping', TR + ':to_tiny_from_to_year,to_tiny_until_year,is_year_tiny')],
  ['zone_infos.cpp/zone_policies.cpp year fields and baseYear'])

p('C17', 'ON and UNTIL day expressions select the TZDB day',
  'Every day expression (a number, lastDow, Dow>=n, Dow<=n) resolves to the '
  'day TZDB defines in every year and month, including shifts into an adjacent '
  'month, and an UNTIL day is emitted as that exact date. A shift across a '
  'year boundary, or text that is not a day expression, is never emitted as '
  'some other date: the zone or policy is refused or removed with a reason.',
  ['inputs'],
  'every (year, month, day expression): all years 1800..2200, 12 months, 7 '
  'weekdays, all day numbers',
  'Tests sample about a dozen dates.',
  [TR],
  [('resolution', TR + ':calc_day_of_month,_parse_on_day_string,'
    '_days_in_month'),
   ('guards', TR + ':_create_rules_with_on_day_expansion,'
    '_create_zones_with_until_day')],
  ['zonedb.json until_*, on_day_*', 'emitted UNTIL fields'])

p('C18', 'Time strings convert exactly or are rejected',
  'Every TZDB time text [-]h[:mm[:ss]] with at most 25 hours, with every suffix, is '
  'converted to exactly its number of seconds wherever it appears (STDOFF, '
  'RULES, UNTIL, AT, SAVE). Text that is not such a time is never converted '
  'to a number: the conversion reports it as invalid and the zone or policy '
  'using it is removed with a reason or refused.',
  ['inputs'],
  'every time value to the second and every malformed text over the alphabet '
  'of digits, colon, sign and suffix letters up to a bounded length',
  'Tests sample about ten strings.',
  [TR, EX],
  [('conversion', TR + ':time_string_to_seconds'),
   ('suffix', EX + ':parse_at_time_string')],
  ['zonedb.json *_seconds', 'return value'])

p('C19', 'Byte writers round-trip every value and refuse every other',
  'Writing any integer within the range of a 1-, 2- or 4-byte signed or '
  'unsigned field produces exactly its little-endian two\'s-complement bytes '
  '(appended, nothing else touched), and any integer outside that range is '
  'refused. The hexadecimal rendering of bytes decodes back to the same '
  'bytes.',
  ['inputs'],
  'every 8- and 16-bit value, and every 32-bit value at and around each bit '
  'boundary; all sequences of writes up to a depth',
  'Tests write one or two values per width.',
  [BY],
  [('range checks and shifts', BY + ':write_i8,write_u8,write_i16,write_u16,'
    'write_i32,write_u32,hex_encode')],
  ['byte arrays', 'go data strings'])

p('C20', 'Shell drivers never delete or overwrite what they did not create',
  'Whatever files and directories exist beforehand, whatever the paths are '
  'called, and whichever step of the run fails or is killed, tzcompiler.sh and '
  'copytz.sh delete only the temporary copy that this run created, never '
  'modify the source repository, refuse to run over an existing destination, '
  'and report failure with a non-zero status.',
  ['fault_sequences', 'crash_points', 'configurations', 'histories'],
  'every initial directory state, option combination and failing step, and '
  'histories of repeated runs',
  'The scripts have no tests.',
  ['tzcompiler.sh', 'copytz.sh'],
  [('existence guard', 'copy_tzfiles'), ('EXIT trap', 'clean_tzfiles')],
  ['file tree before and after', 'exit status'])

p('C21', 'Command-line options mean what they document',
  'Each option has exactly its documented effect: scope selects its default '
  'granularities, encoding and minimum start year, explicit granularity '
  'options override those defaults, actions and languages select exactly the '
  'files written, and every documented combination of scope, action, language '
  'and flag either runs to completion on valid data or is refused with a '
  'message before any file is written. Unknown values are refused.',
  ['configurations'],
  'every combination of actions, languages, scope, strictness, compression, '
  'estimator, namespace and granularity options, and boundary years',
  'main() is never run by a test.',
  [TZ, GA, GC, GG, GP],
  [('argument handling', TZ + ':main'),
   ('generator selection', TZ + ':generate_zonedb')],
  ['set of files written', 'zonedb.json settings', 'exit status'])

p('C22', 'Notes and removal reasons reach the user complete and in place',
  'Every reason recorded for a removed or notable zone, policy or link appears '
  'in the JSON and in the matching section of every generated source file, '
  'under its own name, sorted, once; the notes of a policy are merged into '
  'those of exactly the emitted zones that use it. No text coming from the '
  'source data can end the comment it is placed in or otherwise become code.',
  ['inputs', 'configurations'],
  'every combination of noted zones and policies, sharing of policies between '
  'zones, and removal reasons; every language',
  'Commenter and comment rendering are untested.',
  [CM, TR, GP, GA, GC, AT],
  [('merge', CM + ':_create_merged_comments_map'),
   ('rendering', 'render_comments_map/render_merged_comments_map in '
    'generators')],
  ['zonedb.json merged_notable_zones', 'comment sections of generated files'])

p('C23', 'Headers, counts and metadata agree with the emitted data',
  'Every count, size, year range, version, flag and memory figure printed in '
  'the headers, section titles, context objects and JSON equals the value '
  'recomputed from the records actually emitted and the options given.',
  ['inputs', 'configurations'],
  'every database size and composition, scope, language and option set',
  'No output is produced by tests.',
  [GA, GC, GG, GP, GZ, AR, GO, AT, TR],
  [('counts', AT + ':create_zone_info_database'),
   ('memory', AR + ':_generate_memory_map; ' + GO + ':_generate_memory_map')],
  ['file headers', 'kZoneContext', 'zonedb.json'])

p('C24', 'Ambiguous or unsupported name structures are refused, never emitted',
  'A source in which two zones or links share an id, two zones, links or '
  'policies would become the same generated symbol, or a link points to a '
  'link, makes the compile fail before any file is written. Every other set of '
  'names compiles, and distinct names always yield distinct symbols in every '
  'language.',
  ['inputs'],
  'every assignment of names from a colliding and non-colliding pool to '
  'zones, links, link targets and policies',
  'The detectors are not tested.',
  [TR, GA, GC, GG, GP],
  [('detectors', TR + ':_detect_links_to_links,_detect_hash_collisions,'
    '_detect_zones_and_links_with_similar_names'),
   ('symbols', TR + ':normalize_name')],
  ['exit of main', 'symbols in generated files'])

p('C25', 'A compile depends only on its own input, not on earlier compiles',
  'Running any sequence of compiles in one process, with any mixture of '
  'inputs, options and failures, gives for each the same files as running it '
  'alone in a fresh process, and asking for several languages or actions at '
  'once gives the same files as asking for each on its own.',
  ['histories', 'configurations'],
  'every sequence of compiles up to a depth and every subset of languages and '
  'actions',
  'Needs several whole compiles; none is run by tests.',
  [TZ, TR, AR, GO, EX],
  [('fresh state per run; transformers that mutate shared maps in place',
    TZ + ':main')],
  ['all output files'])

p('C26', 'Emitted source files compile, link and load, and mean what they say',
  'The Arduino, C and Python files of a successful compile are accepted by '
  'their language (no error, no missing or doubled declaration, headers usable '
  'alone and in any order, several databases in one program), every symbol a '
  'header declares is defined once, and the values, strings and links a '
  'program reads through the public tables are those of the compiled database.',
  ['inputs', 'configurations'],
  'every combination of zone kinds, names, strings, links, scopes, languages, '
  'namespaces and databases linked together',
  'No emitted file is ever compiled or imported by tests.',
  [GA, GC, GP, AR, GO, TZ],
  [('header guards, externs, registries, strings', GA + ':generate_files; ' +
    GC + ':generate_files'), ('python module', GP + ':generate_files')],
  ['zone_infos.h', 'zone_infos.cpp', 'zone_policies.h', 'zone_registry.cpp',
   'zone_infos.py'])

p('C27', 'Notable remarks state exactly the irregularities of what is emitted',
  'For every emitted zone and policy, the notable list has a remark for each '
  'emitted STDOFF off the quarter or half hour, UNTIL or AT time off the '
  'quarter hour, untruncated UNTIL, AT, SAVE or fixed RULES value with '
  'seconds, negative or unusual (neither 0 nor 1:00) DST, LETTER of several '
  'letters, FORMAT of a policy era that cannot vary, UNTIL day that moves to '
  'another month and run of eras removed at the end, quoting its source text; '
  'and no such remark about anything that is not so, or is not emitted.',
  ['inputs', 'configurations'],
  'every combination of regular and irregular values in every field, with '
  'eras and rules in and out of the window, every scope and granularity',
  'No remark is examined by tests.',
  [TR],
  [('remarks', TR + ':add_comment calls on notable_zones, notable_policies')],
  ['zonedb.json notable_zones, notable_policies'])

p('C28', 'A compile whose file operations fail reports failure and harms nothing',
  'If any region file or the include list is missing or cannot be read or '
  'decoded, or any output file cannot be created or completely written, the '
  'compile fails (it never reports success with files missing, cut or made '
  'from part of the source), and unreadable input leaves no output. No run '
  'changes its inputs or any file other than those of its languages and '
  'actions in the output directory, and what the output directory contained '
  'before never changes what is written.',
  ['fault_sequences', 'inputs', 'histories'],
  'every input and output file, pair of output files, number of bytes that '
  'can be written, and prior state of the output directory',
  'No file operation of the compiler is run by tests, let alone a failing one.',
  [TZ, EX, GA, GC, GG, GP, GZ],
  [('reading', EX + ':parse'), ('writing', '_write_file and generate_files of '
    'each generator')],
  ['exit of main, input and output directories'])

p('C29', 'Every field of the JSON database is its documented function of the source',
  'In zonedb.json every emitted era and rule carries the text of its source '
  'line and, for each time, offset and DST field, the exact value in seconds, '
  'the value truncated toward zero to the granularity, and the codes, '
  'remainders, modifiers and tiny years that the data dictionary derives from '
  'it; every index map (letters, formats, fragments, names, Go offsets, zones '
  'to policies) holds exactly the strings in use at their sorted positions.',
  ['inputs', 'configurations'],
  'every value of every field, combinations of fields and granularities, '
  'windows that cut eras and rules, each language and scope',
  'Tests look at no JSON database; the encodings are compared for a few values.',
  [TZ, TR, AR, GO, EX],
  [('record fields', 'datatypes/attyping.py:ZoneRuleRaw, ZoneEraRaw'),
   ('derivations', TR + ':_create_*; ' + AR + ':_process_*; ' + GO +
    ':_generate_*')],
  ['zonedb.json'])

p('C30', 'Comments that explain emitted values are true of those values',
  'In every generated Arduino, C, Go and Python file each comment that labels, '
  'decodes, names or quotes a value beside it (field labels in record order, '
  'decoded years, offsets, times and DST, letters, formats, names, policies, '
  'indexes, ids, link targets, year of the largest buffer, source line of each '
  'era and rule) is true of that very value.',
  ['inputs', 'configurations'],
  'every value of every field, language, scope and granularity, windows that '
  'cut eras and rules, links',
  'Tests read no generated file; a wrong explanation breaks no test.',
  [GA, GC, GG, GP],
  [('labels and notes', GA + ':_generate_era_item; ' + GC +
    ':_generate_era_item; ' + GG + ':_generate_era_items_string'),
   ('source lines', 'raw_line in every generator')],
  ['zone_infos.*', 'zone_policies.*', 'zone_registry.*', '*_test.go'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'properties.jsonl')
with open(path, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
