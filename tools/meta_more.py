ALLF = [U, NO, S, 'src/unicode/hangul.rs', 'src/collections.rs'] + [P + x for x in ('dm.rs', 'na.rs', 'gc.rs', 'gcb.rs', 'ccc.rs', 'derived_props.rs', 'normalization_props.rs')]
prop('P01', 'Every answer depends on its argument alone, not on earlier calls',
     'Whatever calls the program has made before, in whatever order and number and on whatever texts and code points, every call of the library returns what it returns as the first call of a fresh process, from whichever thread, and whatever surrounds it (environment variables, time, files, random bytes, processors, locale). Calls never consume or leave behind state: no cache, counter or buffer inside the library can be observed through its answers.',
     ['histories', 'inputs'], 'all histories of calls followed by any call',
     'Each unit test makes a handful of calls in a fresh process and in one fixed order; an answer that depends on a particular earlier call is met only by that history.',
     ALLF, [('every method of Ucd', U), ('Normalization and BreakGraphemes for str', U)],
     'explicit exploration of call histories from the initial process state (forked), differential against the first answer of a fresh process',
     'All histories within the bounds of the evidence rule: all pairs over a covering set, sweeps over the code space in several orders, triples of texts, long histories of distinct texts.',
     'exploration', ['the return value of every public call'])
prop('P02', 'Any number of threads may use the library at once',
     'Calls made at the same time from several threads, in any interleaving, return what each returns alone, and never deadlock or race on shared memory. The first calls of a process may be concurrent too.',
     ['schedules'], 'all interleavings of concurrent calls, first calls of the process included',
     'The test harness runs the tests on a few threads under whatever schedule the machine happens to give; no test forces an interleaving.',
     ALLF, [('every method of Ucd', U), ('Normalization and BreakGraphemes for str', U)],
     'stateless model checking of the real code: preemption-bounded exploration of all schedules under a controlled scheduler, reduced by recorded memory footprints, with a happens-before race monitor',
     'Operations that share no written memory are covered by commutation, which rests on the complete recording of their memory accesses; executions are sequentially consistent.',
     'exploration', ['the return value of every public call'])
G = 'tools/ucd-tool/'
GC = G + 'ucd/collections/'
GT = 'The generator has no tests at all; the library tests only see the tables it once wrote.'
prop('T01', 'A generated two-stage table says exactly what its data says',
     'For every ascending list of disjoint ranges with values, every list of missing-value ranges, every default and every block size that divides the code space, the table the generator makes (TwoStageTable.make, to_seshat) compiles and gives for every code point the value of its range, else the last missing value that covers it, else the default. Index types are wide enough, and select_minimal_tst returns a table no larger than any of its candidates.',
     INP + CFG, 'all range data, missing lists, block sizes and output options', GT, [GC + 'two_stage_table.py', G + 'ucd-tool.py'],
     [('TwoStageTable.make, add_char, to_seshat, table_bytes', GC + 'two_stage_table.py'), ('select_minimal_tst', G + 'ucd-tool.py')],
     'bounded exhaustive enumeration of all labellings of a small code space run through the real generator, its output read back and compiled; reference labelling as oracle',
     'Exhaustive within the bounds of the evidence rule. The code-space constant of the generator is replaced by a small one in the loaded code; cases on the real code space are run besides.', 'exploration', ['the emitted Rust text'])
prop('T02', 'Code point ranges, missing values and data readers keep every range and value',
     'A code point range holds exactly the code points from start to end, prints and parses back, rejects reversed ends, orders disjoint ranges, and can be iterated any number of times, nested or at once. A missing-value list answers the last appended range that holds a code point. The readers (make_data, make_grouped_data, patch_data, to_age_data, data_value_as_abbr*) return every range of the file once, ascending, with the right short value.',
     INP + ['histories'], 'all ranges, all sequences of appended missing ranges, all orders of the data file', GT, [GC + 'code_point_range.py', GC + 'missing.py', G + 'ucd-tool.py'],
     [('CodePointRange', GC + 'code_point_range.py'), ('Missing.default_value_for', GC + 'missing.py'), ('make_data, patch_data, data_value_as_abbr', G + 'ucd-tool.py')],
     'bounded exhaustive enumeration of ranges, append sequences and data files on the real code', 'Exhaustive within the bounds of the evidence rule.', 'exploration', ['the values the classes and readers return'])
prop('T03', 'Regenerating from the data gives a library with the same answers',
     'Running the generator scripts on the Unicode 15.1 data in the repository, and building the library from the files they write, gives a library that answers every property of every code point, every value name and every normal form exactly as the committed library does. The regenerated test-case files hold the committed cases.',
     CFG + INP, 'all properties of all 1,114,112 code points of the regenerated library', 'No test runs the generator or compares the committed tables with the data.',
     [G + 'ucd-tool.py', GC + 'two_stage_table.py', P + 'gc.rs', P + 'na/na_table.rs', P + 'dm/dm_map.rs', P + 'emoji_props.rs', G + 'data/15.1.0/UnicodeData.json'],
     [('the main program', G + 'ucd-tool.py'), ('generated tables', 'src/unicode/ucd/*.rs')],
     'complete enumeration of the code space on two builds of the real code (committed, and regenerated by the real generator), answers compared', 'Complete for single code points. gen-json-data.py is left to T05.', 'exploration', ['every public answer of the two builds'])
prop('T04', 'The generated lists and maps hold exactly what their data files hold',
     'For every data file, the emitted binary properties answer true exactly for the listed code points; the name map holds every listed name outside the ranges of derived names; the decomposition map holds every mapping with its tag removed, and the reversed map exactly the canonical ones, both sorted for searching; the exclusion list is the listed code points. The enum, name and test-case scripts write each entry once and completely.',
     INP, 'all data files of the kinds the generator reads', GT, [G + 'ucd-tool.py', G + 'gen-sc-name.py', G + 'gen-blk-name.py', G + 'gen-sc-enum.py', G + 'gen-blk-enum.py', G + 'gen-grapheme-break-test.py', G + 'gen-normalization-test.py'],
     [('binary_props_rs, na_table_rs, dm_map_rs, ce_rs', G + 'ucd-tool.py')],
     'bounded exhaustive enumeration of small data files run through the real emitters, the emitted Rust compiled and queried', 'Exhaustive within the bounds of the evidence rule.', 'exploration', ['the emitted Rust text, compiled'])
prop('T05', 'Preparing the data writes every file from its own source, whatever came before',
     'Whenever gen-json-data.py runs to its end with a working converter, every data file of the version holds the whole conversion of its own source (the missing-value file that of --missing), whatever files and directories existed before and wherever earlier runs were interrupted or their converter failed; nothing else is changed. The converter used is the one of the last UCD_JSON_DIR line of .env, else of the environment; comment lines, blank lines, other settings and unusual characters in the path do no harm; with no setting it stops with an error and writes nothing.',
     CFG + ['histories', 'fault points'], 'all settings files, prior states of the data directory and interruption points', GT, [G + 'gen-json-data.py'],
     [('load_env, main program', G + 'gen-json-data.py')],
     'explicit exploration of all crash points, prior states and settings up to a bound on the real script, with a recording stand-in for the converter',
     'Exhaustive within the bounds of the evidence rule. The converter ucd-json is a stand-in (the real one is not available).', 'fault_enumeration', ['the data directory after each run', 'exit code', 'which converter ran'])
prop('T06', 'Generating from any data gives a library that answers what the data says',
     'For every version of the data files (entries added, removed, moved, split, joined, exchanged, listed in another order; a file with a single entry; values at the ends of the code space), running the generator and building the library from the files it writes gives a library whose general category, block, script, age, bidi class, combining class, decomposition type and mapping, break classes, syllable classes, names, exclusions, PropList and emoji properties are, for every code point, exactly those of the data files, with the documented defaults for what they do not list.',
     INP + CFG, 'all versions of the data files, all 1,114,112 code points', GT, [G + 'ucd-tool.py', GC + 'two_stage_table.py', GC + 'missing.py', 'src/collections.rs', P + 'na.rs', P + 'dm.rs'],
     [('the main program', G + 'ucd-tool.py'), ('the lookups', 'src/collections.rs')],
     'explicit enumeration of edited data worlds, each run through the real generator and the real build; complete enumeration of the code space on the library made from it against a naive labelling of the data files',
     'Complete over the code space for each world; the worlds are the product of the edit kinds of the evidence rule with every file, not all data. Values are those the value enums already have.', 'exploration', ['every public answer of the library built from the generated files'])
