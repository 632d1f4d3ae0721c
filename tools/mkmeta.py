#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/unicode/seg.rs'; U = 'src/unicode.rs'; NO = 'src/unicode/normalization.rs'; P = 'src/unicode/ucd/'
PR = 'src/unicode/props.rs'
NORMF = [NO, U, P + 'dm.rs', P + 'dm/dm_map.rs', P + 'ccc.rs', P + 'dt.rs', P + 'ce.rs', P + 'normalization_props.rs', 'src/unicode/hangul.rs']
SEGF = [U, S, P + 'gcb.rs', P + 'emoji_props.rs', P + 'derived_props.rs', P + 'insc.rs']
INP, CFG = ['inputs'], ['configurations']
NT = 'The repository checks the published NormalizationTest lines of Unicode 15.1; strings outside that file (long texts, several segments, mixed marks, unlisted pairs) are never run.'
PT = 'The properties test needs an XML file that is not in the repository and fails without it, so only a few hand-picked characters are checked; the statement is about all 1,114,112 code points.'
ST = 'The repository runs the published GraphemeBreakTest lines (short strings of two to four characters mostly); the statement is about every string.'
P_ = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='exploration', observe=None, hook=None, cmd=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P_.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                   technique=technique, note=note, level=level, observe=observe or [], hook=hook, cmd=cmd, state=state or []))


TRUST = ' Trusts the frozen oracle data (/verif/oracle, taken from ICU 74 = Unicode 15.1 and cross-checked with the UCD JSON of the repository) and the compiler.'
BND = 'Exhaustive within the bounds printed in the evidence rule; nothing is said about strings outside them, although the alphabets hold one member of every class the algorithm distinguishes.' + TRUST

prop('S01', 'Grapheme clusters are those of UAX #29 for Unicode 15.1',
     'For every string, iterating its grapheme clusters breaks exactly where the extended grapheme cluster rules of UAX #29 (Unicode 15.1: GB1 to GB13 with GB9c, and GB999) put a boundary, and nowhere else. The answer depends on the whole context the rules need (emoji ZWJ sequences, regional indicator pairs, Indic conjuncts, Hangul) at any length.',
     INP, 'all strings: every sequence of break classes, every member of each class, any length', ST, SEGF,
     [('BreakGraphemes::next, the loop over character pairs', U), ('rules GB3 to GB9b', S), ('Grapheme_Cluster_Break and Indic_Conjunct_Break data', P + 'gcb.rs, ' + P + 'derived_props.rs')],
     'bounded exhaustive enumeration of all class strings run on the real iterator against an explicit automaton of UAX #29 explored to its fixed point',
     'Every class string up to the bound, every scalar value in a set of contexts covering all rule sides, and pumped cycles. ' + BND, 'model_checking', ['the items yielded by str.break_graphemes()'])
prop('S02', 'Breaking into grapheme clusters loses nothing and terminates',
     'For every string the grapheme iterator ends, yields only non-empty slices that lie in the string one after the other at character boundaries, and their concatenation is the string. It never panics, the empty string yields nothing, and after the end it stays ended.',
     INP, 'all strings, unassigned and control characters included', ST, SEGF,
     [('BreakGraphemes::next: the slice is cut at the found index', U)],
     'bounded exhaustive enumeration of strings on the real iterator, with an invariant monitor on every item',
     BND, 'exploration', ['the items yielded by str.break_graphemes()'])
prop('S03', 'A grapheme boundary is a fresh start: breaking the rest gives the rest',
     'For every string and every boundary the iterator reports in it, breaking the part after the boundary on its own yields exactly the remaining clusters, and a cluster taken alone is a single cluster. Two iterators over the same text, or one resumed after pauses, yield the same clusters.',
     INP + ['histories'], 'all strings, all of their boundaries, all interleavings of two iterators', ST, SEGF,
     [('BreakGraphemes keeps only the rest of the text between calls', U)],
     'bounded exhaustive enumeration of strings x boundaries on the real iterator (differential: suffix run against whole run)',
     BND, 'exploration', ['the items yielded by str.break_graphemes()'],
     state=[('BreakGraphemes.slice', 'the text not yet broken', U)])
for id, f, long in [('N01', 'NFD', 'canonical decomposition'), ('N02', 'NFC', 'canonical decomposition followed by canonical composition'),
                    ('N03', 'NFKD', 'compatibility decomposition'), ('N04', 'NFKC', 'compatibility decomposition followed by canonical composition')]:
    prop(id, '%s is the Unicode 15.1 %s' % (f, f + ' of every string'),
         'For every string, the %s result is the %s that the Unicode 15.1 standard defines (sections 3.6, 3.7, 3.11 and 3.12, full recursive mappings, canonical ordering%s). The call always returns.' % (
             f, long, ', composition exclusions, blocking, Hangul' if 'C' in f else ', Hangul'),
         INP, 'all strings: every character, in every context of marks and starters, at any length', NT, NORMF,
         [('%s()' % f.lower(), NO), ('canonical_ordering', NO)] + ([('canonical_composition, blocked', NO), ('rdm', P + 'dm.rs')] if 'C' in f else [('canonical_decomposition / compatibility_decomposition', NO)]),
         'bounded exhaustive enumeration of strings on the real code against an executable reference of the Unicode normalization algorithm',
         'The reference was itself compared with ICU 74 on 9.1 million strings without a difference. ' + BND, 'exploration', ['str.to_%s()' % f.lower()])
prop('N05', 'The four normal forms obey the algebra of UAX #15',
     'For every string each normal form is idempotent, NFD and NFC (and NFKD and NFKC) determine each other, the K forms absorb the canonical ones, and each result is well formed (fully decomposed or fully composed, marks in canonical order). For every string and every position, normalizing the concatenation of two parts equals normalizing the concatenation of the normalized parts.',
     INP, 'all strings, all split positions', NT, NORMF, [('nfd, nfc, nfkd, nfkc', NO), ('canonical_composition', NO)],
     'bounded exhaustive enumeration of strings and split points on the real code; algebraic oracle', BND, 'exploration', ['str.to_nfd(), to_nfc(), to_nfkd(), to_nfkc()'])
prop('N06', 'Canonically equivalent strings normalize to the same result',
     'Replacing a character by its canonical decomposition, composing a pair back, or exchanging two adjacent marks of different non-zero combining classes never changes any of the four normal forms. NFD and NFC of a string are themselves canonically equivalent to it.',
     INP, 'all strings, all sequences of such rewriting steps', NT, NORMF, [('canonical_decomposition', NO), ('canonical_ordering', NO), ('canonical_composition', NO)],
     'explicit-state search of the rewriting graph of canonical equivalence, the four real normal forms evaluated in every state',
     'All states of the equivalence class of each seed are visited (classes cut by the cap are counted in the evidence). ' + BND, 'model_checking', ['str.to_nfd(), to_nfc(), to_nfkd(), to_nfkc()'])
prop('N07', 'Hangul decomposition and composition follow the arithmetic of section 3.12',
     'All 11,172 Hangul syllables decompose into their L V (T) jamo and compose back, by arithmetic, and their names, syllable types and decomposition mappings agree with it. Jamo outside the composing ranges, and an LVT syllable followed by a trailing consonant, never compose.',
     INP, 'all 11,172 syllables and all jamo triples around the edges of the composing ranges',
     'The tests contain a handful of syllables.', ['src/unicode/hangul.rs', P + 'dm.rs', P + 'na.rs', P + 'hst.rs', P + 'jsn.rs'],
     [('arithmetic_decomposition_mapping, arithmetic_primary_composite_mapping(_lv_t)', 'src/unicode/hangul.rs'), ('rdm, Hangul branches', P + 'dm.rs')],
     'complete enumeration of the syllables and of the jamo cube on the real code', 'Complete for the syllables; the jamo cube covers the conjoining jamo block edges.' + TRUST, 'exploration', ['to_nfd, to_nfc, dm, hst, na'])
D = [
    ('U01', 'General_Category of every code point', 'For every code point, unassigned and surrogate ones included, the general category is the one of Unicode 15.1.', ['gc.rs'], 'gc'),
    ('U02', 'Bidi_Class of every code point', 'For every code point, unassigned and surrogate ones included, the bidirectional class is the one of Unicode 15.1, the defaults of unassigned ranges included.', ['bc.rs'], 'bc'),
    ('U03', 'Canonical_Combining_Class of every code point', 'For every code point the canonical combining class is the one of Unicode 15.1, and its numeric value is that of the class; every class has its number, also those no code point has.', ['ccc.rs'], 'ccc'),
    ('U04', 'Decomposition type, mapping and composition exclusion of every code point', 'For every code point the decomposition type, the decomposition mapping (Hangul syllables by arithmetic, everything without one empty), Composition_Exclusion and Full_Composition_Exclusion are those of Unicode 15.1. The questions are answered for every code point, surrogates included.', ['dt.rs', 'dm.rs', 'dm/dm_map.rs', 'ce.rs', 'normalization_props.rs'], 'dt, dm, ce, comp_ex'),
    ('U05', 'Break, Hangul and Indic classes of every code point', 'For every code point Grapheme_Cluster_Break, Word_Break, Hangul_Syllable_Type, Indic_Syllabic_Category and Indic_Conjunct_Break are those of Unicode 15.1.', ['gcb.rs', 'wb.rs', 'hst.rs', 'insc.rs', 'derived_props.rs'], 'gcb, wb, hst, insc, incb'),
    ('U06', 'Block, Script and Age of every code point', 'For every code point the block, the script and the version of first assignment are those of Unicode 15.1, with the documented values for no block, unknown script and unassigned.', ['blk.rs', 'sc.rs', 'age.rs'], 'blk, sc, age'),
    ('U07', 'Name of every code point, and names are unique', 'For every code point the name is the one of Unicode 15.1: listed, or derived by rule for Hangul syllables and ideographs, or empty for code points without one. No two code points share a non-empty name.', ['na.rs', 'na/na_table.rs', 'jsn.rs'], 'na'),
    ('U08', 'The PropList properties of every code point', 'For every code point each of the contributory and miscellaneous binary properties (White_Space to Regional_Indicator) is the one of Unicode 15.1.', ['binary_props.rs'], 'the 34 PropList methods'),
    ('U09', 'The derived core properties of every code point', 'For every code point Math, Alphabetic, Lowercase, Uppercase, Cased, Case_Ignorable, Default_Ignorable_Code_Point and Grapheme_Extend are those of Unicode 15.1.', ['derived_props.rs'], 'math, alpha, lower, upper, cased, ci, di, gr_ext'),
    ('U10', 'Identifier properties, and identifiers survive normalization', 'For every code point ID_Start, ID_Continue, XID_Start and XID_Continue are those of Unicode 15.1. Start implies continue, and the XID properties are closed under normalization: the NFKC and NFKD form of an identifier of the XID kind is again one.', ['derived_props.rs'], 'ids, idc, xids, xidc, to_nfkc, to_nfkd'),
    ('U11', 'The emoji properties of every code point', 'For every code point Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component and Extended_Pictographic are those of Unicode 15.1.', ['emoji_props.rs'], 'emoji, epres, emod, ebase, ecomp, ext_pict'),
]
for id, title, st, files, meth in D:
    prop(id, title, st, INP, 'all 1,114,112 code points, as CodePoint and as char', PT, [P + f for f in files] + [U, 'src/collections.rs'],
         [('lookup of ' + meth, ', '.join(P + f for f in files))],
         'complete enumeration of the code space on the real code against frozen Unicode data', 'Complete: every code point, both ways of asking.' + TRUST, 'exploration', ['Ucd::' + meth])
prop('U12', 'Names of property values are those of PropertyValueAliases',
     'For every value of every enumerated property (and of the binary Yes/No value) the short and long names are those of PropertyValueAliases 15.1. Hence the names reported for every code point are right. Two values of one property are equal exactly when they are the same value.',
     INP, 'every value of 12 property types; every code point', 'One doc test shows one value; the properties test that uses the names needs a file that is not there.', [P + 'property_names.rs', PR],
     [('UnicodeProperty::property_value_name', PR), ('the *_name tables', P + 'property_names.rs')], 'complete enumeration of the value types on the real code', 'Complete.' + TRUST, 'exploration', ['property_value_name()'])
prop('U13', 'CodePoint accepts exactly U+0000..U+10FFFF and is faithful; versions compare',
     'A code point can be made from a number exactly when it is at most 0x10FFFF, and then it gives back that number, displays as U+ and at least four upper-case hexadecimal digits, and converts from char unchanged. The Unicode version is 15.1.0, prints as major.minor.update, and versions are equal exactly when all three parts are and are ordered by major, then minor, then update.',
     INP, 'all 2^32 numbers; all version triples over a boundary set', 'The tests try a few numbers.', [U], [('CodePoint::new, ToCodePoint, Display', U), ('UnicodeVersion', U)],
     'complete enumeration of the 32-bit input space on the real code', 'Complete for CodePoint; the version part uses 8 boundary numbers per field.' + TRUST, 'exploration', ['CodePoint::new, to_u32, to_string, UNICODE_VERSION'])
prop('U14', 'Asking a char and asking its CodePoint give the same answer',
     'For every scalar value and every property, the answer through char equals the answer through the CodePoint of it.',
     INP, 'all scalar values x all property methods', 'No test compares the two.', [U], [('impl Ucd for char / for CodePoint, written out twice', U)],
     'complete enumeration (differential between the two implementations of the trait)', 'Complete.', 'exploration', ['every method of Ucd'])
prop('U15', 'The properties of every code point are consistent with one another',
     'For every code point the relations the standard guarantees between properties hold: derived properties follow their derivation from the others, break classes follow category and syllable type, a decomposition mapping exists exactly when there is a decomposition type, a non-zero combining class only on marks, and so on. Every property can be asked of every code point without a panic.',
     INP, 'all 1,114,112 code points x all relations', PT, [U] + [P + x for x in ('derived_props.rs', 'gc.rs', 'gcb.rs', 'dm.rs', 'dt.rs', 'ccc.rs', 'normalization_props.rs')],
     [('derived_props functions', P + 'derived_props.rs'), ('comp_ex', P + 'normalization_props.rs')], 'complete enumeration of the code space; relational oracle that uses no frozen data', 'Complete. Needs no frozen data: only definitions of the standard.', 'exploration', ['every method of Ucd'])
prop('U16', 'A two-stage table looks up every position of every table',
     'For every block size, every stage-1 vector of any index type and every stage-2 list of blocks, looking up position p gives entry p mod size of the block that stage 1 names for p div size. This holds for sizes that are not powers of two and for positions up to the 32-bit limit.',
     CFG + INP, 'all small table shapes, six index types, boundary shapes', 'No test builds a table of its own.', ['src/collections.rs'], [('TwoStageTable::at', 'src/collections.rs')],
     'bounded exhaustive enumeration of table shapes on the real generic code', 'All shapes within the bounds of the evidence rule, plus boundary shapes.', 'exploration', ['TwoStageTable::new, at'])

import importlib.util
ext = os.path.join(here, 'tools', 'meta_more.py')
NA = []
if os.path.exists(ext):
    exec(open(ext).read())

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P_:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': p['observe'], 'hook_needed': p['hook']}}, ensure_ascii=False) + '\n')
man = {
    'version': 1, 'setup_cmd': './setup.sh',
    'checks': [{'property': p['id'], 'quick_cmd': (p['cmd'] or './check.sh ' + p['id']),
                'thorough_cmd': 'VERIF_TIER=thorough ' + (p['cmd'] or './check.sh ' + p['id']),
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
               for p in P_ if p['id'] not in {x['property'] for x in NA}],
    'not_applicable': NA,
    'notes': 'No hooks: every check drives public API of the crate (or the generator scripts) from /verif.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
