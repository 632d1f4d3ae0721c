// Written by oracle/gen_variants.py from the Unicode 15.1 PropertyValueAliases; committed.
use seshat::unicode::props::*;
/// (key in the frozen data, short alias, long alias, variant)
pub static GC: &[(&str, &str, &str, Gc)] = &[
    ("Cc", "Cc", "Control", Gc::Cc),
    ("Cf", "Cf", "Format", Gc::Cf),
    ("Cn", "Cn", "Unassigned", Gc::Cn),
    ("Co", "Co", "Private_Use", Gc::Co),
    ("Cs", "Cs", "Surrogate", Gc::Cs),
    ("Ll", "Ll", "Lowercase_Letter", Gc::Ll),
    ("Lm", "Lm", "Modifier_Letter", Gc::Lm),
    ("Lo", "Lo", "Other_Letter", Gc::Lo),
    ("Lt", "Lt", "Titlecase_Letter", Gc::Lt),
    ("Lu", "Lu", "Uppercase_Letter", Gc::Lu),
    ("Mc", "Mc", "Spacing_Mark", Gc::Mc),
    ("Me", "Me", "Enclosing_Mark", Gc::Me),
    ("Mn", "Mn", "Nonspacing_Mark", Gc::Mn),
    ("Nd", "Nd", "Decimal_Number", Gc::Nd),
    ("Nl", "Nl", "Letter_Number", Gc::Nl),
    ("No", "No", "Other_Number", Gc::No),
    ("Pc", "Pc", "Connector_Punctuation", Gc::Pc),
    ("Pd", "Pd", "Dash_Punctuation", Gc::Pd),
    ("Pe", "Pe", "Close_Punctuation", Gc::Pe),
    ("Pf", "Pf", "Final_Punctuation", Gc::Pf),
    ("Pi", "Pi", "Initial_Punctuation", Gc::Pi),
    ("Po", "Po", "Other_Punctuation", Gc::Po),
    ("Ps", "Ps", "Open_Punctuation", Gc::Ps),
    ("Sc", "Sc", "Currency_Symbol", Gc::Sc),
    ("Sk", "Sk", "Modifier_Symbol", Gc::Sk),
    ("Sm", "Sm", "Math_Symbol", Gc::Sm),
    ("So", "So", "Other_Symbol", Gc::So),
    ("Zl", "Zl", "Line_Separator", Gc::Zl),
    ("Zp", "Zp", "Paragraph_Separator", Gc::Zp),
    ("Zs", "Zs", "Space_Separator", Gc::Zs),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static CCC: &[(&str, &str, &str, Ccc)] = &[
    ("0", "NR", "Not_Reordered", Ccc::NR),
    ("1", "OV", "Overlay", Ccc::OV),
    ("6", "HANR", "Han_Reading", Ccc::HANR),
    ("7", "NK", "Nukta", Ccc::NK),
    ("8", "KV", "Kana_Voicing", Ccc::KV),
    ("9", "VR", "Virama", Ccc::VR),
    ("10", "CCC10", "CCC10", Ccc::CCC10),
    ("11", "CCC11", "CCC11", Ccc::CCC11),
    ("12", "CCC12", "CCC12", Ccc::CCC12),
    ("13", "CCC13", "CCC13", Ccc::CCC13),
    ("14", "CCC14", "CCC14", Ccc::CCC14),
    ("15", "CCC15", "CCC15", Ccc::CCC15),
    ("16", "CCC16", "CCC16", Ccc::CCC16),
    ("17", "CCC17", "CCC17", Ccc::CCC17),
    ("18", "CCC18", "CCC18", Ccc::CCC18),
    ("19", "CCC19", "CCC19", Ccc::CCC19),
    ("20", "CCC20", "CCC20", Ccc::CCC20),
    ("21", "CCC21", "CCC21", Ccc::CCC21),
    ("22", "CCC22", "CCC22", Ccc::CCC22),
    ("23", "CCC23", "CCC23", Ccc::CCC23),
    ("24", "CCC24", "CCC24", Ccc::CCC24),
    ("25", "CCC25", "CCC25", Ccc::CCC25),
    ("26", "CCC26", "CCC26", Ccc::CCC26),
    ("27", "CCC27", "CCC27", Ccc::CCC27),
    ("28", "CCC28", "CCC28", Ccc::CCC28),
    ("29", "CCC29", "CCC29", Ccc::CCC29),
    ("30", "CCC30", "CCC30", Ccc::CCC30),
    ("31", "CCC31", "CCC31", Ccc::CCC31),
    ("32", "CCC32", "CCC32", Ccc::CCC32),
    ("33", "CCC33", "CCC33", Ccc::CCC33),
    ("34", "CCC34", "CCC34", Ccc::CCC34),
    ("35", "CCC35", "CCC35", Ccc::CCC35),
    ("36", "CCC36", "CCC36", Ccc::CCC36),
    ("84", "CCC84", "CCC84", Ccc::CCC84),
    ("91", "CCC91", "CCC91", Ccc::CCC91),
    ("103", "CCC103", "CCC103", Ccc::CCC103),
    ("107", "CCC107", "CCC107", Ccc::CCC107),
    ("118", "CCC118", "CCC118", Ccc::CCC118),
    ("122", "CCC122", "CCC122", Ccc::CCC122),
    ("129", "CCC129", "CCC129", Ccc::CCC129),
    ("130", "CCC130", "CCC130", Ccc::CCC130),
    ("132", "CCC132", "CCC132", Ccc::CCC132),
    ("133", "CCC133", "CCC133", Ccc::CCC133),
    ("200", "ATBL", "Attached_Below_Left", Ccc::ATBL),
    ("202", "ATB", "Attached_Below", Ccc::ATB),
    ("214", "ATA", "Attached_Above", Ccc::ATA),
    ("216", "ATAR", "Attached_Above_Right", Ccc::ATAR),
    ("218", "BL", "Below_Left", Ccc::BL),
    ("220", "B", "Below", Ccc::B),
    ("222", "BR", "Below_Right", Ccc::BR),
    ("224", "L", "Left", Ccc::L),
    ("226", "R", "Right", Ccc::R),
    ("228", "AL", "Above_Left", Ccc::AL),
    ("230", "A", "Above", Ccc::A),
    ("232", "AR", "Above_Right", Ccc::AR),
    ("233", "DB", "Double_Below", Ccc::DB),
    ("234", "DA", "Double_Above", Ccc::DA),
    ("240", "IS", "Iota_Subscript", Ccc::IS),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static BC: &[(&str, &str, &str, Bc)] = &[
    ("AL", "AL", "Arabic_Letter", Bc::AL),
    ("AN", "AN", "Arabic_Number", Bc::AN),
    ("B", "B", "Paragraph_Separator", Bc::B),
    ("BN", "BN", "Boundary_Neutral", Bc::BN),
    ("CS", "CS", "Common_Separator", Bc::CS),
    ("EN", "EN", "European_Number", Bc::EN),
    ("ES", "ES", "European_Separator", Bc::ES),
    ("ET", "ET", "European_Terminator", Bc::ET),
    ("FSI", "FSI", "First_Strong_Isolate", Bc::FSI),
    ("L", "L", "Left_To_Right", Bc::L),
    ("LRE", "LRE", "Left_To_Right_Embedding", Bc::LRE),
    ("LRI", "LRI", "Left_To_Right_Isolate", Bc::LRI),
    ("LRO", "LRO", "Left_To_Right_Override", Bc::LRO),
    ("NSM", "NSM", "Nonspacing_Mark", Bc::NSM),
    ("ON", "ON", "Other_Neutral", Bc::ON),
    ("PDF", "PDF", "Pop_Directional_Format", Bc::PDF),
    ("PDI", "PDI", "Pop_Directional_Isolate", Bc::PDI),
    ("R", "R", "Right_To_Left", Bc::R),
    ("RLE", "RLE", "Right_To_Left_Embedding", Bc::RLE),
    ("RLI", "RLI", "Right_To_Left_Isolate", Bc::RLI),
    ("RLO", "RLO", "Right_To_Left_Override", Bc::RLO),
    ("S", "S", "Segment_Separator", Bc::S),
    ("WS", "WS", "White_Space", Bc::WS),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static DT: &[(&str, &str, &str, Dt)] = &[
    ("Can", "Can", "Canonical", Dt::Can),
    ("Com", "Com", "Compat", Dt::Com),
    ("Enc", "Enc", "Circle", Dt::Enc),
    ("Fin", "Fin", "Final", Dt::Fin),
    ("Font", "Font", "Font", Dt::Font),
    ("Fra", "Fra", "Fraction", Dt::Fra),
    ("Init", "Init", "Initial", Dt::Init),
    ("Iso", "Iso", "Isolated", Dt::Iso),
    ("Med", "Med", "Medial", Dt::Med),
    ("Nar", "Nar", "Narrow", Dt::Nar),
    ("Nb", "Nb", "Nobreak", Dt::Nb),
    ("None", "None", "None", Dt::None),
    ("Sml", "Sml", "Small", Dt::Sml),
    ("Sqr", "Sqr", "Square", Dt::Sqr),
    ("Sub", "Sub", "Sub", Dt::Sub),
    ("Sup", "Sup", "Super", Dt::Sup),
    ("Vert", "Vert", "Vertical", Dt::Vert),
    ("Wide", "Wide", "Wide", Dt::Wide),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static GCB: &[(&str, &str, &str, Gcb)] = &[
    ("CN", "CN", "Control", Gcb::CN),
    ("CR", "CR", "CR", Gcb::CR),
    ("EB", "EB", "E_Base", Gcb::EB),
    ("EBG", "EBG", "E_Base_GAZ", Gcb::EBG),
    ("EM", "EM", "E_Modifier", Gcb::EM),
    ("EX", "EX", "Extend", Gcb::EX),
    ("GAZ", "GAZ", "Glue_After_Zwj", Gcb::GAZ),
    ("L", "L", "L", Gcb::L),
    ("LF", "LF", "LF", Gcb::LF),
    ("LV", "LV", "LV", Gcb::LV),
    ("LVT", "LVT", "LVT", Gcb::LVT),
    ("PP", "PP", "Prepend", Gcb::PP),
    ("RI", "RI", "Regional_Indicator", Gcb::RI),
    ("SM", "SM", "SpacingMark", Gcb::SM),
    ("T", "T", "T", Gcb::T),
    ("V", "V", "V", Gcb::V),
    ("XX", "XX", "Other", Gcb::XX),
    ("ZWJ", "ZWJ", "ZWJ", Gcb::ZWJ),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static WB: &[(&str, &str, &str, Wb)] = &[
    ("CR", "CR", "CR", Wb::CR),
    ("DQ", "DQ", "Double_Quote", Wb::DQ),
    ("EB", "EB", "E_Base", Wb::EB),
    ("EBG", "EBG", "E_Base_GAZ", Wb::EBG),
    ("EM", "EM", "E_Modifier", Wb::EM),
    ("EX", "EX", "ExtendNumLet", Wb::EX),
    ("Extend", "Extend", "Extend", Wb::Extend),
    ("FO", "FO", "Format", Wb::FO),
    ("GAZ", "GAZ", "Glue_After_Zwj", Wb::GAZ),
    ("HL", "HL", "Hebrew_Letter", Wb::HL),
    ("KA", "KA", "Katakana", Wb::KA),
    ("LE", "LE", "ALetter", Wb::LE),
    ("LF", "LF", "LF", Wb::LF),
    ("MB", "MB", "MidNumLet", Wb::MB),
    ("ML", "ML", "MidLetter", Wb::ML),
    ("MN", "MN", "MidNum", Wb::MN),
    ("NL", "NL", "Newline", Wb::NL),
    ("NU", "NU", "Numeric", Wb::NU),
    ("RI", "RI", "Regional_Indicator", Wb::RI),
    ("SQ", "SQ", "Single_Quote", Wb::SQ),
    ("WSegSpace", "WSegSpace", "WSegSpace", Wb::WSegSpace),
    ("XX", "XX", "Other", Wb::XX),
    ("ZWJ", "ZWJ", "ZWJ", Wb::ZWJ),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static HST: &[(&str, &str, &str, Hst)] = &[
    ("L", "L", "Leading_Jamo", Hst::L),
    ("LV", "LV", "LV_Syllable", Hst::LV),
    ("LVT", "LVT", "LVT_Syllable", Hst::LVT),
    ("NA", "NA", "Not_Applicable", Hst::NA),
    ("T", "T", "Trailing_Jamo", Hst::T),
    ("V", "V", "Vowel_Jamo", Hst::V),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static INSC: &[(&str, &str, &str, Insc)] = &[
    ("Avagraha", "Avagraha", "Avagraha", Insc::Avagraha),
    ("Bindu", "Bindu", "Bindu", Insc::Bindu),
    ("Brahmi_Joining_Number", "Brahmi_Joining_Number", "Brahmi_Joining_Number", Insc::Brahmi_Joining_Number),
    ("Cantillation_Mark", "Cantillation_Mark", "Cantillation_Mark", Insc::Cantillation_Mark),
    ("Consonant", "Consonant", "Consonant", Insc::Consonant),
    ("Consonant_Dead", "Consonant_Dead", "Consonant_Dead", Insc::Consonant_Dead),
    ("Consonant_Final", "Consonant_Final", "Consonant_Final", Insc::Consonant_Final),
    ("Consonant_Head_Letter", "Consonant_Head_Letter", "Consonant_Head_Letter", Insc::Consonant_Head_Letter),
    ("Consonant_Initial_Postfixed", "Consonant_Initial_Postfixed", "Consonant_Initial_Postfixed", Insc::Consonant_Initial_Postfixed),
    ("Consonant_Killer", "Consonant_Killer", "Consonant_Killer", Insc::Consonant_Killer),
    ("Consonant_Medial", "Consonant_Medial", "Consonant_Medial", Insc::Consonant_Medial),
    ("Consonant_Placeholder", "Consonant_Placeholder", "Consonant_Placeholder", Insc::Consonant_Placeholder),
    ("Consonant_Preceding_Repha", "Consonant_Preceding_Repha", "Consonant_Preceding_Repha", Insc::Consonant_Preceding_Repha),
    ("Consonant_Prefixed", "Consonant_Prefixed", "Consonant_Prefixed", Insc::Consonant_Prefixed),
    ("Consonant_Subjoined", "Consonant_Subjoined", "Consonant_Subjoined", Insc::Consonant_Subjoined),
    ("Consonant_Succeeding_Repha", "Consonant_Succeeding_Repha", "Consonant_Succeeding_Repha", Insc::Consonant_Succeeding_Repha),
    ("Consonant_With_Stacker", "Consonant_With_Stacker", "Consonant_With_Stacker", Insc::Consonant_With_Stacker),
    ("Gemination_Mark", "Gemination_Mark", "Gemination_Mark", Insc::Gemination_Mark),
    ("Invisible_Stacker", "Invisible_Stacker", "Invisible_Stacker", Insc::Invisible_Stacker),
    ("Joiner", "Joiner", "Joiner", Insc::Joiner),
    ("Modifying_Letter", "Modifying_Letter", "Modifying_Letter", Insc::Modifying_Letter),
    ("Non_Joiner", "Non_Joiner", "Non_Joiner", Insc::Non_Joiner),
    ("Nukta", "Nukta", "Nukta", Insc::Nukta),
    ("Number", "Number", "Number", Insc::Number),
    ("Number_Joiner", "Number_Joiner", "Number_Joiner", Insc::Number_Joiner),
    ("Other", "Other", "Other", Insc::Other),
    ("Pure_Killer", "Pure_Killer", "Pure_Killer", Insc::Pure_Killer),
    ("Register_Shifter", "Register_Shifter", "Register_Shifter", Insc::Register_Shifter),
    ("Syllable_Modifier", "Syllable_Modifier", "Syllable_Modifier", Insc::Syllable_Modifier),
    ("Tone_Letter", "Tone_Letter", "Tone_Letter", Insc::Tone_Letter),
    ("Tone_Mark", "Tone_Mark", "Tone_Mark", Insc::Tone_Mark),
    ("Virama", "Virama", "Virama", Insc::Virama),
    ("Visarga", "Visarga", "Visarga", Insc::Visarga),
    ("Vowel", "Vowel", "Vowel", Insc::Vowel),
    ("Vowel_Dependent", "Vowel_Dependent", "Vowel_Dependent", Insc::Vowel_Dependent),
    ("Vowel_Independent", "Vowel_Independent", "Vowel_Independent", Insc::Vowel_Independent),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static INCB: &[(&str, &str, &str, Incb)] = &[
    ("Consonant", "Consonant", "Consonant", Incb::Consonant),
    ("Extend", "Extend", "Extend", Incb::Extend),
    ("Linker", "Linker", "Linker", Incb::Linker),
    ("None", "None", "None", Incb::None),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static BLK: &[(&str, &str, &str, Blk)] = &[
    ("Adlam", "Adlam", "Adlam", Blk::Adlam),
    ("Aegean_Numbers", "Aegean_Numbers", "Aegean_Numbers", Blk::AegeanNumbers),
    ("Ahom", "Ahom", "Ahom", Blk::Ahom),
    ("Alchemical", "Alchemical", "Alchemical_Symbols", Blk::Alchemical),
    ("Alphabetic_PF", "Alphabetic_PF", "Alphabetic_Presentation_Forms", Blk::AlphabeticPf),
    ("Anatolian_Hieroglyphs", "Anatolian_Hieroglyphs", "Anatolian_Hieroglyphs", Blk::AnatolianHieroglyphs),
    ("Ancient_Greek_Music", "Ancient_Greek_Music", "Ancient_Greek_Musical_Notation", Blk::AncientGreekMusic),
    ("Ancient_Greek_Numbers", "Ancient_Greek_Numbers", "Ancient_Greek_Numbers", Blk::AncientGreekNumbers),
    ("Ancient_Symbols", "Ancient_Symbols", "Ancient_Symbols", Blk::AncientSymbols),
    ("Arabic", "Arabic", "Arabic", Blk::Arabic),
    ("Arabic_Ext_A", "Arabic_Ext_A", "Arabic_Extended_A", Blk::ArabicExtA),
    ("Arabic_Ext_B", "Arabic_Ext_B", "Arabic_Extended_B", Blk::ArabicExtB),
    ("Arabic_Ext_C", "Arabic_Ext_C", "Arabic_Extended_C", Blk::ArabicExtC),
    ("Arabic_Math", "Arabic_Math", "Arabic_Mathematical_Alphabetic_Symbols", Blk::ArabicMath),
    ("Arabic_PF_A", "Arabic_PF_A", "Arabic_Presentation_Forms_A", Blk::ArabicPfA),
    ("Arabic_PF_B", "Arabic_PF_B", "Arabic_Presentation_Forms_B", Blk::ArabicPfB),
    ("Arabic_Sup", "Arabic_Sup", "Arabic_Supplement", Blk::ArabicSup),
    ("Armenian", "Armenian", "Armenian", Blk::Armenian),
    ("Arrows", "Arrows", "Arrows", Blk::Arrows),
    ("ASCII", "ASCII", "Basic_Latin", Blk::Ascii),
    ("Avestan", "Avestan", "Avestan", Blk::Avestan),
    ("Balinese", "Balinese", "Balinese", Blk::Balinese),
    ("Bamum", "Bamum", "Bamum", Blk::Bamum),
    ("Bamum_Sup", "Bamum_Sup", "Bamum_Supplement", Blk::BamumSup),
    ("Bassa_Vah", "Bassa_Vah", "Bassa_Vah", Blk::BassaVah),
    ("Batak", "Batak", "Batak", Blk::Batak),
    ("Bengali", "Bengali", "Bengali", Blk::Bengali),
    ("Bhaiksuki", "Bhaiksuki", "Bhaiksuki", Blk::Bhaiksuki),
    ("Block_Elements", "Block_Elements", "Block_Elements", Blk::BlockElements),
    ("Bopomofo", "Bopomofo", "Bopomofo", Blk::Bopomofo),
    ("Bopomofo_Ext", "Bopomofo_Ext", "Bopomofo_Extended", Blk::BopomofoExt),
    ("Box_Drawing", "Box_Drawing", "Box_Drawing", Blk::BoxDrawing),
    ("Brahmi", "Brahmi", "Brahmi", Blk::Brahmi),
    ("Braille", "Braille", "Braille_Patterns", Blk::Braille),
    ("Buginese", "Buginese", "Buginese", Blk::Buginese),
    ("Buhid", "Buhid", "Buhid", Blk::Buhid),
    ("Byzantine_Music", "Byzantine_Music", "Byzantine_Musical_Symbols", Blk::ByzantineMusic),
    ("Carian", "Carian", "Carian", Blk::Carian),
    ("Caucasian_Albanian", "Caucasian_Albanian", "Caucasian_Albanian", Blk::CaucasianAlbanian),
    ("Chakma", "Chakma", "Chakma", Blk::Chakma),
    ("Cham", "Cham", "Cham", Blk::Cham),
    ("Cherokee", "Cherokee", "Cherokee", Blk::Cherokee),
    ("Cherokee_Sup", "Cherokee_Sup", "Cherokee_Supplement", Blk::CherokeeSup),
    ("Chess_Symbols", "Chess_Symbols", "Chess_Symbols", Blk::ChessSymbols),
    ("Chorasmian", "Chorasmian", "Chorasmian", Blk::Chorasmian),
    ("CJK", "CJK", "CJK_Unified_Ideographs", Blk::Cjk),
    ("CJK_Compat", "CJK_Compat", "CJK_Compatibility", Blk::CjkCompat),
    ("CJK_Compat_Forms", "CJK_Compat_Forms", "CJK_Compatibility_Forms", Blk::CjkCompatForms),
    ("CJK_Compat_Ideographs", "CJK_Compat_Ideographs", "CJK_Compatibility_Ideographs", Blk::CjkCompatIdeographs),
    ("CJK_Compat_Ideographs_Sup", "CJK_Compat_Ideographs_Sup", "CJK_Compatibility_Ideographs_Supplement", Blk::CjkCompatIdeographsSup),
    ("CJK_Ext_A", "CJK_Ext_A", "CJK_Unified_Ideographs_Extension_A", Blk::CjkExtA),
    ("CJK_Ext_B", "CJK_Ext_B", "CJK_Unified_Ideographs_Extension_B", Blk::CjkExtB),
    ("CJK_Ext_C", "CJK_Ext_C", "CJK_Unified_Ideographs_Extension_C", Blk::CjkExtC),
    ("CJK_Ext_D", "CJK_Ext_D", "CJK_Unified_Ideographs_Extension_D", Blk::CjkExtD),
    ("CJK_Ext_E", "CJK_Ext_E", "CJK_Unified_Ideographs_Extension_E", Blk::CjkExtE),
    ("CJK_Ext_F", "CJK_Ext_F", "CJK_Unified_Ideographs_Extension_F", Blk::CjkExtF),
    ("CJK_Ext_G", "CJK_Ext_G", "CJK_Unified_Ideographs_Extension_G", Blk::CjkExtG),
    ("CJK_Ext_H", "CJK_Ext_H", "CJK_Unified_Ideographs_Extension_H", Blk::CjkExtH),
    ("CJK_Ext_I", "CJK_Ext_I", "CJK_Unified_Ideographs_Extension_I", Blk::CjkExtI),
    ("CJK_Radicals_Sup", "CJK_Radicals_Sup", "CJK_Radicals_Supplement", Blk::CjkRadicalsSup),
    ("CJK_Strokes", "CJK_Strokes", "CJK_Strokes", Blk::CjkStrokes),
    ("CJK_Symbols", "CJK_Symbols", "CJK_Symbols_And_Punctuation", Blk::CjkSymbols),
    ("Compat_Jamo", "Compat_Jamo", "Hangul_Compatibility_Jamo", Blk::CompatJamo),
    ("Control_Pictures", "Control_Pictures", "Control_Pictures", Blk::ControlPictures),
    ("Coptic", "Coptic", "Coptic", Blk::Coptic),
    ("Coptic_Epact_Numbers", "Coptic_Epact_Numbers", "Coptic_Epact_Numbers", Blk::CopticEpactNumbers),
    ("Counting_Rod", "Counting_Rod", "Counting_Rod_Numerals", Blk::CountingRod),
    ("Cuneiform", "Cuneiform", "Cuneiform", Blk::Cuneiform),
    ("Cuneiform_Numbers", "Cuneiform_Numbers", "Cuneiform_Numbers_And_Punctuation", Blk::CuneiformNumbers),
    ("Currency_Symbols", "Currency_Symbols", "Currency_Symbols", Blk::CurrencySymbols),
    ("Cypriot_Syllabary", "Cypriot_Syllabary", "Cypriot_Syllabary", Blk::CypriotSyllabary),
    ("Cypro_Minoan", "Cypro_Minoan", "Cypro_Minoan", Blk::CyproMinoan),
    ("Cyrillic", "Cyrillic", "Cyrillic", Blk::Cyrillic),
    ("Cyrillic_Ext_A", "Cyrillic_Ext_A", "Cyrillic_Extended_A", Blk::CyrillicExtA),
    ("Cyrillic_Ext_B", "Cyrillic_Ext_B", "Cyrillic_Extended_B", Blk::CyrillicExtB),
    ("Cyrillic_Ext_C", "Cyrillic_Ext_C", "Cyrillic_Extended_C", Blk::CyrillicExtC),
    ("Cyrillic_Ext_D", "Cyrillic_Ext_D", "Cyrillic_Extended_D", Blk::CyrillicExtD),
    ("Cyrillic_Sup", "Cyrillic_Sup", "Cyrillic_Supplement", Blk::CyrillicSup),
    ("Deseret", "Deseret", "Deseret", Blk::Deseret),
    ("Devanagari", "Devanagari", "Devanagari", Blk::Devanagari),
    ("Devanagari_Ext", "Devanagari_Ext", "Devanagari_Extended", Blk::DevanagariExt),
    ("Devanagari_Ext_A", "Devanagari_Ext_A", "Devanagari_Extended_A", Blk::DevanagariExtA),
    ("Diacriticals", "Diacriticals", "Combining_Diacritical_Marks", Blk::Diacriticals),
    ("Diacriticals_Ext", "Diacriticals_Ext", "Combining_Diacritical_Marks_Extended", Blk::DiacriticalsExt),
    ("Diacriticals_For_Symbols", "Diacriticals_For_Symbols", "Combining_Diacritical_Marks_For_Symbols", Blk::DiacriticalsForSymbols),
    ("Diacriticals_Sup", "Diacriticals_Sup", "Combining_Diacritical_Marks_Supplement", Blk::DiacriticalsSup),
    ("Dingbats", "Dingbats", "Dingbats", Blk::Dingbats),
    ("Dives_Akuru", "Dives_Akuru", "Dives_Akuru", Blk::DivesAkuru),
    ("Dogra", "Dogra", "Dogra", Blk::Dogra),
    ("Domino", "Domino", "Domino_Tiles", Blk::Domino),
    ("Duployan", "Duployan", "Duployan", Blk::Duployan),
    ("Early_Dynastic_Cuneiform", "Early_Dynastic_Cuneiform", "Early_Dynastic_Cuneiform", Blk::EarlyDynasticCuneiform),
    ("Egyptian_Hieroglyph_Format_Controls", "Egyptian_Hieroglyph_Format_Controls", "Egyptian_Hieroglyph_Format_Controls", Blk::EgyptianHieroglyphFormatControls),
    ("Egyptian_Hieroglyphs", "Egyptian_Hieroglyphs", "Egyptian_Hieroglyphs", Blk::EgyptianHieroglyphs),
    ("Elbasan", "Elbasan", "Elbasan", Blk::Elbasan),
    ("Elymaic", "Elymaic", "Elymaic", Blk::Elymaic),
    ("Emoticons", "Emoticons", "Emoticons", Blk::Emoticons),
    ("Enclosed_Alphanum", "Enclosed_Alphanum", "Enclosed_Alphanumerics", Blk::EnclosedAlphanum),
    ("Enclosed_Alphanum_Sup", "Enclosed_Alphanum_Sup", "Enclosed_Alphanumeric_Supplement", Blk::EnclosedAlphanumSup),
    ("Enclosed_CJK", "Enclosed_CJK", "Enclosed_CJK_Letters_And_Months", Blk::EnclosedCjk),
    ("Enclosed_Ideographic_Sup", "Enclosed_Ideographic_Sup", "Enclosed_Ideographic_Supplement", Blk::EnclosedIdeographicSup),
    ("Ethiopic", "Ethiopic", "Ethiopic", Blk::Ethiopic),
    ("Ethiopic_Ext", "Ethiopic_Ext", "Ethiopic_Extended", Blk::EthiopicExt),
    ("Ethiopic_Ext_A", "Ethiopic_Ext_A", "Ethiopic_Extended_A", Blk::EthiopicExtA),
    ("Ethiopic_Ext_B", "Ethiopic_Ext_B", "Ethiopic_Extended_B", Blk::EthiopicExtB),
    ("Ethiopic_Sup", "Ethiopic_Sup", "Ethiopic_Supplement", Blk::EthiopicSup),
    ("Geometric_Shapes", "Geometric_Shapes", "Geometric_Shapes", Blk::GeometricShapes),
    ("Geometric_Shapes_Ext", "Geometric_Shapes_Ext", "Geometric_Shapes_Extended", Blk::GeometricShapesExt),
    ("Georgian", "Georgian", "Georgian", Blk::Georgian),
    ("Georgian_Ext", "Georgian_Ext", "Georgian_Extended", Blk::GeorgianExt),
    ("Georgian_Sup", "Georgian_Sup", "Georgian_Supplement", Blk::GeorgianSup),
    ("Glagolitic", "Glagolitic", "Glagolitic", Blk::Glagolitic),
    ("Glagolitic_Sup", "Glagolitic_Sup", "Glagolitic_Supplement", Blk::GlagoliticSup),
    ("Gothic", "Gothic", "Gothic", Blk::Gothic),
    ("Grantha", "Grantha", "Grantha", Blk::Grantha),
    ("Greek", "Greek", "Greek_And_Coptic", Blk::Greek),
    ("Greek_Ext", "Greek_Ext", "Greek_Extended", Blk::GreekExt),
    ("Gujarati", "Gujarati", "Gujarati", Blk::Gujarati),
    ("Gunjala_Gondi", "Gunjala_Gondi", "Gunjala_Gondi", Blk::GunjalaGondi),
    ("Gurmukhi", "Gurmukhi", "Gurmukhi", Blk::Gurmukhi),
    ("Half_And_Full_Forms", "Half_And_Full_Forms", "Halfwidth_And_Fullwidth_Forms", Blk::HalfAndFullForms),
    ("Half_Marks", "Half_Marks", "Combining_Half_Marks", Blk::HalfMarks),
    ("Hangul", "Hangul", "Hangul_Syllables", Blk::Hangul),
    ("Hanifi_Rohingya", "Hanifi_Rohingya", "Hanifi_Rohingya", Blk::HanifiRohingya),
    ("Hanunoo", "Hanunoo", "Hanunoo", Blk::Hanunoo),
    ("Hatran", "Hatran", "Hatran", Blk::Hatran),
    ("Hebrew", "Hebrew", "Hebrew", Blk::Hebrew),
    ("High_PU_Surrogates", "High_PU_Surrogates", "High_Private_Use_Surrogates", Blk::HighPuSurrogates),
    ("High_Surrogates", "High_Surrogates", "High_Surrogates", Blk::HighSurrogates),
    ("Hiragana", "Hiragana", "Hiragana", Blk::Hiragana),
    ("IDC", "IDC", "Ideographic_Description_Characters", Blk::Idc),
    ("Ideographic_Symbols", "Ideographic_Symbols", "Ideographic_Symbols_And_Punctuation", Blk::IdeographicSymbols),
    ("Imperial_Aramaic", "Imperial_Aramaic", "Imperial_Aramaic", Blk::ImperialAramaic),
    ("Indic_Number_Forms", "Indic_Number_Forms", "Common_Indic_Number_Forms", Blk::IndicNumberForms),
    ("Indic_Siyaq_Numbers", "Indic_Siyaq_Numbers", "Indic_Siyaq_Numbers", Blk::IndicSiyaqNumbers),
    ("Inscriptional_Pahlavi", "Inscriptional_Pahlavi", "Inscriptional_Pahlavi", Blk::InscriptionalPahlavi),
    ("Inscriptional_Parthian", "Inscriptional_Parthian", "Inscriptional_Parthian", Blk::InscriptionalParthian),
    ("IPA_Ext", "IPA_Ext", "IPA_Extensions", Blk::IpaExt),
    ("Jamo", "Jamo", "Hangul_Jamo", Blk::Jamo),
    ("Jamo_Ext_A", "Jamo_Ext_A", "Hangul_Jamo_Extended_A", Blk::JamoExtA),
    ("Jamo_Ext_B", "Jamo_Ext_B", "Hangul_Jamo_Extended_B", Blk::JamoExtB),
    ("Javanese", "Javanese", "Javanese", Blk::Javanese),
    ("Kaithi", "Kaithi", "Kaithi", Blk::Kaithi),
    ("Kaktovik_Numerals", "Kaktovik_Numerals", "Kaktovik_Numerals", Blk::KaktovikNumerals),
    ("Kana_Ext_A", "Kana_Ext_A", "Kana_Extended_A", Blk::KanaExtA),
    ("Kana_Ext_B", "Kana_Ext_B", "Kana_Extended_B", Blk::KanaExtB),
    ("Kana_Sup", "Kana_Sup", "Kana_Supplement", Blk::KanaSup),
    ("Kanbun", "Kanbun", "Kanbun", Blk::Kanbun),
    ("Kangxi", "Kangxi", "Kangxi_Radicals", Blk::Kangxi),
    ("Kannada", "Kannada", "Kannada", Blk::Kannada),
    ("Katakana", "Katakana", "Katakana", Blk::Katakana),
    ("Katakana_Ext", "Katakana_Ext", "Katakana_Phonetic_Extensions", Blk::KatakanaExt),
    ("Kawi", "Kawi", "Kawi", Blk::Kawi),
    ("Kayah_Li", "Kayah_Li", "Kayah_Li", Blk::KayahLi),
    ("Kharoshthi", "Kharoshthi", "Kharoshthi", Blk::Kharoshthi),
    ("Khitan_Small_Script", "Khitan_Small_Script", "Khitan_Small_Script", Blk::KhitanSmallScript),
    ("Khmer", "Khmer", "Khmer", Blk::Khmer),
    ("Khmer_Symbols", "Khmer_Symbols", "Khmer_Symbols", Blk::KhmerSymbols),
    ("Khojki", "Khojki", "Khojki", Blk::Khojki),
    ("Khudawadi", "Khudawadi", "Khudawadi", Blk::Khudawadi),
    ("Lao", "Lao", "Lao", Blk::Lao),
    ("Latin_1_Sup", "Latin_1_Sup", "Latin_1_Supplement", Blk::Latin1Sup),
    ("Latin_Ext_A", "Latin_Ext_A", "Latin_Extended_A", Blk::LatinExtA),
    ("Latin_Ext_Additional", "Latin_Ext_Additional", "Latin_Extended_Additional", Blk::LatinExtAdditional),
    ("Latin_Ext_B", "Latin_Ext_B", "Latin_Extended_B", Blk::LatinExtB),
    ("Latin_Ext_C", "Latin_Ext_C", "Latin_Extended_C", Blk::LatinExtC),
    ("Latin_Ext_D", "Latin_Ext_D", "Latin_Extended_D", Blk::LatinExtD),
    ("Latin_Ext_E", "Latin_Ext_E", "Latin_Extended_E", Blk::LatinExtE),
    ("Latin_Ext_F", "Latin_Ext_F", "Latin_Extended_F", Blk::LatinExtF),
    ("Latin_Ext_G", "Latin_Ext_G", "Latin_Extended_G", Blk::LatinExtG),
    ("Lepcha", "Lepcha", "Lepcha", Blk::Lepcha),
    ("Letterlike_Symbols", "Letterlike_Symbols", "Letterlike_Symbols", Blk::LetterlikeSymbols),
    ("Limbu", "Limbu", "Limbu", Blk::Limbu),
    ("Linear_A", "Linear_A", "Linear_A", Blk::LinearA),
    ("Linear_B_Ideograms", "Linear_B_Ideograms", "Linear_B_Ideograms", Blk::LinearBIdeograms),
    ("Linear_B_Syllabary", "Linear_B_Syllabary", "Linear_B_Syllabary", Blk::LinearBSyllabary),
    ("Lisu", "Lisu", "Lisu", Blk::Lisu),
    ("Lisu_Sup", "Lisu_Sup", "Lisu_Supplement", Blk::LisuSup),
    ("Low_Surrogates", "Low_Surrogates", "Low_Surrogates", Blk::LowSurrogates),
    ("Lycian", "Lycian", "Lycian", Blk::Lycian),
    ("Lydian", "Lydian", "Lydian", Blk::Lydian),
    ("Mahajani", "Mahajani", "Mahajani", Blk::Mahajani),
    ("Mahjong", "Mahjong", "Mahjong_Tiles", Blk::Mahjong),
    ("Makasar", "Makasar", "Makasar", Blk::Makasar),
    ("Malayalam", "Malayalam", "Malayalam", Blk::Malayalam),
    ("Mandaic", "Mandaic", "Mandaic", Blk::Mandaic),
    ("Manichaean", "Manichaean", "Manichaean", Blk::Manichaean),
    ("Marchen", "Marchen", "Marchen", Blk::Marchen),
    ("Masaram_Gondi", "Masaram_Gondi", "Masaram_Gondi", Blk::MasaramGondi),
    ("Math_Alphanum", "Math_Alphanum", "Mathematical_Alphanumeric_Symbols", Blk::MathAlphanum),
    ("Math_Operators", "Math_Operators", "Mathematical_Operators", Blk::MathOperators),
    ("Mayan_Numerals", "Mayan_Numerals", "Mayan_Numerals", Blk::MayanNumerals),
    ("Medefaidrin", "Medefaidrin", "Medefaidrin", Blk::Medefaidrin),
    ("Meetei_Mayek", "Meetei_Mayek", "Meetei_Mayek", Blk::MeeteiMayek),
    ("Meetei_Mayek_Ext", "Meetei_Mayek_Ext", "Meetei_Mayek_Extensions", Blk::MeeteiMayekExt),
    ("Mende_Kikakui", "Mende_Kikakui", "Mende_Kikakui", Blk::MendeKikakui),
    ("Meroitic_Cursive", "Meroitic_Cursive", "Meroitic_Cursive", Blk::MeroiticCursive),
    ("Meroitic_Hieroglyphs", "Meroitic_Hieroglyphs", "Meroitic_Hieroglyphs", Blk::MeroiticHieroglyphs),
    ("Miao", "Miao", "Miao", Blk::Miao),
    ("Misc_Arrows", "Misc_Arrows", "Miscellaneous_Symbols_And_Arrows", Blk::MiscArrows),
    ("Misc_Math_Symbols_A", "Misc_Math_Symbols_A", "Miscellaneous_Mathematical_Symbols_A", Blk::MiscMathSymbolsA),
    ("Misc_Math_Symbols_B", "Misc_Math_Symbols_B", "Miscellaneous_Mathematical_Symbols_B", Blk::MiscMathSymbolsB),
    ("Misc_Pictographs", "Misc_Pictographs", "Miscellaneous_Symbols_And_Pictographs", Blk::MiscPictographs),
    ("Misc_Symbols", "Misc_Symbols", "Miscellaneous_Symbols", Blk::MiscSymbols),
    ("Misc_Technical", "Misc_Technical", "Miscellaneous_Technical", Blk::MiscTechnical),
    ("Modi", "Modi", "Modi", Blk::Modi),
    ("Modifier_Letters", "Modifier_Letters", "Spacing_Modifier_Letters", Blk::ModifierLetters),
    ("Modifier_Tone_Letters", "Modifier_Tone_Letters", "Modifier_Tone_Letters", Blk::ModifierToneLetters),
    ("Mongolian", "Mongolian", "Mongolian", Blk::Mongolian),
    ("Mongolian_Sup", "Mongolian_Sup", "Mongolian_Supplement", Blk::MongolianSup),
    ("Mro", "Mro", "Mro", Blk::Mro),
    ("Multani", "Multani", "Multani", Blk::Multani),
    ("Music", "Music", "Musical_Symbols", Blk::Music),
    ("Myanmar", "Myanmar", "Myanmar", Blk::Myanmar),
    ("Myanmar_Ext_A", "Myanmar_Ext_A", "Myanmar_Extended_A", Blk::MyanmarExtA),
    ("Myanmar_Ext_B", "Myanmar_Ext_B", "Myanmar_Extended_B", Blk::MyanmarExtB),
    ("Nabataean", "Nabataean", "Nabataean", Blk::Nabataean),
    ("Nag_Mundari", "Nag_Mundari", "Nag_Mundari", Blk::NagMundari),
    ("Nandinagari", "Nandinagari", "Nandinagari", Blk::Nandinagari),
    ("NB", "NB", "No_Block", Blk::Nb),
    ("New_Tai_Lue", "New_Tai_Lue", "New_Tai_Lue", Blk::NewTaiLue),
    ("Newa", "Newa", "Newa", Blk::Newa),
    ("NKo", "NKo", "NKo", Blk::Nko),
    ("Number_Forms", "Number_Forms", "Number_Forms", Blk::NumberForms),
    ("Nushu", "Nushu", "Nushu", Blk::Nushu),
    ("Nyiakeng_Puachue_Hmong", "Nyiakeng_Puachue_Hmong", "Nyiakeng_Puachue_Hmong", Blk::NyiakengPuachueHmong),
    ("OCR", "OCR", "Optical_Character_Recognition", Blk::Ocr),
    ("Ogham", "Ogham", "Ogham", Blk::Ogham),
    ("Ol_Chiki", "Ol_Chiki", "Ol_Chiki", Blk::OlChiki),
    ("Old_Hungarian", "Old_Hungarian", "Old_Hungarian", Blk::OldHungarian),
    ("Old_Italic", "Old_Italic", "Old_Italic", Blk::OldItalic),
    ("Old_North_Arabian", "Old_North_Arabian", "Old_North_Arabian", Blk::OldNorthArabian),
    ("Old_Permic", "Old_Permic", "Old_Permic", Blk::OldPermic),
    ("Old_Persian", "Old_Persian", "Old_Persian", Blk::OldPersian),
    ("Old_Sogdian", "Old_Sogdian", "Old_Sogdian", Blk::OldSogdian),
    ("Old_South_Arabian", "Old_South_Arabian", "Old_South_Arabian", Blk::OldSouthArabian),
    ("Old_Turkic", "Old_Turkic", "Old_Turkic", Blk::OldTurkic),
    ("Old_Uyghur", "Old_Uyghur", "Old_Uyghur", Blk::OldUyghur),
    ("Oriya", "Oriya", "Oriya", Blk::Oriya),
    ("Ornamental_Dingbats", "Ornamental_Dingbats", "Ornamental_Dingbats", Blk::OrnamentalDingbats),
    ("Osage", "Osage", "Osage", Blk::Osage),
    ("Osmanya", "Osmanya", "Osmanya", Blk::Osmanya),
    ("Ottoman_Siyaq_Numbers", "Ottoman_Siyaq_Numbers", "Ottoman_Siyaq_Numbers", Blk::OttomanSiyaqNumbers),
    ("Pahawh_Hmong", "Pahawh_Hmong", "Pahawh_Hmong", Blk::PahawhHmong),
    ("Palmyrene", "Palmyrene", "Palmyrene", Blk::Palmyrene),
    ("Pau_Cin_Hau", "Pau_Cin_Hau", "Pau_Cin_Hau", Blk::PauCinHau),
    ("Phags_Pa", "Phags_Pa", "Phags_Pa", Blk::PhagsPa),
    ("Phaistos", "Phaistos", "Phaistos_Disc", Blk::Phaistos),
    ("Phoenician", "Phoenician", "Phoenician", Blk::Phoenician),
    ("Phonetic_Ext", "Phonetic_Ext", "Phonetic_Extensions", Blk::PhoneticExt),
    ("Phonetic_Ext_Sup", "Phonetic_Ext_Sup", "Phonetic_Extensions_Supplement", Blk::PhoneticExtSup),
    ("Playing_Cards", "Playing_Cards", "Playing_Cards", Blk::PlayingCards),
    ("Psalter_Pahlavi", "Psalter_Pahlavi", "Psalter_Pahlavi", Blk::PsalterPahlavi),
    ("PUA", "PUA", "Private_Use_Area", Blk::Pua),
    ("Punctuation", "Punctuation", "General_Punctuation", Blk::Punctuation),
    ("Rejang", "Rejang", "Rejang", Blk::Rejang),
    ("Rumi", "Rumi", "Rumi_Numeral_Symbols", Blk::Rumi),
    ("Runic", "Runic", "Runic", Blk::Runic),
    ("Samaritan", "Samaritan", "Samaritan", Blk::Samaritan),
    ("Saurashtra", "Saurashtra", "Saurashtra", Blk::Saurashtra),
    ("Sharada", "Sharada", "Sharada", Blk::Sharada),
    ("Shavian", "Shavian", "Shavian", Blk::Shavian),
    ("Shorthand_Format_Controls", "Shorthand_Format_Controls", "Shorthand_Format_Controls", Blk::ShorthandFormatControls),
    ("Siddham", "Siddham", "Siddham", Blk::Siddham),
    ("Sinhala", "Sinhala", "Sinhala", Blk::Sinhala),
    ("Sinhala_Archaic_Numbers", "Sinhala_Archaic_Numbers", "Sinhala_Archaic_Numbers", Blk::SinhalaArchaicNumbers),
    ("Small_Forms", "Small_Forms", "Small_Form_Variants", Blk::SmallForms),
    ("Small_Kana_Ext", "Small_Kana_Ext", "Small_Kana_Extension", Blk::SmallKanaExt),
    ("Sogdian", "Sogdian", "Sogdian", Blk::Sogdian),
    ("Sora_Sompeng", "Sora_Sompeng", "Sora_Sompeng", Blk::SoraSompeng),
    ("Soyombo", "Soyombo", "Soyombo", Blk::Soyombo),
    ("Specials", "Specials", "Specials", Blk::Specials),
    ("Sundanese", "Sundanese", "Sundanese", Blk::Sundanese),
    ("Sundanese_Sup", "Sundanese_Sup", "Sundanese_Supplement", Blk::SundaneseSup),
    ("Sup_Arrows_A", "Sup_Arrows_A", "Supplemental_Arrows_A", Blk::SupArrowsA),
    ("Sup_Arrows_B", "Sup_Arrows_B", "Supplemental_Arrows_B", Blk::SupArrowsB),
    ("Sup_Arrows_C", "Sup_Arrows_C", "Supplemental_Arrows_C", Blk::SupArrowsC),
    ("Sup_Math_Operators", "Sup_Math_Operators", "Supplemental_Mathematical_Operators", Blk::SupMathOperators),
    ("Sup_PUA_A", "Sup_PUA_A", "Supplementary_Private_Use_Area_A", Blk::SupPuaA),
    ("Sup_PUA_B", "Sup_PUA_B", "Supplementary_Private_Use_Area_B", Blk::SupPuaB),
    ("Sup_Punctuation", "Sup_Punctuation", "Supplemental_Punctuation", Blk::SupPunctuation),
    ("Sup_Symbols_And_Pictographs", "Sup_Symbols_And_Pictographs", "Supplemental_Symbols_And_Pictographs", Blk::SupSymbolsAndPictographs),
    ("Super_And_Sub", "Super_And_Sub", "Superscripts_And_Subscripts", Blk::SuperAndSub),
    ("Sutton_SignWriting", "Sutton_SignWriting", "Sutton_SignWriting", Blk::SuttonSignwriting),
    ("Syloti_Nagri", "Syloti_Nagri", "Syloti_Nagri", Blk::SylotiNagri),
    ("Symbols_And_Pictographs_Ext_A", "Symbols_And_Pictographs_Ext_A", "Symbols_And_Pictographs_Extended_A", Blk::SymbolsAndPictographsExtA),
    ("Symbols_For_Legacy_Computing", "Symbols_For_Legacy_Computing", "Symbols_For_Legacy_Computing", Blk::SymbolsForLegacyComputing),
    ("Syriac", "Syriac", "Syriac", Blk::Syriac),
    ("Syriac_Sup", "Syriac_Sup", "Syriac_Supplement", Blk::SyriacSup),
    ("Tagalog", "Tagalog", "Tagalog", Blk::Tagalog),
    ("Tagbanwa", "Tagbanwa", "Tagbanwa", Blk::Tagbanwa),
    ("Tags", "Tags", "Tags", Blk::Tags),
    ("Tai_Le", "Tai_Le", "Tai_Le", Blk::TaiLe),
    ("Tai_Tham", "Tai_Tham", "Tai_Tham", Blk::TaiTham),
    ("Tai_Viet", "Tai_Viet", "Tai_Viet", Blk::TaiViet),
    ("Tai_Xuan_Jing", "Tai_Xuan_Jing", "Tai_Xuan_Jing_Symbols", Blk::TaiXuanJing),
    ("Takri", "Takri", "Takri", Blk::Takri),
    ("Tamil", "Tamil", "Tamil", Blk::Tamil),
    ("Tamil_Sup", "Tamil_Sup", "Tamil_Supplement", Blk::TamilSup),
    ("Tangsa", "Tangsa", "Tangsa", Blk::Tangsa),
    ("Tangut", "Tangut", "Tangut", Blk::Tangut),
    ("Tangut_Components", "Tangut_Components", "Tangut_Components", Blk::TangutComponents),
    ("Tangut_Sup", "Tangut_Sup", "Tangut_Supplement", Blk::TangutSup),
    ("Telugu", "Telugu", "Telugu", Blk::Telugu),
    ("Thaana", "Thaana", "Thaana", Blk::Thaana),
    ("Thai", "Thai", "Thai", Blk::Thai),
    ("Tibetan", "Tibetan", "Tibetan", Blk::Tibetan),
    ("Tifinagh", "Tifinagh", "Tifinagh", Blk::Tifinagh),
    ("Tirhuta", "Tirhuta", "Tirhuta", Blk::Tirhuta),
    ("Toto", "Toto", "Toto", Blk::Toto),
    ("Transport_And_Map", "Transport_And_Map", "Transport_And_Map_Symbols", Blk::TransportAndMap),
    ("UCAS", "UCAS", "Unified_Canadian_Aboriginal_Syllabics", Blk::Ucas),
    ("UCAS_Ext", "UCAS_Ext", "Unified_Canadian_Aboriginal_Syllabics_Extended", Blk::UcasExt),
    ("UCAS_Ext_A", "UCAS_Ext_A", "Unified_Canadian_Aboriginal_Syllabics_Extended_A", Blk::UcasExtA),
    ("Ugaritic", "Ugaritic", "Ugaritic", Blk::Ugaritic),
    ("Vai", "Vai", "Vai", Blk::Vai),
    ("Vedic_Ext", "Vedic_Ext", "Vedic_Extensions", Blk::VedicExt),
    ("Vertical_Forms", "Vertical_Forms", "Vertical_Forms", Blk::VerticalForms),
    ("Vithkuqi", "Vithkuqi", "Vithkuqi", Blk::Vithkuqi),
    ("VS", "VS", "Variation_Selectors", Blk::Vs),
    ("VS_Sup", "VS_Sup", "Variation_Selectors_Supplement", Blk::VsSup),
    ("Wancho", "Wancho", "Wancho", Blk::Wancho),
    ("Warang_Citi", "Warang_Citi", "Warang_Citi", Blk::WarangCiti),
    ("Yezidi", "Yezidi", "Yezidi", Blk::Yezidi),
    ("Yi_Radicals", "Yi_Radicals", "Yi_Radicals", Blk::YiRadicals),
    ("Yi_Syllables", "Yi_Syllables", "Yi_Syllables", Blk::YiSyllables),
    ("Yijing", "Yijing", "Yijing_Hexagram_Symbols", Blk::Yijing),
    ("Zanabazar_Square", "Zanabazar_Square", "Zanabazar_Square", Blk::ZanabazarSquare),
    ("Znamenny_Music", "Znamenny_Music", "Znamenny_Musical_Notation", Blk::ZnamennyMusic),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static SC: &[(&str, &str, &str, Sc)] = &[
    ("Adlm", "Adlm", "Adlam", Sc::Adlm),
    ("Aghb", "Aghb", "Caucasian_Albanian", Sc::Aghb),
    ("Ahom", "Ahom", "Ahom", Sc::Ahom),
    ("Arab", "Arab", "Arabic", Sc::Arab),
    ("Armi", "Armi", "Imperial_Aramaic", Sc::Armi),
    ("Armn", "Armn", "Armenian", Sc::Armn),
    ("Avst", "Avst", "Avestan", Sc::Avst),
    ("Bali", "Bali", "Balinese", Sc::Bali),
    ("Bamu", "Bamu", "Bamum", Sc::Bamu),
    ("Bass", "Bass", "Bassa_Vah", Sc::Bass),
    ("Batk", "Batk", "Batak", Sc::Batk),
    ("Beng", "Beng", "Bengali", Sc::Beng),
    ("Bhks", "Bhks", "Bhaiksuki", Sc::Bhks),
    ("Bopo", "Bopo", "Bopomofo", Sc::Bopo),
    ("Brah", "Brah", "Brahmi", Sc::Brah),
    ("Brai", "Brai", "Braille", Sc::Brai),
    ("Bugi", "Bugi", "Buginese", Sc::Bugi),
    ("Buhd", "Buhd", "Buhid", Sc::Buhd),
    ("Cakm", "Cakm", "Chakma", Sc::Cakm),
    ("Cans", "Cans", "Canadian_Aboriginal", Sc::Cans),
    ("Cari", "Cari", "Carian", Sc::Cari),
    ("Cham", "Cham", "Cham", Sc::Cham),
    ("Cher", "Cher", "Cherokee", Sc::Cher),
    ("Chrs", "Chrs", "Chorasmian", Sc::Chrs),
    ("Copt", "Copt", "Coptic", Sc::Copt),
    ("Cpmn", "Cpmn", "Cypro_Minoan", Sc::Cpmn),
    ("Cprt", "Cprt", "Cypriot", Sc::Cprt),
    ("Cyrl", "Cyrl", "Cyrillic", Sc::Cyrl),
    ("Deva", "Deva", "Devanagari", Sc::Deva),
    ("Diak", "Diak", "Dives_Akuru", Sc::Diak),
    ("Dogr", "Dogr", "Dogra", Sc::Dogr),
    ("Dsrt", "Dsrt", "Deseret", Sc::Dsrt),
    ("Dupl", "Dupl", "Duployan", Sc::Dupl),
    ("Egyp", "Egyp", "Egyptian_Hieroglyphs", Sc::Egyp),
    ("Elba", "Elba", "Elbasan", Sc::Elba),
    ("Elym", "Elym", "Elymaic", Sc::Elym),
    ("Ethi", "Ethi", "Ethiopic", Sc::Ethi),
    ("Geor", "Geor", "Georgian", Sc::Geor),
    ("Glag", "Glag", "Glagolitic", Sc::Glag),
    ("Gong", "Gong", "Gunjala_Gondi", Sc::Gong),
    ("Gonm", "Gonm", "Masaram_Gondi", Sc::Gonm),
    ("Goth", "Goth", "Gothic", Sc::Goth),
    ("Gran", "Gran", "Grantha", Sc::Gran),
    ("Grek", "Grek", "Greek", Sc::Grek),
    ("Gujr", "Gujr", "Gujarati", Sc::Gujr),
    ("Guru", "Guru", "Gurmukhi", Sc::Guru),
    ("Hang", "Hang", "Hangul", Sc::Hang),
    ("Hani", "Hani", "Han", Sc::Hani),
    ("Hano", "Hano", "Hanunoo", Sc::Hano),
    ("Hatr", "Hatr", "Hatran", Sc::Hatr),
    ("Hebr", "Hebr", "Hebrew", Sc::Hebr),
    ("Hira", "Hira", "Hiragana", Sc::Hira),
    ("Hluw", "Hluw", "Anatolian_Hieroglyphs", Sc::Hluw),
    ("Hmng", "Hmng", "Pahawh_Hmong", Sc::Hmng),
    ("Hmnp", "Hmnp", "Nyiakeng_Puachue_Hmong", Sc::Hmnp),
    ("Hrkt", "Hrkt", "Katakana_Or_Hiragana", Sc::Hrkt),
    ("Hung", "Hung", "Old_Hungarian", Sc::Hung),
    ("Ital", "Ital", "Old_Italic", Sc::Ital),
    ("Java", "Java", "Javanese", Sc::Java),
    ("Kali", "Kali", "Kayah_Li", Sc::Kali),
    ("Kana", "Kana", "Katakana", Sc::Kana),
    ("Kawi", "Kawi", "Kawi", Sc::Kawi),
    ("Khar", "Khar", "Kharoshthi", Sc::Khar),
    ("Khmr", "Khmr", "Khmer", Sc::Khmr),
    ("Khoj", "Khoj", "Khojki", Sc::Khoj),
    ("Kits", "Kits", "Khitan_Small_Script", Sc::Kits),
    ("Knda", "Knda", "Kannada", Sc::Knda),
    ("Kthi", "Kthi", "Kaithi", Sc::Kthi),
    ("Lana", "Lana", "Tai_Tham", Sc::Lana),
    ("Laoo", "Laoo", "Lao", Sc::Laoo),
    ("Latn", "Latn", "Latin", Sc::Latn),
    ("Lepc", "Lepc", "Lepcha", Sc::Lepc),
    ("Limb", "Limb", "Limbu", Sc::Limb),
    ("Lina", "Lina", "Linear_A", Sc::Lina),
    ("Linb", "Linb", "Linear_B", Sc::Linb),
    ("Lisu", "Lisu", "Lisu", Sc::Lisu),
    ("Lyci", "Lyci", "Lycian", Sc::Lyci),
    ("Lydi", "Lydi", "Lydian", Sc::Lydi),
    ("Mahj", "Mahj", "Mahajani", Sc::Mahj),
    ("Maka", "Maka", "Makasar", Sc::Maka),
    ("Mand", "Mand", "Mandaic", Sc::Mand),
    ("Mani", "Mani", "Manichaean", Sc::Mani),
    ("Marc", "Marc", "Marchen", Sc::Marc),
    ("Medf", "Medf", "Medefaidrin", Sc::Medf),
    ("Mend", "Mend", "Mende_Kikakui", Sc::Mend),
    ("Merc", "Merc", "Meroitic_Cursive", Sc::Merc),
    ("Mero", "Mero", "Meroitic_Hieroglyphs", Sc::Mero),
    ("Mlym", "Mlym", "Malayalam", Sc::Mlym),
    ("Modi", "Modi", "Modi", Sc::Modi),
    ("Mong", "Mong", "Mongolian", Sc::Mong),
    ("Mroo", "Mroo", "Mro", Sc::Mroo),
    ("Mtei", "Mtei", "Meetei_Mayek", Sc::Mtei),
    ("Mult", "Mult", "Multani", Sc::Mult),
    ("Mymr", "Mymr", "Myanmar", Sc::Mymr),
    ("Nagm", "Nagm", "Nag_Mundari", Sc::Nagm),
    ("Nand", "Nand", "Nandinagari", Sc::Nand),
    ("Narb", "Narb", "Old_North_Arabian", Sc::Narb),
    ("Nbat", "Nbat", "Nabataean", Sc::Nbat),
    ("Newa", "Newa", "Newa", Sc::Newa),
    ("Nkoo", "Nkoo", "Nko", Sc::Nkoo),
    ("Nshu", "Nshu", "Nushu", Sc::Nshu),
    ("Ogam", "Ogam", "Ogham", Sc::Ogam),
    ("Olck", "Olck", "Ol_Chiki", Sc::Olck),
    ("Orkh", "Orkh", "Old_Turkic", Sc::Orkh),
    ("Orya", "Orya", "Oriya", Sc::Orya),
    ("Osge", "Osge", "Osage", Sc::Osge),
    ("Osma", "Osma", "Osmanya", Sc::Osma),
    ("Ougr", "Ougr", "Old_Uyghur", Sc::Ougr),
    ("Palm", "Palm", "Palmyrene", Sc::Palm),
    ("Pauc", "Pauc", "Pau_Cin_Hau", Sc::Pauc),
    ("Perm", "Perm", "Old_Permic", Sc::Perm),
    ("Phag", "Phag", "Phags_Pa", Sc::Phag),
    ("Phli", "Phli", "Inscriptional_Pahlavi", Sc::Phli),
    ("Phlp", "Phlp", "Psalter_Pahlavi", Sc::Phlp),
    ("Phnx", "Phnx", "Phoenician", Sc::Phnx),
    ("Plrd", "Plrd", "Miao", Sc::Plrd),
    ("Prti", "Prti", "Inscriptional_Parthian", Sc::Prti),
    ("Rjng", "Rjng", "Rejang", Sc::Rjng),
    ("Rohg", "Rohg", "Hanifi_Rohingya", Sc::Rohg),
    ("Runr", "Runr", "Runic", Sc::Runr),
    ("Samr", "Samr", "Samaritan", Sc::Samr),
    ("Sarb", "Sarb", "Old_South_Arabian", Sc::Sarb),
    ("Saur", "Saur", "Saurashtra", Sc::Saur),
    ("Sgnw", "Sgnw", "SignWriting", Sc::Sgnw),
    ("Shaw", "Shaw", "Shavian", Sc::Shaw),
    ("Shrd", "Shrd", "Sharada", Sc::Shrd),
    ("Sidd", "Sidd", "Siddham", Sc::Sidd),
    ("Sind", "Sind", "Khudawadi", Sc::Sind),
    ("Sinh", "Sinh", "Sinhala", Sc::Sinh),
    ("Sogd", "Sogd", "Sogdian", Sc::Sogd),
    ("Sogo", "Sogo", "Old_Sogdian", Sc::Sogo),
    ("Sora", "Sora", "Sora_Sompeng", Sc::Sora),
    ("Soyo", "Soyo", "Soyombo", Sc::Soyo),
    ("Sund", "Sund", "Sundanese", Sc::Sund),
    ("Sylo", "Sylo", "Syloti_Nagri", Sc::Sylo),
    ("Syrc", "Syrc", "Syriac", Sc::Syrc),
    ("Tagb", "Tagb", "Tagbanwa", Sc::Tagb),
    ("Takr", "Takr", "Takri", Sc::Takr),
    ("Tale", "Tale", "Tai_Le", Sc::Tale),
    ("Talu", "Talu", "New_Tai_Lue", Sc::Talu),
    ("Taml", "Taml", "Tamil", Sc::Taml),
    ("Tang", "Tang", "Tangut", Sc::Tang),
    ("Tavt", "Tavt", "Tai_Viet", Sc::Tavt),
    ("Telu", "Telu", "Telugu", Sc::Telu),
    ("Tfng", "Tfng", "Tifinagh", Sc::Tfng),
    ("Tglg", "Tglg", "Tagalog", Sc::Tglg),
    ("Thaa", "Thaa", "Thaana", Sc::Thaa),
    ("Thai", "Thai", "Thai", Sc::Thai),
    ("Tibt", "Tibt", "Tibetan", Sc::Tibt),
    ("Tirh", "Tirh", "Tirhuta", Sc::Tirh),
    ("Tnsa", "Tnsa", "Tangsa", Sc::Tnsa),
    ("Toto", "Toto", "Toto", Sc::Toto),
    ("Ugar", "Ugar", "Ugaritic", Sc::Ugar),
    ("Vaii", "Vaii", "Vai", Sc::Vaii),
    ("Vith", "Vith", "Vithkuqi", Sc::Vith),
    ("Wara", "Wara", "Warang_Citi", Sc::Wara),
    ("Wcho", "Wcho", "Wancho", Sc::Wcho),
    ("Xpeo", "Xpeo", "Old_Persian", Sc::Xpeo),
    ("Xsux", "Xsux", "Cuneiform", Sc::Xsux),
    ("Yezi", "Yezi", "Yezidi", Sc::Yezi),
    ("Yiii", "Yiii", "Yi", Sc::Yiii),
    ("Zanb", "Zanb", "Zanabazar_Square", Sc::Zanb),
    ("Zinh", "Zinh", "Inherited", Sc::Zinh),
    ("Zyyy", "Zyyy", "Common", Sc::Zyyy),
    ("Zzzz", "Zzzz", "Unknown", Sc::Zzzz),
];
/// (key in the frozen data, short alias, long alias, variant)
pub static AGE: &[(&str, &str, &str, Age)] = &[
    ("1.1", "1.1", "V1_1", Age::V1_1),
    ("2.0", "2.0", "V2_0", Age::V2_0),
    ("2.1", "2.1", "V2_1", Age::V2_1),
    ("3.0", "3.0", "V3_0", Age::V3_0),
    ("3.1", "3.1", "V3_1", Age::V3_1),
    ("3.2", "3.2", "V3_2", Age::V3_2),
    ("4.0", "4.0", "V4_0", Age::V4_0),
    ("4.1", "4.1", "V4_1", Age::V4_1),
    ("5.0", "5.0", "V5_0", Age::V5_0),
    ("5.1", "5.1", "V5_1", Age::V5_1),
    ("5.2", "5.2", "V5_2", Age::V5_2),
    ("6.0", "6.0", "V6_0", Age::V6_0),
    ("6.1", "6.1", "V6_1", Age::V6_1),
    ("6.2", "6.2", "V6_2", Age::V6_2),
    ("6.3", "6.3", "V6_3", Age::V6_3),
    ("7.0", "7.0", "V7_0", Age::V7_0),
    ("8.0", "8.0", "V8_0", Age::V8_0),
    ("9.0", "9.0", "V9_0", Age::V9_0),
    ("10.0", "10.0", "V10_0", Age::V10_0),
    ("11.0", "11.0", "V11_0", Age::V11_0),
    ("12.0", "12.0", "V12_0", Age::V12_0),
    ("12.1", "12.1", "V12_1", Age::V12_1),
    ("13.0", "13.0", "V13_0", Age::V13_0),
    ("14.0", "14.0", "V14_0", Age::V14_0),
    ("15.0", "15.0", "V15_0", Age::V15_0),
    ("15.1", "15.1", "V15_1", Age::V15_1),
    ("NA", "NA", "Unassigned", Age::NA),
];
