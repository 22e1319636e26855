//! Grammar-level names of the built-in character rules, through a derived parser. One rule per name; the characters of a name are those of pest 2's function.
#![allow(non_camel_case_types)]
use pest3::typed::{Tracker, TypedNode};
use pest3::{Position, Stack};
use pest3_derive::Parser;
use tools::Ctx;

#[derive(Parser)]
#[grammar_inline = r##"
use pest::unicode as uni
use pest::unicode::han as hanzi
use pest::ascii_hex_digit as hexdigit
u_alphabetic = pest::unicode::alphabetic
u_bidi_control = pest::unicode::bidi_control
u_case_ignorable = pest::unicode::case_ignorable
u_cased = pest::unicode::cased
u_changes_when_casefolded = pest::unicode::changes_when_casefolded
u_changes_when_casemapped = pest::unicode::changes_when_casemapped
u_changes_when_lowercased = pest::unicode::changes_when_lowercased
u_changes_when_titlecased = pest::unicode::changes_when_titlecased
u_changes_when_uppercased = pest::unicode::changes_when_uppercased
u_dash = pest::unicode::dash
u_default_ignorable_code_point = pest::unicode::default_ignorable_code_point
u_deprecated = pest::unicode::deprecated
u_diacritic = pest::unicode::diacritic
u_emoji = pest::unicode::emoji
u_emoji_component = pest::unicode::emoji_component
u_emoji_modifier = pest::unicode::emoji_modifier
u_emoji_modifier_base = pest::unicode::emoji_modifier_base
u_emoji_presentation = pest::unicode::emoji_presentation
u_extended_pictographic = pest::unicode::extended_pictographic
u_extender = pest::unicode::extender
u_grapheme_base = pest::unicode::grapheme_base
u_grapheme_extend = pest::unicode::grapheme_extend
u_grapheme_link = pest::unicode::grapheme_link
u_hex_digit = pest::unicode::hex_digit
u_hyphen = pest::unicode::hyphen
u_ids_binary_operator = pest::unicode::ids_binary_operator
u_ids_trinary_operator = pest::unicode::ids_trinary_operator
u_id_continue = pest::unicode::id_continue
u_id_start = pest::unicode::id_start
u_ideographic = pest::unicode::ideographic
u_join_control = pest::unicode::join_control
u_logical_order_exception = pest::unicode::logical_order_exception
u_lowercase = pest::unicode::lowercase
u_math = pest::unicode::math
u_noncharacter_code_point = pest::unicode::noncharacter_code_point
u_other_alphabetic = pest::unicode::other_alphabetic
u_other_default_ignorable_code_point = pest::unicode::other_default_ignorable_code_point
u_other_grapheme_extend = pest::unicode::other_grapheme_extend
u_other_id_continue = pest::unicode::other_id_continue
u_other_id_start = pest::unicode::other_id_start
u_other_lowercase = pest::unicode::other_lowercase
u_other_math = pest::unicode::other_math
u_other_uppercase = pest::unicode::other_uppercase
u_pattern_syntax = pest::unicode::pattern_syntax
u_pattern_white_space = pest::unicode::pattern_white_space
u_prepended_concatenation_mark = pest::unicode::prepended_concatenation_mark
u_quotation_mark = pest::unicode::quotation_mark
u_radical = pest::unicode::radical
u_regional_indicator = pest::unicode::regional_indicator
u_sentence_terminal = pest::unicode::sentence_terminal
u_soft_dotted = pest::unicode::soft_dotted
u_terminal_punctuation = pest::unicode::terminal_punctuation
u_unified_ideograph = pest::unicode::unified_ideograph
u_uppercase = pest::unicode::uppercase
u_variation_selector = pest::unicode::variation_selector
u_white_space = pest::unicode::white_space
u_xid_continue = pest::unicode::xid_continue
u_xid_start = pest::unicode::xid_start
u_cased_letter = pest::unicode::cased_letter
u_close_punctuation = pest::unicode::close_punctuation
u_connector_punctuation = pest::unicode::connector_punctuation
u_control = pest::unicode::control
u_currency_symbol = pest::unicode::currency_symbol
u_dash_punctuation = pest::unicode::dash_punctuation
u_decimal_number = pest::unicode::decimal_number
u_enclosing_mark = pest::unicode::enclosing_mark
u_final_punctuation = pest::unicode::final_punctuation
u_format = pest::unicode::format
u_initial_punctuation = pest::unicode::initial_punctuation
u_letter = pest::unicode::letter
u_letter_number = pest::unicode::letter_number
u_line_separator = pest::unicode::line_separator
u_lowercase_letter = pest::unicode::lowercase_letter
u_mark = pest::unicode::mark
u_math_symbol = pest::unicode::math_symbol
u_modifier_letter = pest::unicode::modifier_letter
u_modifier_symbol = pest::unicode::modifier_symbol
u_nonspacing_mark = pest::unicode::nonspacing_mark
u_number = pest::unicode::number
u_open_punctuation = pest::unicode::open_punctuation
u_other = pest::unicode::other
u_other_letter = pest::unicode::other_letter
u_other_number = pest::unicode::other_number
u_other_punctuation = pest::unicode::other_punctuation
u_other_symbol = pest::unicode::other_symbol
u_paragraph_separator = pest::unicode::paragraph_separator
u_private_use = pest::unicode::private_use
u_punctuation = pest::unicode::punctuation
u_separator = pest::unicode::separator
u_space_separator = pest::unicode::space_separator
u_spacing_mark = pest::unicode::spacing_mark
u_surrogate = pest::unicode::surrogate
u_symbol = pest::unicode::symbol
u_titlecase_letter = pest::unicode::titlecase_letter
u_unassigned = pest::unicode::unassigned
u_uppercase_letter = pest::unicode::uppercase_letter
u_adlam = pest::unicode::adlam
u_ahom = pest::unicode::ahom
u_anatolian_hieroglyphs = pest::unicode::anatolian_hieroglyphs
u_arabic = pest::unicode::arabic
u_armenian = pest::unicode::armenian
u_avestan = pest::unicode::avestan
u_balinese = pest::unicode::balinese
u_bamum = pest::unicode::bamum
u_bassa_vah = pest::unicode::bassa_vah
u_batak = pest::unicode::batak
u_bengali = pest::unicode::bengali
u_bhaiksuki = pest::unicode::bhaiksuki
u_bopomofo = pest::unicode::bopomofo
u_brahmi = pest::unicode::brahmi
u_braille = pest::unicode::braille
u_buginese = pest::unicode::buginese
u_buhid = pest::unicode::buhid
u_canadian_aboriginal = pest::unicode::canadian_aboriginal
u_carian = pest::unicode::carian
u_caucasian_albanian = pest::unicode::caucasian_albanian
u_chakma = pest::unicode::chakma
u_cham = pest::unicode::cham
u_cherokee = pest::unicode::cherokee
u_chorasmian = pest::unicode::chorasmian
u_common = pest::unicode::common
u_coptic = pest::unicode::coptic
u_cuneiform = pest::unicode::cuneiform
u_cypriot = pest::unicode::cypriot
u_cypro_minoan = pest::unicode::cypro_minoan
u_cyrillic = pest::unicode::cyrillic
u_deseret = pest::unicode::deseret
u_devanagari = pest::unicode::devanagari
u_dives_akuru = pest::unicode::dives_akuru
u_dogra = pest::unicode::dogra
u_duployan = pest::unicode::duployan
u_egyptian_hieroglyphs = pest::unicode::egyptian_hieroglyphs
u_elbasan = pest::unicode::elbasan
u_elymaic = pest::unicode::elymaic
u_ethiopic = pest::unicode::ethiopic
u_georgian = pest::unicode::georgian
u_glagolitic = pest::unicode::glagolitic
u_gothic = pest::unicode::gothic
u_grantha = pest::unicode::grantha
u_greek = pest::unicode::greek
u_gujarati = pest::unicode::gujarati
u_gunjala_gondi = pest::unicode::gunjala_gondi
u_gurmukhi = pest::unicode::gurmukhi
u_han = pest::unicode::han
u_hangul = pest::unicode::hangul
u_hanifi_rohingya = pest::unicode::hanifi_rohingya
u_hanunoo = pest::unicode::hanunoo
u_hatran = pest::unicode::hatran
u_hebrew = pest::unicode::hebrew
u_hiragana = pest::unicode::hiragana
u_imperial_aramaic = pest::unicode::imperial_aramaic
u_inherited = pest::unicode::inherited
u_inscriptional_pahlavi = pest::unicode::inscriptional_pahlavi
u_inscriptional_parthian = pest::unicode::inscriptional_parthian
u_javanese = pest::unicode::javanese
u_kaithi = pest::unicode::kaithi
u_kannada = pest::unicode::kannada
u_katakana = pest::unicode::katakana
u_kawi = pest::unicode::kawi
u_kayah_li = pest::unicode::kayah_li
u_kharoshthi = pest::unicode::kharoshthi
u_khitan_small_script = pest::unicode::khitan_small_script
u_khmer = pest::unicode::khmer
u_khojki = pest::unicode::khojki
u_khudawadi = pest::unicode::khudawadi
u_lao = pest::unicode::lao
u_latin = pest::unicode::latin
u_lepcha = pest::unicode::lepcha
u_limbu = pest::unicode::limbu
u_linear_a = pest::unicode::linear_a
u_linear_b = pest::unicode::linear_b
u_lisu = pest::unicode::lisu
u_lycian = pest::unicode::lycian
u_lydian = pest::unicode::lydian
u_mahajani = pest::unicode::mahajani
u_makasar = pest::unicode::makasar
u_malayalam = pest::unicode::malayalam
u_mandaic = pest::unicode::mandaic
u_manichaean = pest::unicode::manichaean
u_marchen = pest::unicode::marchen
u_masaram_gondi = pest::unicode::masaram_gondi
u_medefaidrin = pest::unicode::medefaidrin
u_meetei_mayek = pest::unicode::meetei_mayek
u_mende_kikakui = pest::unicode::mende_kikakui
u_meroitic_cursive = pest::unicode::meroitic_cursive
u_meroitic_hieroglyphs = pest::unicode::meroitic_hieroglyphs
u_miao = pest::unicode::miao
u_modi = pest::unicode::modi
u_mongolian = pest::unicode::mongolian
u_mro = pest::unicode::mro
u_multani = pest::unicode::multani
u_myanmar = pest::unicode::myanmar
u_nabataean = pest::unicode::nabataean
u_nag_mundari = pest::unicode::nag_mundari
u_nandinagari = pest::unicode::nandinagari
u_new_tai_lue = pest::unicode::new_tai_lue
u_newa = pest::unicode::newa
u_nko = pest::unicode::nko
u_nushu = pest::unicode::nushu
u_nyiakeng_puachue_hmong = pest::unicode::nyiakeng_puachue_hmong
u_ogham = pest::unicode::ogham
u_ol_chiki = pest::unicode::ol_chiki
u_old_hungarian = pest::unicode::old_hungarian
u_old_italic = pest::unicode::old_italic
u_old_north_arabian = pest::unicode::old_north_arabian
u_old_permic = pest::unicode::old_permic
u_old_persian = pest::unicode::old_persian
u_old_sogdian = pest::unicode::old_sogdian
u_old_south_arabian = pest::unicode::old_south_arabian
u_old_turkic = pest::unicode::old_turkic
u_old_uyghur = pest::unicode::old_uyghur
u_oriya = pest::unicode::oriya
u_osage = pest::unicode::osage
u_osmanya = pest::unicode::osmanya
u_pahawh_hmong = pest::unicode::pahawh_hmong
u_palmyrene = pest::unicode::palmyrene
u_pau_cin_hau = pest::unicode::pau_cin_hau
u_phags_pa = pest::unicode::phags_pa
u_phoenician = pest::unicode::phoenician
u_psalter_pahlavi = pest::unicode::psalter_pahlavi
u_rejang = pest::unicode::rejang
u_runic = pest::unicode::runic
u_samaritan = pest::unicode::samaritan
u_saurashtra = pest::unicode::saurashtra
u_sharada = pest::unicode::sharada
u_shavian = pest::unicode::shavian
u_siddham = pest::unicode::siddham
u_signwriting = pest::unicode::signwriting
u_sinhala = pest::unicode::sinhala
u_sogdian = pest::unicode::sogdian
u_sora_sompeng = pest::unicode::sora_sompeng
u_soyombo = pest::unicode::soyombo
u_sundanese = pest::unicode::sundanese
u_syloti_nagri = pest::unicode::syloti_nagri
u_syriac = pest::unicode::syriac
u_tagalog = pest::unicode::tagalog
u_tagbanwa = pest::unicode::tagbanwa
u_tai_le = pest::unicode::tai_le
u_tai_tham = pest::unicode::tai_tham
u_tai_viet = pest::unicode::tai_viet
u_takri = pest::unicode::takri
u_tamil = pest::unicode::tamil
u_tangsa = pest::unicode::tangsa
u_tangut = pest::unicode::tangut
u_telugu = pest::unicode::telugu
u_thaana = pest::unicode::thaana
u_thai = pest::unicode::thai
u_tibetan = pest::unicode::tibetan
u_tifinagh = pest::unicode::tifinagh
u_tirhuta = pest::unicode::tirhuta
u_toto = pest::unicode::toto
u_ugaritic = pest::unicode::ugaritic
u_vai = pest::unicode::vai
u_vithkuqi = pest::unicode::vithkuqi
u_wancho = pest::unicode::wancho
u_warang_citi = pest::unicode::warang_citi
u_yezidi = pest::unicode::yezidi
u_yi = pest::unicode::yi
u_zanabazar_square = pest::unicode::zanabazar_square
a_ascii = pest::ascii
a_ascii_digit = pest::ascii_digit
a_ascii_nonzero_digit = pest::ascii_nonzero_digit
a_ascii_bin_digit = pest::ascii_bin_digit
a_ascii_oct_digit = pest::ascii_oct_digit
a_ascii_hex_digit = pest::ascii_hex_digit
a_ascii_alpha_lower = pest::ascii_alpha_lower
a_ascii_alpha_upper = pest::ascii_alpha_upper
a_ascii_alpha = pest::ascii_alpha
a_ascii_alphanumeric = pest::ascii_alphanumeric
a_any = pest::any
i_hiragana = uni::hiragana
i_han = hanzi
i_hex = hexdigit
"##]
#[no_getter]
#[allow(dead_code)]
struct P;

/// Ends of a parse and a check of one rule.
fn observe<'i, T: TypedNode<'i, Rule>>(s: &'i str, at: usize) -> (Option<usize>, Option<usize>) {
    let p = Position::new(s, at).unwrap();
    let mut st = Stack::new();
    let a = T::try_parse_with_partial(p, &mut st, &mut Tracker::new(p)).map(|x| x.0.pos());
    let b = T::check_with_partial(p, &mut st, &mut Tracker::new(p)).map(|x| x.pos());
    (a, b)
}
type Entry = (&'static str, fn(&str, usize) -> (Option<usize>, Option<usize>), fn(char) -> bool);
#[rustfmt::skip]
const ALL: &[Entry] = &[
    ("pest::unicode::alphabetic", |s, p| observe::<rules::u_alphabetic<'_>>(s, p), pest2::unicode::ALPHABETIC),
    ("pest::unicode::bidi_control", |s, p| observe::<rules::u_bidi_control<'_>>(s, p), pest2::unicode::BIDI_CONTROL),
    ("pest::unicode::case_ignorable", |s, p| observe::<rules::u_case_ignorable<'_>>(s, p), pest2::unicode::CASE_IGNORABLE),
    ("pest::unicode::cased", |s, p| observe::<rules::u_cased<'_>>(s, p), pest2::unicode::CASED),
    ("pest::unicode::changes_when_casefolded", |s, p| observe::<rules::u_changes_when_casefolded<'_>>(s, p), pest2::unicode::CHANGES_WHEN_CASEFOLDED),
    ("pest::unicode::changes_when_casemapped", |s, p| observe::<rules::u_changes_when_casemapped<'_>>(s, p), pest2::unicode::CHANGES_WHEN_CASEMAPPED),
    ("pest::unicode::changes_when_lowercased", |s, p| observe::<rules::u_changes_when_lowercased<'_>>(s, p), pest2::unicode::CHANGES_WHEN_LOWERCASED),
    ("pest::unicode::changes_when_titlecased", |s, p| observe::<rules::u_changes_when_titlecased<'_>>(s, p), pest2::unicode::CHANGES_WHEN_TITLECASED),
    ("pest::unicode::changes_when_uppercased", |s, p| observe::<rules::u_changes_when_uppercased<'_>>(s, p), pest2::unicode::CHANGES_WHEN_UPPERCASED),
    ("pest::unicode::dash", |s, p| observe::<rules::u_dash<'_>>(s, p), pest2::unicode::DASH),
    ("pest::unicode::default_ignorable_code_point", |s, p| observe::<rules::u_default_ignorable_code_point<'_>>(s, p), pest2::unicode::DEFAULT_IGNORABLE_CODE_POINT),
    ("pest::unicode::deprecated", |s, p| observe::<rules::u_deprecated<'_>>(s, p), pest2::unicode::DEPRECATED),
    ("pest::unicode::diacritic", |s, p| observe::<rules::u_diacritic<'_>>(s, p), pest2::unicode::DIACRITIC),
    ("pest::unicode::emoji", |s, p| observe::<rules::u_emoji<'_>>(s, p), pest2::unicode::EMOJI),
    ("pest::unicode::emoji_component", |s, p| observe::<rules::u_emoji_component<'_>>(s, p), pest2::unicode::EMOJI_COMPONENT),
    ("pest::unicode::emoji_modifier", |s, p| observe::<rules::u_emoji_modifier<'_>>(s, p), pest2::unicode::EMOJI_MODIFIER),
    ("pest::unicode::emoji_modifier_base", |s, p| observe::<rules::u_emoji_modifier_base<'_>>(s, p), pest2::unicode::EMOJI_MODIFIER_BASE),
    ("pest::unicode::emoji_presentation", |s, p| observe::<rules::u_emoji_presentation<'_>>(s, p), pest2::unicode::EMOJI_PRESENTATION),
    ("pest::unicode::extended_pictographic", |s, p| observe::<rules::u_extended_pictographic<'_>>(s, p), pest2::unicode::EXTENDED_PICTOGRAPHIC),
    ("pest::unicode::extender", |s, p| observe::<rules::u_extender<'_>>(s, p), pest2::unicode::EXTENDER),
    ("pest::unicode::grapheme_base", |s, p| observe::<rules::u_grapheme_base<'_>>(s, p), pest2::unicode::GRAPHEME_BASE),
    ("pest::unicode::grapheme_extend", |s, p| observe::<rules::u_grapheme_extend<'_>>(s, p), pest2::unicode::GRAPHEME_EXTEND),
    ("pest::unicode::grapheme_link", |s, p| observe::<rules::u_grapheme_link<'_>>(s, p), pest2::unicode::GRAPHEME_LINK),
    ("pest::unicode::hex_digit", |s, p| observe::<rules::u_hex_digit<'_>>(s, p), pest2::unicode::HEX_DIGIT),
    ("pest::unicode::hyphen", |s, p| observe::<rules::u_hyphen<'_>>(s, p), pest2::unicode::HYPHEN),
    ("pest::unicode::ids_binary_operator", |s, p| observe::<rules::u_ids_binary_operator<'_>>(s, p), pest2::unicode::IDS_BINARY_OPERATOR),
    ("pest::unicode::ids_trinary_operator", |s, p| observe::<rules::u_ids_trinary_operator<'_>>(s, p), pest2::unicode::IDS_TRINARY_OPERATOR),
    ("pest::unicode::id_continue", |s, p| observe::<rules::u_id_continue<'_>>(s, p), pest2::unicode::ID_CONTINUE),
    ("pest::unicode::id_start", |s, p| observe::<rules::u_id_start<'_>>(s, p), pest2::unicode::ID_START),
    ("pest::unicode::ideographic", |s, p| observe::<rules::u_ideographic<'_>>(s, p), pest2::unicode::IDEOGRAPHIC),
    ("pest::unicode::join_control", |s, p| observe::<rules::u_join_control<'_>>(s, p), pest2::unicode::JOIN_CONTROL),
    ("pest::unicode::logical_order_exception", |s, p| observe::<rules::u_logical_order_exception<'_>>(s, p), pest2::unicode::LOGICAL_ORDER_EXCEPTION),
    ("pest::unicode::lowercase", |s, p| observe::<rules::u_lowercase<'_>>(s, p), pest2::unicode::LOWERCASE),
    ("pest::unicode::math", |s, p| observe::<rules::u_math<'_>>(s, p), pest2::unicode::MATH),
    ("pest::unicode::noncharacter_code_point", |s, p| observe::<rules::u_noncharacter_code_point<'_>>(s, p), pest2::unicode::NONCHARACTER_CODE_POINT),
    ("pest::unicode::other_alphabetic", |s, p| observe::<rules::u_other_alphabetic<'_>>(s, p), pest2::unicode::OTHER_ALPHABETIC),
    ("pest::unicode::other_default_ignorable_code_point", |s, p| observe::<rules::u_other_default_ignorable_code_point<'_>>(s, p), pest2::unicode::OTHER_DEFAULT_IGNORABLE_CODE_POINT),
    ("pest::unicode::other_grapheme_extend", |s, p| observe::<rules::u_other_grapheme_extend<'_>>(s, p), pest2::unicode::OTHER_GRAPHEME_EXTEND),
    ("pest::unicode::other_id_continue", |s, p| observe::<rules::u_other_id_continue<'_>>(s, p), pest2::unicode::OTHER_ID_CONTINUE),
    ("pest::unicode::other_id_start", |s, p| observe::<rules::u_other_id_start<'_>>(s, p), pest2::unicode::OTHER_ID_START),
    ("pest::unicode::other_lowercase", |s, p| observe::<rules::u_other_lowercase<'_>>(s, p), pest2::unicode::OTHER_LOWERCASE),
    ("pest::unicode::other_math", |s, p| observe::<rules::u_other_math<'_>>(s, p), pest2::unicode::OTHER_MATH),
    ("pest::unicode::other_uppercase", |s, p| observe::<rules::u_other_uppercase<'_>>(s, p), pest2::unicode::OTHER_UPPERCASE),
    ("pest::unicode::pattern_syntax", |s, p| observe::<rules::u_pattern_syntax<'_>>(s, p), pest2::unicode::PATTERN_SYNTAX),
    ("pest::unicode::pattern_white_space", |s, p| observe::<rules::u_pattern_white_space<'_>>(s, p), pest2::unicode::PATTERN_WHITE_SPACE),
    ("pest::unicode::prepended_concatenation_mark", |s, p| observe::<rules::u_prepended_concatenation_mark<'_>>(s, p), pest2::unicode::PREPENDED_CONCATENATION_MARK),
    ("pest::unicode::quotation_mark", |s, p| observe::<rules::u_quotation_mark<'_>>(s, p), pest2::unicode::QUOTATION_MARK),
    ("pest::unicode::radical", |s, p| observe::<rules::u_radical<'_>>(s, p), pest2::unicode::RADICAL),
    ("pest::unicode::regional_indicator", |s, p| observe::<rules::u_regional_indicator<'_>>(s, p), pest2::unicode::REGIONAL_INDICATOR),
    ("pest::unicode::sentence_terminal", |s, p| observe::<rules::u_sentence_terminal<'_>>(s, p), pest2::unicode::SENTENCE_TERMINAL),
    ("pest::unicode::soft_dotted", |s, p| observe::<rules::u_soft_dotted<'_>>(s, p), pest2::unicode::SOFT_DOTTED),
    ("pest::unicode::terminal_punctuation", |s, p| observe::<rules::u_terminal_punctuation<'_>>(s, p), pest2::unicode::TERMINAL_PUNCTUATION),
    ("pest::unicode::unified_ideograph", |s, p| observe::<rules::u_unified_ideograph<'_>>(s, p), pest2::unicode::UNIFIED_IDEOGRAPH),
    ("pest::unicode::uppercase", |s, p| observe::<rules::u_uppercase<'_>>(s, p), pest2::unicode::UPPERCASE),
    ("pest::unicode::variation_selector", |s, p| observe::<rules::u_variation_selector<'_>>(s, p), pest2::unicode::VARIATION_SELECTOR),
    ("pest::unicode::white_space", |s, p| observe::<rules::u_white_space<'_>>(s, p), pest2::unicode::WHITE_SPACE),
    ("pest::unicode::xid_continue", |s, p| observe::<rules::u_xid_continue<'_>>(s, p), pest2::unicode::XID_CONTINUE),
    ("pest::unicode::xid_start", |s, p| observe::<rules::u_xid_start<'_>>(s, p), pest2::unicode::XID_START),
    ("pest::unicode::cased_letter", |s, p| observe::<rules::u_cased_letter<'_>>(s, p), pest2::unicode::CASED_LETTER),
    ("pest::unicode::close_punctuation", |s, p| observe::<rules::u_close_punctuation<'_>>(s, p), pest2::unicode::CLOSE_PUNCTUATION),
    ("pest::unicode::connector_punctuation", |s, p| observe::<rules::u_connector_punctuation<'_>>(s, p), pest2::unicode::CONNECTOR_PUNCTUATION),
    ("pest::unicode::control", |s, p| observe::<rules::u_control<'_>>(s, p), pest2::unicode::CONTROL),
    ("pest::unicode::currency_symbol", |s, p| observe::<rules::u_currency_symbol<'_>>(s, p), pest2::unicode::CURRENCY_SYMBOL),
    ("pest::unicode::dash_punctuation", |s, p| observe::<rules::u_dash_punctuation<'_>>(s, p), pest2::unicode::DASH_PUNCTUATION),
    ("pest::unicode::decimal_number", |s, p| observe::<rules::u_decimal_number<'_>>(s, p), pest2::unicode::DECIMAL_NUMBER),
    ("pest::unicode::enclosing_mark", |s, p| observe::<rules::u_enclosing_mark<'_>>(s, p), pest2::unicode::ENCLOSING_MARK),
    ("pest::unicode::final_punctuation", |s, p| observe::<rules::u_final_punctuation<'_>>(s, p), pest2::unicode::FINAL_PUNCTUATION),
    ("pest::unicode::format", |s, p| observe::<rules::u_format<'_>>(s, p), pest2::unicode::FORMAT),
    ("pest::unicode::initial_punctuation", |s, p| observe::<rules::u_initial_punctuation<'_>>(s, p), pest2::unicode::INITIAL_PUNCTUATION),
    ("pest::unicode::letter", |s, p| observe::<rules::u_letter<'_>>(s, p), pest2::unicode::LETTER),
    ("pest::unicode::letter_number", |s, p| observe::<rules::u_letter_number<'_>>(s, p), pest2::unicode::LETTER_NUMBER),
    ("pest::unicode::line_separator", |s, p| observe::<rules::u_line_separator<'_>>(s, p), pest2::unicode::LINE_SEPARATOR),
    ("pest::unicode::lowercase_letter", |s, p| observe::<rules::u_lowercase_letter<'_>>(s, p), pest2::unicode::LOWERCASE_LETTER),
    ("pest::unicode::mark", |s, p| observe::<rules::u_mark<'_>>(s, p), pest2::unicode::MARK),
    ("pest::unicode::math_symbol", |s, p| observe::<rules::u_math_symbol<'_>>(s, p), pest2::unicode::MATH_SYMBOL),
    ("pest::unicode::modifier_letter", |s, p| observe::<rules::u_modifier_letter<'_>>(s, p), pest2::unicode::MODIFIER_LETTER),
    ("pest::unicode::modifier_symbol", |s, p| observe::<rules::u_modifier_symbol<'_>>(s, p), pest2::unicode::MODIFIER_SYMBOL),
    ("pest::unicode::nonspacing_mark", |s, p| observe::<rules::u_nonspacing_mark<'_>>(s, p), pest2::unicode::NONSPACING_MARK),
    ("pest::unicode::number", |s, p| observe::<rules::u_number<'_>>(s, p), pest2::unicode::NUMBER),
    ("pest::unicode::open_punctuation", |s, p| observe::<rules::u_open_punctuation<'_>>(s, p), pest2::unicode::OPEN_PUNCTUATION),
    ("pest::unicode::other", |s, p| observe::<rules::u_other<'_>>(s, p), pest2::unicode::OTHER),
    ("pest::unicode::other_letter", |s, p| observe::<rules::u_other_letter<'_>>(s, p), pest2::unicode::OTHER_LETTER),
    ("pest::unicode::other_number", |s, p| observe::<rules::u_other_number<'_>>(s, p), pest2::unicode::OTHER_NUMBER),
    ("pest::unicode::other_punctuation", |s, p| observe::<rules::u_other_punctuation<'_>>(s, p), pest2::unicode::OTHER_PUNCTUATION),
    ("pest::unicode::other_symbol", |s, p| observe::<rules::u_other_symbol<'_>>(s, p), pest2::unicode::OTHER_SYMBOL),
    ("pest::unicode::paragraph_separator", |s, p| observe::<rules::u_paragraph_separator<'_>>(s, p), pest2::unicode::PARAGRAPH_SEPARATOR),
    ("pest::unicode::private_use", |s, p| observe::<rules::u_private_use<'_>>(s, p), pest2::unicode::PRIVATE_USE),
    ("pest::unicode::punctuation", |s, p| observe::<rules::u_punctuation<'_>>(s, p), pest2::unicode::PUNCTUATION),
    ("pest::unicode::separator", |s, p| observe::<rules::u_separator<'_>>(s, p), pest2::unicode::SEPARATOR),
    ("pest::unicode::space_separator", |s, p| observe::<rules::u_space_separator<'_>>(s, p), pest2::unicode::SPACE_SEPARATOR),
    ("pest::unicode::spacing_mark", |s, p| observe::<rules::u_spacing_mark<'_>>(s, p), pest2::unicode::SPACING_MARK),
    ("pest::unicode::surrogate", |s, p| observe::<rules::u_surrogate<'_>>(s, p), pest2::unicode::SURROGATE),
    ("pest::unicode::symbol", |s, p| observe::<rules::u_symbol<'_>>(s, p), pest2::unicode::SYMBOL),
    ("pest::unicode::titlecase_letter", |s, p| observe::<rules::u_titlecase_letter<'_>>(s, p), pest2::unicode::TITLECASE_LETTER),
    ("pest::unicode::unassigned", |s, p| observe::<rules::u_unassigned<'_>>(s, p), pest2::unicode::UNASSIGNED),
    ("pest::unicode::uppercase_letter", |s, p| observe::<rules::u_uppercase_letter<'_>>(s, p), pest2::unicode::UPPERCASE_LETTER),
    ("pest::unicode::adlam", |s, p| observe::<rules::u_adlam<'_>>(s, p), pest2::unicode::ADLAM),
    ("pest::unicode::ahom", |s, p| observe::<rules::u_ahom<'_>>(s, p), pest2::unicode::AHOM),
    ("pest::unicode::anatolian_hieroglyphs", |s, p| observe::<rules::u_anatolian_hieroglyphs<'_>>(s, p), pest2::unicode::ANATOLIAN_HIEROGLYPHS),
    ("pest::unicode::arabic", |s, p| observe::<rules::u_arabic<'_>>(s, p), pest2::unicode::ARABIC),
    ("pest::unicode::armenian", |s, p| observe::<rules::u_armenian<'_>>(s, p), pest2::unicode::ARMENIAN),
    ("pest::unicode::avestan", |s, p| observe::<rules::u_avestan<'_>>(s, p), pest2::unicode::AVESTAN),
    ("pest::unicode::balinese", |s, p| observe::<rules::u_balinese<'_>>(s, p), pest2::unicode::BALINESE),
    ("pest::unicode::bamum", |s, p| observe::<rules::u_bamum<'_>>(s, p), pest2::unicode::BAMUM),
    ("pest::unicode::bassa_vah", |s, p| observe::<rules::u_bassa_vah<'_>>(s, p), pest2::unicode::BASSA_VAH),
    ("pest::unicode::batak", |s, p| observe::<rules::u_batak<'_>>(s, p), pest2::unicode::BATAK),
    ("pest::unicode::bengali", |s, p| observe::<rules::u_bengali<'_>>(s, p), pest2::unicode::BENGALI),
    ("pest::unicode::bhaiksuki", |s, p| observe::<rules::u_bhaiksuki<'_>>(s, p), pest2::unicode::BHAIKSUKI),
    ("pest::unicode::bopomofo", |s, p| observe::<rules::u_bopomofo<'_>>(s, p), pest2::unicode::BOPOMOFO),
    ("pest::unicode::brahmi", |s, p| observe::<rules::u_brahmi<'_>>(s, p), pest2::unicode::BRAHMI),
    ("pest::unicode::braille", |s, p| observe::<rules::u_braille<'_>>(s, p), pest2::unicode::BRAILLE),
    ("pest::unicode::buginese", |s, p| observe::<rules::u_buginese<'_>>(s, p), pest2::unicode::BUGINESE),
    ("pest::unicode::buhid", |s, p| observe::<rules::u_buhid<'_>>(s, p), pest2::unicode::BUHID),
    ("pest::unicode::canadian_aboriginal", |s, p| observe::<rules::u_canadian_aboriginal<'_>>(s, p), pest2::unicode::CANADIAN_ABORIGINAL),
    ("pest::unicode::carian", |s, p| observe::<rules::u_carian<'_>>(s, p), pest2::unicode::CARIAN),
    ("pest::unicode::caucasian_albanian", |s, p| observe::<rules::u_caucasian_albanian<'_>>(s, p), pest2::unicode::CAUCASIAN_ALBANIAN),
    ("pest::unicode::chakma", |s, p| observe::<rules::u_chakma<'_>>(s, p), pest2::unicode::CHAKMA),
    ("pest::unicode::cham", |s, p| observe::<rules::u_cham<'_>>(s, p), pest2::unicode::CHAM),
    ("pest::unicode::cherokee", |s, p| observe::<rules::u_cherokee<'_>>(s, p), pest2::unicode::CHEROKEE),
    ("pest::unicode::chorasmian", |s, p| observe::<rules::u_chorasmian<'_>>(s, p), pest2::unicode::CHORASMIAN),
    ("pest::unicode::common", |s, p| observe::<rules::u_common<'_>>(s, p), pest2::unicode::COMMON),
    ("pest::unicode::coptic", |s, p| observe::<rules::u_coptic<'_>>(s, p), pest2::unicode::COPTIC),
    ("pest::unicode::cuneiform", |s, p| observe::<rules::u_cuneiform<'_>>(s, p), pest2::unicode::CUNEIFORM),
    ("pest::unicode::cypriot", |s, p| observe::<rules::u_cypriot<'_>>(s, p), pest2::unicode::CYPRIOT),
    ("pest::unicode::cypro_minoan", |s, p| observe::<rules::u_cypro_minoan<'_>>(s, p), pest2::unicode::CYPRO_MINOAN),
    ("pest::unicode::cyrillic", |s, p| observe::<rules::u_cyrillic<'_>>(s, p), pest2::unicode::CYRILLIC),
    ("pest::unicode::deseret", |s, p| observe::<rules::u_deseret<'_>>(s, p), pest2::unicode::DESERET),
    ("pest::unicode::devanagari", |s, p| observe::<rules::u_devanagari<'_>>(s, p), pest2::unicode::DEVANAGARI),
    ("pest::unicode::dives_akuru", |s, p| observe::<rules::u_dives_akuru<'_>>(s, p), pest2::unicode::DIVES_AKURU),
    ("pest::unicode::dogra", |s, p| observe::<rules::u_dogra<'_>>(s, p), pest2::unicode::DOGRA),
    ("pest::unicode::duployan", |s, p| observe::<rules::u_duployan<'_>>(s, p), pest2::unicode::DUPLOYAN),
    ("pest::unicode::egyptian_hieroglyphs", |s, p| observe::<rules::u_egyptian_hieroglyphs<'_>>(s, p), pest2::unicode::EGYPTIAN_HIEROGLYPHS),
    ("pest::unicode::elbasan", |s, p| observe::<rules::u_elbasan<'_>>(s, p), pest2::unicode::ELBASAN),
    ("pest::unicode::elymaic", |s, p| observe::<rules::u_elymaic<'_>>(s, p), pest2::unicode::ELYMAIC),
    ("pest::unicode::ethiopic", |s, p| observe::<rules::u_ethiopic<'_>>(s, p), pest2::unicode::ETHIOPIC),
    ("pest::unicode::georgian", |s, p| observe::<rules::u_georgian<'_>>(s, p), pest2::unicode::GEORGIAN),
    ("pest::unicode::glagolitic", |s, p| observe::<rules::u_glagolitic<'_>>(s, p), pest2::unicode::GLAGOLITIC),
    ("pest::unicode::gothic", |s, p| observe::<rules::u_gothic<'_>>(s, p), pest2::unicode::GOTHIC),
    ("pest::unicode::grantha", |s, p| observe::<rules::u_grantha<'_>>(s, p), pest2::unicode::GRANTHA),
    ("pest::unicode::greek", |s, p| observe::<rules::u_greek<'_>>(s, p), pest2::unicode::GREEK),
    ("pest::unicode::gujarati", |s, p| observe::<rules::u_gujarati<'_>>(s, p), pest2::unicode::GUJARATI),
    ("pest::unicode::gunjala_gondi", |s, p| observe::<rules::u_gunjala_gondi<'_>>(s, p), pest2::unicode::GUNJALA_GONDI),
    ("pest::unicode::gurmukhi", |s, p| observe::<rules::u_gurmukhi<'_>>(s, p), pest2::unicode::GURMUKHI),
    ("pest::unicode::han", |s, p| observe::<rules::u_han<'_>>(s, p), pest2::unicode::HAN),
    ("pest::unicode::hangul", |s, p| observe::<rules::u_hangul<'_>>(s, p), pest2::unicode::HANGUL),
    ("pest::unicode::hanifi_rohingya", |s, p| observe::<rules::u_hanifi_rohingya<'_>>(s, p), pest2::unicode::HANIFI_ROHINGYA),
    ("pest::unicode::hanunoo", |s, p| observe::<rules::u_hanunoo<'_>>(s, p), pest2::unicode::HANUNOO),
    ("pest::unicode::hatran", |s, p| observe::<rules::u_hatran<'_>>(s, p), pest2::unicode::HATRAN),
    ("pest::unicode::hebrew", |s, p| observe::<rules::u_hebrew<'_>>(s, p), pest2::unicode::HEBREW),
    ("pest::unicode::hiragana", |s, p| observe::<rules::u_hiragana<'_>>(s, p), pest2::unicode::HIRAGANA),
    ("pest::unicode::imperial_aramaic", |s, p| observe::<rules::u_imperial_aramaic<'_>>(s, p), pest2::unicode::IMPERIAL_ARAMAIC),
    ("pest::unicode::inherited", |s, p| observe::<rules::u_inherited<'_>>(s, p), pest2::unicode::INHERITED),
    ("pest::unicode::inscriptional_pahlavi", |s, p| observe::<rules::u_inscriptional_pahlavi<'_>>(s, p), pest2::unicode::INSCRIPTIONAL_PAHLAVI),
    ("pest::unicode::inscriptional_parthian", |s, p| observe::<rules::u_inscriptional_parthian<'_>>(s, p), pest2::unicode::INSCRIPTIONAL_PARTHIAN),
    ("pest::unicode::javanese", |s, p| observe::<rules::u_javanese<'_>>(s, p), pest2::unicode::JAVANESE),
    ("pest::unicode::kaithi", |s, p| observe::<rules::u_kaithi<'_>>(s, p), pest2::unicode::KAITHI),
    ("pest::unicode::kannada", |s, p| observe::<rules::u_kannada<'_>>(s, p), pest2::unicode::KANNADA),
    ("pest::unicode::katakana", |s, p| observe::<rules::u_katakana<'_>>(s, p), pest2::unicode::KATAKANA),
    ("pest::unicode::kawi", |s, p| observe::<rules::u_kawi<'_>>(s, p), pest2::unicode::KAWI),
    ("pest::unicode::kayah_li", |s, p| observe::<rules::u_kayah_li<'_>>(s, p), pest2::unicode::KAYAH_LI),
    ("pest::unicode::kharoshthi", |s, p| observe::<rules::u_kharoshthi<'_>>(s, p), pest2::unicode::KHAROSHTHI),
    ("pest::unicode::khitan_small_script", |s, p| observe::<rules::u_khitan_small_script<'_>>(s, p), pest2::unicode::KHITAN_SMALL_SCRIPT),
    ("pest::unicode::khmer", |s, p| observe::<rules::u_khmer<'_>>(s, p), pest2::unicode::KHMER),
    ("pest::unicode::khojki", |s, p| observe::<rules::u_khojki<'_>>(s, p), pest2::unicode::KHOJKI),
    ("pest::unicode::khudawadi", |s, p| observe::<rules::u_khudawadi<'_>>(s, p), pest2::unicode::KHUDAWADI),
    ("pest::unicode::lao", |s, p| observe::<rules::u_lao<'_>>(s, p), pest2::unicode::LAO),
    ("pest::unicode::latin", |s, p| observe::<rules::u_latin<'_>>(s, p), pest2::unicode::LATIN),
    ("pest::unicode::lepcha", |s, p| observe::<rules::u_lepcha<'_>>(s, p), pest2::unicode::LEPCHA),
    ("pest::unicode::limbu", |s, p| observe::<rules::u_limbu<'_>>(s, p), pest2::unicode::LIMBU),
    ("pest::unicode::linear_a", |s, p| observe::<rules::u_linear_a<'_>>(s, p), pest2::unicode::LINEAR_A),
    ("pest::unicode::linear_b", |s, p| observe::<rules::u_linear_b<'_>>(s, p), pest2::unicode::LINEAR_B),
    ("pest::unicode::lisu", |s, p| observe::<rules::u_lisu<'_>>(s, p), pest2::unicode::LISU),
    ("pest::unicode::lycian", |s, p| observe::<rules::u_lycian<'_>>(s, p), pest2::unicode::LYCIAN),
    ("pest::unicode::lydian", |s, p| observe::<rules::u_lydian<'_>>(s, p), pest2::unicode::LYDIAN),
    ("pest::unicode::mahajani", |s, p| observe::<rules::u_mahajani<'_>>(s, p), pest2::unicode::MAHAJANI),
    ("pest::unicode::makasar", |s, p| observe::<rules::u_makasar<'_>>(s, p), pest2::unicode::MAKASAR),
    ("pest::unicode::malayalam", |s, p| observe::<rules::u_malayalam<'_>>(s, p), pest2::unicode::MALAYALAM),
    ("pest::unicode::mandaic", |s, p| observe::<rules::u_mandaic<'_>>(s, p), pest2::unicode::MANDAIC),
    ("pest::unicode::manichaean", |s, p| observe::<rules::u_manichaean<'_>>(s, p), pest2::unicode::MANICHAEAN),
    ("pest::unicode::marchen", |s, p| observe::<rules::u_marchen<'_>>(s, p), pest2::unicode::MARCHEN),
    ("pest::unicode::masaram_gondi", |s, p| observe::<rules::u_masaram_gondi<'_>>(s, p), pest2::unicode::MASARAM_GONDI),
    ("pest::unicode::medefaidrin", |s, p| observe::<rules::u_medefaidrin<'_>>(s, p), pest2::unicode::MEDEFAIDRIN),
    ("pest::unicode::meetei_mayek", |s, p| observe::<rules::u_meetei_mayek<'_>>(s, p), pest2::unicode::MEETEI_MAYEK),
    ("pest::unicode::mende_kikakui", |s, p| observe::<rules::u_mende_kikakui<'_>>(s, p), pest2::unicode::MENDE_KIKAKUI),
    ("pest::unicode::meroitic_cursive", |s, p| observe::<rules::u_meroitic_cursive<'_>>(s, p), pest2::unicode::MEROITIC_CURSIVE),
    ("pest::unicode::meroitic_hieroglyphs", |s, p| observe::<rules::u_meroitic_hieroglyphs<'_>>(s, p), pest2::unicode::MEROITIC_HIEROGLYPHS),
    ("pest::unicode::miao", |s, p| observe::<rules::u_miao<'_>>(s, p), pest2::unicode::MIAO),
    ("pest::unicode::modi", |s, p| observe::<rules::u_modi<'_>>(s, p), pest2::unicode::MODI),
    ("pest::unicode::mongolian", |s, p| observe::<rules::u_mongolian<'_>>(s, p), pest2::unicode::MONGOLIAN),
    ("pest::unicode::mro", |s, p| observe::<rules::u_mro<'_>>(s, p), pest2::unicode::MRO),
    ("pest::unicode::multani", |s, p| observe::<rules::u_multani<'_>>(s, p), pest2::unicode::MULTANI),
    ("pest::unicode::myanmar", |s, p| observe::<rules::u_myanmar<'_>>(s, p), pest2::unicode::MYANMAR),
    ("pest::unicode::nabataean", |s, p| observe::<rules::u_nabataean<'_>>(s, p), pest2::unicode::NABATAEAN),
    ("pest::unicode::nag_mundari", |s, p| observe::<rules::u_nag_mundari<'_>>(s, p), pest2::unicode::NAG_MUNDARI),
    ("pest::unicode::nandinagari", |s, p| observe::<rules::u_nandinagari<'_>>(s, p), pest2::unicode::NANDINAGARI),
    ("pest::unicode::new_tai_lue", |s, p| observe::<rules::u_new_tai_lue<'_>>(s, p), pest2::unicode::NEW_TAI_LUE),
    ("pest::unicode::newa", |s, p| observe::<rules::u_newa<'_>>(s, p), pest2::unicode::NEWA),
    ("pest::unicode::nko", |s, p| observe::<rules::u_nko<'_>>(s, p), pest2::unicode::NKO),
    ("pest::unicode::nushu", |s, p| observe::<rules::u_nushu<'_>>(s, p), pest2::unicode::NUSHU),
    ("pest::unicode::nyiakeng_puachue_hmong", |s, p| observe::<rules::u_nyiakeng_puachue_hmong<'_>>(s, p), pest2::unicode::NYIAKENG_PUACHUE_HMONG),
    ("pest::unicode::ogham", |s, p| observe::<rules::u_ogham<'_>>(s, p), pest2::unicode::OGHAM),
    ("pest::unicode::ol_chiki", |s, p| observe::<rules::u_ol_chiki<'_>>(s, p), pest2::unicode::OL_CHIKI),
    ("pest::unicode::old_hungarian", |s, p| observe::<rules::u_old_hungarian<'_>>(s, p), pest2::unicode::OLD_HUNGARIAN),
    ("pest::unicode::old_italic", |s, p| observe::<rules::u_old_italic<'_>>(s, p), pest2::unicode::OLD_ITALIC),
    ("pest::unicode::old_north_arabian", |s, p| observe::<rules::u_old_north_arabian<'_>>(s, p), pest2::unicode::OLD_NORTH_ARABIAN),
    ("pest::unicode::old_permic", |s, p| observe::<rules::u_old_permic<'_>>(s, p), pest2::unicode::OLD_PERMIC),
    ("pest::unicode::old_persian", |s, p| observe::<rules::u_old_persian<'_>>(s, p), pest2::unicode::OLD_PERSIAN),
    ("pest::unicode::old_sogdian", |s, p| observe::<rules::u_old_sogdian<'_>>(s, p), pest2::unicode::OLD_SOGDIAN),
    ("pest::unicode::old_south_arabian", |s, p| observe::<rules::u_old_south_arabian<'_>>(s, p), pest2::unicode::OLD_SOUTH_ARABIAN),
    ("pest::unicode::old_turkic", |s, p| observe::<rules::u_old_turkic<'_>>(s, p), pest2::unicode::OLD_TURKIC),
    ("pest::unicode::old_uyghur", |s, p| observe::<rules::u_old_uyghur<'_>>(s, p), pest2::unicode::OLD_UYGHUR),
    ("pest::unicode::oriya", |s, p| observe::<rules::u_oriya<'_>>(s, p), pest2::unicode::ORIYA),
    ("pest::unicode::osage", |s, p| observe::<rules::u_osage<'_>>(s, p), pest2::unicode::OSAGE),
    ("pest::unicode::osmanya", |s, p| observe::<rules::u_osmanya<'_>>(s, p), pest2::unicode::OSMANYA),
    ("pest::unicode::pahawh_hmong", |s, p| observe::<rules::u_pahawh_hmong<'_>>(s, p), pest2::unicode::PAHAWH_HMONG),
    ("pest::unicode::palmyrene", |s, p| observe::<rules::u_palmyrene<'_>>(s, p), pest2::unicode::PALMYRENE),
    ("pest::unicode::pau_cin_hau", |s, p| observe::<rules::u_pau_cin_hau<'_>>(s, p), pest2::unicode::PAU_CIN_HAU),
    ("pest::unicode::phags_pa", |s, p| observe::<rules::u_phags_pa<'_>>(s, p), pest2::unicode::PHAGS_PA),
    ("pest::unicode::phoenician", |s, p| observe::<rules::u_phoenician<'_>>(s, p), pest2::unicode::PHOENICIAN),
    ("pest::unicode::psalter_pahlavi", |s, p| observe::<rules::u_psalter_pahlavi<'_>>(s, p), pest2::unicode::PSALTER_PAHLAVI),
    ("pest::unicode::rejang", |s, p| observe::<rules::u_rejang<'_>>(s, p), pest2::unicode::REJANG),
    ("pest::unicode::runic", |s, p| observe::<rules::u_runic<'_>>(s, p), pest2::unicode::RUNIC),
    ("pest::unicode::samaritan", |s, p| observe::<rules::u_samaritan<'_>>(s, p), pest2::unicode::SAMARITAN),
    ("pest::unicode::saurashtra", |s, p| observe::<rules::u_saurashtra<'_>>(s, p), pest2::unicode::SAURASHTRA),
    ("pest::unicode::sharada", |s, p| observe::<rules::u_sharada<'_>>(s, p), pest2::unicode::SHARADA),
    ("pest::unicode::shavian", |s, p| observe::<rules::u_shavian<'_>>(s, p), pest2::unicode::SHAVIAN),
    ("pest::unicode::siddham", |s, p| observe::<rules::u_siddham<'_>>(s, p), pest2::unicode::SIDDHAM),
    ("pest::unicode::signwriting", |s, p| observe::<rules::u_signwriting<'_>>(s, p), pest2::unicode::SIGNWRITING),
    ("pest::unicode::sinhala", |s, p| observe::<rules::u_sinhala<'_>>(s, p), pest2::unicode::SINHALA),
    ("pest::unicode::sogdian", |s, p| observe::<rules::u_sogdian<'_>>(s, p), pest2::unicode::SOGDIAN),
    ("pest::unicode::sora_sompeng", |s, p| observe::<rules::u_sora_sompeng<'_>>(s, p), pest2::unicode::SORA_SOMPENG),
    ("pest::unicode::soyombo", |s, p| observe::<rules::u_soyombo<'_>>(s, p), pest2::unicode::SOYOMBO),
    ("pest::unicode::sundanese", |s, p| observe::<rules::u_sundanese<'_>>(s, p), pest2::unicode::SUNDANESE),
    ("pest::unicode::syloti_nagri", |s, p| observe::<rules::u_syloti_nagri<'_>>(s, p), pest2::unicode::SYLOTI_NAGRI),
    ("pest::unicode::syriac", |s, p| observe::<rules::u_syriac<'_>>(s, p), pest2::unicode::SYRIAC),
    ("pest::unicode::tagalog", |s, p| observe::<rules::u_tagalog<'_>>(s, p), pest2::unicode::TAGALOG),
    ("pest::unicode::tagbanwa", |s, p| observe::<rules::u_tagbanwa<'_>>(s, p), pest2::unicode::TAGBANWA),
    ("pest::unicode::tai_le", |s, p| observe::<rules::u_tai_le<'_>>(s, p), pest2::unicode::TAI_LE),
    ("pest::unicode::tai_tham", |s, p| observe::<rules::u_tai_tham<'_>>(s, p), pest2::unicode::TAI_THAM),
    ("pest::unicode::tai_viet", |s, p| observe::<rules::u_tai_viet<'_>>(s, p), pest2::unicode::TAI_VIET),
    ("pest::unicode::takri", |s, p| observe::<rules::u_takri<'_>>(s, p), pest2::unicode::TAKRI),
    ("pest::unicode::tamil", |s, p| observe::<rules::u_tamil<'_>>(s, p), pest2::unicode::TAMIL),
    ("pest::unicode::tangsa", |s, p| observe::<rules::u_tangsa<'_>>(s, p), pest2::unicode::TANGSA),
    ("pest::unicode::tangut", |s, p| observe::<rules::u_tangut<'_>>(s, p), pest2::unicode::TANGUT),
    ("pest::unicode::telugu", |s, p| observe::<rules::u_telugu<'_>>(s, p), pest2::unicode::TELUGU),
    ("pest::unicode::thaana", |s, p| observe::<rules::u_thaana<'_>>(s, p), pest2::unicode::THAANA),
    ("pest::unicode::thai", |s, p| observe::<rules::u_thai<'_>>(s, p), pest2::unicode::THAI),
    ("pest::unicode::tibetan", |s, p| observe::<rules::u_tibetan<'_>>(s, p), pest2::unicode::TIBETAN),
    ("pest::unicode::tifinagh", |s, p| observe::<rules::u_tifinagh<'_>>(s, p), pest2::unicode::TIFINAGH),
    ("pest::unicode::tirhuta", |s, p| observe::<rules::u_tirhuta<'_>>(s, p), pest2::unicode::TIRHUTA),
    ("pest::unicode::toto", |s, p| observe::<rules::u_toto<'_>>(s, p), pest2::unicode::TOTO),
    ("pest::unicode::ugaritic", |s, p| observe::<rules::u_ugaritic<'_>>(s, p), pest2::unicode::UGARITIC),
    ("pest::unicode::vai", |s, p| observe::<rules::u_vai<'_>>(s, p), pest2::unicode::VAI),
    ("pest::unicode::vithkuqi", |s, p| observe::<rules::u_vithkuqi<'_>>(s, p), pest2::unicode::VITHKUQI),
    ("pest::unicode::wancho", |s, p| observe::<rules::u_wancho<'_>>(s, p), pest2::unicode::WANCHO),
    ("pest::unicode::warang_citi", |s, p| observe::<rules::u_warang_citi<'_>>(s, p), pest2::unicode::WARANG_CITI),
    ("pest::unicode::yezidi", |s, p| observe::<rules::u_yezidi<'_>>(s, p), pest2::unicode::YEZIDI),
    ("pest::unicode::yi", |s, p| observe::<rules::u_yi<'_>>(s, p), pest2::unicode::YI),
    ("pest::unicode::zanabazar_square", |s, p| observe::<rules::u_zanabazar_square<'_>>(s, p), pest2::unicode::ZANABAZAR_SQUARE),
    ("pest::ascii", |s, p| observe::<rules::a_ascii<'_>>(s, p), |c| c.is_ascii()),
    ("pest::ascii_digit", |s, p| observe::<rules::a_ascii_digit<'_>>(s, p), |c| c.is_ascii_digit()),
    ("pest::ascii_nonzero_digit", |s, p| observe::<rules::a_ascii_nonzero_digit<'_>>(s, p), |c| ('1'..='9').contains(&c)),
    ("pest::ascii_bin_digit", |s, p| observe::<rules::a_ascii_bin_digit<'_>>(s, p), |c| c=='0'||c=='1'),
    ("pest::ascii_oct_digit", |s, p| observe::<rules::a_ascii_oct_digit<'_>>(s, p), |c| ('0'..='7').contains(&c)),
    ("pest::ascii_hex_digit", |s, p| observe::<rules::a_ascii_hex_digit<'_>>(s, p), |c| c.is_ascii_hexdigit()),
    ("pest::ascii_alpha_lower", |s, p| observe::<rules::a_ascii_alpha_lower<'_>>(s, p), |c| c.is_ascii_lowercase()),
    ("pest::ascii_alpha_upper", |s, p| observe::<rules::a_ascii_alpha_upper<'_>>(s, p), |c| c.is_ascii_uppercase()),
    ("pest::ascii_alpha", |s, p| observe::<rules::a_ascii_alpha<'_>>(s, p), |c| c.is_ascii_alphabetic()),
    ("pest::ascii_alphanumeric", |s, p| observe::<rules::a_ascii_alphanumeric<'_>>(s, p), |c| c.is_ascii_alphanumeric()),
    ("pest::any", |s, p| observe::<rules::a_any<'_>>(s, p), |_| true),
    ("alias i_hiragana", |s, p| observe::<rules::i_hiragana<'_>>(s, p), pest2::unicode::HIRAGANA),
    ("alias i_han", |s, p| observe::<rules::i_han<'_>>(s, p), pest2::unicode::HAN),
    ("alias i_hex", |s, p| observe::<rules::i_hex<'_>>(s, p), |c| c.is_ascii_hexdigit()),
];

fn names(c: &mut Ctx) {
    let mut hits = vec![0u64; ALL.len()];
    for x in c.mine(0x110000) {
        let Some(ch) = char::from_u32(x as u32) else { continue };
        // Characters where a set begins or ends, and a part of the others.
        let before = x.checked_sub(1).and_then(|x| char::from_u32(x as u32));
        let edge = before.map_or(true, |b| ALL.iter().any(|e| (e.2)(b) != (e.2)(ch)));
        if !edge && x / c.shards % (32 / c.scale.min(32)) != 0 {
            continue;
        }
        c.rep.count("edges", edge as u64);
        let (s, at) = match (x / c.shards) % 3 {
            0 => (format!("{ch}"), 0usize),
            1 => (format!("a{ch}"), 1),
            _ => (format!("{ch}{ch}"), ch.len_utf8()),
        };
        c.rep.count("characters", 1);
        c.watch.enter(move || format!("character {ch:?}"));
        for (k, e) in ALL.iter().enumerate() {
            let want = (e.2)(ch);
            hits[k] += want as u64;
            c.rep.count("matches_observed", 2);
            let end = want.then(|| at + ch.len_utf8());
            match model::watch::guard(|| (e.1)(&s, at)) {
                Ok(seen) if seen == (end, end) => (),
                r => c.rep.violation("builtin-name", "a built-in rule of a grammar matches exactly the characters it is named after", &[("rule", e.0), ("character", &format!("{ch:?}")), ("text", &format!("{s:?}")), ("parsed and checked to", &format!("{r:?}")), ("want", &format!("{end:?}"))]),
            }
        }
        c.watch.leave();
    }
    c.rep.max("grammar_names", ALL.len() as u64);
    for h in hits {
        if h > 0 {
            c.rep.count("names_that_matched", 1);
            c.rep.count("distinct_nontrivial", h);
        }
    }
}
fn main() {
    tools::main_(|c, _| names(c))
}
