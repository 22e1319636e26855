//! Built-in character rules, used directly, over every character.
use pest3_core::typed::template::*;
use pest3_core::typed::{Tracker, TypedNode};
use pest3_core::{Position, Stack};
use tools::Ctx;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Rl {
    EOI,
}
impl pest3_core::typed::RuleType for Rl {
    const EOI: Self = Rl::EOI;
}

/// What parsing and checking did: end and character, end.
type Seen = (Option<(usize, char)>, Option<usize>, usize);
struct Entry {
    name: &'static str,
    run: fn(&str, usize) -> Seen,
    want: fn(char) -> bool,
}
fn observe<'i, T: TypedNode<'i, Rl>>(s: &'i str, at: usize, content: impl Fn(&T) -> char) -> Seen {
    let p = Position::new(s, at).unwrap();
    let mut stack = Stack::new();
    let mut tracker = Tracker::new(p);
    let a = T::try_parse_with_partial(p, &mut stack, &mut tracker).map(|(e, n)| (e.pos(), content(&n)));
    let b = T::check_with_partial(p, &mut stack, &mut tracker).map(|e| e.pos());
    (a, b, stack.len())
}
macro_rules! unicode_entries {
    ($($n:ident)*) => {
        fn unicode_entries() -> Vec<Entry> {
            vec![$(Entry { name: concat!("unicode ", stringify!($n)), run: |s, p| observe::<pest3_core::typed::unicode::$n>(s, p, |x| x.content), want: pest2::unicode::$n }),*]
        }
    };
}
unicode_entries!(
    ALPHABETIC BIDI_CONTROL CASE_IGNORABLE CASED CHANGES_WHEN_CASEFOLDED CHANGES_WHEN_CASEMAPPED CHANGES_WHEN_LOWERCASED CHANGES_WHEN_TITLECASED
    CHANGES_WHEN_UPPERCASED DASH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED DIACRITIC EMOJI EMOJI_COMPONENT EMOJI_MODIFIER
    EMOJI_MODIFIER_BASE EMOJI_PRESENTATION EXTENDED_PICTOGRAPHIC EXTENDER GRAPHEME_BASE GRAPHEME_EXTEND GRAPHEME_LINK HEX_DIGIT
    HYPHEN IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR ID_CONTINUE ID_START IDEOGRAPHIC JOIN_CONTROL LOGICAL_ORDER_EXCEPTION
    LOWERCASE MATH NONCHARACTER_CODE_POINT OTHER_ALPHABETIC OTHER_DEFAULT_IGNORABLE_CODE_POINT OTHER_GRAPHEME_EXTEND OTHER_ID_CONTINUE OTHER_ID_START
    OTHER_LOWERCASE OTHER_MATH OTHER_UPPERCASE PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK QUOTATION_MARK RADICAL
    REGIONAL_INDICATOR SENTENCE_TERMINAL SOFT_DOTTED TERMINAL_PUNCTUATION UNIFIED_IDEOGRAPH UPPERCASE VARIATION_SELECTOR WHITE_SPACE
    XID_CONTINUE XID_START CASED_LETTER CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION
    DECIMAL_NUMBER ENCLOSING_MARK FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER LETTER_NUMBER LINE_SEPARATOR
    LOWERCASE_LETTER MARK MATH_SYMBOL MODIFIER_LETTER MODIFIER_SYMBOL NONSPACING_MARK NUMBER OPEN_PUNCTUATION
    OTHER OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL PARAGRAPH_SEPARATOR PRIVATE_USE PUNCTUATION
    SEPARATOR SPACE_SEPARATOR SPACING_MARK SURROGATE SYMBOL TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER
    ADLAM AHOM ANATOLIAN_HIEROGLYPHS ARABIC ARMENIAN AVESTAN BALINESE BAMUM
    BASSA_VAH BATAK BENGALI BHAIKSUKI BOPOMOFO BRAHMI BRAILLE BUGINESE
    BUHID CANADIAN_ABORIGINAL CARIAN CAUCASIAN_ALBANIAN CHAKMA CHAM CHEROKEE CHORASMIAN
    COMMON COPTIC CUNEIFORM CYPRIOT CYPRO_MINOAN CYRILLIC DESERET DEVANAGARI
    DIVES_AKURU DOGRA DUPLOYAN EGYPTIAN_HIEROGLYPHS ELBASAN ELYMAIC ETHIOPIC GEORGIAN
    GLAGOLITIC GOTHIC GRANTHA GREEK GUJARATI GUNJALA_GONDI GURMUKHI HAN
    HANGUL HANIFI_ROHINGYA HANUNOO HATRAN HEBREW HIRAGANA IMPERIAL_ARAMAIC INHERITED
    INSCRIPTIONAL_PAHLAVI INSCRIPTIONAL_PARTHIAN JAVANESE KAITHI KANNADA KATAKANA KAWI KAYAH_LI
    KHAROSHTHI KHITAN_SMALL_SCRIPT KHMER KHOJKI KHUDAWADI LAO LATIN LEPCHA
    LIMBU LINEAR_A LINEAR_B LISU LYCIAN LYDIAN MAHAJANI MAKASAR
    MALAYALAM MANDAIC MANICHAEAN MARCHEN MASARAM_GONDI MEDEFAIDRIN MEETEI_MAYEK MENDE_KIKAKUI
    MEROITIC_CURSIVE MEROITIC_HIEROGLYPHS MIAO MODI MONGOLIAN MRO MULTANI MYANMAR
    NABATAEAN NAG_MUNDARI NANDINAGARI NEW_TAI_LUE NEWA NKO NUSHU NYIAKENG_PUACHUE_HMONG
    OGHAM OL_CHIKI OLD_HUNGARIAN OLD_ITALIC OLD_NORTH_ARABIAN OLD_PERMIC OLD_PERSIAN OLD_SOGDIAN
    OLD_SOUTH_ARABIAN OLD_TURKIC OLD_UYGHUR ORIYA OSAGE OSMANYA PAHAWH_HMONG PALMYRENE
    PAU_CIN_HAU PHAGS_PA PHOENICIAN PSALTER_PAHLAVI REJANG RUNIC SAMARITAN SAURASHTRA
    SHARADA SHAVIAN SIDDHAM SIGNWRITING SINHALA SOGDIAN SORA_SOMPENG SOYOMBO
    SUNDANESE SYLOTI_NAGRI SYRIAC TAGALOG TAGBANWA TAI_LE TAI_THAM TAI_VIET
    TAKRI TAMIL TANGSA TANGUT TELUGU THAANA THAI TIBETAN
    TIFINAGH TIRHUTA TOTO UGARITIC VAI VITHKUQI WANCHO WARANG_CITI
    YEZIDI YI ZANABAZAR_SQUARE
);
mod own {
    pest3_core::unicode!(HAN);
    pest3_core::unicode!(UPPERCASE_LETTER);
}
macro_rules! range {
    ($a:literal $b:literal) => {
        Entry { name: concat!("range ", stringify!($a), "..", stringify!($b)), run: |s, p| observe::<CharRange<$a, $b>>(s, p, |x| x.content), want: |c| $a <= c && c <= $b }
    };
}
macro_rules! one {
    ($a:literal) => {
        Entry { name: concat!("char ", stringify!($a)), run: |s, p| observe::<Char<$a>>(s, p, |_| $a), want: |c| c == $a }
    };
}
fn choice2<A, B>(x: &pest3_core::choice::Choice2<A, B>, a: impl Fn(&A) -> char, b: impl Fn(&B) -> char) -> char {
    x.choice_0().map(a).or_else(|| x.choice_1().map(b)).unwrap()
}
fn ascii_entries() -> Vec<Entry> {
    fn alpha(x: &ascii_alpha) -> char {
        choice2(x, |a| a.content, |b| b.content)
    }
    vec![
        Entry { name: "any", run: |s, p| observe::<any>(s, p, |x| x.content), want: |_| true },
        Entry { name: "ascii", run: |s, p| observe::<ascii>(s, p, |x| x.content), want: |c| (c as u32) < 128 },
        Entry { name: "ascii_digit", run: |s, p| observe::<ascii_digit>(s, p, |x| x.content), want: |c| "0123456789".contains(c) },
        Entry { name: "ascii_nonzero_digit", run: |s, p| observe::<ascii_nonzero_digit>(s, p, |x| x.content), want: |c| "123456789".contains(c) },
        Entry { name: "ascii_bin_digit", run: |s, p| observe::<ascii_bin_digit>(s, p, |x| x.content), want: |c| "01".contains(c) },
        Entry { name: "ascii_oct_digit", run: |s, p| observe::<ascii_oct_digit>(s, p, |x| x.content), want: |c| "01234567".contains(c) },
        Entry {
            name: "ascii_hex_digit",
            run: |s, p| observe::<ascii_hex_digit>(s, p, |x| x.choice_0().map(|a| a.content).or_else(|| x.choice_1().map(|a| a.content)).or_else(|| x.choice_2().map(|a| a.content)).unwrap()),
            want: |c| "0123456789abcdefABCDEF".contains(c),
        },
        Entry { name: "ascii_alpha_lower", run: |s, p| observe::<ascii_alpha_lower>(s, p, |x| x.content), want: |c| "abcdefghijklmnopqrstuvwxyz".contains(c) },
        Entry { name: "ascii_alpha_upper", run: |s, p| observe::<ascii_alpha_upper>(s, p, |x| x.content), want: |c| "ABCDEFGHIJKLMNOPQRSTUVWXYZ".contains(c) },
        Entry { name: "ascii_alpha", run: |s, p| observe::<ascii_alpha>(s, p, alpha), want: |c| c.is_ascii_alphabetic() },
        Entry { name: "ascii_alphanumeric", run: |s, p| observe::<ascii_alphanumeric>(s, p, |x| choice2(x, alpha, |b| b.content)), want: |c| c.is_ascii_alphanumeric() },
        Entry {
            name: "newline",
            run: |s, p| observe::<newline>(s, p, |x| if x.content == NewLineType::LF { '\n' } else { '\r' }),
            want: |c| c == '\n' || c == '\r',
        },
        Entry { name: "own HAN", run: |s, p| observe::<own::HAN>(s, p, |x| x.content), want: pest2::unicode::HAN },
        Entry { name: "own UPPERCASE_LETTER", run: |s, p| observe::<own::UPPERCASE_LETTER>(s, p, |x| x.content), want: pest2::unicode::UPPERCASE_LETTER },
        Entry { name: "skip 1", run: |s, p| observe::<SkipChar<'_, 1>>(s, p, |x| x.span.as_str().chars().next().unwrap()), want: |_| true },
        Entry { name: "none", run: |s, p| observe::<NONE>(s, p, |_| ' '), want: |_| false },
        range!('\0' '\u{10ffff}'),
        range!('b' 'b'),
        range!('c' 'b'),
        range!('a' 'é'),
        range!('é' '中'),
        range!('\u{7f}' '\u{80}'),
        range!('\u{7ff}' '\u{800}'),
        range!('\u{ffff}' '\u{10000}'),
        range!('\u{d7ff}' '\u{e000}'),
        range!('\u{10fffe}' '\u{10ffff}'),
        range!('\0' '\0'),
        one!('a'),
        one!('é'),
        one!('中'),
        one!('😀'),
        one!('\0'),
        one!('\u{10ffff}'),
    ]
}
pub fn chars(c: &mut Ctx) {
    let mut all = ascii_entries();
    let fixed = all.len();
    all.extend(unicode_entries());
    let mut hits = vec![0u64; all.len()];
    for x in c.mine(0x110000) {
        let Some(ch) = char::from_u32(x as u32) else { continue };
        let texts = [(format!("中{ch}y"), 3usize), (format!("{ch}"), 0), (format!("{ch}{ch}"), ch.len_utf8())];
        c.rep.count("characters", 1);
        let show = ch;
        c.watch.enter(move || format!("character {show:?}"));
        for (k, e) in all.iter().enumerate() {
            let want = (e.want)(ch);
            hits[k] += want as u64;
            // Text around makes no difference to unicode rules: one shape each, all for the others.
            let shapes = if k < fixed || c.scale > 1 { &texts[..] } else { std::slice::from_ref(&texts[(x as usize / c.shards as usize) % 3]) };
            for (s, at) in shapes {
                c.rep.count("matches_observed", 2);
                let seen = match model::watch::guard(|| (e.run)(s, *at)) {
                    Ok(s) => s,
                    Err(m) => {
                        c.rep.violation("builtin-panic", "a built-in panicked", &[("rule", e.name), ("character", &format!("{ch:?}")), ("panic", &m)]);
                        continue;
                    }
                };
                let end = want.then(|| at + ch.len_utf8());
                if seen != (end.map(|e| (e, ch)), end, 0) {
                    c.rep.violation("builtin-char", "a built-in matches exactly the characters it is documented to", &[("rule", e.name), ("character", &format!("{ch:?}")), ("text", &format!("{s:?}")), ("seen", &format!("{seen:?}")), ("want", &format!("{want}"))]);
                }
            }
        }
        c.watch.leave();
    }
    for (e, h) in all.iter().zip(&hits) {
        // At the end of the text.
        for s in ["", "a", "中"] {
            let seen = (e.run)(s, s.len());
            if seen != (None, None, 0) {
                c.rep.violation("builtin-end", "a built-in character rule fails at the end of the text", &[("rule", e.name), ("seen", &format!("{seen:?}"))]);
            }
        }
        if *h > 0 {
            c.rep.count("rules_that_matched", 1);
            c.rep.count("distinct_nontrivial", *h);
        }
    }
    c.rep.max("rules", all.len() as u64);
    // A number of characters, over short texts.
    for k in c.mine(7u64.pow(5)) {
        let (mut k, mut s) = (k, String::new());
        for _ in 0..5 {
            s += ["", "a", "é", "中", "😀", "\r", "\n"][(k % 7) as usize];
            k /= 7;
        }
        for at in (0..=s.len()).filter(|p| s.is_char_boundary(*p)) {
            macro_rules! skip {
                ($($n:literal)*) => { $({
                    let p = Position::new(&s, at).unwrap();
                    let mut st = Stack::new();
                    st.push(p.span(&p));
                    let mut t = Tracker::<Rl>::new(p);
                    let a = SkipChar::<'_, $n>::try_parse_with_partial(p, &mut st, &mut t).map(|(e, x)| (e.pos(), x.span.start(), x.span.end()));
                    let b = <SkipChar<'_, $n> as TypedNode<'_, Rl>>::check_with_partial(p, &mut st, &mut t).map(|e| e.pos());
                    c.rep.count("matches_observed", 2);
                    let want = s[at..].char_indices().map(|x| at + x.0).chain([s.len()]).nth($n);
                    if a != want.map(|e| (e, at, e)) || b != want || st.len() != 1 {
                        c.rep.violation("skip", "skipping a number of characters matches exactly that many", &[("characters", stringify!($n)), ("text", &format!("{s:?}")), ("at", &at.to_string()), ("parsed", &format!("{a:?}")), ("checked", &format!("{b:?}"))]);
                    }
                })* };
            }
            skip!(0 1 2 3 4 5 6);
        }
    }
    // More than one character.
    let nl: &[(&str, usize, Option<(usize, NewLineType)>)] = &[("\r\n", 0, Some((2, NewLineType::CRLF))), ("\r\n", 1, Some((2, NewLineType::LF))), ("\n\r", 0, Some((1, NewLineType::LF))), ("\r\r\n", 0, Some((1, NewLineType::CR))), ("\r", 0, Some((1, NewLineType::CR))), ("\n", 0, Some((1, NewLineType::LF))), ("\u{85}", 0, None), ("\u{2028}", 0, None), ("\u{b}", 0, None), ("\u{c}", 0, None), ("", 0, None)];
    for (s, at, want) in nl {
        let p = Position::new(s, *at).unwrap();
        let mut st = Stack::new();
        let mut t = Tracker::<Rl>::new(p);
        let a = newline::try_parse_with_partial(p, &mut st, &mut t).map(|(e, n)| (e.pos(), n.content));
        let b = <newline as TypedNode<'_, Rl>>::check_with_partial(p, &mut st, &mut t).map(|e| e.pos());
        c.rep.count("matches_observed", 2);
        if &a != want || b != want.as_ref().map(|x| x.0) {
            c.rep.violation("newline", "newline is \\r\\n, \\n or \\r, the longest", &[("text", &format!("{s:?}")), ("at", &at.to_string()), ("parsed", &format!("{a:?}")), ("checked", &format!("{b:?}"))]);
        }
    }
}
