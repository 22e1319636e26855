//! Canonical text of a typed node.
use pest3_core::typed::template as t;
use pest3_core::typed::wrapper::String as StringWrapper;
use pest3_core::{choice as c, sequence as s, Span};
use std::fmt::Write;

pub trait Walk {
    fn walk(&self, o: &mut String);
}
thread_local! {
    static TEXT: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
/// The text that is parsed by this thread from now on.
pub fn parsing(text: &str) {
    TEXT.with(|t| t.set((text.as_ptr() as usize, text.len())));
}
/// What a node holds is part of the text that was parsed, not another one that is equal to it.
fn part(s: &str, o: &mut String) {
    let (at, len) = TEXT.with(|t| t.get());
    let p = s.as_ptr() as usize;
    if at != 0 && !s.is_empty() && (p < at || p + s.len() > at + len) {
        o.push_str(" (not of the text)");
    }
}
pub fn rule(name: &str, span: &Span<'_>, o: &mut String, f: impl FnOnce(&mut String)) {
    part(span.as_str(), o);
    let _ = write!(o, "<{} {}..{} ", name, span.start(), span.end());
    f(o);
    o.push('>');
}
impl<T: Walk> Walk for Box<T> {
    fn walk(&self, o: &mut String) {
        (**self).walk(o)
    }
}
impl<T: Walk> Walk for Option<T> {
    fn walk(&self, o: &mut String) {
        match self {
            None => o.push_str("None"),
            Some(x) => {
                o.push_str("Some(");
                x.walk(o);
                o.push(')');
            }
        }
    }
}
impl<T: Walk, V, const A: usize, const B: usize> Walk for t::RepMinMax<T, V, A, B> {
    fn walk(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.content.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            x.walk(o);
        }
        o.push(']');
    }
}
impl<T: Walk> Walk for t::Positive<T> {
    fn walk(&self, o: &mut String) {
        o.push_str("Pos(");
        self.content.walk(o);
        o.push(')');
    }
}
impl<T> Walk for t::Negative<T> {
    fn walk(&self, o: &mut String) {
        o.push_str("Neg");
    }
}
impl<T: Walk> Walk for t::push<T> {
    fn walk(&self, o: &mut String) {
        o.push_str("Push(");
        self.content.walk(o);
        o.push(')');
    }
}
impl<T: StringWrapper> Walk for t::Str<T> {
    fn walk(&self, o: &mut String) {
        let _ = write!(o, "{:?}", self.get_const());
    }
}
impl<'i, T: StringWrapper> Walk for t::Insens<'i, T> {
    fn walk(&self, o: &mut String) {
        let _ = write!(o, "i{:?}={:?}", self.get_const(), self.content);
        part(self.content, o);
    }
}
impl<const A: char, const B: char> Walk for t::CharRange<A, B> {
    fn walk(&self, o: &mut String) {
        let _ = write!(o, "{:?}", self.content);
    }
}
impl Walk for t::any {
    fn walk(&self, o: &mut String) {
        let _ = write!(o, "any{:?}", self.content);
    }
}
impl Walk for t::newline {
    fn walk(&self, o: &mut String) {
        let _ = write!(o, "nl{:?}", self.content);
    }
}
macro_rules! unit { ($($t:ty => $s:expr),* $(,)?) => { $( impl Walk for $t { fn walk(&self, o: &mut String) { o.push_str($s) } } )* } }
unit!(t::soi => "soi", t::eoi => "eoi", t::drop => "drop", t::Empty => "empty");
impl<const A: isize, const B: isize> Walk for t::PeekSlice2<A, B> {
    fn walk(&self, o: &mut String) {
        o.push_str("slice")
    }
}
impl<const A: isize> Walk for t::PeekSlice1<A> {
    fn walk(&self, o: &mut String) {
        o.push_str("slice")
    }
}
macro_rules! spanned { ($($t:ident => $s:expr),*) => { $( impl<'i> Walk for t::$t<'i> { fn walk(&self, o: &mut String) { let _ = write!(o, "{} {}..{}", $s, self.span.start(), self.span.end()); } } )* } }
spanned!(peek => "peek", pop => "pop", peek_all => "peek_all", pop_all => "pop_all");
macro_rules! uni { ($($t:ident)*) => {
    $( impl Walk for pest3_core::typed::unicode::$t { fn walk(&self, o: &mut String) { let _ = write!(o, "u{:?}", self.content); } } )*
    pub fn unicode(name: &str, c: char) -> bool { match name { $( x if x.eq_ignore_ascii_case(stringify!($t)) => pest2::unicode::$t(c), )* _ => panic!("unicode {name}") } }
} }
uni!(ALPHABETIC UPPERCASE LOWERCASE WHITE_SPACE HAN GREEK EMOJI NUMBER LETTER MATH XID_START SYMBOL);
#[macro_export]
macro_rules! walk_seq { ($T:ty, $([$a:ident $t:ident $f:ident])*) => {
    impl<$($a: $crate::Walk, $t),*> $crate::Walk for $T { fn walk(&self, o: &mut String) {
        o.push_str("S(");
        let mut n = 0;
        $( if n > 0 { o.push_str(", ") } n += 1; self.$f.walk(o); )*
        let _ = n;
        o.push(')');
    } } } }
#[macro_export]
macro_rules! walk_choice { ($N:ident, $k:expr, $T:ty, $([$a:ident $v:ident $i:expr])*) => {
    impl<$($a: $crate::Walk),*> $crate::Walk for $T { fn walk(&self, o: &mut String) {
        match self { $( $N::$v(x) => { o.push_str(concat!("C", $i, "/", $k, "(")); x.walk(o); } )* }
        o.push(')');
    } } } }
walk_seq!(s::Sequence2< A0, T0, A1, T1,>, [A0 T0 field_0][A1 T1 field_1]);
const _: () = { use c::Choice2; walk_choice!(Choice2, 2, c::Choice2< A0, A1,>, [A0 Choice0 0][A1 Choice1 1]); };
walk_seq!(s::Sequence3< A0, T0, A1, T1, A2, T2,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2]);
const _: () = { use c::Choice3; walk_choice!(Choice3, 3, c::Choice3< A0, A1, A2,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2]); };
walk_seq!(s::Sequence4< A0, T0, A1, T1, A2, T2, A3, T3,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3]);
const _: () = { use c::Choice4; walk_choice!(Choice4, 4, c::Choice4< A0, A1, A2, A3,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3]); };
walk_seq!(s::Sequence5< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4]);
const _: () = { use c::Choice5; walk_choice!(Choice5, 5, c::Choice5< A0, A1, A2, A3, A4,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4]); };
walk_seq!(s::Sequence6< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5]);
const _: () = { use c::Choice6; walk_choice!(Choice6, 6, c::Choice6< A0, A1, A2, A3, A4, A5,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5]); };
walk_seq!(s::Sequence7< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6]);
const _: () = { use c::Choice7; walk_choice!(Choice7, 7, c::Choice7< A0, A1, A2, A3, A4, A5, A6,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6]); };
walk_seq!(s::Sequence8< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7]);
const _: () = { use c::Choice8; walk_choice!(Choice8, 8, c::Choice8< A0, A1, A2, A3, A4, A5, A6, A7,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7]); };
walk_seq!(s::Sequence9< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8]);
const _: () = { use c::Choice9; walk_choice!(Choice9, 9, c::Choice9< A0, A1, A2, A3, A4, A5, A6, A7, A8,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8]); };
walk_seq!(s::Sequence10< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9]);
const _: () = { use c::Choice10; walk_choice!(Choice10, 10, c::Choice10< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9]); };
walk_seq!(s::Sequence11< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9, A10, T10,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9][A10 T10 field_10]);
const _: () = { use c::Choice11; walk_choice!(Choice11, 11, c::Choice11< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9][A10 Choice10 10]); };
walk_seq!(s::Sequence12< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9, A10, T10, A11, T11,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9][A10 T10 field_10][A11 T11 field_11]);
const _: () = { use c::Choice12; walk_choice!(Choice12, 12, c::Choice12< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9][A10 Choice10 10][A11 Choice11 11]); };
walk_seq!(s::Sequence13< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9, A10, T10, A11, T11, A12, T12,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9][A10 T10 field_10][A11 T11 field_11][A12 T12 field_12]);
const _: () = { use c::Choice13; walk_choice!(Choice13, 13, c::Choice13< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9][A10 Choice10 10][A11 Choice11 11][A12 Choice12 12]); };
walk_seq!(s::Sequence14< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9, A10, T10, A11, T11, A12, T12, A13, T13,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9][A10 T10 field_10][A11 T11 field_11][A12 T12 field_12][A13 T13 field_13]);
const _: () = { use c::Choice14; walk_choice!(Choice14, 14, c::Choice14< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9][A10 Choice10 10][A11 Choice11 11][A12 Choice12 12][A13 Choice13 13]); };
walk_seq!(s::Sequence15< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9, A10, T10, A11, T11, A12, T12, A13, T13, A14, T14,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9][A10 T10 field_10][A11 T11 field_11][A12 T12 field_12][A13 T13 field_13][A14 T14 field_14]);
const _: () = { use c::Choice15; walk_choice!(Choice15, 15, c::Choice15< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9][A10 Choice10 10][A11 Choice11 11][A12 Choice12 12][A13 Choice13 13][A14 Choice14 14]); };
walk_seq!(s::Sequence16< A0, T0, A1, T1, A2, T2, A3, T3, A4, T4, A5, T5, A6, T6, A7, T7, A8, T8, A9, T9, A10, T10, A11, T11, A12, T12, A13, T13, A14, T14, A15, T15,>, [A0 T0 field_0][A1 T1 field_1][A2 T2 field_2][A3 T3 field_3][A4 T4 field_4][A5 T5 field_5][A6 T6 field_6][A7 T7 field_7][A8 T8 field_8][A9 T9 field_9][A10 T10 field_10][A11 T11 field_11][A12 T12 field_12][A13 T13 field_13][A14 T14 field_14][A15 T15 field_15]);
const _: () = { use c::Choice16; walk_choice!(Choice16, 16, c::Choice16< A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15,>, [A0 Choice0 0][A1 Choice1 1][A2 Choice2 2][A3 Choice3 3][A4 Choice4 4][A5 Choice5 5][A6 Choice6 6][A7 Choice7 7][A8 Choice8 8][A9 Choice9 9][A10 Choice10 10][A11 Choice11 11][A12 Choice12 12][A13 Choice13 13][A14 Choice14 14][A15 Choice15 15]); };
