//! Written by gen_zoo.py: nodes used directly, each type with its own meaning next to it.
#![allow(non_snake_case, non_camel_case_types, clippy::type_complexity)]
use pest3_core::choice::*;
use pest3_core::sequence::*;
use pest3_core::token::Pair;
use pest3_core::typed::template::*;
use pest3_core::typed::wrapper::{Bound, String as Wrapped};
use pest3_core::typed::{full_rule_struct, NeverFailedTypedNode, PairContainer, PairTree, RuleType, TypedNode, TypedParser};
use pest3_core::Span;
use std::fmt::{Debug, Write};
use std::hash::Hash;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Rl {
    A,
    B,
    C,
    EOI,
}
impl RuleType for Rl {
    const EOI: Self = Rl::EOI;
}
pub struct Parser;
impl TypedParser<Rl> for Parser {}

/// What the model knows: the text and the stack of matched offsets.
pub struct M<'a> {
    pub s: &'a str,
    pub st: Vec<(usize, usize)>,
    /// Rules under predicates and in trivia yield no pairs.
    pub ev: [u64; 8],
}
/// What a match must look like.
#[derive(Default, Debug)]
pub struct Want {
    pub text: String,
    pub pairs: Vec<Pair<Rl>>,
}
type Res = Option<(usize, Want)>;
fn w(text: impl Into<String>) -> Want {
    Want { text: text.into(), pairs: vec![] }
}
impl M<'_> {
    fn undo(&mut self, f: impl FnOnce(&mut Self) -> Res) -> Res {
        let keep = self.st.clone();
        let r = f(self);
        if r.is_none() {
            self.ev[0] += (self.st != keep) as u64;
            self.st = keep;
        }
        r
    }
    fn lit(&self, at: usize, t: &str) -> Option<usize> {
        self.s[at..].starts_with(t).then(|| at + t.len())
    }
    fn texts(&self, at: usize, ix: impl Iterator<Item = usize>) -> Option<usize> {
        let mut p = at;
        for i in ix {
            let (a, b) = self.st[i];
            p = self.lit(p, &self.s[a..b])?;
        }
        Some(p)
    }
    fn ch(&self, at: usize, f: impl Fn(char) -> bool) -> Res {
        let c = self.s[at..].chars().next()?;
        f(c).then(|| (at + c.len_utf8(), w(format!("{c:?}"))))
    }
}
pub trait Zoo<'i>: TypedNode<'i, Rl> + PairContainer<Rl> + Clone + Debug + Eq + Hash {
    fn model(m: &mut M<'_>, at: usize) -> Res;
    fn show(&self, o: &mut String);
}
pub trait Visitor<'i> {
    fn visit<T: Zoo<'i> + 'i>(&mut self, name: &'static str);
}
pub trait NeverVisitor<'i> {
    fn visit<T: Zoo<'i> + NeverFailedTypedNode<'i, Rl> + 'i>(&mut self, name: &'static str);
}
macro_rules! leaf {
    ([$($g:tt)*] $t:ty, |$m:ident, $at:ident| $model:expr, |$s:ident, $o:ident| $show:expr) => {
        impl<'i, $($g)*> Zoo<'i> for $t {
            fn model($m: &mut M<'_>, $at: usize) -> Res { $model }
            fn show(&self, $o: &mut String) { let $s = self; $show }
        }
    };
}
pub trait Wr: Wrapped + Clone + Hash + Eq + 'static {}
impl<T: Wrapped + Clone + Hash + Eq + 'static> Wr for T {}
macro_rules! put { ($o:expr, $($a:tt)*) => { write!($o, $($a)*).unwrap() }; }
leaf!([T: Wr] Str<T>, |m, at| m.lit(at, T::CONTENT).map(|e| (e, w(format!("s{:?}", T::CONTENT)))), |s, o| { assert_eq!(s.get_const(), T::CONTENT); put!(o, "s{:?}", Self::CONTENT) });
leaf!([T: Wr] Insens<'i, T>, |m, at| {
    // Character by character, ASCII letters without case.
    let mut p = at;
    for want in T::CONTENT.chars() {
        let c = m.s[p..].chars().next()?;
        let same = c == want || (c.is_ascii() && want.is_ascii() && c.to_ascii_lowercase() == want.to_ascii_lowercase());
        if !same { return None; }
        p += c.len_utf8();
    }
    Some((p, w(format!("^{:?}", &m.s[at..p]))))
}, |s, o| { assert_eq!(s.get_const(), T::CONTENT); put!(o, "^{:?}", s.content) });
fn span_text(s: &Span<'_>) -> String { format!("[{}..{}]", s.start(), s.end()) }
fn range_text(a: usize, b: usize) -> String { format!("[{a}..{b}]") }
leaf!([const N: usize] SkipChar<'i, N>, |m, at| {
    let mut it = m.s[at..].char_indices().map(|x| x.0).chain([m.s.len() - at]);
    // A chain of the end: asking for more characters than there are yields nothing.
    let e = at + it.nth(N)?;
    Some((e, w(range_text(at, e))))
}, |s, o| put!(o, "{}", span_text(&s.span)));
leaf!([const A: char, const B: char] CharRange<A, B>, |m, at| m.ch(at, |c| A <= c && c <= B), |s, o| put!(o, "{:?}", s.content));
leaf!([const A: char] Char<A>, |m, at| m.ch(at, |c| c == A), |_s, o| put!(o, "{:?}", A));
leaf!([] any, |m, at| m.ch(at, |_| true), |s, o| put!(o, "{:?}", s.content));
leaf!([] pest3_core::typed::unicode::UPPERCASE, |m, at| m.ch(at, |c| matches!(c, 'A'..='Z')), |s, o| put!(o, "{:?}", s.content));
leaf!([] NONE, |_m, _at| None, |_s, o| put!(o, "NONE"));
leaf!([] Empty, |_m, at| Some((at, w("e"))), |_s, o| put!(o, "e"));
leaf!([] soi, |_m, at| (at == 0).then(|| (at, w("soi"))), |_s, o| put!(o, "soi"));
leaf!([] eoi, |m, at| (at == m.s.len()).then(|| (at, w("eoi"))), |_s, o| put!(o, "eoi"));
leaf!([] newline, |m, at| [("\r\n", "CRLF"), ("\n", "LF"), ("\r", "CR")].iter().find_map(|(t, n)| m.lit(at, t).map(|e| (e, w(*n)))), |s, o| put!(o, "{:?}", s.content));
leaf!([] drop, |m, at| m.st.pop().map(|_| (at, w("drop"))), |_s, o| put!(o, "drop"));
leaf!([] peek<'i>, |m, at| { let (a, b) = *m.st.last()?; m.lit(at, &m.s[a..b]).map(|e| (e, w(range_text(at, e)))) }, |s, o| put!(o, "{}", span_text(&s.span)));
leaf!([] pop<'i>, |m, at| { let (a, b) = m.st.pop()?; m.lit(at, &m.s[a..b]).map(|e| (e, w(range_text(at, e)))) }, |s, o| put!(o, "{}", span_text(&s.span)));
leaf!([] peek_all<'i>, |m, at| m.texts(at, (0..m.st.len()).rev()).map(|e| (e, w(range_text(at, e)))), |s, o| put!(o, "{}", span_text(&s.span)));
leaf!([] pop_all<'i>, |m, at| { let e = m.texts(at, (0..m.st.len()).rev())?; m.st.clear(); Some((e, w(range_text(at, e)))) }, |s, o| put!(o, "{}", span_text(&s.span)));
fn slice(m: &M<'_>, at: usize, a: isize, b: Option<isize>) -> Option<usize> {
    let n = m.st.len() as isize;
    let fix = |x: isize| -> Option<isize> { let y = if x < 0 { n + x } else { x }; (0 <= y && y <= n).then_some(y) };
    let (a, b) = (fix(a)?, fix(b.unwrap_or(n))?);
    m.texts(at, a as usize..b.max(a) as usize)
}
leaf!([const A: isize] PeekSlice1<A>, |m, at| slice(m, at, A, None).map(|e| (e, w("slice"))), |_s, o| put!(o, "slice"));
leaf!([const A: isize, const B: isize] PeekSlice2<A, B>, |m, at| slice(m, at, A, Some(B)).map(|e| (e, w("slice"))), |_s, o| put!(o, "slice"));
leaf!([T: Zoo<'i>] push<T>, |m, at| { let (e, x) = T::model(m, at)?; m.st.push((at, e)); m.ev[1] += 1; Some((e, Want { text: format!("push({})", x.text), pairs: x.pairs })) }, |s, o| {
    assert!(std::ptr::eq(&**s, &s.content));
    o.push_str("push(");
    s.content.show(o);
    o.push(')');
});
leaf!([T: Zoo<'i>] Positive<T>, |m, at| { let keep = m.st.clone(); let r = T::model(m, at); m.st = keep; m.ev[2] += 1; r.map(|(_, x)| (at, w(format!("&({})", x.text)))) }, |s, o| {
    assert!(std::ptr::eq(&**s, &s.content));
    o.push_str("&(");
    s.content.show(o);
    o.push(')');
});
leaf!([T: Zoo<'i>] Negative<T>, |m, at| { let keep = m.st.clone(); let r = T::model(m, at); m.st = keep; m.ev[3] += 1; match r { Some(_) => None, None => Some((at, w("!"))) } }, |_s, o| put!(o, "!"));
leaf!([T: Zoo<'i>] Option<T>, |m, at| match m.undo(|m| T::model(m, at)) { Some((e, x)) => Some((e, Want { text: format!("?({})", x.text), pairs: x.pairs })), None => Some((at, w("?"))) }, |s, o| {
    o.push('?');
    if let Some(x) = s {
        o.push('(');
        x.show(o);
        o.push(')');
    }
});
leaf!([T: Zoo<'i>, TR: Zoo<'i>, const MIN: usize, const MAX: usize] RepMinMax<T, TR, MIN, MAX>, |m, at| {
    let mut p = at;
    let mut all = Want::default();
    let mut n = 0;
    while n < MAX {
        let r = m.undo(|m| {
            let mut q = p;
            if n > 0 { q = TR::model(m, q)?.0; }
            T::model(m, q)
        });
        let Some((e, x)) = r else { break };
        p = e;
        n += 1;
        m.ev[4] += 1;
        all.text += &x.text;
        all.text += ",";
        all.pairs.extend(x.pairs);
    }
    if n < MIN { return None; }
    all.text = format!("{{{}}}", all.text);
    Some((p, all))
}, |s, o| {
    assert_eq!((<Self as Bound>::MIN, <Self as Bound>::MAX), (MIN, MAX));
    assert!(s.iter().eq(s.content.iter()) && s.clone().into_iter().eq(s.content.iter().cloned()));
    o.push('{');
    for x in s.iter() {
        x.show(o);
        o.push(',');
    }
    o.push('}');
});
/// A node of a user: it fails, and has a default.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Must<T>(pub Option<T>);
impl<T> Default for Must<T> {
    fn default() -> Self {
        Must(None)
    }
}
impl<'i, T: Zoo<'i>> TypedNode<'i, Rl> for Must<T> {
    fn try_parse_with_partial(p: pest3_core::Position<'i>, s: &mut pest3_core::Stack<Span<'i>>, t: &mut pest3_core::typed::Tracker<'i, Rl>) -> Option<(pest3_core::Position<'i>, Self)> {
        T::try_parse_with_partial(p, s, t).map(|(e, x)| (e, Must(Some(x))))
    }
    fn check_with_partial(p: pest3_core::Position<'i>, s: &mut pest3_core::Stack<Span<'i>>, t: &mut pest3_core::typed::Tracker<'i, Rl>) -> Option<pest3_core::Position<'i>> {
        T::check_with_partial(p, s, t)
    }
}
impl<T: PairContainer<Rl>> PairContainer<Rl> for Must<T> {
    fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
        self.0.for_self_or_for_each_child_pair(f)
    }
    fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
        self.0.for_each_child_pair(f)
    }
}
leaf!([T: Zoo<'i>] Must<T>, |m, at| T::model(m, at), |s, o| s.0.as_ref().unwrap().show(o));
macro_rules! rule {
    ($n:ident $r:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct $n<'i, T> {
            pub content: Box<T>,
            pub span: Span<'i>,
        }
        full_rule_struct!($n, (T), Rl, $r, T, Box<T>,);
        impl<'i, T: PairContainer<Rl>> PairContainer<Rl> for $n<'i, T> {
            fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
                f(self.as_pair_tree())
            }
            fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
                (*self.content).for_self_or_for_each_child_pair(f)
            }
        }
        impl<'i, T: PairContainer<Rl>> PairTree<Rl> for $n<'i, T> {
            fn get_rule() -> Rl {
                $r
            }
            fn get_span(&self) -> (usize, usize) {
                (self.span.start(), self.span.end())
            }
        }
        leaf!([T: Zoo<'i>] $n<'i, T>, |m, at| {
            let (e, x) = T::model(m, at)?;
            m.ev[5] += 1;
            Some((e, Want { text: format!("{:?}{}({})", $r, range_text(at, e), x.text), pairs: vec![Pair { rule: $r, start: at, end: e, children: x.pairs }] }))
        }, |s, o| {
            put!(o, "{:?}{}(", $r, span_text(&s.span));
            (*s.content).show(o);
            o.push(')');
        });
    };
}
rule!(RuleA Rl::A);
rule!(RuleB Rl::B);
rule!(RuleC Rl::C);
macro_rules! seq {
    ([$($p:tt)*] $n:ident $($t:ident $r:ident $f:ident)*) => {
        impl<'i, $($t: Zoo<'i>, $r: Zoo<'i>,)*> Zoo<'i> for $($p)* $n<$($t, $r),*> {
            #[allow(unused_assignments)]
            fn model(m: &mut M<'_>, at: usize) -> Res {
                let mut p = at;
                let mut all = w("(");
                let mut first = true;
                $(
                    if !first { p = $r::model(m, p)?.0; }
                    first = false;
                    let (e, x) = $t::model(m, p)?;
                    p = e;
                    all.text += &x.text;
                    all.text += ";";
                    all.pairs.extend(x.pairs);
                )*
                all.text += ")";
                Some((p, all))
            }
            fn show(&self, o: &mut String) {
                let ($($f,)*) = self.as_tuple();
                $(assert!(std::ptr::eq($f, &self.$f));)*
                let own = self.clone().into_tuple();
                let ($($t,)*) = &own;
                o.push('(');
                $(
                    #[allow(non_snake_case)]
                    { assert!($f == $t); }
                    $f.show(o);
                    o.push(';');
                )*
                o.push(')');
            }
        }
    };
}
macro_rules! cho {
    ([$($p:tt)*] $n:ident $($t:ident $g:ident $k:literal)*) => {
        impl<'i, $($t: Zoo<'i>,)*> Zoo<'i> for $($p)* $n<$($t),*> {
            fn model(m: &mut M<'_>, at: usize) -> Res {
                $(
                    if let Some((e, x)) = m.undo(|m| $t::model(m, at)) {
                        m.ev[6] += ($k > 0) as u64;
                        return Some((e, Want { text: format!("#{}({})", $k, x.text), pairs: x.pairs }));
                    }
                )*
                None
            }
            fn show(&self, o: &mut String) {
                let mut n = 0;
                $(
                    if let Some(x) = self.$g() {
                        n += 1;
                        put!(o, "#{}(", $k);
                        x.show(o);
                        o.push(')');
                    }
                )*
                assert_eq!(n, 1, "exactly one alternative is there");
            }
        }
    };
}
pub mod own {
    pest3_core::sequence_type!(Seq1, (field_0, T0, TR0));
    pest3_core::sequence_type!(Seq17, (a, T0, R0), (b, T1, R1), (c, T2, R2), (d, T3, R3), (e, T4, R4), (f, T5, R5), (g, T6, R6), (h, T7, R7), (i_, T8, R8), (j, T9, R9), (k, T10, R10), (l, T11, R11), (m, T12, R12), (n, T13, R13), (o_, T14, R14), (p, T15, R15), (q, T16, R16));
    pest3_core::choice_type!(Cho1, (One, T0, one));
    pest3_core::choice_type!(Cho17, (A, T0, a), (B, T1, b), (C, T2, c), (D, T3, d), (E, T4, e), (F, T5, f), (G, T6, g), (H, T7, h), (I, T8, i), (J, T9, j), (K, T10, k), (L, T11, l), (M, T12, m), (N, T13, n), (O, T14, o), (P, T15, p), (Q, T16, q));
}
seq!([] Sequence2 T0 R0 field_0 T1 R1 field_1);
cho!([] Choice2 T0 choice_0 0 T1 choice_1 1);
seq!([] Sequence3 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2);
cho!([] Choice3 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2);
seq!([] Sequence4 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3);
cho!([] Choice4 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3);
seq!([] Sequence5 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4);
cho!([] Choice5 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4);
seq!([] Sequence6 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5);
cho!([] Choice6 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5);
seq!([] Sequence7 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6);
cho!([] Choice7 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6);
seq!([] Sequence8 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7);
cho!([] Choice8 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7);
seq!([] Sequence9 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8);
cho!([] Choice9 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8);
seq!([] Sequence10 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9);
cho!([] Choice10 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9);
seq!([] Sequence11 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9 T10 R10 field_10);
cho!([] Choice11 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9 T10 choice_10 10);
seq!([] Sequence12 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9 T10 R10 field_10 T11 R11 field_11);
cho!([] Choice12 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9 T10 choice_10 10 T11 choice_11 11);
seq!([] Sequence13 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9 T10 R10 field_10 T11 R11 field_11 T12 R12 field_12);
cho!([] Choice13 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9 T10 choice_10 10 T11 choice_11 11 T12 choice_12 12);
seq!([] Sequence14 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9 T10 R10 field_10 T11 R11 field_11 T12 R12 field_12 T13 R13 field_13);
cho!([] Choice14 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9 T10 choice_10 10 T11 choice_11 11 T12 choice_12 12 T13 choice_13 13);
seq!([] Sequence15 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9 T10 R10 field_10 T11 R11 field_11 T12 R12 field_12 T13 R13 field_13 T14 R14 field_14);
cho!([] Choice15 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9 T10 choice_10 10 T11 choice_11 11 T12 choice_12 12 T13 choice_13 13 T14 choice_14 14);
seq!([] Sequence16 T0 R0 field_0 T1 R1 field_1 T2 R2 field_2 T3 R3 field_3 T4 R4 field_4 T5 R5 field_5 T6 R6 field_6 T7 R7 field_7 T8 R8 field_8 T9 R9 field_9 T10 R10 field_10 T11 R11 field_11 T12 R12 field_12 T13 R13 field_13 T14 R14 field_14 T15 R15 field_15);
cho!([] Choice16 T0 choice_0 0 T1 choice_1 1 T2 choice_2 2 T3 choice_3 3 T4 choice_4 4 T5 choice_5 5 T6 choice_6 6 T7 choice_7 7 T8 choice_8 8 T9 choice_9 9 T10 choice_10 10 T11 choice_11 11 T12 choice_12 12 T13 choice_13 13 T14 choice_14 14 T15 choice_15 15);
seq!([own::] Seq1 T0 R0 field_0);
cho!([own::] Cho1 T0 one 0);
seq!([own::] Seq17 T0 R0 a T1 R1 b T2 R2 c T3 R3 d T4 R4 e T5 R5 f T6 R6 g T7 R7 h T8 R8 i_ T9 R9 j T10 R10 k T11 R11 l T12 R12 m T13 R13 n T14 R14 o_ T15 R15 p T16 R16 q);
cho!([own::] Cho17 T0 a 0 T1 b 1 T2 c 2 T3 d 3 T4 e 4 T5 f 5 T6 g 6 T7 h 7 T8 i 8 T9 j 9 T10 k 10 T11 l 11 T12 m 12 T13 n 13 T14 o 14 T15 p 15 T16 q 16);
macro_rules! wrap {
    ($n:ident $s:literal) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct $n;
        impl Wrapped for $n {
            const CONTENT: &'static str = $s;
        }
    };
}

pub mod own2 {
    pest3_core::sequence_type!(Seq40, (f0, T0, R0), (f1, T1, R1), (f2, T2, R2), (f3, T3, R3), (f4, T4, R4), (f5, T5, R5), (f6, T6, R6), (f7, T7, R7), (f8, T8, R8), (f9, T9, R9), (f10, T10, R10), (f11, T11, R11), (f12, T12, R12), (f13, T13, R13), (f14, T14, R14), (f15, T15, R15), (f16, T16, R16), (f17, T17, R17), (f18, T18, R18), (f19, T19, R19), (f20, T20, R20), (f21, T21, R21), (f22, T22, R22), (f23, T23, R23), (f24, T24, R24), (f25, T25, R25), (f26, T26, R26), (f27, T27, R27), (f28, T28, R28), (f29, T29, R29), (f30, T30, R30), (f31, T31, R31), (f32, T32, R32), (f33, T33, R33), (f34, T34, R34), (f35, T35, R35), (f36, T36, R36), (f37, T37, R37), (f38, T38, R38), (f39, T39, R39));
    pest3_core::choice_type!(Cho40, (A0, T0, a0), (A1, T1, a1), (A2, T2, a2), (A3, T3, a3), (A4, T4, a4), (A5, T5, a5), (A6, T6, a6), (A7, T7, a7), (A8, T8, a8), (A9, T9, a9), (A10, T10, a10), (A11, T11, a11), (A12, T12, a12), (A13, T13, a13), (A14, T14, a14), (A15, T15, a15), (A16, T16, a16), (A17, T17, a17), (A18, T18, a18), (A19, T19, a19), (A20, T20, a20), (A21, T21, a21), (A22, T22, a22), (A23, T23, a23), (A24, T24, a24), (A25, T25, a25), (A26, T26, a26), (A27, T27, a27), (A28, T28, a28), (A29, T29, a29), (A30, T30, a30), (A31, T31, a31), (A32, T32, a32), (A33, T33, a33), (A34, T34, a34), (A35, T35, a35), (A36, T36, a36), (A37, T37, a37), (A38, T38, a38), (A39, T39, a39));
}
seq!([own2::] Seq40 T0 R0 f0 T1 R1 f1 T2 R2 f2 T3 R3 f3 T4 R4 f4 T5 R5 f5 T6 R6 f6 T7 R7 f7 T8 R8 f8 T9 R9 f9 T10 R10 f10 T11 R11 f11 T12 R12 f12 T13 R13 f13 T14 R14 f14 T15 R15 f15 T16 R16 f16 T17 R17 f17 T18 R18 f18 T19 R19 f19 T20 R20 f20 T21 R21 f21 T22 R22 f22 T23 R23 f23 T24 R24 f24 T25 R25 f25 T26 R26 f26 T27 R27 f27 T28 R28 f28 T29 R29 f29 T30 R30 f30 T31 R31 f31 T32 R32 f32 T33 R33 f33 T34 R34 f34 T35 R35 f35 T36 R36 f36 T37 R37 f37 T38 R38 f38 T39 R39 f39);
cho!([own2::] Cho40 T0 a0 0 T1 a1 1 T2 a2 2 T3 a3 3 T4 a4 4 T5 a5 5 T6 a6 6 T7 a7 7 T8 a8 8 T9 a9 9 T10 a10 10 T11 a11 11 T12 a12 12 T13 a13 13 T14 a14 14 T15 a15 15 T16 a16 16 T17 a17 17 T18 a18 18 T19 a19 19 T20 a20 20 T21 a21 21 T22 a22 22 T23 a23 23 T24 a24 24 T25 a25 25 T26 a26 26 T27 a27 27 T28 a28 28 T29 a29 29 T30 a30 30 T31 a31 31 T32 a32 32 T33 a33 33 T34 a34 34 T35 a35 35 T36 a36 36 T37 a37 37 T38 a38 38 T39 a39 39);
wrap!(Sa "a");
wrap!(Sb "b");
wrap!(Sab "ab");
wrap!(Sba "ba");
wrap!(SA "A");
wrap!(Se "é");
wrap!(Sae "aé");
wrap!(Scr "\r");
wrap!(Slf "\n");
wrap!(Scrlf "\r\n");
wrap!(Ssp " ");
wrap!(S0 "");
wrap!(Sk "k");
wrap!(Seb "éb");
wrap!(Sp "@AZ[`az{");
wrap!(Sq "^_~ 09@\0|");
wrap!(Sl "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789é中");
wrap!(Sm "0123456789ABCDEF0123456789abcdef0");
wrap!(Sn "éééééééééééééééééééé😀éééééééééééé");
wrap!(So "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");
pub const CONTENTS: &[&str] = &["@AZ[`az{", "^_~ 09@\0|", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789é中", "0123456789ABCDEF0123456789abcdef0", "éééééééééééééééééééé😀éééééééééééé", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "a", "b", "ab", "ba", "A", "é", "aé", "\r", "\n", "\r\n", " ", "", "k", "éb"];
fn types_0<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<own2::Seq40<Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>>>("own2::Seq40<Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>, Option<any>, Option<Str<Ssp>>>");
    v.visit::<own2::Seq40<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("own2::Seq40<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<own2::Seq40<any, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>>>("own2::Seq40<any, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<Str<Sa>>, Option<Str<Ssp>>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>, Option<any>, Rep<Str<Ssp>, Empty>>");
    v.visit::<own::Seq1<Option<RuleA<'i, Str<Se>>>, Empty>>("own::Seq1<Option<RuleA<'i, Str<Se>>>, Empty>");
    v.visit::<own::Seq1<Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>>>("own::Seq1<Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<own::Cho1<pop<'i>>>("own::Cho1<pop<'i>>");
    v.visit::<own::Cho1<Str<Sae>>>("own::Cho1<Str<Sae>>");
    v.visit::<own::Cho1<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>>("own::Cho1<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>");
    v.visit::<Sequence2<Option<newline>, Empty, Empty, Empty>>("Sequence2<Option<newline>, Empty, Empty, Empty>");
    v.visit::<Sequence2<Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>>>("Sequence2<Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice2<RuleB<'i, any>, Str<Sk>>>("Choice2<RuleB<'i, any>, Str<Sk>>");
    v.visit::<Choice2<Str<Sb>, Str<Slf>>>("Choice2<Str<Sb>, Str<Slf>>");
    v.visit::<Choice2<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice2<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence3<Option<push<Str<SA>>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sb>>, Empty>>("Sequence3<Option<push<Str<SA>>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence3<Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence3<Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice3<Str<Scrlf>, Str<Sa>, push<Str<SA>>>>("Choice3<Str<Scrlf>, Str<Sa>, push<Str<SA>>>");
    v.visit::<Choice3<pop<'i>, Str<Ssp>, Str<Scrlf>>>("Choice3<pop<'i>, Str<Ssp>, Str<Scrlf>>");
    v.visit::<Choice3<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>>("Choice3<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>");
    v.visit::<Sequence4<Empty, Empty, Option<Str<Sb>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sa>>, Empty>>("Sequence4<Empty, Empty, Option<Str<Sb>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sa>>, Empty>");
    v.visit::<Sequence4<Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>>>("Sequence4<Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice4<Str<Scr>, Str<Scr>, push<Str<SA>>, Str<Sb>>>("Choice4<Str<Scr>, Str<Scr>, push<Str<SA>>, Str<Sb>>");
    v.visit::<Choice4<Str<Se>, Str<Ssp>, Str<Seb>, Str<Sa>>>("Choice4<Str<Se>, Str<Ssp>, Str<Seb>, Str<Sa>>");
    v.visit::<Choice4<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice4<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence5<Option<Str<Sb>>, Empty, Empty, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty>>("Sequence5<Option<Str<Sb>>, Empty, Empty, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence5<Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence5<Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice5<Str<Slf>, Str<Sab>, RuleA<'i, Str<Sa>>, RuleB<'i, any>, Str<Scr>>>("Choice5<Str<Slf>, Str<Sab>, RuleA<'i, Str<Sa>>, RuleB<'i, any>, Str<Scr>>");
    v.visit::<Choice5<pop<'i>, Str<Scrlf>, Str<Sb>, Str<Scr>, Str<Sk>>>("Choice5<pop<'i>, Str<Scrlf>, Str<Sb>, Str<Scr>, Str<Sk>>");
    v.visit::<Choice5<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice5<Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence6<Option<Str<Sa>>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<push<Str<SA>>>, Empty>>("Sequence6<Option<Str<Sa>>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<push<Str<SA>>>, Empty>");
    v.visit::<Sequence6<Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>>>("Sequence6<Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice6<Str<Seb>, Str<Sb>, push<Str<SA>>, Str<Slf>, Str<Sab>, Str<Scr>>>("Choice6<Str<Seb>, Str<Sb>, push<Str<SA>>, Str<Slf>, Str<Sab>, Str<Scr>>");
    v.visit::<Choice6<Str<Se>, push<Str<SA>>, RuleB<'i, any>, RuleA<'i, Str<Sa>>, Str<Scr>, RuleA<'i, Str<Sa>>>>("Choice6<Str<Se>, push<Str<SA>>, RuleB<'i, any>, RuleA<'i, Str<Sa>>, Str<Scr>, RuleA<'i, Str<Sa>>>");
    v.visit::<Choice6<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice6<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence7<Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<push<Str<SA>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty>>("Sequence7<Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<push<Str<SA>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty>");
    v.visit::<Sequence7<Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>>>("Sequence7<Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice7<Str<SA>, RuleB<'i, any>, Str<SA>, Str<Scrlf>, Str<Sb>, pop<'i>, RuleA<'i, Str<Sa>>>>("Choice7<Str<SA>, RuleB<'i, any>, Str<SA>, Str<Scrlf>, Str<Sb>, pop<'i>, RuleA<'i, Str<Sa>>>");
    v.visit::<Choice7<pop<'i>, push<Str<SA>>, RuleA<'i, Str<Sa>>, Str<Slf>, RuleB<'i, any>, push<Str<SA>>, push<Str<SA>>>>("Choice7<pop<'i>, push<Str<SA>>, RuleA<'i, Str<Sa>>, Str<Slf>, RuleB<'i, any>, push<Str<SA>>, push<Str<SA>>>");
    v.visit::<Choice7<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice7<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence8<Empty, Empty, Empty, Empty, Option<newline>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Empty, Empty, Option<Str<Sb>>, Empty>>("Sequence8<Empty, Empty, Empty, Empty, Option<newline>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Empty, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence8<Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence8<Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice8<Str<Scr>, Str<Seb>, Str<Ssp>, Str<Ssp>, Str<Sb>, Str<Sb>, push<Str<SA>>, Str<Scrlf>>>("Choice8<Str<Scr>, Str<Seb>, Str<Ssp>, Str<Ssp>, Str<Sb>, Str<Sb>, push<Str<SA>>, Str<Scrlf>>");
    v.visit::<Choice8<Str<Scrlf>, Str<Scrlf>, Str<Sb>, Str<Sb>, Str<Se>, RuleB<'i, any>, Str<Se>, Str<Sab>>>("Choice8<Str<Scrlf>, Str<Scrlf>, Str<Sb>, Str<Sb>, Str<Se>, RuleB<'i, any>, Str<Se>, Str<Sab>>");
    v.visit::<Choice8<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice8<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence9<Empty, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty>>("Sequence9<Empty, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence9<Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence9<Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice9<Str<Sba>, Str<Sab>, RuleB<'i, any>, Str<Sab>, push<Str<SA>>, Str<Se>, Str<Seb>, Str<Seb>, pop<'i>>>("Choice9<Str<Sba>, Str<Sab>, RuleB<'i, any>, Str<Sab>, push<Str<SA>>, Str<Se>, Str<Seb>, Str<Seb>, pop<'i>>");
    v.visit::<Choice9<Str<Ssp>, Str<Sba>, Str<Sae>, RuleB<'i, any>, Str<Sb>, Str<Sba>, Str<Se>, Str<Sba>, Str<Ssp>>>("Choice9<Str<Ssp>, Str<Sba>, Str<Sae>, RuleB<'i, any>, Str<Sb>, Str<Sba>, Str<Se>, Str<Sba>, Str<Ssp>>");
    v.visit::<Choice9<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice9<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence10<Option<RuleA<'i, Str<Se>>>, Empty, Option<push<Str<SA>>>, Empty, Empty, Empty, Option<Str<Sa>>, Empty, Option<push<Str<SA>>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Empty, Empty>>("Sequence10<Option<RuleA<'i, Str<Se>>>, Empty, Option<push<Str<SA>>>, Empty, Empty, Empty, Option<Str<Sa>>, Empty, Option<push<Str<SA>>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Empty, Empty>");
    v.visit::<Sequence10<Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>>>("Sequence10<Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice10<Str<Scr>, Str<Sa>, RuleA<'i, Str<Sa>>, Str<Scr>, Str<Sb>, push<Str<SA>>, Str<Sb>, Str<Scrlf>, Str<Sb>, Str<Sb>>>("Choice10<Str<Scr>, Str<Sa>, RuleA<'i, Str<Sa>>, Str<Scr>, Str<Sb>, push<Str<SA>>, Str<Sb>, Str<Scrlf>, Str<Sb>, Str<Sb>>");
    v.visit::<Choice10<push<Str<SA>>, Str<Sk>, Str<Scrlf>, Str<Sb>, Str<Sk>, Str<Ssp>, Str<Seb>, RuleA<'i, Str<Sa>>, push<Str<SA>>, Str<SA>>>("Choice10<push<Str<SA>>, Str<Sk>, Str<Scrlf>, Str<Sb>, Str<Sk>, Str<Ssp>, Str<Seb>, RuleA<'i, Str<Sa>>, push<Str<SA>>, Str<SA>>");
    v.visit::<Choice10<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice10<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence11<Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty>>("Sequence11<Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence11<Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence11<Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice11<Str<Scrlf>, Str<Sae>, Str<Scr>, push<Str<SA>>, Str<Sae>, push<Str<SA>>, Str<Scr>, Str<Ssp>, Str<Scrlf>, Str<Seb>, Str<SA>>>("Choice11<Str<Scrlf>, Str<Sae>, Str<Scr>, push<Str<SA>>, Str<Sae>, push<Str<SA>>, Str<Scr>, Str<Ssp>, Str<Scrlf>, Str<Seb>, Str<SA>>");
    v.visit::<Choice11<Str<Sba>, push<Str<SA>>, Str<Sb>, Str<Scr>, RuleB<'i, any>, RuleB<'i, any>, Str<SA>, Str<Se>, Str<Ssp>, Str<Sae>, Str<Scr>>>("Choice11<Str<Sba>, push<Str<SA>>, Str<Sb>, Str<Scr>, RuleB<'i, any>, RuleB<'i, any>, Str<SA>, Str<Se>, Str<Ssp>, Str<Sae>, Str<Scr>>");
    v.visit::<Choice11<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>>("Choice11<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>");
    v.visit::<Sequence12<Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<push<Str<SA>>>, Empty, Empty, Empty, Option<Str<Sb>>, Empty>>("Sequence12<Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<push<Str<SA>>>, Empty, Empty, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence12<Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence12<Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
}
fn types_1<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Choice12<Str<Sb>, Str<Scrlf>, Str<Seb>, Str<Scr>, Str<Seb>, push<Str<SA>>, pop<'i>, Str<Sb>, RuleB<'i, any>, Str<Scrlf>, Str<Sk>, Str<Sab>>>("Choice12<Str<Sb>, Str<Scrlf>, Str<Seb>, Str<Scr>, Str<Seb>, push<Str<SA>>, pop<'i>, Str<Sb>, RuleB<'i, any>, Str<Scrlf>, Str<Sk>, Str<Sab>>");
    v.visit::<Choice12<Str<Se>, Str<Sa>, Str<SA>, RuleB<'i, any>, Str<Ssp>, RuleB<'i, any>, Str<Seb>, Str<Sk>, push<Str<SA>>, Str<Sa>, pop<'i>, Str<Se>>>("Choice12<Str<Se>, Str<Sa>, Str<SA>, RuleB<'i, any>, Str<Ssp>, RuleB<'i, any>, Str<Seb>, Str<Sk>, push<Str<SA>>, Str<Sa>, pop<'i>, Str<Se>>");
    v.visit::<Choice12<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>>("Choice12<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>");
    v.visit::<Sequence13<Option<newline>, Empty, Empty, Empty, Empty, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty>>("Sequence13<Option<newline>, Empty, Empty, Empty, Empty, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<Sequence13<Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("Sequence13<Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice13<Str<SA>, Str<Se>, RuleA<'i, Str<Sa>>, Str<Seb>, Str<Sae>, Str<Sba>, Str<Ssp>, Str<Sk>, pop<'i>, RuleB<'i, any>, Str<Sk>, Str<Slf>, Str<Scr>>>("Choice13<Str<SA>, Str<Se>, RuleA<'i, Str<Sa>>, Str<Seb>, Str<Sae>, Str<Sba>, Str<Ssp>, Str<Sk>, pop<'i>, RuleB<'i, any>, Str<Sk>, Str<Slf>, Str<Scr>>");
    v.visit::<Choice13<Str<Sk>, Str<Ssp>, push<Str<SA>>, Str<Seb>, Str<Se>, Str<Sa>, Str<Sae>, Str<Sab>, Str<Seb>, Str<Sab>, Str<Sab>, Str<Sk>, Str<Sk>>>("Choice13<Str<Sk>, Str<Ssp>, push<Str<SA>>, Str<Seb>, Str<Se>, Str<Sa>, Str<Sae>, Str<Sab>, Str<Seb>, Str<Sab>, Str<Sab>, Str<Sk>, Str<Sk>>");
    v.visit::<Choice13<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice13<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence14<Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<push<Str<SA>>>, Empty>>("Sequence14<Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<push<Str<SA>>>, Empty>");
    v.visit::<Sequence14<Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>>>("Sequence14<Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice14<Str<Seb>, Str<Scrlf>, Str<Sb>, pop<'i>, RuleB<'i, any>, pop<'i>, Str<Sae>, Str<Se>, Str<Scr>, Str<Sk>, push<Str<SA>>, Str<SA>, Str<Sa>, Str<Sk>>>("Choice14<Str<Seb>, Str<Scrlf>, Str<Sb>, pop<'i>, RuleB<'i, any>, pop<'i>, Str<Sae>, Str<Se>, Str<Scr>, Str<Sk>, push<Str<SA>>, Str<SA>, Str<Sa>, Str<Sk>>");
    v.visit::<Choice14<Str<Se>, Str<Sb>, Str<Slf>, Str<SA>, Str<Scrlf>, Str<SA>, Str<Ssp>, Str<Scrlf>, Str<Sae>, Str<Ssp>, Str<Slf>, Str<Sab>, RuleB<'i, any>, Str<Sae>>>("Choice14<Str<Se>, Str<Sb>, Str<Slf>, Str<SA>, Str<Scrlf>, Str<SA>, Str<Ssp>, Str<Scrlf>, Str<Sae>, Str<Ssp>, Str<Slf>, Str<Sab>, RuleB<'i, any>, Str<Sae>>");
    v.visit::<Choice14<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>>("Choice14<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>>");
    v.visit::<Sequence15<Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<push<Str<SA>>>, Empty>>("Sequence15<Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sa>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Empty, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<newline>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<push<Str<SA>>>, Empty>");
    v.visit::<Sequence15<Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>>>("Sequence15<Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice15<Str<Sk>, RuleB<'i, any>, Str<Slf>, Str<Scrlf>, Str<Sk>, RuleB<'i, any>, RuleB<'i, any>, Str<Sba>, Str<Sab>, Str<Sba>, Str<SA>, Str<Sba>, Str<Seb>, Str<Sba>, RuleA<'i, Str<Sa>>>>("Choice15<Str<Sk>, RuleB<'i, any>, Str<Slf>, Str<Scrlf>, Str<Sk>, RuleB<'i, any>, RuleB<'i, any>, Str<Sba>, Str<Sab>, Str<Sba>, Str<SA>, Str<Sba>, Str<Seb>, Str<Sba>, RuleA<'i, Str<Sa>>>");
    v.visit::<Choice15<pop<'i>, Str<Sae>, Str<Sba>, pop<'i>, Str<Slf>, RuleA<'i, Str<Sa>>, Str<Slf>, Str<Sa>, Str<Sb>, Str<Seb>, Str<Sk>, Str<Seb>, Str<Se>, Str<Sae>, Str<Sab>>>("Choice15<pop<'i>, Str<Sae>, Str<Sba>, pop<'i>, Str<Slf>, RuleA<'i, Str<Sa>>, Str<Slf>, Str<Sa>, Str<Sb>, Str<Seb>, Str<Sk>, Str<Seb>, Str<Se>, Str<Sae>, Str<Sab>>");
    v.visit::<Choice15<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice15<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<Sequence16<Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Empty, Empty, Option<push<Str<SA>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty>>("Sequence16<Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Option<Str<Sa>>, Empty, Option<newline>, Empty, Empty, Empty, Option<push<Str<SA>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty>");
    v.visit::<Sequence16<Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>>>("Sequence16<Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice16<Str<Slf>, pop<'i>, RuleB<'i, any>, Str<Scrlf>, RuleB<'i, any>, Str<Seb>, Str<Seb>, Str<Slf>, RuleA<'i, Str<Sa>>, Str<Scr>, Str<Se>, Str<Ssp>, push<Str<SA>>, Str<Scr>, Str<Scrlf>, Str<Sk>>>("Choice16<Str<Slf>, pop<'i>, RuleB<'i, any>, Str<Scrlf>, RuleB<'i, any>, Str<Seb>, Str<Seb>, Str<Slf>, RuleA<'i, Str<Sa>>, Str<Scr>, Str<Se>, Str<Ssp>, push<Str<SA>>, Str<Scr>, Str<Scrlf>, Str<Sk>>");
    v.visit::<Choice16<Str<SA>, RuleA<'i, Str<Sa>>, Str<Se>, Str<Se>, Str<Scr>, Str<Seb>, RuleA<'i, Str<Sa>>, Str<Ssp>, RuleA<'i, Str<Sa>>, Str<Slf>, Str<Sae>, Str<Scr>, Str<Ssp>, Str<Scr>, push<Str<SA>>, Str<Sa>>>("Choice16<Str<SA>, RuleA<'i, Str<Sa>>, Str<Se>, Str<Se>, Str<Scr>, Str<Seb>, RuleA<'i, Str<Sa>>, Str<Ssp>, RuleA<'i, Str<Sa>>, Str<Slf>, Str<Sae>, Str<Scr>, Str<Ssp>, Str<Scr>, push<Str<SA>>, Str<Sa>>");
    v.visit::<Choice16<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("Choice16<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<own::Seq17<Empty, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<push<Str<SA>>>, Empty, Option<push<Str<SA>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sb>>, Empty>>("own::Seq17<Empty, Empty, Option<Str<Sb>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Empty, Empty, Option<push<Str<SA>>>, Empty, Option<push<Str<SA>>>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sa>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<Str<Sb>>, Empty, Option<newline>, Empty, Option<RuleA<'i, Str<Se>>>, Empty, Option<Str<Sb>>, Empty, Option<push<Str<SA>>>, Empty, Option<Str<Sb>>, Empty>");
    v.visit::<own::Seq17<Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>>("own::Seq17<Empty, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Empty, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sa>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<newline>, Rep<Str<Ssp>, Empty>, Option<RuleA<'i, Str<Se>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>, Option<push<Str<SA>>>, Rep<Str<Ssp>, Empty>, Option<Str<Sb>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<own::Cho17<Str<Se>, Str<Se>, Str<Slf>, Str<Slf>, Str<Ssp>, Str<Seb>, Str<Sk>, Str<Se>, Str<Scr>, Str<Ssp>, Str<Sae>, Str<Sk>, RuleB<'i, any>, pop<'i>, Str<Sk>, RuleB<'i, any>, Str<Scr>>>("own::Cho17<Str<Se>, Str<Se>, Str<Slf>, Str<Slf>, Str<Ssp>, Str<Seb>, Str<Sk>, Str<Se>, Str<Scr>, Str<Ssp>, Str<Sae>, Str<Sk>, RuleB<'i, any>, pop<'i>, Str<Sk>, RuleB<'i, any>, Str<Scr>>");
    v.visit::<own::Cho17<Str<Sab>, Str<Se>, Str<Scr>, pop<'i>, RuleB<'i, any>, Str<Ssp>, Str<Sk>, Str<Scr>, Str<Se>, Str<Scr>, Str<Slf>, RuleB<'i, any>, Str<Sab>, RuleA<'i, Str<Sa>>, pop<'i>, RuleA<'i, Str<Sa>>, RuleB<'i, any>>>("own::Cho17<Str<Sab>, Str<Se>, Str<Scr>, pop<'i>, RuleB<'i, any>, Str<Ssp>, Str<Sk>, Str<Scr>, Str<Se>, Str<Scr>, Str<Slf>, RuleB<'i, any>, Str<Sab>, RuleA<'i, Str<Sa>>, pop<'i>, RuleA<'i, Str<Sa>>, RuleB<'i, any>>");
    v.visit::<own::Cho17<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>>("own::Cho17<Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>, Sequence2<push<Option<any>>, Empty, NONE, Empty>>");
    v.visit::<own::Cho1<Sequence2<Char<'a'>, Empty, Char<' '>, Empty>>>("own::Cho1<Sequence2<Char<'a'>, Empty, Char<' '>, Empty>>");
    v.visit::<own::Seq1<Option<any>, Empty>>("own::Seq1<Option<any>, Empty>");
    v.visit::<own::Seq1<any, Option<Str<Ssp>>>>("own::Seq1<any, Option<Str<Ssp>>>");
    v.visit::<Choice2<Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>>>("Choice2<Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>>");
    v.visit::<Sequence2<Option<any>, Empty, Option<any>, Empty>>("Sequence2<Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence2<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence2<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice3<Sequence2<Char<'é'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'a'>, Empty>>>("Choice3<Sequence2<Char<'é'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'a'>, Empty>>");
    v.visit::<Sequence3<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence3<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence3<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence3<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice4<Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>>>("Choice4<Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>>");
    v.visit::<Sequence4<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence4<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence4<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence4<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice5<Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>>>("Choice5<Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>>");
    v.visit::<Sequence5<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence5<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence5<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence5<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice6<Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>>>("Choice6<Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>>");
    v.visit::<Sequence6<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence6<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence6<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence6<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice7<Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>>>("Choice7<Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>>");
    v.visit::<Sequence7<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence7<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence7<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence7<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice8<Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'a'>, Empty>>>("Choice8<Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'a'>, Empty>>");
    v.visit::<Sequence8<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence8<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence8<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence8<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice9<Sequence2<Char<' '>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>>>("Choice9<Sequence2<Char<' '>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>>");
    v.visit::<Sequence9<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence9<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence9<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence9<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice10<Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'a'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>>>("Choice10<Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'a'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>>");
    v.visit::<Sequence10<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence10<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence10<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence10<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice11<Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<' '>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>>>("Choice11<Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<' '>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>>");
    v.visit::<Sequence11<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence11<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
}
fn types_2<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Sequence11<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence11<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice12<Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\n'>, Empty>>>("Choice12<Sequence2<Char<'a'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\n'>, Empty>>");
    v.visit::<Sequence12<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence12<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence12<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence12<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice13<Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<' '>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>>>("Choice13<Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<' '>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>>");
    v.visit::<Sequence13<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence13<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence13<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence13<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice14<Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<' '>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>>>("Choice14<Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<' '>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>>");
    v.visit::<Sequence14<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence14<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence14<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence14<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice15<Sequence2<Char<'\r'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>>>("Choice15<Sequence2<Char<'\r'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>>");
    v.visit::<Sequence15<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence15<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence15<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence15<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Choice16<Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'é'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>>>("Choice16<Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'é'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>>");
    v.visit::<Sequence16<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("Sequence16<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<Sequence16<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("Sequence16<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<own::Cho17<Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'é'>, Empty>>>("own::Cho17<Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'é'>, Empty>>");
    v.visit::<own::Seq17<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("own::Seq17<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<own::Seq17<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("own::Seq17<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<own2::Cho40<Sequence2<Char<' '>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<' '>, Empty>, Sequence2<Char<'A'>, Empty, Char<'b'>, Empty>, Sequence2<Char<' '>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'b'>, Empty, Char<' '>, Empty>, Sequence2<Char<'A'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<' '>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<' '>, Empty>>>("own2::Cho40<Sequence2<Char<' '>, Empty, Char<'é'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'é'>, Empty, Char<' '>, Empty>, Sequence2<Char<'A'>, Empty, Char<'b'>, Empty>, Sequence2<Char<' '>, Empty, Char<'b'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'b'>, Empty, Char<' '>, Empty>, Sequence2<Char<'A'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'A'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'A'>, Empty>, Sequence2<Char<' '>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'é'>, Empty>, Sequence2<Char<' '>, Empty, Char<'a'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\r'>, Empty>, Sequence2<Char<'a'>, Empty, Char<' '>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<' '>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'A'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'é'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<' '>, Empty>, Sequence2<Char<'a'>, Empty, Char<'a'>, Empty>, Sequence2<Char<'\r'>, Empty, Char<'b'>, Empty>, Sequence2<Char<'A'>, Empty, Char<' '>, Empty>, Sequence2<Char<' '>, Empty, Char<'A'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<'é'>, Empty>, Sequence2<Char<'b'>, Empty, Char<'\n'>, Empty>, Sequence2<Char<'\n'>, Empty, Char<' '>, Empty>>");
    v.visit::<own2::Seq40<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>>("own2::Seq40<Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty, Option<any>, Empty>");
    v.visit::<own2::Seq40<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>>("own2::Seq40<any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>, any, Option<Str<Ssp>>>");
    v.visit::<Str<Sa>>("Str<Sa>");
    v.visit::<Insens<'i, Sa>>("Insens<'i, Sa>");
    v.visit::<Str<Sb>>("Str<Sb>");
    v.visit::<Insens<'i, Sb>>("Insens<'i, Sb>");
    v.visit::<Str<Sab>>("Str<Sab>");
    v.visit::<Insens<'i, Sab>>("Insens<'i, Sab>");
    v.visit::<Str<Sba>>("Str<Sba>");
    v.visit::<Insens<'i, Sba>>("Insens<'i, Sba>");
    v.visit::<Str<SA>>("Str<SA>");
    v.visit::<Insens<'i, SA>>("Insens<'i, SA>");
    v.visit::<Str<Se>>("Str<Se>");
    v.visit::<Insens<'i, Se>>("Insens<'i, Se>");
    v.visit::<Str<Sae>>("Str<Sae>");
    v.visit::<Insens<'i, Sae>>("Insens<'i, Sae>");
    v.visit::<Str<Scr>>("Str<Scr>");
    v.visit::<Insens<'i, Scr>>("Insens<'i, Scr>");
    v.visit::<Str<Slf>>("Str<Slf>");
    v.visit::<Insens<'i, Slf>>("Insens<'i, Slf>");
    v.visit::<Str<Scrlf>>("Str<Scrlf>");
    v.visit::<Insens<'i, Scrlf>>("Insens<'i, Scrlf>");
    v.visit::<Str<Ssp>>("Str<Ssp>");
    v.visit::<Insens<'i, Ssp>>("Insens<'i, Ssp>");
    v.visit::<Str<S0>>("Str<S0>");
    v.visit::<Insens<'i, S0>>("Insens<'i, S0>");
    v.visit::<Str<Sk>>("Str<Sk>");
    v.visit::<Insens<'i, Sk>>("Insens<'i, Sk>");
    v.visit::<Str<Seb>>("Str<Seb>");
    v.visit::<Insens<'i, Seb>>("Insens<'i, Seb>");
    v.visit::<any>("any");
    v.visit::<newline>("newline");
    v.visit::<Char<'a'>>("Char<'a'>");
    v.visit::<Char<'é'>>("Char<'é'>");
    v.visit::<CharRange<'a', 'b'>>("CharRange<'a', 'b'>");
    v.visit::<CharRange<'A', 'b'>>("CharRange<'A', 'b'>");
    v.visit::<CharRange<'a', 'é'>>("CharRange<'a', 'é'>");
    v.visit::<SkipChar<'i, 1>>("SkipChar<'i, 1>");
    v.visit::<SkipChar<'i, 2>>("SkipChar<'i, 2>");
    v.visit::<ascii_alpha>("ascii_alpha");
}
fn types_3<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<pest3_core::typed::unicode::UPPERCASE>("pest3_core::typed::unicode::UPPERCASE");
    v.visit::<SkipChar<'i, 0>>("SkipChar<'i, 0>");
    v.visit::<SkipChar<'i, 3>>("SkipChar<'i, 3>");
    v.visit::<SkipChar<'i, 4>>("SkipChar<'i, 4>");
    v.visit::<SkipChar<'i, 7>>("SkipChar<'i, 7>");
    v.visit::<PeekSlice1<-4>>("PeekSlice1<-4>");
    v.visit::<PeekSlice1<-3>>("PeekSlice1<-3>");
    v.visit::<PeekSlice1<-2>>("PeekSlice1<-2>");
    v.visit::<PeekSlice1<-1>>("PeekSlice1<-1>");
    v.visit::<PeekSlice1<0>>("PeekSlice1<0>");
    v.visit::<PeekSlice1<1>>("PeekSlice1<1>");
    v.visit::<PeekSlice1<2>>("PeekSlice1<2>");
    v.visit::<PeekSlice1<3>>("PeekSlice1<3>");
    v.visit::<PeekSlice1<4>>("PeekSlice1<4>");
    v.visit::<PeekSlice2<-3, -3>>("PeekSlice2<-3, -3>");
    v.visit::<PeekSlice2<-3, -2>>("PeekSlice2<-3, -2>");
    v.visit::<PeekSlice2<-3, -1>>("PeekSlice2<-3, -1>");
    v.visit::<PeekSlice2<-3, 0>>("PeekSlice2<-3, 0>");
    v.visit::<PeekSlice2<-3, 1>>("PeekSlice2<-3, 1>");
    v.visit::<PeekSlice2<-3, 2>>("PeekSlice2<-3, 2>");
    v.visit::<PeekSlice2<-3, 3>>("PeekSlice2<-3, 3>");
    v.visit::<PeekSlice2<-2, -3>>("PeekSlice2<-2, -3>");
    v.visit::<PeekSlice2<-2, -2>>("PeekSlice2<-2, -2>");
    v.visit::<PeekSlice2<-2, -1>>("PeekSlice2<-2, -1>");
    v.visit::<PeekSlice2<-2, 0>>("PeekSlice2<-2, 0>");
    v.visit::<PeekSlice2<-2, 1>>("PeekSlice2<-2, 1>");
    v.visit::<PeekSlice2<-2, 2>>("PeekSlice2<-2, 2>");
    v.visit::<PeekSlice2<-2, 3>>("PeekSlice2<-2, 3>");
    v.visit::<PeekSlice2<-1, -3>>("PeekSlice2<-1, -3>");
    v.visit::<PeekSlice2<-1, -2>>("PeekSlice2<-1, -2>");
    v.visit::<PeekSlice2<-1, -1>>("PeekSlice2<-1, -1>");
    v.visit::<PeekSlice2<-1, 0>>("PeekSlice2<-1, 0>");
    v.visit::<PeekSlice2<-1, 1>>("PeekSlice2<-1, 1>");
    v.visit::<PeekSlice2<-1, 2>>("PeekSlice2<-1, 2>");
    v.visit::<PeekSlice2<-1, 3>>("PeekSlice2<-1, 3>");
    v.visit::<PeekSlice2<0, -3>>("PeekSlice2<0, -3>");
    v.visit::<PeekSlice2<0, -2>>("PeekSlice2<0, -2>");
    v.visit::<PeekSlice2<0, -1>>("PeekSlice2<0, -1>");
    v.visit::<PeekSlice2<0, 0>>("PeekSlice2<0, 0>");
    v.visit::<PeekSlice2<0, 1>>("PeekSlice2<0, 1>");
    v.visit::<PeekSlice2<0, 2>>("PeekSlice2<0, 2>");
    v.visit::<PeekSlice2<0, 3>>("PeekSlice2<0, 3>");
    v.visit::<PeekSlice2<1, -3>>("PeekSlice2<1, -3>");
    v.visit::<PeekSlice2<1, -2>>("PeekSlice2<1, -2>");
    v.visit::<PeekSlice2<1, -1>>("PeekSlice2<1, -1>");
    v.visit::<PeekSlice2<1, 0>>("PeekSlice2<1, 0>");
    v.visit::<PeekSlice2<1, 1>>("PeekSlice2<1, 1>");
    v.visit::<PeekSlice2<1, 2>>("PeekSlice2<1, 2>");
    v.visit::<PeekSlice2<1, 3>>("PeekSlice2<1, 3>");
    v.visit::<PeekSlice2<2, -3>>("PeekSlice2<2, -3>");
    v.visit::<PeekSlice2<2, -2>>("PeekSlice2<2, -2>");
    v.visit::<PeekSlice2<2, -1>>("PeekSlice2<2, -1>");
    v.visit::<PeekSlice2<2, 0>>("PeekSlice2<2, 0>");
    v.visit::<PeekSlice2<2, 1>>("PeekSlice2<2, 1>");
    v.visit::<PeekSlice2<2, 2>>("PeekSlice2<2, 2>");
    v.visit::<PeekSlice2<2, 3>>("PeekSlice2<2, 3>");
    v.visit::<PeekSlice2<3, -3>>("PeekSlice2<3, -3>");
    v.visit::<PeekSlice2<3, -2>>("PeekSlice2<3, -2>");
    v.visit::<PeekSlice2<3, -1>>("PeekSlice2<3, -1>");
    v.visit::<PeekSlice2<3, 0>>("PeekSlice2<3, 0>");
}
fn types_4<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<PeekSlice2<3, 1>>("PeekSlice2<3, 1>");
    v.visit::<PeekSlice2<3, 2>>("PeekSlice2<3, 2>");
    v.visit::<PeekSlice2<3, 3>>("PeekSlice2<3, 3>");
    v.visit::<soi>("soi");
    v.visit::<eoi>("eoi");
    v.visit::<Empty>("Empty");
    v.visit::<NONE>("NONE");
    v.visit::<drop>("drop");
    v.visit::<peek<'i>>("peek<'i>");
    v.visit::<pop<'i>>("pop<'i>");
    v.visit::<peek_all<'i>>("peek_all<'i>");
    v.visit::<pop_all<'i>>("pop_all<'i>");
    v.visit::<Choice2<Negative<Choice4<RepMinMax<Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>, Sequence2<Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Sequence5<NONE, RepOnce<Str<Ssp>, Empty>, Str<Sae>, RepOnce<Str<Ssp>, Empty>, pest3_core::typed::unicode::UPPERCASE, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-1>, RepOnce<Str<Ssp>, Empty>, drop, RepOnce<Str<Ssp>, Empty>>, Sequence4<newline, Empty, drop, Empty, PeekSlice2<0, 1>, Empty, peek<'i>, Empty>>>, RepMinMax<Choice2<RuleC<'i, drop>, Sequence3<newline, Rep<Str<Ssp>, Empty>, newline, Rep<Str<Ssp>, Empty>, soi, Rep<Str<Ssp>, Empty>>>, Empty, 1, 2>>>("Choice2<Negative<Choice4<RepMinMax<Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>, Sequence2<Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Sequence5<NONE, RepOnce<Str<Ssp>, Empty>, Str<Sae>, RepOnce<Str<Ssp>, Empty>, pest3_core::typed::unicode::UPPERCASE, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-1>, RepOnce<Str<Ssp>, Empty>, drop, RepOnce<Str<Ssp>, Empty>>, Sequence4<newline, Empty, drop, Empty, PeekSlice2<0, 1>, Empty, peek<'i>, Empty>>>, RepMinMax<Choice2<RuleC<'i, drop>, Sequence3<newline, Rep<Str<Ssp>, Empty>, newline, Rep<Str<Ssp>, Empty>, soi, Rep<Str<Ssp>, Empty>>>, Empty, 1, 2>>");
    v.visit::<Choice4<Choice3<Str<Sae>, CharRange<'a', 'b'>, Char<'a'>>, Sequence4<Str<Ssp>, push<Rep<Str<Ssp>, Empty>>, Empty, push<Rep<Str<Ssp>, Empty>>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>, Str<Scr>, push<Rep<Str<Ssp>, Empty>>>, Sequence3<Insens<'i, SA>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<1>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, Sequence3<Str<Se>, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Choice4<Choice3<Str<Sae>, CharRange<'a', 'b'>, Char<'a'>>, Sequence4<Str<Ssp>, push<Rep<Str<Ssp>, Empty>>, Empty, push<Rep<Str<Ssp>, Empty>>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>, Str<Scr>, push<Rep<Str<Ssp>, Empty>>>, Sequence3<Insens<'i, SA>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<1>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, Sequence3<Str<Se>, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Option<Sequence2<newline, Empty, Sequence2<newline, push<Rep<Str<Ssp>, Empty>>, pest3_core::typed::unicode::UPPERCASE, push<Rep<Str<Ssp>, Empty>>>, Empty>>>("Option<Sequence2<newline, Empty, Sequence2<newline, push<Rep<Str<Ssp>, Empty>>, pest3_core::typed::unicode::UPPERCASE, push<Rep<Str<Ssp>, Empty>>>, Empty>>");
    v.visit::<RuleC<'i, push<push<Empty>>>>("RuleC<'i, push<push<Empty>>>");
    v.visit::<RuleB<'i, pest3_core::typed::unicode::UPPERCASE>>("RuleB<'i, pest3_core::typed::unicode::UPPERCASE>");
    v.visit::<Choice3<Choice2<Str<Sab>, pop<'i>>, RepMinMax<Char<'é'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Str<Sae>>>("Choice3<Choice2<Str<Sab>, pop<'i>>, RepMinMax<Char<'é'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Str<Sae>>");
    v.visit::<Sequence3<Str<Se>, Empty, RepMinMax<Sequence2<soi, Empty, PeekSlice1<-1>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, 1, 1>, Empty, Negative<Positive<any>>, Empty>>("Sequence3<Str<Se>, Empty, RepMinMax<Sequence2<soi, Empty, PeekSlice1<-1>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, 1, 1>, Empty, Negative<Positive<any>>, Empty>");
    v.visit::<Positive<Choice2<Sequence3<Rep<Insens<'i, Sae>, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>, Option<Str<Se>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<CharRange<'A', 'b'>>, RepOnce<Str<Ssp>, Empty>>, PeekSlice2<1, 2>>>>("Positive<Choice2<Sequence3<Rep<Insens<'i, Sae>, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>, Option<Str<Se>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<CharRange<'A', 'b'>>, RepOnce<Str<Ssp>, Empty>>, PeekSlice2<1, 2>>>");
    v.visit::<RepMinMax<Option<eoi>, Empty, 1, 3>>("RepMinMax<Option<eoi>, Empty, 1, 3>");
    v.visit::<RuleA<'i, Sequence3<Negative<Str<Sab>>, Option<Str<Ssp>>, Choice2<Char<'é'>, drop>, push<Rep<Str<Ssp>, Empty>>, RepMinMax<PeekSlice1<-1>, Option<Str<Ssp>>, 0, 3>, Empty>>>("RuleA<'i, Sequence3<Negative<Str<Sab>>, Option<Str<Ssp>>, Choice2<Char<'é'>, drop>, push<Rep<Str<Ssp>, Empty>>, RepMinMax<PeekSlice1<-1>, Option<Str<Ssp>>, 0, 3>, Empty>>");
    v.visit::<Choice3<Sequence2<Choice5<Str<Se>, CharRange<'a', 'é'>, peek_all<'i>, SkipChar<'i, 2>, pop<'i>>, Empty, Rep<Str<Sab>, RepOnce<Str<Ssp>, Empty>>, Empty>, CharRange<'a', 'é'>, Choice3<Negative<PeekSlice1<1>>, Insens<'i, Sa>, Choice2<SkipChar<'i, 2>, pest3_core::typed::unicode::UPPERCASE>>>>("Choice3<Sequence2<Choice5<Str<Se>, CharRange<'a', 'é'>, peek_all<'i>, SkipChar<'i, 2>, pop<'i>>, Empty, Rep<Str<Sab>, RepOnce<Str<Ssp>, Empty>>, Empty>, CharRange<'a', 'é'>, Choice3<Negative<PeekSlice1<1>>, Insens<'i, Sa>, Choice2<SkipChar<'i, 2>, pest3_core::typed::unicode::UPPERCASE>>>");
    v.visit::<RuleB<'i, Str<Sae>>>("RuleB<'i, Str<Sae>>");
    v.visit::<RuleB<'i, Str<SA>>>("RuleB<'i, Str<SA>>");
    v.visit::<Negative<Option<Negative<Str<Sab>>>>>("Negative<Option<Negative<Str<Sab>>>>");
    v.visit::<Choice2<Option<Sequence2<Str<Sb>, Empty, Char<'é'>, Empty>>, push<Sequence5<Insens<'i, Sab>, Empty, Str<Scrlf>, Empty, Str<Scr>, Empty, pest3_core::typed::unicode::UPPERCASE, Empty, Str<Scr>, Empty>>>>("Choice2<Option<Sequence2<Str<Sb>, Empty, Char<'é'>, Empty>>, push<Sequence5<Insens<'i, Sab>, Empty, Str<Scrlf>, Empty, Str<Scr>, Empty, pest3_core::typed::unicode::UPPERCASE, Empty, Str<Scr>, Empty>>>");
    v.visit::<Positive<Option<NONE>>>("Positive<Option<NONE>>");
    v.visit::<push<Positive<Negative<Option<Insens<'i, Sa>>>>>>("push<Positive<Negative<Option<Insens<'i, Sa>>>>>");
    v.visit::<Positive<RepMinMax<SkipChar<'i, 1>, Option<Str<Ssp>>, 2, 2>>>("Positive<RepMinMax<SkipChar<'i, 1>, Option<Str<Ssp>>, 2, 2>>");
    v.visit::<Sequence2<RepMinMax<push<PeekSlice2<1, 2>>, Empty, 0, 2>, Empty, Choice4<RepMinMax<CharRange<'a', 'b'>, Option<Str<Ssp>>, 1, 2>, Sequence2<CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>, Str<SA>, RepOnce<Str<Ssp>, Empty>>, RepMinMax<soi, Option<Str<Ssp>>, 0, 1>, Sequence2<Insens<'i, Sae>, Empty, SkipChar<'i, 2>, Empty>>, Empty>>("Sequence2<RepMinMax<push<PeekSlice2<1, 2>>, Empty, 0, 2>, Empty, Choice4<RepMinMax<CharRange<'a', 'b'>, Option<Str<Ssp>>, 1, 2>, Sequence2<CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>, Str<SA>, RepOnce<Str<Ssp>, Empty>>, RepMinMax<soi, Option<Str<Ssp>>, 0, 1>, Sequence2<Insens<'i, Sae>, Empty, SkipChar<'i, 2>, Empty>>, Empty>");
    v.visit::<Choice2<PeekSlice2<0, -1>, RuleA<'i, PeekSlice2<1, 0>>>>("Choice2<PeekSlice2<0, -1>, RuleA<'i, PeekSlice2<1, 0>>>");
    v.visit::<Option<RuleB<'i, RepMax<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, 2>>>>("Option<RuleB<'i, RepMax<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, 2>>>");
    v.visit::<Sequence5<push<Str<Scr>>, Empty, Sequence2<pop_all<'i>, Empty, PeekSlice1<1>, Rep<Str<Ssp>, Empty>>, Empty, Negative<pop<'i>>, Empty, RepMinMax<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, 2, 2>, Empty, Choice3<Str<Sab>, SkipChar<'i, 2>, CharRange<'A', 'b'>>, Empty>>("Sequence5<push<Str<Scr>>, Empty, Sequence2<pop_all<'i>, Empty, PeekSlice1<1>, Rep<Str<Ssp>, Empty>>, Empty, Negative<pop<'i>>, Empty, RepMinMax<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, 2, 2>, Empty, Choice3<Str<Sab>, SkipChar<'i, 2>, CharRange<'A', 'b'>>, Empty>");
    v.visit::<RepMin<SkipChar<'i, 1>, push<Rep<Str<Ssp>, Empty>>, 2>>("RepMin<SkipChar<'i, 1>, push<Rep<Str<Ssp>, Empty>>, 2>");
    v.visit::<Option<Option<Option<Option<pest3_core::typed::unicode::UPPERCASE>>>>>("Option<Option<Option<Option<pest3_core::typed::unicode::UPPERCASE>>>>");
    v.visit::<Choice2<Choice2<push<drop>, PeekSlice2<1, 2>>, Sequence4<Positive<PeekSlice2<-2, -1>>, Rep<Str<Ssp>, Empty>, push<PeekSlice1<-2>>, Option<Str<Ssp>>, push<CharRange<'a', 'é'>>, Empty, push<Char<'a'>>, Empty>>>("Choice2<Choice2<push<drop>, PeekSlice2<1, 2>>, Sequence4<Positive<PeekSlice2<-2, -1>>, Rep<Str<Ssp>, Empty>, push<PeekSlice1<-2>>, Option<Str<Ssp>>, push<CharRange<'a', 'é'>>, Empty, push<Char<'a'>>, Empty>>");
    v.visit::<Negative<Sequence2<RepMin<Sequence2<CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Choice5<Str<Sb>, Str<Scrlf>, Str<Scrlf>, CharRange<'A', 'b'>, peek_all<'i>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Negative<Sequence2<RepMin<Sequence2<CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Choice5<Str<Sb>, Str<Scrlf>, Str<Scrlf>, CharRange<'A', 'b'>, peek_all<'i>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Negative<Positive<Positive<Str<Sae>>>>>("Negative<Positive<Positive<Str<Sae>>>>");
    v.visit::<RepMax<push<Choice2<Str<Seb>, Str<Sa>>>, Empty, 2>>("RepMax<push<Choice2<Str<Seb>, Str<Sa>>>, Empty, 2>");
    v.visit::<RepMinMax<push<Option<Insens<'i, Sae>>>, Rep<Str<Ssp>, Empty>, 1, 1>>("RepMinMax<push<Option<Insens<'i, Sae>>>, Rep<Str<Ssp>, Empty>, 1, 1>");
    v.visit::<Choice2<Choice3<Str<Sb>, newline, Str<Ssp>>, Choice4<Insens<'i, Sae>, Insens<'i, Se>, Char<'a'>, PeekSlice1<-1>>>>("Choice2<Choice3<Str<Sb>, newline, Str<Ssp>>, Choice4<Insens<'i, Sae>, Insens<'i, Se>, Char<'a'>, PeekSlice1<-1>>>");
    v.visit::<RuleC<'i, Str<Sa>>>("RuleC<'i, Str<Sa>>");
    v.visit::<Choice3<Choice3<Sequence3<Insens<'i, Sae>, Empty, Str<Sae>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<1, 2>, Empty>, Option<Insens<'i, Sae>>, RepMinMax<CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>, 2, 2>>, Sequence2<RuleB<'i, Str<Slf>>, RepOnce<Str<Ssp>, Empty>, Sequence2<newline, Empty, ascii_alpha, Empty>, push<Rep<Str<Ssp>, Empty>>>, RepMax<Sequence5<NONE, Empty, Char<'é'>, Option<Str<Ssp>>, CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>, Str<Se>, Option<Str<Ssp>>, Insens<'i, Sab>, Empty>, Empty, 2>>>("Choice3<Choice3<Sequence3<Insens<'i, Sae>, Empty, Str<Sae>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<1, 2>, Empty>, Option<Insens<'i, Sae>>, RepMinMax<CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>, 2, 2>>, Sequence2<RuleB<'i, Str<Slf>>, RepOnce<Str<Ssp>, Empty>, Sequence2<newline, Empty, ascii_alpha, Empty>, push<Rep<Str<Ssp>, Empty>>>, RepMax<Sequence5<NONE, Empty, Char<'é'>, Option<Str<Ssp>>, CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>, Str<Se>, Option<Str<Ssp>>, Insens<'i, Sab>, Empty>, Empty, 2>>");
    v.visit::<Choice5<Option<RepMinMax<Positive<Str<Ssp>>, Option<Str<Ssp>>, 2, 3>>, RepMax<Str<Scr>, RepOnce<Str<Ssp>, Empty>, 2>, Positive<NONE>, RepMinMax<Choice2<Str<Slf>, Choice4<Str<Ssp>, Insens<'i, SA>, Char<'a'>, Str<Sae>>>, Option<Str<Ssp>>, 1, 2>, Sequence3<RepMinMax<Negative<CharRange<'a', 'é'>>, Rep<Str<Ssp>, Empty>, 1, 2>, push<Rep<Str<Ssp>, Empty>>, Negative<Sequence2<Insens<'i, Sab>, Empty, Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>>>, push<Rep<Str<Ssp>, Empty>>, Option<Str<Scrlf>>, push<Rep<Str<Ssp>, Empty>>>>>("Choice5<Option<RepMinMax<Positive<Str<Ssp>>, Option<Str<Ssp>>, 2, 3>>, RepMax<Str<Scr>, RepOnce<Str<Ssp>, Empty>, 2>, Positive<NONE>, RepMinMax<Choice2<Str<Slf>, Choice4<Str<Ssp>, Insens<'i, SA>, Char<'a'>, Str<Sae>>>, Option<Str<Ssp>>, 1, 2>, Sequence3<RepMinMax<Negative<CharRange<'a', 'é'>>, Rep<Str<Ssp>, Empty>, 1, 2>, push<Rep<Str<Ssp>, Empty>>, Negative<Sequence2<Insens<'i, Sab>, Empty, Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>>>, push<Rep<Str<Ssp>, Empty>>, Option<Str<Scrlf>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence5<Sequence2<Choice2<any, Str<Sba>>, RepOnce<Str<Ssp>, Empty>, Choice2<Str<Sae>, CharRange<'a', 'é'>>, RepOnce<Str<Ssp>, Empty>>, Empty, Insens<'i, SA>, Empty, RepMinMax<Sequence4<Insens<'i, Sae>, Rep<Str<Ssp>, Empty>, PeekSlice2<1, 0>, Option<Str<Ssp>>, Str<Slf>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, Option<Str<Ssp>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Empty, RuleA<'i, Positive<Insens<'i, Sae>>>, Empty, RepMinMax<Option<any>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, Empty>>("Sequence5<Sequence2<Choice2<any, Str<Sba>>, RepOnce<Str<Ssp>, Empty>, Choice2<Str<Sae>, CharRange<'a', 'é'>>, RepOnce<Str<Ssp>, Empty>>, Empty, Insens<'i, SA>, Empty, RepMinMax<Sequence4<Insens<'i, Sae>, Rep<Str<Ssp>, Empty>, PeekSlice2<1, 0>, Option<Str<Ssp>>, Str<Slf>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, Option<Str<Ssp>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Empty, RuleA<'i, Positive<Insens<'i, Sae>>>, Empty, RepMinMax<Option<any>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, Empty>");
    v.visit::<Positive<push<Sequence2<Choice3<Str<S0>, Str<Sb>, Str<Scr>>, Choice3<Insens<'i, SA>, Str<Ssp>, Char<'é'>>, Sequence4<Insens<'i, Sae>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>, Str<Sab>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Se>, Empty>, Choice3<Insens<'i, SA>, Str<Ssp>, Char<'é'>>>>>>("Positive<push<Sequence2<Choice3<Str<S0>, Str<Sb>, Str<Scr>>, Choice3<Insens<'i, SA>, Str<Ssp>, Char<'é'>>, Sequence4<Insens<'i, Sae>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>, Str<Sab>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Se>, Empty>, Choice3<Insens<'i, SA>, Str<Ssp>, Char<'é'>>>>>");
    v.visit::<Sequence2<Str<Sb>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sa>, RepOnce<Str<Ssp>, Empty>>>("Sequence2<Str<Sb>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sa>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<push<Sequence2<Str<Sa>, Empty, Char<'é'>, push<Rep<Str<Ssp>, Empty>>>>>("push<Sequence2<Str<Sa>, Empty, Char<'é'>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence5<RepMinMax<Choice3<PeekSlice1<-2>, PeekSlice2<1, 0>, Str<Slf>>, Empty, 0, 3>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, RepOnce<Str<Ssp>, Empty>, Negative<RepOnce<Char<'é'>, Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>, Choice3<Negative<Insens<'i, Se>>, Choice2<PeekSlice2<-2, -1>, peek_all<'i>>, Positive<Str<Sab>>>, RepOnce<Str<Ssp>, Empty>, push<Str<Sab>>, RepOnce<Str<Ssp>, Empty>>>("Sequence5<RepMinMax<Choice3<PeekSlice1<-2>, PeekSlice2<1, 0>, Str<Slf>>, Empty, 0, 3>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, RepOnce<Str<Ssp>, Empty>, Negative<RepOnce<Char<'é'>, Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>, Choice3<Negative<Insens<'i, Se>>, Choice2<PeekSlice2<-2, -1>, peek_all<'i>>, Positive<Str<Sab>>>, RepOnce<Str<Ssp>, Empty>, push<Str<Sab>>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<push<Negative<Str<Sba>>>>("push<Negative<Str<Sba>>>");
    v.visit::<Sequence3<Str<Seb>, Empty, Choice2<pest3_core::typed::unicode::UPPERCASE, Str<Slf>>, Empty, RepMinMax<soi, Empty, 1, 3>, Empty>>("Sequence3<Str<Seb>, Empty, Choice2<pest3_core::typed::unicode::UPPERCASE, Str<Slf>>, Empty, RepMinMax<soi, Empty, 1, 3>, Empty>");
    v.visit::<Choice2<Sequence2<Str<Scrlf>, Option<Str<Ssp>>, Str<Sa>, Option<Str<Ssp>>>, Sequence3<peek<'i>, Rep<Str<Ssp>, Empty>, Str<Scrlf>, Rep<Str<Ssp>, Empty>, Insens<'i, SA>, Rep<Str<Ssp>, Empty>>>>("Choice2<Sequence2<Str<Scrlf>, Option<Str<Ssp>>, Str<Sa>, Option<Str<Ssp>>>, Sequence3<peek<'i>, Rep<Str<Ssp>, Empty>, Str<Scrlf>, Rep<Str<Ssp>, Empty>, Insens<'i, SA>, Rep<Str<Ssp>, Empty>>>");
    v.visit::<Choice2<Choice3<Choice2<Char<'a'>, Str<Ssp>>, Str<Sab>, Choice2<CharRange<'A', 'b'>, PeekSlice2<-2, -1>>>, RepMinMax<RepMinMax<Str<Sba>, Option<Str<Ssp>>, 2, 2>, RepOnce<Str<Ssp>, Empty>, 2, 2>>>("Choice2<Choice3<Choice2<Char<'a'>, Str<Ssp>>, Str<Sab>, Choice2<CharRange<'A', 'b'>, PeekSlice2<-2, -1>>>, RepMinMax<RepMinMax<Str<Sba>, Option<Str<Ssp>>, 2, 2>, RepOnce<Str<Ssp>, Empty>, 2, 2>>");
    v.visit::<Positive<Sequence2<Insens<'i, Sab>, Rep<Str<Ssp>, Empty>, Positive<Str<Slf>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Positive<Sequence2<Insens<'i, Sab>, Rep<Str<Ssp>, Empty>, Positive<Str<Slf>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Sequence5<Negative<push<Str<Ssp>>>, Empty, Choice2<Option<SkipChar<'i, 2>>, CharRange<'a', 'é'>>, Empty, Choice2<RepMin<ascii_alpha, Empty, 2>, Choice2<drop, newline>>, Empty, Choice4<Sequence3<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, eoi, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>, Option<Insens<'i, Sae>>, Sequence4<Str<Sae>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>>, RepMin<pest3_core::typed::unicode::UPPERCASE, Empty, 2>>, Empty, RuleA<'i, RepMinMax<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, 2, 2>>, Empty>>("Sequence5<Negative<push<Str<Ssp>>>, Empty, Choice2<Option<SkipChar<'i, 2>>, CharRange<'a', 'é'>>, Empty, Choice2<RepMin<ascii_alpha, Empty, 2>, Choice2<drop, newline>>, Empty, Choice4<Sequence3<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, eoi, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>, Option<Insens<'i, Sae>>, Sequence4<Str<Sae>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>>, RepMin<pest3_core::typed::unicode::UPPERCASE, Empty, 2>>, Empty, RuleA<'i, RepMinMax<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, 2, 2>>, Empty>");
    v.visit::<push<Sequence3<Char<'a'>, Empty, Insens<'i, Se>, Empty, Str<Slf>, Empty>>>("push<Sequence3<Char<'a'>, Empty, Insens<'i, Se>, Empty, Str<Slf>, Empty>>");
    v.visit::<RuleC<'i, Choice4<PeekSlice1<-1>, CharRange<'a', 'é'>, Str<Sba>, Str<Sab>>>>("RuleC<'i, Choice4<PeekSlice1<-1>, CharRange<'a', 'é'>, Str<Sba>, Str<Sab>>>");
    v.visit::<Negative<Sequence4<Negative<CharRange<'a', 'é'>>, Empty, Negative<PeekSlice2<0, 1>>, push<Rep<Str<Ssp>, Empty>>, push<pest3_core::typed::unicode::UPPERCASE>, Option<Str<Ssp>>, Choice4<PeekSlice2<0, 1>, CharRange<'a', 'é'>, Empty, PeekSlice2<-2, -1>>, push<Rep<Str<Ssp>, Empty>>>>>("Negative<Sequence4<Negative<CharRange<'a', 'é'>>, Empty, Negative<PeekSlice2<0, 1>>, push<Rep<Str<Ssp>, Empty>>, push<pest3_core::typed::unicode::UPPERCASE>, Option<Str<Ssp>>, Choice4<PeekSlice2<0, 1>, CharRange<'a', 'é'>, Empty, PeekSlice2<-2, -1>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<push<Sequence5<Sequence3<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>, Str<Ssp>, push<Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>, Positive<Str<Scrlf>>, RepOnce<Str<Ssp>, Empty>, Choice5<SkipChar<'i, 0>, Str<Sba>, Str<Scrlf>, Str<Sb>, peek_all<'i>>, RepOnce<Str<Ssp>, Empty>, push<Str<Scr>>, RepOnce<Str<Ssp>, Empty>, Positive<Str<Sae>>, RepOnce<Str<Ssp>, Empty>>>>("push<Sequence5<Sequence3<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>, Str<Ssp>, push<Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>, Positive<Str<Scrlf>>, RepOnce<Str<Ssp>, Empty>, Choice5<SkipChar<'i, 0>, Str<Sba>, Str<Scrlf>, Str<Sb>, peek_all<'i>>, RepOnce<Str<Ssp>, Empty>, push<Str<Scr>>, RepOnce<Str<Ssp>, Empty>, Positive<Str<Sae>>, RepOnce<Str<Ssp>, Empty>>>");
}
fn types_5<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Option<Positive<RepOnce<CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>>>>>("Option<Positive<RepOnce<CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>>>>");
    v.visit::<RuleC<'i, Choice5<Str<Sa>, RepMinMax<Empty, Empty, 1, 1>, Choice4<peek<'i>, Str<Scr>, Insens<'i, SA>, Str<Scr>>, RepMinMax<Str<Seb>, Option<Str<Ssp>>, 1, 2>, Sequence3<peek_all<'i>, Rep<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>>>>("RuleC<'i, Choice5<Str<Sa>, RepMinMax<Empty, Empty, 1, 1>, Choice4<peek<'i>, Str<Scr>, Insens<'i, SA>, Str<Scr>>, RepMinMax<Str<Seb>, Option<Str<Ssp>>, 1, 2>, Sequence3<peek_all<'i>, Rep<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence3<Negative<SkipChar<'i, 2>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Rep<Str<Sb>, Empty>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<-2>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence3<Negative<SkipChar<'i, 2>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Rep<Str<Sb>, Empty>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<-2>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Positive<Sequence3<Choice3<Sequence2<eoi, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<0>, Empty>, Sequence2<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, soi, push<Rep<Str<Ssp>, Empty>>>, Choice2<ascii_alpha, Char<'a'>>>, RepOnce<Str<Ssp>, Empty>, RepMinMax<Positive<peek_all<'i>>, Empty, 1, 3>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Option<PeekSlice2<0, 1>>>, Option<Str<Ssp>>>>>("Positive<Sequence3<Choice3<Sequence2<eoi, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<0>, Empty>, Sequence2<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, soi, push<Rep<Str<Ssp>, Empty>>>, Choice2<ascii_alpha, Char<'a'>>>, RepOnce<Str<Ssp>, Empty>, RepMinMax<Positive<peek_all<'i>>, Empty, 1, 3>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Option<PeekSlice2<0, 1>>>, Option<Str<Ssp>>>>");
    v.visit::<Choice2<Choice5<Char<'é'>, Str<Sba>, Str<Seb>, any, CharRange<'A', 'b'>>, Choice2<SkipChar<'i, 2>, CharRange<'a', 'b'>>>>("Choice2<Choice5<Char<'é'>, Str<Sba>, Str<Seb>, any, CharRange<'A', 'b'>>, Choice2<SkipChar<'i, 2>, CharRange<'a', 'b'>>>");
    v.visit::<Choice2<RepMinMax<RepMinMax<ascii_alpha, Rep<Str<Ssp>, Empty>, 1, 2>, Option<Str<Ssp>>, 0, 1>, Option<Sequence3<pop<'i>, push<Rep<Str<Ssp>, Empty>>, Str<Sae>, push<Rep<Str<Ssp>, Empty>>, newline, push<Rep<Str<Ssp>, Empty>>>>>>("Choice2<RepMinMax<RepMinMax<ascii_alpha, Rep<Str<Ssp>, Empty>, 1, 2>, Option<Str<Ssp>>, 0, 1>, Option<Sequence3<pop<'i>, push<Rep<Str<Ssp>, Empty>>, Str<Sae>, push<Rep<Str<Ssp>, Empty>>, newline, push<Rep<Str<Ssp>, Empty>>>>>");
    v.visit::<Sequence2<Sequence4<Char<'é'>, Rep<Str<Ssp>, Empty>, newline, Empty, Insens<'i, SA>, Option<Str<Ssp>>, Str<Slf>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, RuleA<'i, Str<Seb>>, RepOnce<Str<Ssp>, Empty>>>("Sequence2<Sequence4<Char<'é'>, Rep<Str<Ssp>, Empty>, newline, Empty, Insens<'i, SA>, Option<Str<Ssp>>, Str<Slf>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, RuleA<'i, Str<Seb>>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<RuleB<'i, Choice5<Str<Sae>, Str<Scrlf>, Str<Sab>, Str<Scr>, Char<'é'>>>>("RuleB<'i, Choice5<Str<Sae>, Str<Scrlf>, Str<Sab>, Str<Scr>, Char<'é'>>>");
    v.visit::<Negative<Choice3<Sequence2<PeekSlice1<1>, Empty, peek_all<'i>, Empty>, Choice3<NONE, CharRange<'a', 'b'>, PeekSlice2<0, -1>>, Negative<Str<Sab>>>>>("Negative<Choice3<Sequence2<PeekSlice1<1>, Empty, peek_all<'i>, Empty>, Choice3<NONE, CharRange<'a', 'b'>, PeekSlice2<0, -1>>, Negative<Str<Sab>>>>");
    v.visit::<RepMinMax<Sequence2<Negative<pest3_core::typed::unicode::UPPERCASE>, push<Rep<Str<Ssp>, Empty>>, Choice2<CharRange<'a', 'é'>, PeekSlice2<1, 2>>, Empty>, Empty, 0, 3>>("RepMinMax<Sequence2<Negative<pest3_core::typed::unicode::UPPERCASE>, push<Rep<Str<Ssp>, Empty>>, Choice2<CharRange<'a', 'é'>, PeekSlice2<1, 2>>, Empty>, Empty, 0, 3>");
    v.visit::<push<Choice2<Choice2<newline, pest3_core::typed::unicode::UPPERCASE>, Choice3<Str<Sb>, PeekSlice2<1, 2>, peek<'i>>>>>("push<Choice2<Choice2<newline, pest3_core::typed::unicode::UPPERCASE>, Choice3<Str<Sb>, PeekSlice2<1, 2>, peek<'i>>>>");
    v.visit::<Positive<Sequence4<Sequence2<SkipChar<'i, 0>, push<Rep<Str<Ssp>, Empty>>, Str<Sba>, push<Rep<Str<Ssp>, Empty>>>, push<Rep<Str<Ssp>, Empty>>, push<Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, Option<Str<S0>>, push<Rep<Str<Ssp>, Empty>>, Option<newline>, push<Rep<Str<Ssp>, Empty>>>>>("Positive<Sequence4<Sequence2<SkipChar<'i, 0>, push<Rep<Str<Ssp>, Empty>>, Str<Sba>, push<Rep<Str<Ssp>, Empty>>>, push<Rep<Str<Ssp>, Empty>>, push<Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, Option<Str<S0>>, push<Rep<Str<Ssp>, Empty>>, Option<newline>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Choice3<Sequence2<Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>, push<Str<Ssp>>, push<Rep<Str<Ssp>, Empty>>>, Negative<peek_all<'i>>, Sequence3<Option<PeekSlice2<0, 1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, push<PeekSlice1<1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Choice3<Sequence2<Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>, push<Str<Ssp>>, push<Rep<Str<Ssp>, Empty>>>, Negative<peek_all<'i>>, Sequence3<Option<PeekSlice2<0, 1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, push<PeekSlice1<1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Sequence3<push<Insens<'i, Sab>>, Rep<Str<Ssp>, Empty>, push<Insens<'i, Sae>>, Rep<Str<Ssp>, Empty>, Option<Insens<'i, Sae>>, Rep<Str<Ssp>, Empty>>>("Sequence3<push<Insens<'i, Sab>>, Rep<Str<Ssp>, Empty>, push<Insens<'i, Sae>>, Rep<Str<Ssp>, Empty>, Option<Insens<'i, Sae>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Choice4<RepMinMax<push<eoi>, Rep<Str<Ssp>, Empty>, 0, 3>, RepMinMax<Choice2<ascii_alpha, PeekSlice1<-2>>, Rep<Str<Ssp>, Empty>, 3, 3>, Char<'a'>, Sequence2<RepMin<Str<SA>, Rep<Str<Ssp>, Empty>, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Str<Sba>>, push<Rep<Str<Ssp>, Empty>>>>>("Choice4<RepMinMax<push<eoi>, Rep<Str<Ssp>, Empty>, 0, 3>, RepMinMax<Choice2<ascii_alpha, PeekSlice1<-2>>, Rep<Str<Ssp>, Empty>, 3, 3>, Char<'a'>, Sequence2<RepMin<Str<SA>, Rep<Str<Ssp>, Empty>, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Str<Sba>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence5<Sequence3<Choice2<Str<Se>, PeekSlice2<1, 0>>, RepOnce<Str<Ssp>, Empty>, Choice4<CharRange<'a', 'é'>, Str<Sb>, Str<Sab>, NONE>, RepOnce<Str<Ssp>, Empty>, Sequence4<Str<SA>, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>, RuleA<'i, Rep<pest3_core::typed::unicode::UPPERCASE, Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Insens<'i, SA>, Option<Str<Ssp>>, Choice2<Sequence3<PeekSlice1<-1>, RepOnce<Str<Ssp>, Empty>, Str<S0>, Empty, Char<'a'>, Option<Str<Ssp>>>, Negative<eoi>>, Option<Str<Ssp>>, Positive<Str<Sa>>, Option<Str<Ssp>>>>("Sequence5<Sequence3<Choice2<Str<Se>, PeekSlice2<1, 0>>, RepOnce<Str<Ssp>, Empty>, Choice4<CharRange<'a', 'é'>, Str<Sb>, Str<Sab>, NONE>, RepOnce<Str<Ssp>, Empty>, Sequence4<Str<SA>, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>, RuleA<'i, Rep<pest3_core::typed::unicode::UPPERCASE, Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Insens<'i, SA>, Option<Str<Ssp>>, Choice2<Sequence3<PeekSlice1<-1>, RepOnce<Str<Ssp>, Empty>, Str<S0>, Empty, Char<'a'>, Option<Str<Ssp>>>, Negative<eoi>>, Option<Str<Ssp>>, Positive<Str<Sa>>, Option<Str<Ssp>>>");
    v.visit::<Option<Sequence3<RepMinMax<any, RepOnce<Str<Ssp>, Empty>, 0, 0>, Option<Str<Ssp>>, Positive<Str<Ssp>>, RepOnce<Str<Ssp>, Empty>, Sequence2<PeekSlice2<1, 0>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>>>>("Option<Sequence3<RepMinMax<any, RepOnce<Str<Ssp>, Empty>, 0, 0>, Option<Str<Ssp>>, Positive<Str<Ssp>>, RepOnce<Str<Ssp>, Empty>, Sequence2<PeekSlice2<1, 0>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Choice2<Choice3<Option<any>, Choice2<eoi, Insens<'i, Se>>, Choice4<Insens<'i, Se>, PeekSlice2<0, -1>, PeekSlice2<1, 2>, CharRange<'a', 'é'>>>, Option<PeekSlice1<1>>>>("Choice2<Choice3<Option<any>, Choice2<eoi, Insens<'i, Se>>, Choice4<Insens<'i, Se>, PeekSlice2<0, -1>, PeekSlice2<1, 2>, CharRange<'a', 'é'>>>, Option<PeekSlice1<1>>>");
    v.visit::<RepMinMax<Negative<Sequence2<Str<Scrlf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, newline, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, RepOnce<Str<Ssp>, Empty>, 2, 3>>("RepMinMax<Negative<Sequence2<Str<Scrlf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, newline, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, RepOnce<Str<Ssp>, Empty>, 2, 3>");
    v.visit::<Choice2<Choice2<Negative<Choice2<peek<'i>, CharRange<'A', 'b'>>>, Option<Sequence5<ascii_alpha, Rep<Str<Ssp>, Empty>, Insens<'i, SA>, Rep<Str<Ssp>, Empty>, Str<Seb>, Empty, PeekSlice1<0>, Empty, PeekSlice2<1, 2>, RepOnce<Str<Ssp>, Empty>>>>, CharRange<'a', 'é'>>>("Choice2<Choice2<Negative<Choice2<peek<'i>, CharRange<'A', 'b'>>>, Option<Sequence5<ascii_alpha, Rep<Str<Ssp>, Empty>, Insens<'i, SA>, Rep<Str<Ssp>, Empty>, Str<Seb>, Empty, PeekSlice1<0>, Empty, PeekSlice2<1, 2>, RepOnce<Str<Ssp>, Empty>>>>, CharRange<'a', 'é'>>");
    v.visit::<RepMinMax<RepMinMax<RepMinMax<Insens<'i, Sa>, Empty, 0, 0>, RepOnce<Str<Ssp>, Empty>, 0, 1>, Rep<Str<Ssp>, Empty>, 0, 1>>("RepMinMax<RepMinMax<RepMinMax<Insens<'i, Sa>, Empty, 0, 0>, RepOnce<Str<Ssp>, Empty>, 0, 1>, Rep<Str<Ssp>, Empty>, 0, 1>");
    v.visit::<push<Sequence3<Choice4<Str<S0>, Str<Sa>, Char<'é'>, Str<Seb>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Empty, Rep<Choice2<Str<Ssp>, newline>, Empty>, RepMinMax<NONE, push<Rep<Str<Ssp>, Empty>>, 1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("push<Sequence3<Choice4<Str<S0>, Str<Sa>, Char<'é'>, Str<Seb>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Empty, Rep<Choice2<Str<Ssp>, newline>, Empty>, RepMinMax<NONE, push<Rep<Str<Ssp>, Empty>>, 1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Choice2<Str<Ssp>, Negative<Str<Sae>>>>("Choice2<Str<Ssp>, Negative<Str<Sae>>>");
    v.visit::<push<Choice2<SkipChar<'i, 0>, Sequence3<Str<Sae>, push<Rep<Str<Ssp>, Empty>>, Char<'é'>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-1>, push<Rep<Str<Ssp>, Empty>>>>>>("push<Choice2<SkipChar<'i, 0>, Sequence3<Str<Sae>, push<Rep<Str<Ssp>, Empty>>, Char<'é'>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-1>, push<Rep<Str<Ssp>, Empty>>>>>");
    v.visit::<Choice2<Sequence2<Choice3<Char<'é'>, pop_all<'i>, Str<Scrlf>>, Option<Str<Ssp>>, push<Empty>, Option<Str<Ssp>>>, Sequence2<Negative<Str<Sab>>, Rep<Str<Ssp>, Empty>, Sequence2<PeekSlice1<-2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Empty>>>("Choice2<Sequence2<Choice3<Char<'é'>, pop_all<'i>, Str<Scrlf>>, Option<Str<Ssp>>, push<Empty>, Option<Str<Ssp>>>, Sequence2<Negative<Str<Sab>>, Rep<Str<Ssp>, Empty>, Sequence2<PeekSlice1<-2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Empty>>");
    v.visit::<Negative<push<Sequence3<Sequence4<Str<S0>, Empty, PeekSlice2<0, 1>, Empty, peek_all<'i>, Empty, Insens<'i, Sa>, Empty>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>, push<PeekSlice2<1, 2>>, Rep<Str<Ssp>, Empty>>>>>("Negative<push<Sequence3<Sequence4<Str<S0>, Empty, PeekSlice2<0, 1>, Empty, peek_all<'i>, Empty, Insens<'i, Sa>, Empty>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>, push<PeekSlice2<1, 2>>, Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Option<Sequence4<Str<Scr>, Option<Str<Ssp>>, pop_all<'i>, push<Rep<Str<Ssp>, Empty>>, Str<Slf>, Option<Str<Ssp>>, Str<Sb>, Rep<Str<Ssp>, Empty>>>>("Option<Sequence4<Str<Scr>, Option<Str<Ssp>>, pop_all<'i>, push<Rep<Str<Ssp>, Empty>>, Str<Slf>, Option<Str<Ssp>>, Str<Sb>, Rep<Str<Ssp>, Empty>>>");
    v.visit::<Choice3<Choice3<RuleA<'i, Insens<'i, Sae>>, SkipChar<'i, 1>, Positive<pest3_core::typed::unicode::UPPERCASE>>, Option<Sequence2<CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>, CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>>>, Option<Positive<Str<Slf>>>>>("Choice3<Choice3<RuleA<'i, Insens<'i, Sae>>, SkipChar<'i, 1>, Positive<pest3_core::typed::unicode::UPPERCASE>>, Option<Sequence2<CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>, CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>>>, Option<Positive<Str<Slf>>>>");
    v.visit::<Choice2<Sequence4<Sequence2<Str<Ssp>, Empty, PeekSlice1<0>, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, push<Str<Sae>>, push<Rep<Str<Ssp>, Empty>>, Sequence5<pop<'i>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>, Str<Seb>, RepOnce<Str<Ssp>, Empty>, eoi, RepOnce<Str<Ssp>, Empty>, Str<Sa>, RepOnce<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>, RuleC<'i, PeekSlice2<-2, -1>>, push<Rep<Str<Ssp>, Empty>>>, RepMin<Sequence5<CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>, Str<Scr>, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<0, -1>, push<Rep<Str<Ssp>, Empty>>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2>>>("Choice2<Sequence4<Sequence2<Str<Ssp>, Empty, PeekSlice1<0>, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, push<Str<Sae>>, push<Rep<Str<Ssp>, Empty>>, Sequence5<pop<'i>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>, Str<Seb>, RepOnce<Str<Ssp>, Empty>, eoi, RepOnce<Str<Ssp>, Empty>, Str<Sa>, RepOnce<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>, RuleC<'i, PeekSlice2<-2, -1>>, push<Rep<Str<Ssp>, Empty>>>, RepMin<Sequence5<CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>, Str<Scr>, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<0, -1>, push<Rep<Str<Ssp>, Empty>>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2>>");
    v.visit::<RuleC<'i, Insens<'i, Sae>>>("RuleC<'i, Insens<'i, Sae>>");
    v.visit::<push<Str<Sb>>>("push<Str<Sb>>");
    v.visit::<RepMinMax<Positive<RepMinMax<Choice4<CharRange<'A', 'b'>, PeekSlice1<0>, Insens<'i, Sab>, NONE>, pest3_core::typed::unicode::UPPERCASE, 1, 1>>, Empty, 0, 2>>("RepMinMax<Positive<RepMinMax<Choice4<CharRange<'A', 'b'>, PeekSlice1<0>, Insens<'i, Sab>, NONE>, pest3_core::typed::unicode::UPPERCASE, 1, 1>>, Empty, 0, 2>");
    v.visit::<RuleA<'i, RepMinMax<Str<Sae>, Empty, 0, 0>>>("RuleA<'i, RepMinMax<Str<Sae>, Empty, 0, 0>>");
    v.visit::<Sequence3<Str<Scrlf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RuleA<'i, Option<Str<Sb>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Sequence2<pop_all<'i>, RepOnce<Str<Ssp>, Empty>, RuleB<'i, Str<Seb>>, Empty>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence3<Str<Scrlf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RuleA<'i, Option<Str<Sb>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Sequence2<pop_all<'i>, RepOnce<Str<Ssp>, Empty>, RuleB<'i, Str<Seb>>, Empty>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Sequence4<Choice2<Negative<Str<SA>>, Sequence5<Empty, Empty, Char<'é'>, Option<Str<Ssp>>, Str<Sba>, Empty, Str<Se>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>>>, push<Rep<Str<Ssp>, Empty>>, CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-1>, push<Rep<Str<Ssp>, Empty>>, RuleA<'i, Choice4<Insens<'i, Sae>, CharRange<'a', 'b'>, Str<SA>, Str<Sb>>>, push<Rep<Str<Ssp>, Empty>>>>("Sequence4<Choice2<Negative<Str<SA>>, Sequence5<Empty, Empty, Char<'é'>, Option<Str<Ssp>>, Str<Sba>, Empty, Str<Se>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>>>, push<Rep<Str<Ssp>, Empty>>, CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-1>, push<Rep<Str<Ssp>, Empty>>, RuleA<'i, Choice4<Insens<'i, Sae>, CharRange<'a', 'b'>, Str<SA>, Str<Sb>>>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<Choice2<Sequence3<Negative<Str<Sae>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice4<drop, Insens<'i, SA>, PeekSlice2<-2, -1>, Insens<'i, Se>>, push<Rep<Str<Ssp>, Empty>>, Char<'é'>, Choice2<CharRange<'a', 'é'>, PeekSlice2<0, 1>>>, Choice2<Sequence5<Char<'a'>, Option<Str<Ssp>>, SkipChar<'i, 1>, Option<Str<Ssp>>, any, Option<Str<Ssp>>, pest3_core::typed::unicode::UPPERCASE, Option<Str<Ssp>>, Insens<'i, Sa>, Option<Str<Ssp>>>, Sequence4<PeekSlice2<1, 0>, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice2<0, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>>("Choice2<Sequence3<Negative<Str<Sae>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice4<drop, Insens<'i, SA>, PeekSlice2<-2, -1>, Insens<'i, Se>>, push<Rep<Str<Ssp>, Empty>>, Char<'é'>, Choice2<CharRange<'a', 'é'>, PeekSlice2<0, 1>>>, Choice2<Sequence5<Char<'a'>, Option<Str<Ssp>>, SkipChar<'i, 1>, Option<Str<Ssp>>, any, Option<Str<Ssp>>, pest3_core::typed::unicode::UPPERCASE, Option<Str<Ssp>>, Insens<'i, Sa>, Option<Str<Ssp>>>, Sequence4<PeekSlice2<1, 0>, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice2<0, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>");
    v.visit::<Option<Str<Slf>>>("Option<Str<Slf>>");
    v.visit::<Sequence2<Str<SA>, push<Rep<Str<Ssp>, Empty>>, SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>>>("Sequence2<Str<SA>, push<Rep<Str<Ssp>, Empty>>, SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<Choice5<Choice2<push<Str<Scrlf>>, PeekSlice2<0, 1>>, RepMinMax<Option<CharRange<'a', 'b'>>, Empty, 0, 1>, Choice3<push<PeekSlice1<0>>, RepMinMax<peek<'i>, RepOnce<Str<Ssp>, Empty>, 2, 3>, PeekSlice2<-2, -1>>, Negative<Positive<newline>>, PeekSlice2<1, 2>>>("Choice5<Choice2<push<Str<Scrlf>>, PeekSlice2<0, 1>>, RepMinMax<Option<CharRange<'a', 'b'>>, Empty, 0, 1>, Choice3<push<PeekSlice1<0>>, RepMinMax<peek<'i>, RepOnce<Str<Ssp>, Empty>, 2, 3>, PeekSlice2<-2, -1>>, Negative<Positive<newline>>, PeekSlice2<1, 2>>");
    v.visit::<Choice2<Option<Negative<Str<Sb>>>, Sequence3<Positive<Sequence4<Str<Sb>, Rep<Str<Ssp>, Empty>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>, pop<'i>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>>>, Empty, Choice4<RepOnce<Str<Sba>, Empty>, RepMinMax<peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 3, 3>, Sequence2<newline, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>>, Positive<Insens<'i, SA>>>, Empty, Sequence2<Choice2<PeekSlice2<0, -1>, Str<Scr>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice2<Char<'é'>, peek_all<'i>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, push<Rep<Str<Ssp>, Empty>>>>>("Choice2<Option<Negative<Str<Sb>>>, Sequence3<Positive<Sequence4<Str<Sb>, Rep<Str<Ssp>, Empty>, Str<Sb>, push<Rep<Str<Ssp>, Empty>>, pop<'i>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>>>, Empty, Choice4<RepOnce<Str<Sba>, Empty>, RepMinMax<peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 3, 3>, Sequence2<newline, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>>, Positive<Insens<'i, SA>>>, Empty, Sequence2<Choice2<PeekSlice2<0, -1>, Str<Scr>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice2<Char<'é'>, peek_all<'i>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence4<Choice3<RuleA<'i, Insens<'i, Sae>>, RepMinMax<Insens<'i, Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>, RepOnce<any, Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence2<RepMax<Str<Ssp>, Option<Str<Ssp>>, 2>, Empty, Negative<CharRange<'a', 'b'>>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>, RuleB<'i, push<SkipChar<'i, 2>>>, Option<Str<Ssp>>, Choice3<Option<newline>, Choice2<Str<Se>, SkipChar<'i, 1>>, Sequence5<Str<Sae>, RepOnce<Str<Ssp>, Empty>, CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, -1>, RepOnce<Str<Ssp>, Empty>, Str<Sba>, RepOnce<Str<Ssp>, Empty>, soi, RepOnce<Str<Ssp>, Empty>>>, Option<Str<Ssp>>>>("Sequence4<Choice3<RuleA<'i, Insens<'i, Sae>>, RepMinMax<Insens<'i, Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>, RepOnce<any, Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence2<RepMax<Str<Ssp>, Option<Str<Ssp>>, 2>, Empty, Negative<CharRange<'a', 'b'>>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>, RuleB<'i, push<SkipChar<'i, 2>>>, Option<Str<Ssp>>, Choice3<Option<newline>, Choice2<Str<Se>, SkipChar<'i, 1>>, Sequence5<Str<Sae>, RepOnce<Str<Ssp>, Empty>, CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, -1>, RepOnce<Str<Ssp>, Empty>, Str<Sba>, RepOnce<Str<Ssp>, Empty>, soi, RepOnce<Str<Ssp>, Empty>>>, Option<Str<Ssp>>>");
    v.visit::<Choice5<Choice3<Rep<Char<'a'>, RepOnce<Str<Ssp>, Empty>>, Sequence4<PeekSlice2<-2, -1>, Empty, Char<'a'>, Empty, Str<Sab>, Empty, PeekSlice2<1, 2>, Empty>, push<drop>>, Str<S0>, PeekSlice1<-2>, RuleB<'i, Negative<Insens<'i, Sa>>>, Choice5<Choice2<Str<Se>, Str<Seb>>, Choice3<NONE, Str<Scr>, SkipChar<'i, 2>>, RuleC<'i, eoi>, Choice4<NONE, pop_all<'i>, pest3_core::typed::unicode::UPPERCASE, Str<Sa>>, PeekSlice2<0, 1>>>>("Choice5<Choice3<Rep<Char<'a'>, RepOnce<Str<Ssp>, Empty>>, Sequence4<PeekSlice2<-2, -1>, Empty, Char<'a'>, Empty, Str<Sab>, Empty, PeekSlice2<1, 2>, Empty>, push<drop>>, Str<S0>, PeekSlice1<-2>, RuleB<'i, Negative<Insens<'i, Sa>>>, Choice5<Choice2<Str<Se>, Str<Seb>>, Choice3<NONE, Str<Scr>, SkipChar<'i, 2>>, RuleC<'i, eoi>, Choice4<NONE, pop_all<'i>, pest3_core::typed::unicode::UPPERCASE, Str<Sa>>, PeekSlice2<0, 1>>>");
    v.visit::<Choice4<Choice4<Sequence2<PeekSlice1<1>, Empty, CharRange<'a', 'é'>, Empty>, Sequence3<Str<Scr>, Empty, Insens<'i, Sa>, Empty, Insens<'i, Sab>, RepOnce<Str<Ssp>, Empty>>, Positive<Char<'é'>>, Sequence4<Str<Scrlf>, Option<Str<Ssp>>, SkipChar<'i, 1>, Option<Str<Ssp>>, Insens<'i, Se>, Option<Str<Ssp>>, Insens<'i, SA>, Option<Str<Ssp>>>>, Positive<Insens<'i, Sa>>, Sequence4<Sequence2<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, Str<Sae>, Rep<Str<Ssp>, Empty>>, Empty, Sequence2<Insens<'i, Sab>, Empty, CharRange<'a', 'é'>, Empty>, Empty, RepMinMax<PeekSlice2<1, 0>, Empty, 1, 1>, Empty, Positive<Char<'é'>>, Empty>, push<Insens<'i, Se>>>>("Choice4<Choice4<Sequence2<PeekSlice1<1>, Empty, CharRange<'a', 'é'>, Empty>, Sequence3<Str<Scr>, Empty, Insens<'i, Sa>, Empty, Insens<'i, Sab>, RepOnce<Str<Ssp>, Empty>>, Positive<Char<'é'>>, Sequence4<Str<Scrlf>, Option<Str<Ssp>>, SkipChar<'i, 1>, Option<Str<Ssp>>, Insens<'i, Se>, Option<Str<Ssp>>, Insens<'i, SA>, Option<Str<Ssp>>>>, Positive<Insens<'i, Sa>>, Sequence4<Sequence2<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, Str<Sae>, Rep<Str<Ssp>, Empty>>, Empty, Sequence2<Insens<'i, Sab>, Empty, CharRange<'a', 'é'>, Empty>, Empty, RepMinMax<PeekSlice2<1, 0>, Empty, 1, 1>, Empty, Positive<Char<'é'>>, Empty>, push<Insens<'i, Se>>>");
    v.visit::<RepMinMax<Negative<Char<'a'>>, Empty, 1, 1>>("RepMinMax<Negative<Char<'a'>>, Empty, 1, 1>");
    v.visit::<Choice3<Negative<Sequence4<any, push<Rep<Str<Ssp>, Empty>>, Str<Sae>, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>>>, push<Negative<Str<Sba>>>, RepMinMax<RepMinMax<Str<Scrlf>, Rep<Str<Ssp>, Empty>, 1, 2>, Rep<Str<Ssp>, Empty>, 0, 1>>>("Choice3<Negative<Sequence4<any, push<Rep<Str<Ssp>, Empty>>, Str<Sae>, push<Rep<Str<Ssp>, Empty>>, Str<Seb>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>>>, push<Negative<Str<Sba>>>, RepMinMax<RepMinMax<Str<Scrlf>, Rep<Str<Ssp>, Empty>, 1, 2>, Rep<Str<Ssp>, Empty>, 0, 1>>");
    v.visit::<Choice4<Choice4<Choice4<CharRange<'a', 'b'>, CharRange<'a', 'é'>, CharRange<'A', 'b'>, eoi>, Choice4<PeekSlice2<-2, -1>, CharRange<'a', 'é'>, Str<Sab>, CharRange<'a', 'é'>>, Choice2<pest3_core::typed::unicode::UPPERCASE, Insens<'i, Se>>, Str<Scr>>, Sequence2<Sequence3<Str<Sa>, Rep<Str<Ssp>, Empty>, soi, Rep<Str<Ssp>, Empty>, Char<'é'>, Rep<Str<Ssp>, Empty>>, Empty, Negative<Insens<'i, Sae>>, Empty>, RepMinMax<RuleC<'i, PeekSlice2<1, 2>>, Option<PeekSlice2<0, -1>>, 0, 1>, Negative<Positive<Char<'é'>>>>>("Choice4<Choice4<Choice4<CharRange<'a', 'b'>, CharRange<'a', 'é'>, CharRange<'A', 'b'>, eoi>, Choice4<PeekSlice2<-2, -1>, CharRange<'a', 'é'>, Str<Sab>, CharRange<'a', 'é'>>, Choice2<pest3_core::typed::unicode::UPPERCASE, Insens<'i, Se>>, Str<Scr>>, Sequence2<Sequence3<Str<Sa>, Rep<Str<Ssp>, Empty>, soi, Rep<Str<Ssp>, Empty>, Char<'é'>, Rep<Str<Ssp>, Empty>>, Empty, Negative<Insens<'i, Sae>>, Empty>, RepMinMax<RuleC<'i, PeekSlice2<1, 2>>, Option<PeekSlice2<0, -1>>, 0, 1>, Negative<Positive<Char<'é'>>>>");
    v.visit::<Positive<push<Sequence3<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Str<Sb>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>>>>>("Positive<push<Sequence3<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Str<Sb>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>>>>");
    v.visit::<Choice5<Option<Sequence4<Str<Sab>, Empty, Str<Ssp>, Empty, Str<Se>, Empty, Str<Sae>, Empty>>, push<Option<Str<Slf>>>, Choice3<push<peek_all<'i>>, RuleB<'i, Insens<'i, Sae>>, Insens<'i, Sae>>, Option<Positive<drop>>, Negative<Option<pest3_core::typed::unicode::UPPERCASE>>>>("Choice5<Option<Sequence4<Str<Sab>, Empty, Str<Ssp>, Empty, Str<Se>, Empty, Str<Sae>, Empty>>, push<Option<Str<Slf>>>, Choice3<push<peek_all<'i>>, RuleB<'i, Insens<'i, Sae>>, Insens<'i, Sae>>, Option<Positive<drop>>, Negative<Option<pest3_core::typed::unicode::UPPERCASE>>>");
    v.visit::<RepMinMax<Positive<Choice2<Str<Slf>, pop<'i>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 3>>("RepMinMax<Positive<Choice2<Str<Slf>, pop<'i>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 3>");
    v.visit::<Option<RuleC<'i, PeekSlice2<1, 2>>>>("Option<RuleC<'i, PeekSlice2<1, 2>>>");
    v.visit::<Sequence3<Sequence2<Sequence5<CharRange<'a', 'é'>, Option<Str<Ssp>>, Insens<'i, Sae>, Option<Str<Ssp>>, Insens<'i, Sae>, Option<Str<Ssp>>, Insens<'i, SA>, Option<Str<Ssp>>, PeekSlice2<0, 1>, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, RuleA<'i, Insens<'i, Sa>>, push<Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence2<Option<Insens<'i, SA>>, Choice2<Insens<'i, SA>, PeekSlice1<1>>, Choice5<pop<'i>, Str<Ssp>, Insens<'i, Sae>, Str<Sab>, pest3_core::typed::unicode::UPPERCASE>, Choice2<Insens<'i, SA>, PeekSlice1<1>>>, Option<Str<Ssp>>, Choice2<RepMin<pest3_core::typed::unicode::UPPERCASE, Empty, 2>, Choice3<SkipChar<'i, 1>, Str<Sba>, any>>, Option<Str<Ssp>>>>("Sequence3<Sequence2<Sequence5<CharRange<'a', 'é'>, Option<Str<Ssp>>, Insens<'i, Sae>, Option<Str<Ssp>>, Insens<'i, Sae>, Option<Str<Ssp>>, Insens<'i, SA>, Option<Str<Ssp>>, PeekSlice2<0, 1>, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, RuleA<'i, Insens<'i, Sa>>, push<Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence2<Option<Insens<'i, SA>>, Choice2<Insens<'i, SA>, PeekSlice1<1>>, Choice5<pop<'i>, Str<Ssp>, Insens<'i, Sae>, Str<Sab>, pest3_core::typed::unicode::UPPERCASE>, Choice2<Insens<'i, SA>, PeekSlice1<1>>>, Option<Str<Ssp>>, Choice2<RepMin<pest3_core::typed::unicode::UPPERCASE, Empty, 2>, Choice3<SkipChar<'i, 1>, Str<Sba>, any>>, Option<Str<Ssp>>>");
    v.visit::<Sequence2<Sequence4<Sequence2<Char<'é'>, Rep<Str<Ssp>, Empty>, Insens<'i, Se>, Empty>, RepOnce<Str<Ssp>, Empty>, push<Str<Sae>>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<0>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Se>, Rep<Str<Ssp>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<push<CharRange<'a', 'é'>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence2<Sequence4<Sequence2<Char<'é'>, Rep<Str<Ssp>, Empty>, Insens<'i, Se>, Empty>, RepOnce<Str<Ssp>, Empty>, push<Str<Sae>>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<0>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Se>, Rep<Str<Ssp>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<push<CharRange<'a', 'é'>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Choice2<Option<Sequence3<newline, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, any, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Str<Scr>>>("Choice2<Option<Sequence3<newline, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, any, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Str<Scr>>");
    v.visit::<RepMinMax<RuleA<'i, Option<eoi>>, Empty, 0, 2>>("RepMinMax<RuleA<'i, Option<eoi>>, Empty, 0, 2>");
    v.visit::<Sequence4<RepMinMax<Sequence2<pest3_core::typed::unicode::UPPERCASE, Empty, any, Empty>, RepOnce<Str<Ssp>, Empty>, 0, 0>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Rep<pest3_core::typed::unicode::UPPERCASE, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice2<Choice2<SkipChar<'i, 2>, Insens<'i, Sae>>, Option<Str<Slf>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, soi, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence4<RepMinMax<Sequence2<pest3_core::typed::unicode::UPPERCASE, Empty, any, Empty>, RepOnce<Str<Ssp>, Empty>, 0, 0>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Rep<pest3_core::typed::unicode::UPPERCASE, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice2<Choice2<SkipChar<'i, 2>, Insens<'i, Sae>>, Option<Str<Slf>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, soi, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Sequence2<Negative<Choice2<RepOnce<SkipChar<'i, 1>, Empty>, Option<Str<Se>>>>, RepMinMax<Option<Positive<CharRange<'a', 'é'>>>, RepOnce<Str<Ssp>, Empty>, 1, 1>, RepMinMax<Choice2<Insens<'i, Sa>, Choice2<Str<Scr>, peek_all<'i>>>, Option<Str<Ssp>>, 1, 1>, Rep<Str<Ssp>, Empty>>>("Sequence2<Negative<Choice2<RepOnce<SkipChar<'i, 1>, Empty>, Option<Str<Se>>>>, RepMinMax<Option<Positive<CharRange<'a', 'é'>>>, RepOnce<Str<Ssp>, Empty>, 1, 1>, RepMinMax<Choice2<Insens<'i, Sa>, Choice2<Str<Scr>, peek_all<'i>>>, Option<Str<Ssp>>, 1, 1>, Rep<Str<Ssp>, Empty>>");
    v.visit::<push<Choice2<pest3_core::typed::unicode::UPPERCASE, Choice2<Str<Scrlf>, Insens<'i, Se>>>>>("push<Choice2<pest3_core::typed::unicode::UPPERCASE, Choice2<Str<Scrlf>, Insens<'i, Se>>>>");
    v.visit::<RepMinMax<Choice3<Choice3<peek_all<'i>, SkipChar<'i, 1>, PeekSlice2<1, 0>>, PeekSlice1<0>, push<Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 1>>("RepMinMax<Choice3<Choice3<peek_all<'i>, SkipChar<'i, 1>, PeekSlice2<1, 0>>, PeekSlice1<0>, push<Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 1>");
    v.visit::<RepMinMax<Positive<Option<Insens<'i, SA>>>, Empty, 1, 2>>("RepMinMax<Positive<Option<Insens<'i, SA>>>, Empty, 1, 2>");
    v.visit::<Negative<drop>>("Negative<drop>");
}
fn types_6<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Sequence5<RuleA<'i, Str<Sab>>, RepOnce<Str<Ssp>, Empty>, push<Choice4<eoi, any, Insens<'i, Sae>, Str<SA>>>, RepOnce<Str<Ssp>, Empty>, Negative<push<PeekSlice1<-1>>>, RepOnce<Str<Ssp>, Empty>, RepMinMax<RepMinMax<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, 1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, RepOnce<Str<Ssp>, Empty>, RepMinMax<Sequence2<Char<'é'>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>, Empty, 1, 2>, RepOnce<Str<Ssp>, Empty>>>("Sequence5<RuleA<'i, Str<Sab>>, RepOnce<Str<Ssp>, Empty>, push<Choice4<eoi, any, Insens<'i, Sae>, Str<SA>>>, RepOnce<Str<Ssp>, Empty>, Negative<push<PeekSlice1<-1>>>, RepOnce<Str<Ssp>, Empty>, RepMinMax<RepMinMax<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, 1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, RepOnce<Str<Ssp>, Empty>, RepMinMax<Sequence2<Char<'é'>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>, Empty, 1, 2>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<Negative<RuleA<'i, Choice2<PeekSlice1<-2>, pop<'i>>>>>("Negative<RuleA<'i, Choice2<PeekSlice1<-2>, pop<'i>>>>");
    v.visit::<RepMinMax<Positive<RuleA<'i, Insens<'i, Sa>>>, push<Rep<Str<Ssp>, Empty>>, 0, 1>>("RepMinMax<Positive<RuleA<'i, Insens<'i, Sa>>>, push<Rep<Str<Ssp>, Empty>>, 0, 1>");
    v.visit::<Sequence2<Choice3<Str<Sab>, ascii_alpha, ascii_alpha>, push<Rep<Str<Ssp>, Empty>>, RuleB<'i, Insens<'i, Sae>>, push<Rep<Str<Ssp>, Empty>>>>("Sequence2<Choice3<Str<Sab>, ascii_alpha, ascii_alpha>, push<Rep<Str<Ssp>, Empty>>, RuleB<'i, Insens<'i, Sae>>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<Sequence2<Choice4<Insens<'i, Sae>, Insens<'i, Se>, Str<Se>, Str<Sa>>, SkipChar<'i, 1>, push<PeekSlice1<0>>, SkipChar<'i, 1>>>("Sequence2<Choice4<Insens<'i, Sae>, Insens<'i, Se>, Str<Se>, Str<Sa>>, SkipChar<'i, 1>, push<PeekSlice1<0>>, SkipChar<'i, 1>>");
    v.visit::<Option<Sequence2<any, Rep<Str<Ssp>, Empty>, NONE, Rep<Str<Ssp>, Empty>>>>("Option<Sequence2<any, Rep<Str<Ssp>, Empty>, NONE, Rep<Str<Ssp>, Empty>>>");
    v.visit::<Sequence4<Sequence2<Choice5<Empty, pop_all<'i>, Str<Sba>, Str<Scrlf>, Str<Sab>>, Empty, Positive<newline>, Empty>, Rep<Str<Ssp>, Empty>, RuleC<'i, Sequence3<Str<Slf>, Empty, PeekSlice2<0, 1>, Empty, Str<SA>, Empty>>, Rep<Str<Ssp>, Empty>, RuleA<'i, Positive<NONE>>, Rep<Str<Ssp>, Empty>, Option<RepMin<Str<Ssp>, Option<Str<Ssp>>, 2>>, Rep<Str<Ssp>, Empty>>>("Sequence4<Sequence2<Choice5<Empty, pop_all<'i>, Str<Sba>, Str<Scrlf>, Str<Sab>>, Empty, Positive<newline>, Empty>, Rep<Str<Ssp>, Empty>, RuleC<'i, Sequence3<Str<Slf>, Empty, PeekSlice2<0, 1>, Empty, Str<SA>, Empty>>, Rep<Str<Ssp>, Empty>, RuleA<'i, Positive<NONE>>, Rep<Str<Ssp>, Empty>, Option<RepMin<Str<Ssp>, Option<Str<Ssp>>, 2>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Sequence2<Option<Sequence2<Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, drop, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Empty, PeekSlice1<-1>, Empty>>("Sequence2<Option<Sequence2<Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, drop, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Empty, PeekSlice1<-1>, Empty>");
    v.visit::<Option<Sequence2<Negative<Str<Sa>>, Empty, Str<Sa>, Empty>>>("Option<Sequence2<Negative<Str<Sa>>, Empty, Str<Sa>, Empty>>");
    v.visit::<push<Sequence3<Positive<Str<Sab>>, Option<Str<Ssp>>, Sequence4<RepMinMax<Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, 1, 2>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, CharRange<'a', 'é'>, Option<Str<Ssp>>, Sequence3<PeekSlice1<-1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<-2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, ascii_alpha, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>, peek_all<'i>, Option<Str<Ssp>>>>>("push<Sequence3<Positive<Str<Sab>>, Option<Str<Ssp>>, Sequence4<RepMinMax<Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, 1, 2>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, CharRange<'a', 'é'>, Option<Str<Ssp>>, Sequence3<PeekSlice1<-1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<-2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, ascii_alpha, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>, peek_all<'i>, Option<Str<Ssp>>>>");
    v.visit::<Sequence4<Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Str<Sb>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RuleB<'i, CharRange<'A', 'b'>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Sequence2<Insens<'i, Se>, Rep<Str<Ssp>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence4<Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Str<Sb>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RuleB<'i, CharRange<'A', 'b'>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Sequence2<Insens<'i, Se>, Rep<Str<Ssp>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Negative<push<Str<Sb>>>>("Negative<push<Str<Sb>>>");
    v.visit::<RepMinMax<Sequence2<Sequence4<Str<Sae>, Rep<Str<Ssp>, Empty>, soi, Rep<Str<Ssp>, Empty>, Char<'é'>, Rep<Str<Ssp>, Empty>, drop, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>, Choice5<soi, CharRange<'A', 'b'>, ascii_alpha, CharRange<'A', 'b'>, ascii_alpha>, Option<Str<Ssp>>>, Empty, 2, 2>>("RepMinMax<Sequence2<Sequence4<Str<Sae>, Rep<Str<Ssp>, Empty>, soi, Rep<Str<Ssp>, Empty>, Char<'é'>, Rep<Str<Ssp>, Empty>, drop, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>, Choice5<soi, CharRange<'A', 'b'>, ascii_alpha, CharRange<'A', 'b'>, ascii_alpha>, Option<Str<Ssp>>>, Empty, 2, 2>");
    v.visit::<Sequence2<CharRange<'a', 'b'>, Empty, Sequence5<ascii_alpha, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>, Str<Se>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<1, 2>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>>, Empty>>("Sequence2<CharRange<'a', 'b'>, Empty, Sequence5<ascii_alpha, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>, Str<Se>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<1, 2>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>>, Empty>");
    v.visit::<Sequence2<RepMinMax<RepMinMax<Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Empty, 2, 2>, Empty, Sequence3<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, Choice2<Str<Slf>, Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, Sequence3<Str<Slf>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sa>, Option<Str<Ssp>>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>>, Empty>>("Sequence2<RepMinMax<RepMinMax<Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Empty, 2, 2>, Empty, Sequence3<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, Choice2<Str<Slf>, Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, Sequence3<Str<Slf>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sa>, Option<Str<Ssp>>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>>, Empty>");
    v.visit::<RepOnce<Str<Sab>, push<Rep<Str<Ssp>, Empty>>>>("RepOnce<Str<Sab>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<RuleB<'i, Sequence4<RepMinMax<PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>, 0, 2>, Empty, Sequence2<any, Option<Str<Ssp>>, SkipChar<'i, 1>, Option<Str<Ssp>>>, Empty, push<Str<Scrlf>>, Empty, Insens<'i, Sa>, Empty>>>("RuleB<'i, Sequence4<RepMinMax<PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>, 0, 2>, Empty, Sequence2<any, Option<Str<Ssp>>, SkipChar<'i, 1>, Option<Str<Ssp>>>, Empty, push<Str<Scrlf>>, Empty, Insens<'i, Sa>, Empty>>");
    v.visit::<Choice2<Choice2<Sequence2<CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>, SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>>, Positive<Char<'a'>>>, Insens<'i, Sae>>>("Choice2<Choice2<Sequence2<CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>, SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>>, Positive<Char<'a'>>>, Insens<'i, Sae>>");
    v.visit::<RepMinMax<Choice4<Insens<'i, Sab>, PeekSlice1<1>, Char<'a'>, Char<'a'>>, Option<Str<Ssp>>, 1, 1>>("RepMinMax<Choice4<Insens<'i, Sab>, PeekSlice1<1>, Char<'a'>, Char<'a'>>, Option<Str<Ssp>>, 1, 1>");
    v.visit::<Sequence4<push<Str<Scr>>, Option<Str<Ssp>>, Positive<CharRange<'A', 'b'>>, Option<Str<Ssp>>, Sequence3<CharRange<'A', 'b'>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sab>, push<Rep<Str<Ssp>, Empty>>, CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence3<Insens<'i, Se>, Rep<Choice2<Str<Ssp>, newline>, Empty>, CharRange<'A', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, ascii_alpha, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Option<Str<Ssp>>>>("Sequence4<push<Str<Scr>>, Option<Str<Ssp>>, Positive<CharRange<'A', 'b'>>, Option<Str<Ssp>>, Sequence3<CharRange<'A', 'b'>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sab>, push<Rep<Str<Ssp>, Empty>>, CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence3<Insens<'i, Se>, Rep<Choice2<Str<Ssp>, newline>, Empty>, CharRange<'A', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, ascii_alpha, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Option<Str<Ssp>>>");
    v.visit::<RepMinMax<Choice5<RuleB<'i, PeekSlice2<0, 1>>, Choice2<PeekSlice2<0, 1>, PeekSlice2<0, 1>>, CharRange<'a', 'é'>, ascii_alpha, RepMinMax<Insens<'i, SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>>, RepOnce<Str<Ssp>, Empty>, 3, 3>>("RepMinMax<Choice5<RuleB<'i, PeekSlice2<0, 1>>, Choice2<PeekSlice2<0, 1>, PeekSlice2<0, 1>>, CharRange<'a', 'é'>, ascii_alpha, RepMinMax<Insens<'i, SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>>, RepOnce<Str<Ssp>, Empty>, 3, 3>");
    v.visit::<RepMax<Sequence2<Sequence2<CharRange<'a', 'é'>, Option<Str<Ssp>>, Str<Sb>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, RepMinMax<CharRange<'A', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Rep<Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, 2>>("RepMax<Sequence2<Sequence2<CharRange<'a', 'é'>, Option<Str<Ssp>>, Str<Sb>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, RepMinMax<CharRange<'A', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>, Rep<Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, 2>");
    v.visit::<Choice2<Negative<RepMax<Str<Seb>, Option<Str<Ssp>>, 2>>, Option<Char<'a'>>>>("Choice2<Negative<RepMax<Str<Seb>, Option<Str<Ssp>>, 2>>, Option<Char<'a'>>>");
    v.visit::<Choice5<Negative<PeekSlice1<1>>, Negative<Str<Scr>>, RepMinMax<Str<S0>, RepOnce<Str<Ssp>, Empty>, 1, 1>, Sequence2<CharRange<'A', 'b'>, Empty, PeekSlice2<-2, -1>, Empty>, push<Str<Sb>>>>("Choice5<Negative<PeekSlice1<1>>, Negative<Str<Scr>>, RepMinMax<Str<S0>, RepOnce<Str<Ssp>, Empty>, 1, 1>, Sequence2<CharRange<'A', 'b'>, Empty, PeekSlice2<-2, -1>, Empty>, push<Str<Sb>>>");
    v.visit::<Option<Choice3<Str<Ssp>, drop, Str<Slf>>>>("Option<Choice3<Str<Ssp>, drop, Str<Slf>>>");
    v.visit::<Choice3<Choice2<Sequence2<Char<'é'>, Option<Str<Ssp>>, Str<Sba>, Option<Str<Ssp>>>, Sequence2<Insens<'i, Sab>, Option<Str<Ssp>>, drop, Option<Str<Ssp>>>>, RepMin<RuleA<'i, Str<Slf>>, Option<Str<Ssp>>, 2>, Option<Option<peek_all<'i>>>>>("Choice3<Choice2<Sequence2<Char<'é'>, Option<Str<Ssp>>, Str<Sba>, Option<Str<Ssp>>>, Sequence2<Insens<'i, Sab>, Option<Str<Ssp>>, drop, Option<Str<Ssp>>>>, RepMin<RuleA<'i, Str<Slf>>, Option<Str<Ssp>>, 2>, Option<Option<peek_all<'i>>>>");
    v.visit::<RepMinMax<Choice2<Choice3<Insens<'i, Sab>, Str<Sba>, Str<Slf>>, RepMinMax<CharRange<'a', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>>, Option<Str<Ssp>>, 0, 2>>("RepMinMax<Choice2<Choice3<Insens<'i, Sab>, Str<Sba>, Str<Slf>>, RepMinMax<CharRange<'a', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>>, Option<Str<Ssp>>, 0, 2>");
    v.visit::<Sequence3<Sequence2<Str<Ssp>, push<Rep<Str<Ssp>, Empty>>, pest3_core::typed::unicode::UPPERCASE, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, Sequence3<eoi, Rep<Str<Ssp>, Empty>, Str<Slf>, Rep<Str<Ssp>, Empty>, Insens<'i, Se>, Rep<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>, Sequence2<CharRange<'A', 'b'>, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>>, push<Rep<Str<Ssp>, Empty>>>>("Sequence3<Sequence2<Str<Ssp>, push<Rep<Str<Ssp>, Empty>>, pest3_core::typed::unicode::UPPERCASE, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, Sequence3<eoi, Rep<Str<Ssp>, Empty>, Str<Slf>, Rep<Str<Ssp>, Empty>, Insens<'i, Se>, Rep<Str<Ssp>, Empty>>, push<Rep<Str<Ssp>, Empty>>, Sequence2<CharRange<'A', 'b'>, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<Choice2<Negative<push<pop<'i>>>, RepMinMax<Choice2<CharRange<'A', 'b'>, SkipChar<'i, 2>>, Rep<Str<Ssp>, Empty>, 2, 2>>>("Choice2<Negative<push<pop<'i>>>, RepMinMax<Choice2<CharRange<'A', 'b'>, SkipChar<'i, 2>>, Rep<Str<Ssp>, Empty>, 2, 2>>");
    v.visit::<RepMinMax<Str<Sa>, Sequence3<RepMax<Insens<'i, Se>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, Sequence5<Str<Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, soi, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Scr>, Rep<Choice2<Str<Ssp>, newline>, Empty>, any, Rep<Choice2<Str<Ssp>, newline>, Empty>>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>, 1, 2>>("RepMinMax<Str<Sa>, Sequence3<RepMax<Insens<'i, Se>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, Sequence5<Str<Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, soi, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Scr>, Rep<Choice2<Str<Ssp>, newline>, Empty>, any, Rep<Choice2<Str<Ssp>, newline>, Empty>>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>>, 1, 2>");
    v.visit::<RepMinMax<push<Choice5<Sequence3<Str<Seb>, RepOnce<Str<Ssp>, Empty>, Str<Scrlf>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, RepOnce<Str<Ssp>, Empty>>, Sequence3<PeekSlice2<0, 1>, Rep<Str<Ssp>, Empty>, Str<Scr>, Rep<Str<Ssp>, Empty>, NONE, Rep<Str<Ssp>, Empty>>, Positive<Str<Scrlf>>, Choice3<NONE, PeekSlice1<-2>, Insens<'i, Sa>>, Positive<Insens<'i, SA>>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>>("RepMinMax<push<Choice5<Sequence3<Str<Seb>, RepOnce<Str<Ssp>, Empty>, Str<Scrlf>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, RepOnce<Str<Ssp>, Empty>>, Sequence3<PeekSlice2<0, 1>, Rep<Str<Ssp>, Empty>, Str<Scr>, Rep<Str<Ssp>, Empty>, NONE, Rep<Str<Ssp>, Empty>>, Positive<Str<Scrlf>>, Choice3<NONE, PeekSlice1<-2>, Insens<'i, Sa>>, Positive<Insens<'i, SA>>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>");
    v.visit::<Positive<Sequence3<PeekSlice2<0, -1>, Empty, Str<SA>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sae>, Empty>>>("Positive<Sequence3<PeekSlice2<0, -1>, Empty, Str<SA>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sae>, Empty>>");
    v.visit::<RuleA<'i, Choice2<push<Sequence3<Str<Sa>, Option<Str<Ssp>>, newline, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Se>, Rep<Str<Ssp>, Empty>>>, push<push<Insens<'i, Sae>>>>>>("RuleA<'i, Choice2<push<Sequence3<Str<Sa>, Option<Str<Ssp>>, newline, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Se>, Rep<Str<Ssp>, Empty>>>, push<push<Insens<'i, Sae>>>>>");
    v.visit::<Choice2<Sequence5<Option<NONE>, Empty, Choice2<RepMinMax<Str<Sae>, Empty, 1, 2>, RuleA<'i, Empty>>, Empty, RuleB<'i, RepMax<Char<'a'>, Empty, 2>>, Empty, Positive<Positive<Empty>>, Empty, push<Choice2<Str<Ssp>, Insens<'i, Se>>>, Empty>, Negative<Sequence2<Choice2<PeekSlice2<-2, -1>, PeekSlice2<1, 0>>, Negative<CharRange<'a', 'é'>>, Choice5<Str<Sba>, Empty, Str<Se>, newline, PeekSlice2<0, 1>>, Negative<CharRange<'a', 'é'>>>>>>("Choice2<Sequence5<Option<NONE>, Empty, Choice2<RepMinMax<Str<Sae>, Empty, 1, 2>, RuleA<'i, Empty>>, Empty, RuleB<'i, RepMax<Char<'a'>, Empty, 2>>, Empty, Positive<Positive<Empty>>, Empty, push<Choice2<Str<Ssp>, Insens<'i, Se>>>, Empty>, Negative<Sequence2<Choice2<PeekSlice2<-2, -1>, PeekSlice2<1, 0>>, Negative<CharRange<'a', 'é'>>, Choice5<Str<Sba>, Empty, Str<Se>, newline, PeekSlice2<0, 1>>, Negative<CharRange<'a', 'é'>>>>>");
    v.visit::<Option<Choice4<Str<Sa>, CharRange<'a', 'é'>, Insens<'i, Sab>, PeekSlice1<0>>>>("Option<Choice4<Str<Sa>, CharRange<'a', 'é'>, Insens<'i, Sab>, PeekSlice1<0>>>");
    v.visit::<Option<Choice5<Negative<Choice3<Str<Slf>, Char<'a'>, Str<Sb>>>, Str<Sab>, Sequence2<Sequence2<Str<Sba>, Empty, PeekSlice2<-2, -1>, Empty>, Empty, RepMin<SkipChar<'i, 1>, push<Rep<Str<Ssp>, Empty>>, 2>, Empty>, Sequence3<Choice2<Str<Slf>, Str<SA>>, Rep<Str<Ssp>, Empty>, Choice2<Str<Sab>, peek_all<'i>>, Rep<Str<Ssp>, Empty>, Option<PeekSlice1<0>>, Rep<Str<Ssp>, Empty>>, Choice3<Sequence4<newline, Empty, PeekSlice2<0, 1>, Empty, eoi, Empty, PeekSlice2<1, 2>, Empty>, Negative<drop>, Choice3<Insens<'i, Sae>, PeekSlice2<0, 1>, PeekSlice1<1>>>>>>("Option<Choice5<Negative<Choice3<Str<Slf>, Char<'a'>, Str<Sb>>>, Str<Sab>, Sequence2<Sequence2<Str<Sba>, Empty, PeekSlice2<-2, -1>, Empty>, Empty, RepMin<SkipChar<'i, 1>, push<Rep<Str<Ssp>, Empty>>, 2>, Empty>, Sequence3<Choice2<Str<Slf>, Str<SA>>, Rep<Str<Ssp>, Empty>, Choice2<Str<Sab>, peek_all<'i>>, Rep<Str<Ssp>, Empty>, Option<PeekSlice1<0>>, Rep<Str<Ssp>, Empty>>, Choice3<Sequence4<newline, Empty, PeekSlice2<0, 1>, Empty, eoi, Empty, PeekSlice2<1, 2>, Empty>, Negative<drop>, Choice3<Insens<'i, Sae>, PeekSlice2<0, 1>, PeekSlice1<1>>>>>");
    v.visit::<Choice5<Choice3<RepMinMax<PeekSlice1<-2>, Option<Str<Ssp>>, 0, 1>, Sequence3<Str<Ssp>, Empty, PeekSlice2<1, 2>, Empty, Str<Seb>, Empty>, Sequence2<PeekSlice2<1, 2>, Empty, Str<Slf>, Option<Str<Ssp>>>>, Option<Str<SA>>, Choice5<drop, RuleA<'i, any>, Sequence3<Char<'é'>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sae>, push<Rep<Str<Ssp>, Empty>>, Str<Sa>, push<Rep<Str<Ssp>, Empty>>>, Sequence3<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, Str<Scrlf>, Empty, Char<'é'>, Empty>, SkipChar<'i, 0>>, Option<Sequence3<any, Rep<Str<Ssp>, Empty>, pest3_core::typed::unicode::UPPERCASE, Rep<Str<Ssp>, Empty>, CharRange<'A', 'b'>, Rep<Str<Ssp>, Empty>>>, Option<Negative<SkipChar<'i, 2>>>>>("Choice5<Choice3<RepMinMax<PeekSlice1<-2>, Option<Str<Ssp>>, 0, 1>, Sequence3<Str<Ssp>, Empty, PeekSlice2<1, 2>, Empty, Str<Seb>, Empty>, Sequence2<PeekSlice2<1, 2>, Empty, Str<Slf>, Option<Str<Ssp>>>>, Option<Str<SA>>, Choice5<drop, RuleA<'i, any>, Sequence3<Char<'é'>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sae>, push<Rep<Str<Ssp>, Empty>>, Str<Sa>, push<Rep<Str<Ssp>, Empty>>>, Sequence3<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, Str<Scrlf>, Empty, Char<'é'>, Empty>, SkipChar<'i, 0>>, Option<Sequence3<any, Rep<Str<Ssp>, Empty>, pest3_core::typed::unicode::UPPERCASE, Rep<Str<Ssp>, Empty>, CharRange<'A', 'b'>, Rep<Str<Ssp>, Empty>>>, Option<Negative<SkipChar<'i, 2>>>>");
    v.visit::<RuleC<'i, RepMinMax<Choice3<Sequence2<Str<Se>, Empty, Str<Sba>, push<Rep<Str<Ssp>, Empty>>>, Positive<ascii_alpha>, Choice3<Char<'é'>, SkipChar<'i, 1>, Str<Sa>>>, Empty, 1, 1>>>("RuleC<'i, RepMinMax<Choice3<Sequence2<Str<Se>, Empty, Str<Sba>, push<Rep<Str<Ssp>, Empty>>>, Positive<ascii_alpha>, Choice3<Char<'é'>, SkipChar<'i, 1>, Str<Sa>>>, Empty, 1, 1>>");
    v.visit::<Option<Sequence2<Str<Sb>, Option<Str<Ssp>>, CharRange<'a', 'é'>, Option<Str<Ssp>>>>>("Option<Sequence2<Str<Sb>, Option<Str<Ssp>>, CharRange<'a', 'é'>, Option<Str<Ssp>>>>");
    v.visit::<Sequence4<Negative<eoi>, Empty, Choice2<eoi, Insens<'i, Sae>>, Option<Str<Ssp>>, RepMinMax<Str<Sa>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, RepMinMax<peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, Choice3<any, CharRange<'A', 'b'>, Str<S0>>, Option<Str<Ssp>>>>("Sequence4<Negative<eoi>, Empty, Choice2<eoi, Insens<'i, Sae>>, Option<Str<Ssp>>, RepMinMax<Str<Sa>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, RepMinMax<peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, Choice3<any, CharRange<'A', 'b'>, Str<S0>>, Option<Str<Ssp>>>");
    v.visit::<Sequence3<RuleB<'i, Choice5<Insens<'i, Se>, Str<Sae>, Str<Sa>, Str<Se>, drop>>, push<Rep<Str<Ssp>, Empty>>, Choice2<Negative<NONE>, RuleC<'i, Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, Sequence2<Str<Sae>, push<Rep<Str<Ssp>, Empty>>, Positive<Str<Slf>>, Empty>, push<Rep<Str<Ssp>, Empty>>>>("Sequence3<RuleB<'i, Choice5<Insens<'i, Se>, Str<Sae>, Str<Sa>, Str<Se>, drop>>, push<Rep<Str<Ssp>, Empty>>, Choice2<Negative<NONE>, RuleC<'i, Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, Sequence2<Str<Sae>, push<Rep<Str<Ssp>, Empty>>, Positive<Str<Slf>>, Empty>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<RepMinMax<RepMinMax<any, push<Rep<Str<Ssp>, Empty>>, 1, 2>, push<Rep<Str<Ssp>, Empty>>, 2, 2>>("RepMinMax<RepMinMax<any, push<Rep<Str<Ssp>, Empty>>, 1, 2>, push<Rep<Str<Ssp>, Empty>>, 2, 2>");
    v.visit::<Rep<Sequence2<SkipChar<'i, 0>, Rep<Str<Ssp>, Empty>, CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>>>("Rep<Sequence2<SkipChar<'i, 0>, Rep<Str<Ssp>, Empty>, CharRange<'a', 'é'>, push<Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<Choice2<Positive<Choice2<Insens<'i, Se>, Str<Ssp>>>, Sequence3<RuleC<'i, PeekSlice1<1>>, Empty, RuleB<'i, Char<'a'>>, Sequence3<Str<Sa>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, RepMax<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, 2>, Option<drop>>>>("Choice2<Positive<Choice2<Insens<'i, Se>, Str<Ssp>>>, Sequence3<RuleC<'i, PeekSlice1<1>>, Empty, RuleB<'i, Char<'a'>>, Sequence3<Str<Sa>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, Str<Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, RepMax<Insens<'i, Se>, push<Rep<Str<Ssp>, Empty>>, 2>, Option<drop>>>");
    v.visit::<Option<Option<SkipChar<'i, 0>>>>("Option<Option<SkipChar<'i, 0>>>");
    v.visit::<Negative<Sequence2<Insens<'i, Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Negative<Sequence2<Insens<'i, Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Sequence4<RuleA<'i, RepMinMax<Str<SA>, push<Rep<Str<Ssp>, Empty>>, 0, 0>>, Positive<RepOnce<Str<Seb>, Empty>>, Negative<Option<drop>>, push<Rep<Str<Ssp>, Empty>>, Sequence3<Choice3<SkipChar<'i, 2>, Char<'é'>, Str<Scr>>, push<Rep<Str<Ssp>, Empty>>, RuleB<'i, Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, Option<Str<Se>>, push<Rep<Str<Ssp>, Empty>>>, Sequence2<push<Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, RepMin<Char<'é'>, Rep<Str<Ssp>, Empty>, 2>, push<Rep<Str<Ssp>, Empty>>>, Choice3<Sequence2<ascii_alpha, Empty, PeekSlice2<0, 1>, Rep<Str<Ssp>, Empty>>, pop_all<'i>, Choice2<PeekSlice2<0, -1>, peek_all<'i>>>, Insens<'i, Sab>>>("Sequence4<RuleA<'i, RepMinMax<Str<SA>, push<Rep<Str<Ssp>, Empty>>, 0, 0>>, Positive<RepOnce<Str<Seb>, Empty>>, Negative<Option<drop>>, push<Rep<Str<Ssp>, Empty>>, Sequence3<Choice3<SkipChar<'i, 2>, Char<'é'>, Str<Scr>>, push<Rep<Str<Ssp>, Empty>>, RuleB<'i, Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, Option<Str<Se>>, push<Rep<Str<Ssp>, Empty>>>, Sequence2<push<Str<Sba>>, push<Rep<Str<Ssp>, Empty>>, RepMin<Char<'é'>, Rep<Str<Ssp>, Empty>, 2>, push<Rep<Str<Ssp>, Empty>>>, Choice3<Sequence2<ascii_alpha, Empty, PeekSlice2<0, 1>, Rep<Str<Ssp>, Empty>>, pop_all<'i>, Choice2<PeekSlice2<0, -1>, peek_all<'i>>>, Insens<'i, Sab>>");
    v.visit::<RuleA<'i, Str<Sab>>>("RuleA<'i, Str<Sab>>");
    v.visit::<Negative<NONE>>("Negative<NONE>");
    v.visit::<Positive<Choice5<Str<Slf>, Sequence2<Char<'a'>, Empty, Insens<'i, Se>, Empty>, Choice3<drop, Str<S0>, Str<Se>>, RuleC<'i, Str<Ssp>>, Sequence2<Str<S0>, Empty, Insens<'i, Sae>, Empty>>>>("Positive<Choice5<Str<Slf>, Sequence2<Char<'a'>, Empty, Insens<'i, Se>, Empty>, Choice3<drop, Str<S0>, Str<Se>>, RuleC<'i, Str<Ssp>>, Sequence2<Str<S0>, Empty, Insens<'i, Sae>, Empty>>>");
    v.visit::<RuleC<'i, Choice3<PeekSlice1<0>, Str<Sab>, PeekSlice1<-1>>>>("RuleC<'i, Choice3<PeekSlice1<0>, Str<Sab>, PeekSlice1<-1>>>");
    v.visit::<push<Choice3<Sequence5<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, any, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Scrlf>, RepOnce<Str<Ssp>, Empty>>, PeekSlice2<0, -1>, Sequence2<Char<'é'>, Empty, Str<Sab>, Empty>>>>("push<Choice3<Sequence5<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, any, RepOnce<Str<Ssp>, Empty>, Insens<'i, Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Scrlf>, RepOnce<Str<Ssp>, Empty>>, PeekSlice2<0, -1>, Sequence2<Char<'é'>, Empty, Str<Sab>, Empty>>>");
    v.visit::<Positive<Option<Sequence4<Positive<PeekSlice1<0>>, Empty, Sequence2<Str<Sba>, Empty, CharRange<'a', 'é'>, Empty>, Empty, Sequence2<Str<Se>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>>, Empty, Str<Scrlf>, Empty>>>>("Positive<Option<Sequence4<Positive<PeekSlice1<0>>, Empty, Sequence2<Str<Sba>, Empty, CharRange<'a', 'é'>, Empty>, Empty, Sequence2<Str<Se>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>>, Empty, Str<Scrlf>, Empty>>>");
    v.visit::<Positive<Sequence2<Str<Slf>, Option<Str<Ssp>>, CharRange<'a', 'é'>, Option<Str<Ssp>>>>>("Positive<Sequence2<Str<Slf>, Option<Str<Ssp>>, CharRange<'a', 'é'>, Option<Str<Ssp>>>>");
    v.visit::<Option<push<Choice3<CharRange<'A', 'b'>, CharRange<'a', 'é'>, pop<'i>>>>>("Option<push<Choice3<CharRange<'A', 'b'>, CharRange<'a', 'é'>, pop<'i>>>>");
    v.visit::<RuleC<'i, Choice3<Str<Ssp>, CharRange<'A', 'b'>, CharRange<'A', 'b'>>>>("RuleC<'i, Choice3<Str<Ssp>, CharRange<'A', 'b'>, CharRange<'A', 'b'>>>");
    v.visit::<Positive<Sequence2<Str<Sa>, Empty, Char<'a'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Positive<Sequence2<Str<Sa>, Empty, Char<'a'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Sequence2<RepMinMax<Choice2<Rep<CharRange<'A', 'b'>, Empty>, RuleC<'i, SkipChar<'i, 2>>>, Option<Str<Ssp>>, 2, 2>, RepMinMax<PeekSlice2<-2, -1>, Positive<RuleC<'i, any>>, 2, 2>, Choice4<Positive<Choice3<PeekSlice1<0>, Insens<'i, Se>, Str<Sae>>>, CharRange<'a', 'b'>, Positive<pop_all<'i>>, Str<Sae>>, RepMinMax<PeekSlice2<-2, -1>, Positive<RuleC<'i, any>>, 2, 2>>>("Sequence2<RepMinMax<Choice2<Rep<CharRange<'A', 'b'>, Empty>, RuleC<'i, SkipChar<'i, 2>>>, Option<Str<Ssp>>, 2, 2>, RepMinMax<PeekSlice2<-2, -1>, Positive<RuleC<'i, any>>, 2, 2>, Choice4<Positive<Choice3<PeekSlice1<0>, Insens<'i, Se>, Str<Sae>>>, CharRange<'a', 'b'>, Positive<pop_all<'i>>, Str<Sae>>, RepMinMax<PeekSlice2<-2, -1>, Positive<RuleC<'i, any>>, 2, 2>>");
    v.visit::<RepMinMax<Choice2<Sequence2<SkipChar<'i, 0>, Option<Str<Ssp>>, any, Rep<Str<Ssp>, Empty>>, Negative<any>>, Rep<Str<Ssp>, Empty>, 2, 2>>("RepMinMax<Choice2<Sequence2<SkipChar<'i, 0>, Option<Str<Ssp>>, any, Rep<Str<Ssp>, Empty>>, Negative<any>>, Rep<Str<Ssp>, Empty>, 2, 2>");
    v.visit::<Negative<Negative<Sequence5<PeekSlice2<0, -1>, push<Rep<Str<Ssp>, Empty>>, drop, push<Rep<Str<Ssp>, Empty>>, soi, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>, peek<'i>, push<Rep<Str<Ssp>, Empty>>>>>>("Negative<Negative<Sequence5<PeekSlice2<0, -1>, push<Rep<Str<Ssp>, Empty>>, drop, push<Rep<Str<Ssp>, Empty>>, soi, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<-2>, push<Rep<Str<Ssp>, Empty>>, peek<'i>, push<Rep<Str<Ssp>, Empty>>>>>");
}
fn types_7<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Sequence2<RepMinMax<SkipChar<'i, 0>, Empty, 2, 2>, Sequence5<Str<Sba>, Rep<Str<Ssp>, Empty>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, peek<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, eoi, Option<Str<Ssp>>, Str<Sa>, push<Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence5<Str<Sba>, Rep<Str<Ssp>, Empty>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, peek<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, eoi, Option<Str<Ssp>>, Str<Sa>, push<Rep<Str<Ssp>, Empty>>>>>("Sequence2<RepMinMax<SkipChar<'i, 0>, Empty, 2, 2>, Sequence5<Str<Sba>, Rep<Str<Ssp>, Empty>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, peek<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, eoi, Option<Str<Ssp>>, Str<Sa>, push<Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, Sequence5<Str<Sba>, Rep<Str<Ssp>, Empty>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, peek<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, eoi, Option<Str<Ssp>>, Str<Sa>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence2<RepMinMax<peek_all<'i>, RepOnce<Str<Ssp>, Empty>, 1, 2>, Empty, RuleC<'i, Str<Sb>>, Empty>>("Sequence2<RepMinMax<peek_all<'i>, RepOnce<Str<Ssp>, Empty>, 1, 2>, Empty, RuleC<'i, Str<Sb>>, Empty>");
    v.visit::<RuleB<'i, RuleA<'i, Sequence2<Str<Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>, CharRange<'a', 'é'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>>("RuleB<'i, RuleA<'i, Sequence2<Str<Sab>, Rep<Choice2<Str<Ssp>, newline>, Empty>, CharRange<'a', 'é'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>");
    v.visit::<Negative<Positive<Choice2<newline, Option<Insens<'i, SA>>>>>>("Negative<Positive<Choice2<newline, Option<Insens<'i, SA>>>>>");
    v.visit::<Negative<Sequence5<Choice4<eoi, Str<Scr>, Str<Sab>, peek_all<'i>>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Option<Empty>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Sequence2<Str<Sae>, Option<Str<Ssp>>, Str<Sab>, Option<Str<Ssp>>>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, RepOnce<Str<Scrlf>, Empty>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, RepMax<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, 2>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>>>>("Negative<Sequence5<Choice4<eoi, Str<Scr>, Str<Sab>, peek_all<'i>>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Option<Empty>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Sequence2<Str<Sae>, Option<Str<Ssp>>, Str<Sab>, Option<Str<Ssp>>>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, RepOnce<Str<Scrlf>, Empty>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, RepMax<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, 2>, RepMinMax<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, 0, 0>>>");
    v.visit::<push<push<PeekSlice2<0, -1>>>>("push<push<PeekSlice2<0, -1>>>");
    v.visit::<Choice2<Sequence3<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<0>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sab>, push<Rep<Str<Ssp>, Empty>>>, Negative<Insens<'i, Sa>>>>("Choice2<Sequence3<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, PeekSlice1<0>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sab>, push<Rep<Str<Ssp>, Empty>>>, Negative<Insens<'i, Sa>>>");
    v.visit::<Choice2<Choice3<Positive<Choice5<Str<Sab>, pop<'i>, PeekSlice2<1, 2>, pop<'i>, Char<'a'>>>, Choice3<RepMax<Str<Slf>, Rep<Str<Ssp>, Empty>, 2>, RepMinMax<soi, Empty, 1, 3>, Sequence4<SkipChar<'i, 2>, Option<Str<Ssp>>, SkipChar<'i, 2>, Rep<Str<Ssp>, Empty>, Str<SA>, Empty, Str<Sab>, RepOnce<Str<Ssp>, Empty>>>, RepMinMax<Choice3<Str<Scrlf>, Char<'a'>, Str<Sae>>, push<any>, 1, 2>>, RepMinMax<Choice2<RepMax<Str<Sab>, Rep<Str<Ssp>, Empty>, 2>, Sequence4<any, Empty, Str<SA>, Empty, Str<Se>, Empty, PeekSlice1<1>, Empty>>, Empty, 0, 2>>>("Choice2<Choice3<Positive<Choice5<Str<Sab>, pop<'i>, PeekSlice2<1, 2>, pop<'i>, Char<'a'>>>, Choice3<RepMax<Str<Slf>, Rep<Str<Ssp>, Empty>, 2>, RepMinMax<soi, Empty, 1, 3>, Sequence4<SkipChar<'i, 2>, Option<Str<Ssp>>, SkipChar<'i, 2>, Rep<Str<Ssp>, Empty>, Str<SA>, Empty, Str<Sab>, RepOnce<Str<Ssp>, Empty>>>, RepMinMax<Choice3<Str<Scrlf>, Char<'a'>, Str<Sae>>, push<any>, 1, 2>>, RepMinMax<Choice2<RepMax<Str<Sab>, Rep<Str<Ssp>, Empty>, 2>, Sequence4<any, Empty, Str<SA>, Empty, Str<Se>, Empty, PeekSlice1<1>, Empty>>, Empty, 0, 2>>");
    v.visit::<Positive<Choice2<ascii_alpha, PeekSlice2<0, 1>>>>("Positive<Choice2<ascii_alpha, PeekSlice2<0, 1>>>");
    v.visit::<RepMinMax<RepMinMax<push<Str<Ssp>>, Option<Str<Ssp>>, 2, 2>, Empty, 0, 2>>("RepMinMax<RepMinMax<push<Str<Ssp>>, Option<Str<Ssp>>, 2, 2>, Empty, 0, 2>");
    v.visit::<Positive<Negative<Positive<Str<Scrlf>>>>>("Positive<Negative<Positive<Str<Scrlf>>>>");
    v.visit::<Choice2<Insens<'i, Sae>, NONE>>("Choice2<Insens<'i, Sae>, NONE>");
    v.visit::<Sequence4<RuleB<'i, Sequence2<Str<Sba>, Empty, ascii_alpha, Empty>>, Rep<Str<Ssp>, Empty>, RuleB<'i, RuleC<'i, eoi>>, Rep<Str<Ssp>, Empty>, RuleA<'i, Sequence2<Str<Sb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, CharRange<'a', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Rep<Str<Ssp>, Empty>, Positive<drop>, Rep<Str<Ssp>, Empty>>>("Sequence4<RuleB<'i, Sequence2<Str<Sba>, Empty, ascii_alpha, Empty>>, Rep<Str<Ssp>, Empty>, RuleB<'i, RuleC<'i, eoi>>, Rep<Str<Ssp>, Empty>, RuleA<'i, Sequence2<Str<Sb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, CharRange<'a', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Rep<Str<Ssp>, Empty>, Positive<drop>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Negative<Sequence2<Choice3<PeekSlice1<-1>, soi, Str<SA>>, push<Rep<Str<Ssp>, Empty>>, RepMinMax<Str<Sba>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>, push<Rep<Str<Ssp>, Empty>>>>>("Negative<Sequence2<Choice3<PeekSlice1<-1>, soi, Str<SA>>, push<Rep<Str<Ssp>, Empty>>, RepMinMax<Str<Sba>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<RepMinMax<Choice5<soi, Sequence3<Str<Sba>, Option<Str<Ssp>>, Str<Slf>, Option<Str<Ssp>>, Str<Slf>, Option<Str<Ssp>>>, Str<Slf>, Choice2<drop, Char<'a'>>, Choice2<PeekSlice2<0, 1>, PeekSlice2<0, -1>>>, Sequence2<push<Empty>, Option<Str<Ssp>>, Str<Scrlf>, Option<Str<Ssp>>>, 1, 1>>("RepMinMax<Choice5<soi, Sequence3<Str<Sba>, Option<Str<Ssp>>, Str<Slf>, Option<Str<Ssp>>, Str<Slf>, Option<Str<Ssp>>>, Str<Slf>, Choice2<drop, Char<'a'>>, Choice2<PeekSlice2<0, 1>, PeekSlice2<0, -1>>>, Sequence2<push<Empty>, Option<Str<Ssp>>, Str<Scrlf>, Option<Str<Ssp>>>, 1, 1>");
    v.visit::<RepMinMax<Option<push<RuleC<'i, Str<Sba>>>>, Empty, 1, 1>>("RepMinMax<Option<push<RuleC<'i, Str<Sba>>>>, Empty, 1, 1>");
    v.visit::<Negative<Sequence3<Positive<PeekSlice1<-2>>, Option<Str<Ssp>>, Sequence2<Char<'é'>, Option<Str<Ssp>>, Insens<'i, Sab>, Option<Str<Ssp>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice3<Str<Slf>, Str<SA>, PeekSlice2<0, -1>>, Option<Str<Ssp>>>>>("Negative<Sequence3<Positive<PeekSlice1<-2>>, Option<Str<Ssp>>, Sequence2<Char<'é'>, Option<Str<Ssp>>, Insens<'i, Sab>, Option<Str<Ssp>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice3<Str<Slf>, Str<SA>, PeekSlice2<0, -1>>, Option<Str<Ssp>>>>");
    v.visit::<RuleA<'i, Option<Insens<'i, Sab>>>>("RuleA<'i, Option<Insens<'i, Sab>>>");
    v.visit::<Choice2<Sequence4<RuleC<'i, CharRange<'A', 'b'>>, RepOnce<Str<Ssp>, Empty>, Choice4<Str<Scrlf>, Str<Seb>, CharRange<'a', 'é'>, Char<'é'>>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Sab>, Option<Str<Ssp>>, Empty, Option<Str<Ssp>>>, RepOnce<Str<Ssp>, Empty>, RuleA<'i, SkipChar<'i, 0>>, RepOnce<Str<Ssp>, Empty>>, Choice4<Sequence4<Insens<'i, SA>, Empty, newline, Empty, CharRange<'a', 'b'>, Empty, PeekSlice1<1>, Empty>, Choice3<Str<Ssp>, Empty, Str<Sa>>, Sequence2<Str<Slf>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>>, Str<Sb>>>>("Choice2<Sequence4<RuleC<'i, CharRange<'A', 'b'>>, RepOnce<Str<Ssp>, Empty>, Choice4<Str<Scrlf>, Str<Seb>, CharRange<'a', 'é'>, Char<'é'>>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Sab>, Option<Str<Ssp>>, Empty, Option<Str<Ssp>>>, RepOnce<Str<Ssp>, Empty>, RuleA<'i, SkipChar<'i, 0>>, RepOnce<Str<Ssp>, Empty>>, Choice4<Sequence4<Insens<'i, SA>, Empty, newline, Empty, CharRange<'a', 'b'>, Empty, PeekSlice1<1>, Empty>, Choice3<Str<Ssp>, Empty, Str<Sa>>, Sequence2<Str<Slf>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Sa>, push<Rep<Str<Ssp>, Empty>>>, Str<Sb>>>");
    v.visit::<Choice5<Choice2<CharRange<'A', 'b'>, ascii_alpha>, Sequence3<eoi, Option<Str<Ssp>>, Str<Ssp>, Option<Str<Ssp>>, PeekSlice2<1, 2>, Option<Str<Ssp>>>, any, RuleA<'i, Str<Sab>>, Choice2<Str<SA>, CharRange<'a', 'é'>>>>("Choice5<Choice2<CharRange<'A', 'b'>, ascii_alpha>, Sequence3<eoi, Option<Str<Ssp>>, Str<Ssp>, Option<Str<Ssp>>, PeekSlice2<1, 2>, Option<Str<Ssp>>>, any, RuleA<'i, Str<Sab>>, Choice2<Str<SA>, CharRange<'a', 'é'>>>");
    v.visit::<RuleB<'i, PeekSlice2<-2, -1>>>("RuleB<'i, PeekSlice2<-2, -1>>");
    v.visit::<Sequence3<Choice2<Str<Seb>, Insens<'i, SA>>, Option<eoi>, Choice3<Str<Scr>, Insens<'i, Sae>, Str<Sae>>, Option<eoi>, Positive<any>, Option<eoi>>>("Sequence3<Choice2<Str<Seb>, Insens<'i, SA>>, Option<eoi>, Choice3<Str<Scr>, Insens<'i, Sae>, Str<Sae>>, Option<eoi>, Positive<any>, Option<eoi>>");
    v.visit::<Choice2<Negative<Str<Sa>>, Sequence2<RuleC<'i, Sequence4<SkipChar<'i, 1>, Option<Str<Ssp>>, Char<'é'>, RepOnce<Str<Ssp>, Empty>, Str<SA>, Option<Str<Ssp>>, Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, RepMax<Sequence2<CharRange<'a', 'é'>, Empty, Insens<'i, Sa>, Empty>, Empty, 2>, Rep<Str<Ssp>, Empty>>>>("Choice2<Negative<Str<Sa>>, Sequence2<RuleC<'i, Sequence4<SkipChar<'i, 1>, Option<Str<Ssp>>, Char<'é'>, RepOnce<Str<Ssp>, Empty>, Str<SA>, Option<Str<Ssp>>, Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, RepMax<Sequence2<CharRange<'a', 'é'>, Empty, Insens<'i, Sa>, Empty>, Empty, 2>, Rep<Str<Ssp>, Empty>>>");
    v.visit::<Choice2<push<Str<Sb>>, CharRange<'A', 'b'>>>("Choice2<push<Str<Sb>>, CharRange<'A', 'b'>>");
    v.visit::<Choice2<RepMinMax<RepMinMax<RuleC<'i, ascii_alpha>, Rep<Str<Ssp>, Empty>, 1, 2>, Rep<Str<Ssp>, Empty>, 0, 1>, Choice2<Choice3<SkipChar<'i, 1>, push<ascii_alpha>, Str<Sb>>, Choice5<Sequence2<any, Empty, pest3_core::typed::unicode::UPPERCASE, Empty>, Choice3<PeekSlice1<-1>, Str<Sa>, PeekSlice2<0, 1>>, Choice5<SkipChar<'i, 1>, Insens<'i, Se>, Insens<'i, Se>, pop<'i>, Str<Scrlf>>, Str<Sab>, Option<Char<'é'>>>>>>("Choice2<RepMinMax<RepMinMax<RuleC<'i, ascii_alpha>, Rep<Str<Ssp>, Empty>, 1, 2>, Rep<Str<Ssp>, Empty>, 0, 1>, Choice2<Choice3<SkipChar<'i, 1>, push<ascii_alpha>, Str<Sb>>, Choice5<Sequence2<any, Empty, pest3_core::typed::unicode::UPPERCASE, Empty>, Choice3<PeekSlice1<-1>, Str<Sa>, PeekSlice2<0, 1>>, Choice5<SkipChar<'i, 1>, Insens<'i, Se>, Insens<'i, Se>, pop<'i>, Str<Scrlf>>, Str<Sab>, Option<Char<'é'>>>>>");
    v.visit::<Sequence2<Choice2<Positive<Insens<'i, Sa>>, NONE>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Positive<Sequence4<pop<'i>, Empty, Str<Scrlf>, Empty, Str<SA>, Empty, PeekSlice1<1>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence2<Choice2<Positive<Insens<'i, Sa>>, NONE>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Positive<Sequence4<pop<'i>, Empty, Str<Scrlf>, Empty, Str<SA>, Empty, PeekSlice1<1>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<RepMinMax<Positive<Sequence3<CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>, Str<Ssp>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>>, Empty, 1, 3>>("RepMinMax<Positive<Sequence3<CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>, Str<Ssp>, RepOnce<Str<Ssp>, Empty>, Char<'é'>, RepOnce<Str<Ssp>, Empty>>>, Empty, 1, 3>");
    v.visit::<Negative<RepMinMax<drop, Str<S0>, 1, 3>>>("Negative<RepMinMax<drop, Str<S0>, 1, 3>>");
    v.visit::<Sequence3<SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Str<Scr>, RepOnce<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>, Sequence3<Str<Scr>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Char<'a'>, RepOnce<Str<Ssp>, Empty>, Str<Ssp>, RepOnce<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>>>("Sequence3<SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>, Sequence2<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Str<Scr>, RepOnce<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>, Sequence3<Str<Scr>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Char<'a'>, RepOnce<Str<Ssp>, Empty>, Str<Ssp>, RepOnce<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<RuleA<'i, Positive<any>>>("RuleA<'i, Positive<any>>");
    v.visit::<Sequence5<drop, Rep<Choice2<Str<Ssp>, newline>, Empty>, RuleB<'i, Option<CharRange<'A', 'b'>>>, push<Rep<Str<Ssp>, Empty>>, Choice4<RepMinMax<pop<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 1>, Char<'a'>, RepMinMax<Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Sequence2<Str<Sab>, push<Rep<Str<Ssp>, Empty>>, Str<SA>, push<Rep<Str<Ssp>, Empty>>>>, Empty, Sequence2<Insens<'i, Se>, RepOnce<Str<Ssp>, Empty>, Choice4<pest3_core::typed::unicode::UPPERCASE, Str<Sba>, SkipChar<'i, 0>, Str<SA>>, RepOnce<Str<Ssp>, Empty>>, Empty, RuleB<'i, Sequence3<Str<Sae>, Rep<Str<Ssp>, Empty>, Str<Sa>, Empty, Str<SA>, Rep<Str<Ssp>, Empty>>>, Empty>>("Sequence5<drop, Rep<Choice2<Str<Ssp>, newline>, Empty>, RuleB<'i, Option<CharRange<'A', 'b'>>>, push<Rep<Str<Ssp>, Empty>>, Choice4<RepMinMax<pop<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 1>, Char<'a'>, RepMinMax<Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Sequence2<Str<Sab>, push<Rep<Str<Ssp>, Empty>>, Str<SA>, push<Rep<Str<Ssp>, Empty>>>>, Empty, Sequence2<Insens<'i, Se>, RepOnce<Str<Ssp>, Empty>, Choice4<pest3_core::typed::unicode::UPPERCASE, Str<Sba>, SkipChar<'i, 0>, Str<SA>>, RepOnce<Str<Ssp>, Empty>>, Empty, RuleB<'i, Sequence3<Str<Sae>, Rep<Str<Ssp>, Empty>, Str<Sa>, Empty, Str<SA>, Rep<Str<Ssp>, Empty>>>, Empty>");
    v.visit::<RepMinMax<RuleB<'i, Option<Str<Sba>>>, push<Rep<Str<Ssp>, Empty>>, 0, 2>>("RepMinMax<RuleB<'i, Option<Str<Sba>>>, push<Rep<Str<Ssp>, Empty>>, 0, 2>");
    v.visit::<Choice4<Sequence4<peek<'i>, Rep<Str<Ssp>, Empty>, PeekSlice2<1, 0>, Rep<Str<Ssp>, Empty>, SkipChar<'i, 2>, Rep<Str<Ssp>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>>, Negative<Insens<'i, SA>>, Negative<Str<Seb>>, push<Str<Sb>>>>("Choice4<Sequence4<peek<'i>, Rep<Str<Ssp>, Empty>, PeekSlice2<1, 0>, Rep<Str<Ssp>, Empty>, SkipChar<'i, 2>, Rep<Str<Ssp>, Empty>, Str<Ssp>, Rep<Str<Ssp>, Empty>>, Negative<Insens<'i, SA>>, Negative<Str<Seb>>, push<Str<Sb>>>");
    v.visit::<Sequence2<RuleB<'i, Choice3<Str<Scr>, Str<Se>, newline>>, Rep<Str<Ssp>, Empty>, Choice2<Sequence4<Char<'a'>, Rep<Str<Ssp>, Empty>, Str<Seb>, Rep<Str<Ssp>, Empty>, Str<Scr>, RepOnce<Str<Ssp>, Empty>, eoi, Empty>, Choice2<SkipChar<'i, 2>, PeekSlice2<-2, -1>>>, Rep<Str<Ssp>, Empty>>>("Sequence2<RuleB<'i, Choice3<Str<Scr>, Str<Se>, newline>>, Rep<Str<Ssp>, Empty>, Choice2<Sequence4<Char<'a'>, Rep<Str<Ssp>, Empty>, Str<Seb>, Rep<Str<Ssp>, Empty>, Str<Scr>, RepOnce<Str<Ssp>, Empty>, eoi, Empty>, Choice2<SkipChar<'i, 2>, PeekSlice2<-2, -1>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Positive<RepMinMax<Negative<PeekSlice2<0, -1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 1>>>("Positive<RepMinMax<Negative<PeekSlice2<0, -1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 1>>");
    v.visit::<Positive<Negative<Empty>>>("Positive<Negative<Empty>>");
    v.visit::<Choice2<Sequence2<Positive<pest3_core::typed::unicode::UPPERCASE>, Option<Str<Ssp>>, Negative<PeekSlice2<0, 1>>, Option<Str<Ssp>>>, push<Negative<pop_all<'i>>>>>("Choice2<Sequence2<Positive<pest3_core::typed::unicode::UPPERCASE>, Option<Str<Ssp>>, Negative<PeekSlice2<0, 1>>, Option<Str<Ssp>>>, push<Negative<pop_all<'i>>>>");
    v.visit::<RepMinMax<Positive<Choice5<Rep<Insens<'i, Sa>, Option<Str<Ssp>>>, RuleB<'i, peek<'i>>, Option<Str<Ssp>>, Option<Insens<'i, SA>>, Positive<pest3_core::typed::unicode::UPPERCASE>>>, Empty, 3, 3>>("RepMinMax<Positive<Choice5<Rep<Insens<'i, Sa>, Option<Str<Ssp>>>, RuleB<'i, peek<'i>>, Option<Str<Ssp>>, Option<Insens<'i, SA>>, Positive<pest3_core::typed::unicode::UPPERCASE>>>, Empty, 3, 3>");
    v.visit::<push<RuleA<'i, Option<Empty>>>>("push<RuleA<'i, Option<Empty>>>");
    v.visit::<Sequence2<RepMinMax<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, 2, 2>, Option<Str<Ssp>>, Negative<ascii_alpha>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence2<RepMinMax<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, 2, 2>, Option<Str<Ssp>>, Negative<ascii_alpha>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Negative<Option<Choice4<soi, Char<'é'>, PeekSlice2<1, 2>, Str<SA>>>>>("Negative<Option<Choice4<soi, Char<'é'>, PeekSlice2<1, 2>, Str<SA>>>>");
    v.visit::<push<Sequence5<Sequence5<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>, peek<'i>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>>, Empty, Sequence3<Insens<'i, Sab>, push<Rep<Str<Ssp>, Empty>>, Str<Ssp>, push<Rep<Str<Ssp>, Empty>>, Char<'é'>, push<Rep<Str<Ssp>, Empty>>>, Empty, push<CharRange<'a', 'é'>>, Empty, Sequence3<Str<Sba>, Option<Str<Ssp>>, ascii_alpha, Empty, peek_all<'i>, Option<Str<Ssp>>>, Empty, CharRange<'a', 'é'>, Empty>>>("push<Sequence5<Sequence5<CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>, peek<'i>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>>, Empty, Sequence3<Insens<'i, Sab>, push<Rep<Str<Ssp>, Empty>>, Str<Ssp>, push<Rep<Str<Ssp>, Empty>>, Char<'é'>, push<Rep<Str<Ssp>, Empty>>>, Empty, push<CharRange<'a', 'é'>>, Empty, Sequence3<Str<Sba>, Option<Str<Ssp>>, ascii_alpha, Empty, peek_all<'i>, Option<Str<Ssp>>>, Empty, CharRange<'a', 'é'>, Empty>>");
    v.visit::<Positive<push<RepMinMax<Insens<'i, SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>>>>("Positive<push<RepMinMax<Insens<'i, SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 0, 0>>>");
    v.visit::<Option<drop>>("Option<drop>");
    v.visit::<RepMinMax<Positive<RuleB<'i, Str<Sae>>>, Empty, 0, 1>>("RepMinMax<Positive<RuleB<'i, Str<Sae>>>, Empty, 0, 1>");
    v.visit::<Positive<RuleA<'i, Sequence2<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Str<Sba>, RepOnce<Str<Ssp>, Empty>>>>>("Positive<RuleA<'i, Sequence2<Str<Sa>, RepOnce<Str<Ssp>, Empty>, Str<Sba>, RepOnce<Str<Ssp>, Empty>>>>");
    v.visit::<Positive<Sequence3<SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>, Insens<'i, Sab>, Option<Str<Ssp>>>>>("Positive<Sequence3<SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'b'>, Rep<Str<Ssp>, Empty>, Insens<'i, Sab>, Option<Str<Ssp>>>>");
    v.visit::<Sequence4<Positive<Choice4<Str<S0>, Insens<'i, Se>, peek_all<'i>, Str<Sae>>>, Empty, Positive<Choice2<Insens<'i, Sa>, PeekSlice2<-2, -1>>>, Empty, push<push<PeekSlice2<0, -1>>>, RepOnce<Str<Ssp>, Empty>, Sequence2<RepMinMax<CharRange<'a', 'é'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>, push<Rep<Str<Ssp>, Empty>>, push<Insens<'i, Sae>>, push<Rep<Str<Ssp>, Empty>>>, eoi>>("Sequence4<Positive<Choice4<Str<S0>, Insens<'i, Se>, peek_all<'i>, Str<Sae>>>, Empty, Positive<Choice2<Insens<'i, Sa>, PeekSlice2<-2, -1>>>, Empty, push<push<PeekSlice2<0, -1>>>, RepOnce<Str<Ssp>, Empty>, Sequence2<RepMinMax<CharRange<'a', 'é'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2, 2>, push<Rep<Str<Ssp>, Empty>>, push<Insens<'i, Sae>>, push<Rep<Str<Ssp>, Empty>>>, eoi>");
    v.visit::<Choice4<Negative<Insens<'i, Sab>>, Negative<Choice3<eoi, PeekSlice2<1, 2>, Str<Scrlf>>>, RuleC<'i, Sequence4<CharRange<'a', 'é'>, Empty, Insens<'i, Sab>, Empty, PeekSlice1<0>, Empty, Str<Sb>, Empty>>, Sequence3<RepMinMax<PeekSlice1<-2>, Option<Str<Ssp>>, 1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, push<Char<'a'>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Positive<PeekSlice2<-2, -1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("Choice4<Negative<Insens<'i, Sab>>, Negative<Choice3<eoi, PeekSlice2<1, 2>, Str<Scrlf>>>, RuleC<'i, Sequence4<CharRange<'a', 'é'>, Empty, Insens<'i, Sab>, Empty, PeekSlice1<0>, Empty, Str<Sb>, Empty>>, Sequence3<RepMinMax<PeekSlice1<-2>, Option<Str<Ssp>>, 1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, push<Char<'a'>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Positive<PeekSlice2<-2, -1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Choice2<RuleB<'i, Insens<'i, Se>>, push<Str<Sae>>>>("Choice2<RuleB<'i, Insens<'i, Se>>, push<Str<Sae>>>");
    v.visit::<Choice3<RepMinMax<Option<PeekSlice2<0, 1>>, Empty, 1, 1>, Sequence3<push<any>, Option<Str<Ssp>>, RuleB<'i, Char<'é'>>, Option<Str<Ssp>>, Option<Str<S0>>, Option<Str<Ssp>>>, Negative<Option<Str<Seb>>>>>("Choice3<RepMinMax<Option<PeekSlice2<0, 1>>, Empty, 1, 1>, Sequence3<push<any>, Option<Str<Ssp>>, RuleB<'i, Char<'é'>>, Option<Str<Ssp>>, Option<Str<S0>>, Option<Str<Ssp>>>, Negative<Option<Str<Seb>>>>");
    v.visit::<Option<Sequence5<Sequence4<SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>, pest3_core::typed::unicode::UPPERCASE, RepOnce<Str<Ssp>, Empty>>, Empty, Sequence2<PeekSlice1<-1>, Empty, Str<Slf>, Empty>, Option<Str<Ssp>>, peek<'i>, push<Rep<Str<Ssp>, Empty>>, RuleA<'i, newline>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, Option<Str<Ssp>>>>>("Option<Sequence5<Sequence4<SkipChar<'i, 1>, RepOnce<Str<Ssp>, Empty>, SkipChar<'i, 2>, RepOnce<Str<Ssp>, Empty>, ascii_alpha, RepOnce<Str<Ssp>, Empty>, pest3_core::typed::unicode::UPPERCASE, RepOnce<Str<Ssp>, Empty>>, Empty, Sequence2<PeekSlice1<-1>, Empty, Str<Slf>, Empty>, Option<Str<Ssp>>, peek<'i>, push<Rep<Str<Ssp>, Empty>>, RuleA<'i, newline>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, Option<Str<Ssp>>>>");
    v.visit::<Sequence2<Sequence2<Str<Sb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, RepOnce<Str<Ssp>, Empty>, pop_all<'i>, RepOnce<Str<Ssp>, Empty>>>("Sequence2<Sequence2<Str<Sb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, RepOnce<Str<Ssp>, Empty>, pop_all<'i>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<push<RepOnce<Sequence3<PeekSlice2<0, -1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, any, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Option<Str<Ssp>>>>>("push<RepOnce<Sequence3<PeekSlice2<0, -1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, SkipChar<'i, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, any, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Option<Str<Ssp>>>>");
    v.visit::<RuleB<'i, Sequence3<RuleB<'i, Insens<'i, Sab>>, Rep<Str<Ssp>, Empty>, Choice4<RepMinMax<Str<Se>, Empty, 0, 0>, Choice3<CharRange<'A', 'b'>, CharRange<'a', 'b'>, Str<Se>>, RepMinMax<PeekSlice2<0, 1>, Empty, 0, 1>, Sequence2<CharRange<'A', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Char<'a'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Rep<Str<Ssp>, Empty>, Positive<peek_all<'i>>, Rep<Str<Ssp>, Empty>>>>("RuleB<'i, Sequence3<RuleB<'i, Insens<'i, Sab>>, Rep<Str<Ssp>, Empty>, Choice4<RepMinMax<Str<Se>, Empty, 0, 0>, Choice3<CharRange<'A', 'b'>, CharRange<'a', 'b'>, Str<Se>>, RepMinMax<PeekSlice2<0, 1>, Empty, 0, 1>, Sequence2<CharRange<'A', 'b'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Char<'a'>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Rep<Str<Ssp>, Empty>, Positive<peek_all<'i>>, Rep<Str<Ssp>, Empty>>>");
    v.visit::<Option<push<Choice2<Sequence5<PeekSlice1<-1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice2<0, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Insens<'i, Sae>>>>>("Option<push<Choice2<Sequence5<PeekSlice1<-1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Seb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice2<0, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Insens<'i, Sae>>>>");
    v.visit::<RepMinMax<RepMinMax<Negative<peek<'i>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, Option<Str<Ssp>>, 0, 2>>("RepMinMax<RepMinMax<Negative<peek<'i>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 1>, Option<Str<Ssp>>, 0, 2>");
    v.visit::<RepMinMax<Sequence2<eoi, Rep<Str<Ssp>, Empty>, Positive<Choice2<Char<'a'>, Str<Scr>>>, Rep<Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, 0, 1>>("RepMinMax<Sequence2<eoi, Rep<Str<Ssp>, Empty>, Positive<Choice2<Char<'a'>, Str<Scr>>>, Rep<Str<Ssp>, Empty>>, Rep<Str<Ssp>, Empty>, 0, 1>");
    v.visit::<Negative<RepMinMax<Str<Slf>, RepOnce<Str<Ssp>, Empty>, 2, 2>>>("Negative<RepMinMax<Str<Slf>, RepOnce<Str<Ssp>, Empty>, 2, 2>>");
    v.visit::<Negative<RepMinMax<ascii_alpha, Empty, 0, 0>>>("Negative<RepMinMax<ascii_alpha, Empty, 0, 0>>");
}
fn types_8<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Choice2<RuleA<'i, Choice2<Insens<'i, Sa>, Str<Slf>>>, Choice2<Option<Str<Ssp>>, Positive<newline>>>>("Choice2<RuleA<'i, Choice2<Insens<'i, Sa>, Str<Slf>>>, Choice2<Option<Str<Ssp>>, Positive<newline>>>");
    v.visit::<push<PeekSlice1<1>>>("push<PeekSlice1<1>>");
    v.visit::<RepMinMax<Choice5<Option<SkipChar<'i, 2>>, ascii_alpha, Sequence3<PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>>, push<SkipChar<'i, 1>>, Rep<Str<Sae>, Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>, 3, 3>>("RepMinMax<Choice5<Option<SkipChar<'i, 2>>, ascii_alpha, Sequence3<PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'é'>, RepOnce<Str<Ssp>, Empty>>, push<SkipChar<'i, 1>>, Rep<Str<Sae>, Rep<Str<Ssp>, Empty>>>, RepOnce<Str<Ssp>, Empty>, 3, 3>");
    v.visit::<RuleC<'i, Sequence2<Sequence2<PeekSlice1<-1>, Empty, PeekSlice1<-2>, Option<Str<Ssp>>>, Empty, Negative<peek<'i>>, Empty>>>("RuleC<'i, Sequence2<Sequence2<PeekSlice1<-1>, Empty, PeekSlice1<-2>, Option<Str<Ssp>>>, Empty, Negative<peek<'i>>, Empty>>");
    v.visit::<RepMinMax<Sequence2<Sequence2<Str<S0>, Empty, CharRange<'a', 'b'>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, Sequence4<PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, Str<Sb>, RepOnce<Str<Ssp>, Empty>, pop_all<'i>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>>, RepOnce<Str<Ssp>, Empty>, 0, 0>>("RepMinMax<Sequence2<Sequence2<Str<S0>, Empty, CharRange<'a', 'b'>, Option<Str<Ssp>>>, Rep<Str<Ssp>, Empty>, Sequence4<PeekSlice2<0, 1>, RepOnce<Str<Ssp>, Empty>, CharRange<'A', 'b'>, RepOnce<Str<Ssp>, Empty>, Str<Sb>, RepOnce<Str<Ssp>, Empty>, pop_all<'i>, RepOnce<Str<Ssp>, Empty>>, Option<Str<Ssp>>>, RepOnce<Str<Ssp>, Empty>, 0, 0>");
    v.visit::<Positive<Str<Slf>>>("Positive<Str<Slf>>");
    v.visit::<Sequence2<Sequence2<Sequence2<PeekSlice2<-2, -1>, RepOnce<Str<Ssp>, Empty>, Str<Seb>, RepOnce<Str<Ssp>, Empty>>, Sequence3<Str<Scr>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, newline, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Choice2<NONE, PeekSlice1<-1>>, push<Rep<Str<Ssp>, Empty>>>, Empty, Sequence2<Sequence5<Insens<'i, Se>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Se>, Empty, Str<Sa>, push<Rep<Str<Ssp>, Empty>>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, newline, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, RepMinMax<Char<'a'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>, push<Rep<Str<Ssp>, Empty>>>, Empty>>("Sequence2<Sequence2<Sequence2<PeekSlice2<-2, -1>, RepOnce<Str<Ssp>, Empty>, Str<Seb>, RepOnce<Str<Ssp>, Empty>>, Sequence3<Str<Scr>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, newline, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Choice2<NONE, PeekSlice1<-1>>, push<Rep<Str<Ssp>, Empty>>>, Empty, Sequence2<Sequence5<Insens<'i, Se>, RepOnce<Str<Ssp>, Empty>, Insens<'i, Se>, Empty, Str<Sa>, push<Rep<Str<Ssp>, Empty>>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, newline, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, RepMinMax<Char<'a'>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>, push<Rep<Str<Ssp>, Empty>>>, Empty>");
    v.visit::<RepMinMax<Option<Sequence4<SkipChar<'i, 1>, Option<Str<Ssp>>, Insens<'i, Se>, Option<Str<Ssp>>, drop, Option<Str<Ssp>>, Str<Ssp>, Option<Str<Ssp>>>>, Option<Str<Ssp>>, 1, 3>>("RepMinMax<Option<Sequence4<SkipChar<'i, 1>, Option<Str<Ssp>>, Insens<'i, Se>, Option<Str<Ssp>>, drop, Option<Str<Ssp>>, Str<Ssp>, Option<Str<Ssp>>>>, Option<Str<Ssp>>, 1, 3>");
    v.visit::<Sequence2<Option<Option<RepMax<CharRange<'a', 'é'>, Rep<Str<Ssp>, Empty>, 2>>>, Empty, RepMinMax<Option<peek_all<'i>>, Empty, 0, 1>, Empty>>("Sequence2<Option<Option<RepMax<CharRange<'a', 'é'>, Rep<Str<Ssp>, Empty>, 2>>>, Empty, RepMinMax<Option<peek_all<'i>>, Empty, 0, 1>, Empty>");
    v.visit::<Option<RepMax<Insens<'i, Se>, Empty, 2>>>("Option<RepMax<Insens<'i, Se>, Empty, 2>>");
    v.visit::<Choice2<Positive<RepOnce<Insens<'i, Se>, Empty>>, Choice3<Sequence2<Str<S0>, push<Rep<Str<Ssp>, Empty>>, SkipChar<'i, 1>, push<Rep<Str<Ssp>, Empty>>>, Negative<Insens<'i, Se>>, Negative<CharRange<'A', 'b'>>>>>("Choice2<Positive<RepOnce<Insens<'i, Se>, Empty>>, Choice3<Sequence2<Str<S0>, push<Rep<Str<Ssp>, Empty>>, SkipChar<'i, 1>, push<Rep<Str<Ssp>, Empty>>>, Negative<Insens<'i, Se>>, Negative<CharRange<'A', 'b'>>>>");
    v.visit::<RepMinMax<Choice3<Str<Ssp>, peek<'i>, Negative<Insens<'i, Sa>>>, push<Rep<Str<Ssp>, Empty>>, 2, 2>>("RepMinMax<Choice3<Str<Ssp>, peek<'i>, Negative<Insens<'i, Sa>>>, push<Rep<Str<Ssp>, Empty>>, 2, 2>");
    v.visit::<Sequence2<push<Str<Scrlf>>, RepOnce<Str<Ssp>, Empty>, Choice2<Char<'a'>, Char<'é'>>, RepOnce<Str<Ssp>, Empty>>>("Sequence2<push<Str<Scrlf>>, RepOnce<Str<Ssp>, Empty>, Choice2<Char<'a'>, Char<'é'>>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<Choice5<Option<RuleC<'i, Choice3<Insens<'i, Sa>, soi, Str<Scr>>>>, Negative<Option<Choice2<Str<Sba>, SkipChar<'i, 2>>>>, Negative<Str<Slf>>, Choice4<push<Sequence2<CharRange<'A', 'b'>, Rep<Str<Ssp>, Empty>, Str<Scr>, Empty>>, Rep<Sequence2<Str<SA>, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<0, -1>, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>>, pest3_core::typed::unicode::UPPERCASE, Positive<Positive<newline>>>, Option<RepMinMax<Choice2<peek<'i>, any>, Empty, 1, 3>>>>("Choice5<Option<RuleC<'i, Choice3<Insens<'i, Sa>, soi, Str<Scr>>>>, Negative<Option<Choice2<Str<Sba>, SkipChar<'i, 2>>>>, Negative<Str<Slf>>, Choice4<push<Sequence2<CharRange<'A', 'b'>, Rep<Str<Ssp>, Empty>, Str<Scr>, Empty>>, Rep<Sequence2<Str<SA>, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<0, -1>, Rep<Str<Ssp>, Empty>>, Option<Str<Ssp>>>, pest3_core::typed::unicode::UPPERCASE, Positive<Positive<newline>>>, Option<RepMinMax<Choice2<peek<'i>, any>, Empty, 1, 3>>>");
    v.visit::<Positive<PeekSlice1<-1>>>("Positive<PeekSlice1<-1>>");
    v.visit::<Sequence4<Sequence5<Choice3<Str<Sa>, Str<Slf>, PeekSlice2<0, -1>>, Empty, Choice2<Str<Scrlf>, SkipChar<'i, 1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RepMax<Str<Sb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RepOnce<Insens<'i, Se>, Option<Str<Ssp>>>, Empty, Sequence4<drop, Empty, PeekSlice1<1>, Empty, CharRange<'a', 'b'>, Empty, CharRange<'a', 'b'>, Empty>, Option<Str<Ssp>>>, Empty, Negative<Option<CharRange<'A', 'b'>>>, RepOnce<Str<Ssp>, Empty>, Positive<RuleB<'i, Insens<'i, Se>>>, Option<Str<Ssp>>, Negative<RuleB<'i, Str<Sae>>>, Rep<Str<Ssp>, Empty>>>("Sequence4<Sequence5<Choice3<Str<Sa>, Str<Slf>, PeekSlice2<0, -1>>, Empty, Choice2<Str<Scrlf>, SkipChar<'i, 1>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RepMax<Str<Sb>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, RepOnce<Insens<'i, Se>, Option<Str<Ssp>>>, Empty, Sequence4<drop, Empty, PeekSlice1<1>, Empty, CharRange<'a', 'b'>, Empty, CharRange<'a', 'b'>, Empty>, Option<Str<Ssp>>>, Empty, Negative<Option<CharRange<'A', 'b'>>>, RepOnce<Str<Ssp>, Empty>, Positive<RuleB<'i, Insens<'i, Se>>>, Option<Str<Ssp>>, Negative<RuleB<'i, Str<Sae>>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<RuleC<'i, Choice3<Str<Sae>, SkipChar<'i, 0>, newline>>>("RuleC<'i, Choice3<Str<Sae>, SkipChar<'i, 0>, newline>>");
    v.visit::<Sequence2<Choice2<any, Str<S0>>, Rep<Str<Ssp>, Empty>, RepMax<Str<Sba>, RepOnce<Str<Ssp>, Empty>, 2>, Rep<Str<Ssp>, Empty>>>("Sequence2<Choice2<any, Str<S0>>, Rep<Str<Ssp>, Empty>, RepMax<Str<Sba>, RepOnce<Str<Ssp>, Empty>, 2>, Rep<Str<Ssp>, Empty>>");
    v.visit::<Positive<push<push<Char<'a'>>>>>("Positive<push<push<Char<'a'>>>>");
    v.visit::<RepMinMax<Choice2<Sequence3<PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>, any, RepOnce<Str<Ssp>, Empty>, newline, RepOnce<Str<Ssp>, Empty>>, RuleC<'i, SkipChar<'i, 2>>>, Rep<Str<Ssp>, Empty>, 1, 2>>("RepMinMax<Choice2<Sequence3<PeekSlice1<-2>, RepOnce<Str<Ssp>, Empty>, any, RepOnce<Str<Ssp>, Empty>, newline, RepOnce<Str<Ssp>, Empty>>, RuleC<'i, SkipChar<'i, 2>>>, Rep<Str<Ssp>, Empty>, 1, 2>");
    v.visit::<push<Choice4<Choice2<Choice3<pest3_core::typed::unicode::UPPERCASE, Insens<'i, Sab>, peek_all<'i>>, Choice3<any, Str<Sab>, Str<Scrlf>>>, Sequence2<push<CharRange<'a', 'é'>>, RepOnce<Str<Ssp>, Empty>, Option<NONE>, RepOnce<Str<Ssp>, Empty>>, Option<Choice3<PeekSlice1<-1>, Str<Ssp>, Str<Sb>>>, Choice2<RepMinMax<Str<Sba>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>, Sequence2<Insens<'i, SA>, Empty, any, Empty>>>>>("push<Choice4<Choice2<Choice3<pest3_core::typed::unicode::UPPERCASE, Insens<'i, Sab>, peek_all<'i>>, Choice3<any, Str<Sab>, Str<Scrlf>>>, Sequence2<push<CharRange<'a', 'é'>>, RepOnce<Str<Ssp>, Empty>, Option<NONE>, RepOnce<Str<Ssp>, Empty>>, Option<Choice3<PeekSlice1<-1>, Str<Ssp>, Str<Sb>>>, Choice2<RepMinMax<Str<Sba>, Rep<Choice2<Str<Ssp>, newline>, Empty>, 1, 2>, Sequence2<Insens<'i, SA>, Empty, any, Empty>>>>");
    v.visit::<Positive<Sequence2<RepMinMax<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Empty, Choice2<Str<Sae>, Insens<'i, Sa>>, push<Rep<Str<Ssp>, Empty>>>>>("Positive<Sequence2<RepMinMax<Str<Seb>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Empty, Choice2<Str<Sae>, Insens<'i, Sa>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<Sequence3<PeekSlice2<0, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Sequence2<Sequence4<PeekSlice1<0>, Empty, ascii_alpha, Empty, Str<Sae>, Empty, newline, Empty>, Option<Str<Ssp>>, Positive<CharRange<'A', 'b'>>, RepOnce<Str<Ssp>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, push<RepMinMax<peek_all<'i>, Rep<Str<Ssp>, Empty>, 1, 2>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence3<PeekSlice2<0, 1>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Sequence2<Sequence4<PeekSlice1<0>, Empty, ascii_alpha, Empty, Str<Sae>, Empty, newline, Empty>, Option<Str<Ssp>>, Positive<CharRange<'A', 'b'>>, RepOnce<Str<Ssp>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, push<RepMinMax<peek_all<'i>, Rep<Str<Ssp>, Empty>, 1, 2>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Sequence2<push<Negative<Str<Scrlf>>>, Empty, Sequence4<RuleA<'i, Str<Sba>>, Rep<Str<Ssp>, Empty>, CharRange<'A', 'b'>, Rep<Str<Ssp>, Empty>, RuleA<'i, Str<SA>>, Rep<Str<Ssp>, Empty>, push<CharRange<'a', 'b'>>, Rep<Str<Ssp>, Empty>>, Empty>>("Sequence2<push<Negative<Str<Scrlf>>>, Empty, Sequence4<RuleA<'i, Str<Sba>>, Rep<Str<Ssp>, Empty>, CharRange<'A', 'b'>, Rep<Str<Ssp>, Empty>, RuleA<'i, Str<SA>>, Rep<Str<Ssp>, Empty>, push<CharRange<'a', 'b'>>, Rep<Str<Ssp>, Empty>>, Empty>");
    v.visit::<Sequence3<Sequence2<Choice2<RuleB<'i, any>, RuleC<'i, Str<Scrlf>>>, Rep<Str<Ssp>, Empty>, push<RepMin<Str<Ssp>, Rep<Str<Ssp>, Empty>, 2>>, Rep<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>, RuleA<'i, Positive<Positive<NONE>>>, RepOnce<Str<Ssp>, Empty>, RuleB<'i, Sequence2<Positive<Str<Sa>>, Choice4<Str<Sae>, PeekSlice2<1, 0>, any, CharRange<'a', 'é'>>, Sequence2<Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<1>, Empty>, push<Rep<Str<Ssp>, Empty>>>>, RepOnce<Str<Ssp>, Empty>>>("Sequence3<Sequence2<Choice2<RuleB<'i, any>, RuleC<'i, Str<Scrlf>>>, Rep<Str<Ssp>, Empty>, push<RepMin<Str<Ssp>, Rep<Str<Ssp>, Empty>, 2>>, Rep<Str<Ssp>, Empty>>, RepOnce<Str<Ssp>, Empty>, RuleA<'i, Positive<Positive<NONE>>>, RepOnce<Str<Ssp>, Empty>, RuleB<'i, Sequence2<Positive<Str<Sa>>, Choice4<Str<Sae>, PeekSlice2<1, 0>, any, CharRange<'a', 'é'>>, Sequence2<Str<SA>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice1<1>, Empty>, push<Rep<Str<Ssp>, Empty>>>>, RepOnce<Str<Ssp>, Empty>>");
    v.visit::<Sequence2<Sequence2<Choice4<soi, Str<Ssp>, Str<SA>, Str<Sba>>, push<Str<Scr>>, push<Str<Sab>>, push<Str<Scr>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice3<Option<Str<Ssp>>, RepMinMax<Str<Slf>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Sequence2<Str<Seb>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<-2, -1>, RepOnce<Str<Ssp>, Empty>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>("Sequence2<Sequence2<Choice4<soi, Str<Ssp>, Str<SA>, Str<Sba>>, push<Str<Scr>>, push<Str<Sab>>, push<Str<Scr>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice3<Option<Str<Ssp>>, RepMinMax<Str<Slf>, push<Rep<Str<Ssp>, Empty>>, 0, 0>, Sequence2<Str<Seb>, RepOnce<Str<Ssp>, Empty>, PeekSlice2<-2, -1>, RepOnce<Str<Ssp>, Empty>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>");
    v.visit::<Negative<Char<'é'>>>("Negative<Char<'é'>>");
    v.visit::<Choice4<Choice5<push<soi>, Sequence3<ascii_alpha, Rep<Choice2<Str<Ssp>, newline>, Empty>, soi, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Choice2<Str<Sab>, PeekSlice1<-1>>, Option<Str<Seb>>, RuleB<'i, newline>>, Positive<Sequence5<Str<Scrlf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Positive<Rep<Str<SA>, Option<Str<Ssp>>>>, push<push<Str<Sba>>>>>("Choice4<Choice5<push<soi>, Sequence3<ascii_alpha, Rep<Choice2<Str<Ssp>, newline>, Empty>, soi, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>>, Choice2<Str<Sab>, PeekSlice1<-1>>, Option<Str<Seb>>, RuleB<'i, newline>>, Positive<Sequence5<Str<Scrlf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Sae>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Insens<'i, Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Positive<Rep<Str<SA>, Option<Str<Ssp>>>>, push<push<Str<Sba>>>>");
    v.visit::<Choice3<Option<Choice2<Str<Sba>, CharRange<'a', 'b'>>>, RuleC<'i, soi>, Sequence4<any, push<Rep<Str<Ssp>, Empty>>, push<Str<Se>>, push<Rep<Str<Ssp>, Empty>>, push<newline>, push<Rep<Str<Ssp>, Empty>>, Sequence5<newline, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>, pest3_core::typed::unicode::UPPERCASE, push<Rep<Str<Ssp>, Empty>>, Char<'a'>, push<Rep<Str<Ssp>, Empty>>, Str<Scr>, push<Rep<Str<Ssp>, Empty>>>, push<Rep<Str<Ssp>, Empty>>>>>("Choice3<Option<Choice2<Str<Sba>, CharRange<'a', 'b'>>>, RuleC<'i, soi>, Sequence4<any, push<Rep<Str<Ssp>, Empty>>, push<Str<Se>>, push<Rep<Str<Ssp>, Empty>>, push<newline>, push<Rep<Str<Ssp>, Empty>>, Sequence5<newline, push<Rep<Str<Ssp>, Empty>>, any, push<Rep<Str<Ssp>, Empty>>, pest3_core::typed::unicode::UPPERCASE, push<Rep<Str<Ssp>, Empty>>, Char<'a'>, push<Rep<Str<Ssp>, Empty>>, Str<Scr>, push<Rep<Str<Ssp>, Empty>>>, push<Rep<Str<Ssp>, Empty>>>>");
    v.visit::<RuleA<'i, push<Negative<drop>>>>("RuleA<'i, push<Negative<drop>>>");
    v.visit::<push<Negative<Choice5<Insens<'i, Sab>, Str<Ssp>, ascii_alpha, Str<Slf>, Char<'é'>>>>>("push<Negative<Choice5<Insens<'i, Sab>, Str<Ssp>, ascii_alpha, Str<Slf>, Char<'é'>>>>");
    v.visit::<RuleB<'i, Sequence5<push<PeekSlice1<0>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice2<1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Option<ascii_alpha>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Sequence4<Str<Ssp>, Empty, peek_all<'i>, Option<Str<Ssp>>, Str<Sab>, Empty, peek<'i>, RepOnce<Str<Ssp>, Empty>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice5<Str<Sae>, Positive<Str<Sba>>, ascii_alpha, Choice2<ascii_alpha, Str<Scrlf>>, Sequence3<SkipChar<'i, 2>, Empty, Insens<'i, Se>, Empty, peek_all<'i>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>>("RuleB<'i, Sequence5<push<PeekSlice1<0>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, PeekSlice2<1, 2>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Negative<Option<ascii_alpha>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Sequence4<Str<Ssp>, Empty, peek_all<'i>, Option<Str<Ssp>>, Str<Sab>, Empty, peek<'i>, RepOnce<Str<Ssp>, Empty>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Choice5<Str<Sae>, Positive<Str<Sba>>, ascii_alpha, Choice2<ascii_alpha, Str<Scrlf>>, Sequence3<SkipChar<'i, 2>, Empty, Insens<'i, Se>, Empty, peek_all<'i>, Empty>>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>");
    v.visit::<Choice2<Str<Slf>, RepMinMax<Choice2<Option<SkipChar<'i, 0>>, RepOnce<Char<'a'>, Option<Str<Ssp>>>>, RepOnce<Str<Ssp>, Empty>, 2, 3>>>("Choice2<Str<Slf>, RepMinMax<Choice2<Option<SkipChar<'i, 0>>, RepOnce<Char<'a'>, Option<Str<Ssp>>>>, RepOnce<Str<Ssp>, Empty>, 2, 3>>");
    v.visit::<Sequence4<Choice5<PeekSlice2<-2, -1>, Str<Seb>, pest3_core::typed::unicode::UPPERCASE, peek_all<'i>, Str<Sba>>, Choice2<Str<Sab>, Str<Se>>, PeekSlice1<-1>, push<Rep<Str<Ssp>, Empty>>, Choice2<Str<Sab>, drop>, Rep<Str<Ssp>, Empty>, Sequence4<Str<Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, Char<'a'>, Rep<Str<Ssp>, Empty>>, Empty>>("Sequence4<Choice5<PeekSlice2<-2, -1>, Str<Seb>, pest3_core::typed::unicode::UPPERCASE, peek_all<'i>, Str<Sba>>, Choice2<Str<Sab>, Str<Se>>, PeekSlice1<-1>, push<Rep<Str<Ssp>, Empty>>, Choice2<Str<Sab>, drop>, Rep<Str<Ssp>, Empty>, Sequence4<Str<Sa>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Slf>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Str<Scrlf>, push<Rep<Str<Ssp>, Empty>>, Char<'a'>, Rep<Str<Ssp>, Empty>>, Empty>");
    v.visit::<Positive<Char<'é'>>>("Positive<Char<'é'>>");
    v.visit::<RuleA<'i, Sequence3<Sequence3<drop, Rep<Str<Ssp>, Empty>, peek<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, pop<'i>, Empty>, push<SkipChar<'i, 0>>, Option<SkipChar<'i, 2>>, push<SkipChar<'i, 0>>, Sequence5<Insens<'i, Sa>, Option<Str<Ssp>>, Str<Ssp>, Option<Str<Ssp>>, Str<Sb>, Option<Str<Ssp>>, Str<Se>, Option<Str<Ssp>>, Str<SA>, Option<Str<Ssp>>>, push<SkipChar<'i, 0>>>>>("RuleA<'i, Sequence3<Sequence3<drop, Rep<Str<Ssp>, Empty>, peek<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>, pop<'i>, Empty>, push<SkipChar<'i, 0>>, Option<SkipChar<'i, 2>>, push<SkipChar<'i, 0>>, Sequence5<Insens<'i, Sa>, Option<Str<Ssp>>, Str<Ssp>, Option<Str<Ssp>>, Str<Sb>, Option<Str<Ssp>>, Str<Se>, Option<Str<Ssp>>, Str<SA>, Option<Str<Ssp>>>, push<SkipChar<'i, 0>>>>");
    v.visit::<Sequence5<Option<Str<S0>>, Empty, Sequence2<PeekSlice1<0>, Option<Str<Ssp>>, Empty, Empty>, Empty, Positive<PeekSlice2<0, 1>>, Empty, Sequence3<peek_all<'i>, Rep<Str<Ssp>, Empty>, Str<Sae>, Rep<Str<Ssp>, Empty>, Str<SA>, Rep<Str<Ssp>, Empty>>, Empty, RepMinMax<Str<Se>, Empty, 2, 2>, Empty>>("Sequence5<Option<Str<S0>>, Empty, Sequence2<PeekSlice1<0>, Option<Str<Ssp>>, Empty, Empty>, Empty, Positive<PeekSlice2<0, 1>>, Empty, Sequence3<peek_all<'i>, Rep<Str<Ssp>, Empty>, Str<Sae>, Rep<Str<Ssp>, Empty>, Str<SA>, Rep<Str<Ssp>, Empty>>, Empty, RepMinMax<Str<Se>, Empty, 2, 2>, Empty>");
    v.visit::<RepMinMax<Sequence2<Negative<Char<'é'>>, Option<Str<Ssp>>, Option<PeekSlice1<-1>>, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, 1, 1>>("RepMinMax<Sequence2<Negative<Char<'é'>>, Option<Str<Ssp>>, Option<PeekSlice1<-1>>, Option<Str<Ssp>>>, push<Rep<Str<Ssp>, Empty>>, 1, 1>");
    v.visit::<Sequence4<Choice3<Str<Scrlf>, any, Positive<Insens<'i, Sa>>>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Se>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Choice3<Char<'a'>, Str<Scrlf>, Str<Seb>>>, Empty, push<Sequence5<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<-2, -1>, Option<Str<Ssp>>, Str<Sb>, Empty, Str<S0>, RepOnce<Str<Ssp>, Empty>, peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Sequence2<Choice2<ascii_alpha, SkipChar<'i, 1>>, RepOnce<Str<Ssp>, Empty>, RuleB<'i, Char<'a'>>, RepOnce<Str<Ssp>, Empty>>>>("Sequence4<Choice3<Str<Scrlf>, any, Positive<Insens<'i, Sa>>>, push<Rep<Str<Ssp>, Empty>>, Insens<'i, Se>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Option<Choice3<Char<'a'>, Str<Scrlf>, Str<Seb>>>, Empty, push<Sequence5<Str<Sb>, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<-2, -1>, Option<Str<Ssp>>, Str<Sb>, Empty, Str<S0>, RepOnce<Str<Ssp>, Empty>, peek_all<'i>, Rep<Choice2<Str<Ssp>, newline>, Empty>>>, Sequence2<Choice2<ascii_alpha, SkipChar<'i, 1>>, RepOnce<Str<Ssp>, Empty>, RuleB<'i, Char<'a'>>, RepOnce<Str<Ssp>, Empty>>>");
    v.visit::<RepMinMax<Choice5<Sequence4<any, Empty, Insens<'i, Se>, Empty, Str<Sae>, Empty, eoi, Empty>, Rep<SkipChar<'i, 1>, Empty>, Sequence3<Str<Scrlf>, Empty, Char<'é'>, Empty, Insens<'i, Sae>, Empty>, RuleA<'i, Str<Scr>>, Str<Sb>>, Empty, 1, 2>>("RepMinMax<Choice5<Sequence4<any, Empty, Insens<'i, Se>, Empty, Str<Sae>, Empty, eoi, Empty>, Rep<SkipChar<'i, 1>, Empty>, Sequence3<Str<Scrlf>, Empty, Char<'é'>, Empty, Insens<'i, Sae>, Empty>, RuleA<'i, Str<Scr>>, Str<Sb>>, Empty, 1, 2>");
    v.visit::<Negative<Choice4<Insens<'i, Sae>, CharRange<'A', 'b'>, Str<Scrlf>, any>>>("Negative<Choice4<Insens<'i, Sae>, CharRange<'A', 'b'>, Str<Scrlf>, any>>");
    v.visit::<Choice2<Choice4<PeekSlice2<1, 2>, SkipChar<'i, 2>, Str<Sa>, PeekSlice1<0>>, Sequence4<ascii_alpha, Empty, pest3_core::typed::unicode::UPPERCASE, Empty, SkipChar<'i, 1>, Empty, Str<Sab>, Empty>>>("Choice2<Choice4<PeekSlice2<1, 2>, SkipChar<'i, 2>, Str<Sa>, PeekSlice1<0>>, Sequence4<ascii_alpha, Empty, pest3_core::typed::unicode::UPPERCASE, Empty, SkipChar<'i, 1>, Empty, Str<Sab>, Empty>>");
    v.visit::<Sequence3<RepMinMax<PeekSlice1<1>, Empty, 0, 1>, Rep<Str<Ssp>, Empty>, Choice5<Str<Sab>, Empty, Str<Sba>, Insens<'i, Sae>, CharRange<'A', 'b'>>, Rep<Str<Ssp>, Empty>, Option<PeekSlice2<0, -1>>, Rep<Str<Ssp>, Empty>>>("Sequence3<RepMinMax<PeekSlice1<1>, Empty, 0, 1>, Rep<Str<Ssp>, Empty>, Choice5<Str<Sab>, Empty, Str<Sba>, Insens<'i, Sae>, CharRange<'A', 'b'>>, Rep<Str<Ssp>, Empty>, Option<PeekSlice2<0, -1>>, Rep<Str<Ssp>, Empty>>");
    v.visit::<RepMinMax<Positive<Choice2<Str<Sba>, SkipChar<'i, 1>>>, Rep<Str<Ssp>, Empty>, 3, 3>>("RepMinMax<Positive<Choice2<Str<Sba>, SkipChar<'i, 1>>>, Rep<Str<Ssp>, Empty>, 3, 3>");
    v.visit::<Choice3<Sequence2<Str<Seb>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>>, Choice2<Insens<'i, Sa>, Str<Sb>>, PeekSlice1<1>>>("Choice3<Sequence2<Str<Seb>, RepOnce<Str<Ssp>, Empty>, CharRange<'a', 'b'>, RepOnce<Str<Ssp>, Empty>>, Choice2<Insens<'i, Sa>, Str<Sb>>, PeekSlice1<1>>");
    v.visit::<Sequence2<Choice3<ascii_alpha, Str<Scr>, PeekSlice2<1, 0>>, push<Rep<Str<Ssp>, Empty>>, Negative<pop_all<'i>>, push<Rep<Str<Ssp>, Empty>>>>("Sequence2<Choice3<ascii_alpha, Str<Scr>, PeekSlice2<1, 0>>, push<Rep<Str<Ssp>, Empty>>, Negative<pop_all<'i>>, push<Rep<Str<Ssp>, Empty>>>");
    v.visit::<RepMinMax<Option<Sequence2<Rep<ascii_alpha, Option<Str<Ssp>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Positive<Insens<'i, Se>>, Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, 1, 1>>("RepMinMax<Option<Sequence2<Rep<ascii_alpha, Option<Str<Ssp>>>, Rep<Choice2<Str<Ssp>, newline>, Empty>, Positive<Insens<'i, Se>>, Rep<Str<Ssp>, Empty>>>, Option<Str<Ssp>>, 1, 1>");
    v.visit::<Option<Choice5<NONE, Char<'a'>, pest3_core::typed::unicode::UPPERCASE, Str<Se>, peek_all<'i>>>>("Option<Choice5<NONE, Char<'a'>, pest3_core::typed::unicode::UPPERCASE, Str<Se>, peek_all<'i>>>");
    v.visit::<Sequence2<Sequence4<Positive<NONE>, Empty, Sequence3<pest3_core::typed::unicode::UPPERCASE, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<1, 0>, push<Rep<Str<Ssp>, Empty>>, Str<Se>, push<Rep<Str<Ssp>, Empty>>>, Empty, Insens<'i, Sae>, Empty, Choice4<newline, soi, PeekSlice2<0, 1>, PeekSlice2<-2, -1>>, Empty>, Empty, Choice5<Choice2<newline, newline>, Choice5<SkipChar<'i, 1>, pop<'i>, Str<Sab>, PeekSlice2<1, 0>, eoi>, Sequence2<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, peek_all<'i>, push<Rep<Str<Ssp>, Empty>>>, Choice3<Str<Scrlf>, Str<Sab>, drop>, Choice2<Str<Sab>, Str<Sb>>>, Empty>>("Sequence2<Sequence4<Positive<NONE>, Empty, Sequence3<pest3_core::typed::unicode::UPPERCASE, push<Rep<Str<Ssp>, Empty>>, PeekSlice2<1, 0>, push<Rep<Str<Ssp>, Empty>>, Str<Se>, push<Rep<Str<Ssp>, Empty>>>, Empty, Insens<'i, Sae>, Empty, Choice4<newline, soi, PeekSlice2<0, 1>, PeekSlice2<-2, -1>>, Empty>, Empty, Choice5<Choice2<newline, newline>, Choice5<SkipChar<'i, 1>, pop<'i>, Str<Sab>, PeekSlice2<1, 0>, eoi>, Sequence2<SkipChar<'i, 2>, push<Rep<Str<Ssp>, Empty>>, peek_all<'i>, push<Rep<Str<Ssp>, Empty>>>, Choice3<Str<Scrlf>, Str<Sab>, drop>, Choice2<Str<Sab>, Str<Sb>>>, Empty>");
    v.visit::<RepMinMax<RepMinMax<Choice3<RepMinMax<CharRange<'a', 'b'>, Empty, 1, 2>, RepMinMax<Str<Slf>, Empty, 1, 2>, newline>, Option<Str<Ssp>>, 1, 2>, Empty, 0, 3>>("RepMinMax<RepMinMax<Choice3<RepMinMax<CharRange<'a', 'b'>, Empty, 1, 2>, RepMinMax<Str<Slf>, Empty, 1, 2>, newline>, Option<Str<Ssp>>, 1, 2>, Empty, 0, 3>");
}
pub fn types<'i>(v: &mut impl Visitor<'i>) {
    types_0(v);
    types_1(v);
    types_2(v);
    types_3(v);
    types_4(v);
    types_5(v);
    types_6(v);
    types_7(v);
    types_8(v);
}
pub fn literals<'i>(v: &mut impl Visitor<'i>) {
    v.visit::<Str<Sa>>("Str<Sa>");
    v.visit::<Insens<'i, Sa>>("Insens<Sa>");
    v.visit::<Str<Sb>>("Str<Sb>");
    v.visit::<Insens<'i, Sb>>("Insens<Sb>");
    v.visit::<Str<Sab>>("Str<Sab>");
    v.visit::<Insens<'i, Sab>>("Insens<Sab>");
    v.visit::<Str<Sba>>("Str<Sba>");
    v.visit::<Insens<'i, Sba>>("Insens<Sba>");
    v.visit::<Str<SA>>("Str<SA>");
    v.visit::<Insens<'i, SA>>("Insens<SA>");
    v.visit::<Str<Se>>("Str<Se>");
    v.visit::<Insens<'i, Se>>("Insens<Se>");
    v.visit::<Str<Sae>>("Str<Sae>");
    v.visit::<Insens<'i, Sae>>("Insens<Sae>");
    v.visit::<Str<Scr>>("Str<Scr>");
    v.visit::<Insens<'i, Scr>>("Insens<Scr>");
    v.visit::<Str<Slf>>("Str<Slf>");
    v.visit::<Insens<'i, Slf>>("Insens<Slf>");
    v.visit::<Str<Scrlf>>("Str<Scrlf>");
    v.visit::<Insens<'i, Scrlf>>("Insens<Scrlf>");
    v.visit::<Str<Ssp>>("Str<Ssp>");
    v.visit::<Insens<'i, Ssp>>("Insens<Ssp>");
    v.visit::<Str<S0>>("Str<S0>");
    v.visit::<Insens<'i, S0>>("Insens<S0>");
    v.visit::<Str<Sk>>("Str<Sk>");
    v.visit::<Insens<'i, Sk>>("Insens<Sk>");
    v.visit::<Str<Seb>>("Str<Seb>");
    v.visit::<Insens<'i, Seb>>("Insens<Seb>");
    v.visit::<Str<Sp>>("Str<Sp>");
    v.visit::<Insens<'i, Sp>>("Insens<Sp>");
    v.visit::<Str<Sq>>("Str<Sq>");
    v.visit::<Insens<'i, Sq>>("Insens<Sq>");
    v.visit::<Str<Sl>>("Str<Sl>");
    v.visit::<Insens<'i, Sl>>("Insens<Sl>");
    v.visit::<Str<Sm>>("Str<Sm>");
    v.visit::<Insens<'i, Sm>>("Insens<Sm>");
    v.visit::<Str<Sn>>("Str<Sn>");
    v.visit::<Insens<'i, Sn>>("Insens<Sn>");
    v.visit::<Str<So>>("Str<So>");
    v.visit::<Insens<'i, So>>("Insens<So>");
}
pub fn literal<'i>(k: usize, v: &mut impl Visitor<'i>) {
    match k {
        0 => {
            v.visit::<Str<Sp>>("Str<Sp>");
            v.visit::<Insens<'i, Sp>>("Insens<Sp>");
        }
        1 => {
            v.visit::<Str<Sq>>("Str<Sq>");
            v.visit::<Insens<'i, Sq>>("Insens<Sq>");
        }
        2 => {
            v.visit::<Str<Sl>>("Str<Sl>");
            v.visit::<Insens<'i, Sl>>("Insens<Sl>");
        }
        3 => {
            v.visit::<Str<Sm>>("Str<Sm>");
            v.visit::<Insens<'i, Sm>>("Insens<Sm>");
        }
        4 => {
            v.visit::<Str<Sn>>("Str<Sn>");
            v.visit::<Insens<'i, Sn>>("Insens<Sn>");
        }
        5 => {
            v.visit::<Str<So>>("Str<So>");
            v.visit::<Insens<'i, So>>("Insens<So>");
        }
        6 => {
            v.visit::<Str<Sa>>("Str<Sa>");
            v.visit::<Insens<'i, Sa>>("Insens<Sa>");
        }
        7 => {
            v.visit::<Str<Sb>>("Str<Sb>");
            v.visit::<Insens<'i, Sb>>("Insens<Sb>");
        }
        8 => {
            v.visit::<Str<Sab>>("Str<Sab>");
            v.visit::<Insens<'i, Sab>>("Insens<Sab>");
        }
        9 => {
            v.visit::<Str<Sba>>("Str<Sba>");
            v.visit::<Insens<'i, Sba>>("Insens<Sba>");
        }
        10 => {
            v.visit::<Str<SA>>("Str<SA>");
            v.visit::<Insens<'i, SA>>("Insens<SA>");
        }
        11 => {
            v.visit::<Str<Se>>("Str<Se>");
            v.visit::<Insens<'i, Se>>("Insens<Se>");
        }
        12 => {
            v.visit::<Str<Sae>>("Str<Sae>");
            v.visit::<Insens<'i, Sae>>("Insens<Sae>");
        }
        13 => {
            v.visit::<Str<Scr>>("Str<Scr>");
            v.visit::<Insens<'i, Scr>>("Insens<Scr>");
        }
        14 => {
            v.visit::<Str<Slf>>("Str<Slf>");
            v.visit::<Insens<'i, Slf>>("Insens<Slf>");
        }
        15 => {
            v.visit::<Str<Scrlf>>("Str<Scrlf>");
            v.visit::<Insens<'i, Scrlf>>("Insens<Scrlf>");
        }
        16 => {
            v.visit::<Str<Ssp>>("Str<Ssp>");
            v.visit::<Insens<'i, Ssp>>("Insens<Ssp>");
        }
        17 => {
            v.visit::<Str<S0>>("Str<S0>");
            v.visit::<Insens<'i, S0>>("Insens<S0>");
        }
        18 => {
            v.visit::<Str<Sk>>("Str<Sk>");
            v.visit::<Insens<'i, Sk>>("Insens<Sk>");
        }
        19 => {
            v.visit::<Str<Seb>>("Str<Seb>");
            v.visit::<Insens<'i, Seb>>("Insens<Seb>");
        }
        _ => unreachable!(),
    }
}
pub fn never<'i>(v: &mut impl NeverVisitor<'i>) {
    v.visit::<Empty>("Empty");
    v.visit::<RepMax<Empty, Empty, 0>>("RepMax<Empty, Empty, 0>");
    v.visit::<RepMax<Empty, Empty, 1>>("RepMax<Empty, Empty, 1>");
    v.visit::<RepMax<Empty, Empty, 3>>("RepMax<Empty, Empty, 3>");
    v.visit::<RepMax<Empty, Option<Str<Ssp>>, 0>>("RepMax<Empty, Option<Str<Ssp>>, 0>");
    v.visit::<RepMax<Empty, Option<Str<Ssp>>, 1>>("RepMax<Empty, Option<Str<Ssp>>, 1>");
    v.visit::<RepMax<Empty, Option<Str<Ssp>>, 3>>("RepMax<Empty, Option<Str<Ssp>>, 3>");
    v.visit::<RepMax<Empty, RepOnce<Str<Ssp>, Empty>, 0>>("RepMax<Empty, RepOnce<Str<Ssp>, Empty>, 0>");
    v.visit::<RepMax<Empty, RepOnce<Str<Ssp>, Empty>, 1>>("RepMax<Empty, RepOnce<Str<Ssp>, Empty>, 1>");
    v.visit::<RepMax<Empty, RepOnce<Str<Ssp>, Empty>, 3>>("RepMax<Empty, RepOnce<Str<Ssp>, Empty>, 3>");
    v.visit::<RepMax<Option<Str<Sa>>, Empty, 0>>("RepMax<Option<Str<Sa>>, Empty, 0>");
    v.visit::<RepMax<Option<Str<Sa>>, Empty, 1>>("RepMax<Option<Str<Sa>>, Empty, 1>");
    v.visit::<RepMax<Option<Str<Sa>>, Empty, 3>>("RepMax<Option<Str<Sa>>, Empty, 3>");
    v.visit::<RepMax<Option<Str<Sa>>, Option<Str<Ssp>>, 0>>("RepMax<Option<Str<Sa>>, Option<Str<Ssp>>, 0>");
    v.visit::<RepMax<Option<Str<Sa>>, Option<Str<Ssp>>, 1>>("RepMax<Option<Str<Sa>>, Option<Str<Ssp>>, 1>");
    v.visit::<RepMax<Option<Str<Sa>>, Option<Str<Ssp>>, 3>>("RepMax<Option<Str<Sa>>, Option<Str<Ssp>>, 3>");
    v.visit::<RepMax<Option<Str<Sa>>, RepOnce<Str<Ssp>, Empty>, 0>>("RepMax<Option<Str<Sa>>, RepOnce<Str<Ssp>, Empty>, 0>");
    v.visit::<RepMax<Option<Str<Sa>>, RepOnce<Str<Ssp>, Empty>, 1>>("RepMax<Option<Str<Sa>>, RepOnce<Str<Ssp>, Empty>, 1>");
    v.visit::<RepMax<Option<Str<Sa>>, RepOnce<Str<Ssp>, Empty>, 3>>("RepMax<Option<Str<Sa>>, RepOnce<Str<Ssp>, Empty>, 3>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, Empty, 0>>("RepMax<Option<RuleA<'i, any>>, Empty, 0>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, Empty, 1>>("RepMax<Option<RuleA<'i, any>>, Empty, 1>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, Empty, 3>>("RepMax<Option<RuleA<'i, any>>, Empty, 3>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, Option<Str<Ssp>>, 0>>("RepMax<Option<RuleA<'i, any>>, Option<Str<Ssp>>, 0>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, Option<Str<Ssp>>, 1>>("RepMax<Option<RuleA<'i, any>>, Option<Str<Ssp>>, 1>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, Option<Str<Ssp>>, 3>>("RepMax<Option<RuleA<'i, any>>, Option<Str<Ssp>>, 3>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, RepOnce<Str<Ssp>, Empty>, 0>>("RepMax<Option<RuleA<'i, any>>, RepOnce<Str<Ssp>, Empty>, 0>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, RepOnce<Str<Ssp>, Empty>, 1>>("RepMax<Option<RuleA<'i, any>>, RepOnce<Str<Ssp>, Empty>, 1>");
    v.visit::<RepMax<Option<RuleA<'i, any>>, RepOnce<Str<Ssp>, Empty>, 3>>("RepMax<Option<RuleA<'i, any>>, RepOnce<Str<Ssp>, Empty>, 3>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, Empty, 0>>("RepMax<RepMax<Option<newline>, Empty, 2>, Empty, 0>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, Empty, 1>>("RepMax<RepMax<Option<newline>, Empty, 2>, Empty, 1>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, Empty, 3>>("RepMax<RepMax<Option<newline>, Empty, 2>, Empty, 3>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, Option<Str<Ssp>>, 0>>("RepMax<RepMax<Option<newline>, Empty, 2>, Option<Str<Ssp>>, 0>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, Option<Str<Ssp>>, 1>>("RepMax<RepMax<Option<newline>, Empty, 2>, Option<Str<Ssp>>, 1>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, Option<Str<Ssp>>, 3>>("RepMax<RepMax<Option<newline>, Empty, 2>, Option<Str<Ssp>>, 3>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, 0>>("RepMax<RepMax<Option<newline>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, 0>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, 1>>("RepMax<RepMax<Option<newline>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, 1>");
    v.visit::<RepMax<RepMax<Option<newline>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, 3>>("RepMax<RepMax<Option<newline>, Empty, 2>, RepOnce<Str<Ssp>, Empty>, 3>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Empty, 0>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Empty, 0>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Empty, 1>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Empty, 1>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Empty, 3>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Empty, 3>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>, 0>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>, 0>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>, 1>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>, 1>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>, 3>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>, 3>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, RepOnce<Str<Ssp>, Empty>, 0>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, RepOnce<Str<Ssp>, Empty>, 0>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, RepOnce<Str<Ssp>, Empty>, 1>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, RepOnce<Str<Ssp>, Empty>, 1>");
    v.visit::<RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, RepOnce<Str<Ssp>, Empty>, 3>>("RepMax<Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>, RepOnce<Str<Ssp>, Empty>, 3>");
    v.visit::<RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty, 1>>("RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty, 1>");
    v.visit::<RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty, 2>>("RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty, 2>");
    v.visit::<RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty, 4>>("RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty, 4>");
    v.visit::<RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, push<Option<Str<Ssp>>>, 1>>("RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, push<Option<Str<Ssp>>>, 1>");
    v.visit::<RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, push<Option<Str<Ssp>>>, 2>>("RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, push<Option<Str<Ssp>>>, 2>");
    v.visit::<RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, push<Option<Str<Ssp>>>, 4>>("RepMax<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, push<Option<Str<Ssp>>>, 4>");
    v.visit::<RepMax<Option<Str<Sa>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 1>>("RepMax<Option<Str<Sa>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 1>");
    v.visit::<RepMax<Option<Str<Sa>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 2>>("RepMax<Option<Str<Sa>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 2>");
    v.visit::<RepMax<Option<Str<Sa>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 4>>("RepMax<Option<Str<Sa>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 4>");
    v.visit::<RepMax<Must<push<Str<Sa>>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 1>>("RepMax<Must<push<Str<Sa>>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 1>");
    v.visit::<RepMax<Must<push<Str<Sa>>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 2>>("RepMax<Must<push<Str<Sa>>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 2>");
    v.visit::<RepMax<Must<push<Str<Sa>>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 4>>("RepMax<Must<push<Str<Sa>>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>, 4>");
    v.visit::<RepMax<Must<Choice2<pop<'i>, push<any>>>, Empty, 1>>("RepMax<Must<Choice2<pop<'i>, push<any>>>, Empty, 1>");
    v.visit::<RepMax<Must<Choice2<pop<'i>, push<any>>>, Empty, 2>>("RepMax<Must<Choice2<pop<'i>, push<any>>>, Empty, 2>");
    v.visit::<RepMax<Must<Choice2<pop<'i>, push<any>>>, Empty, 4>>("RepMax<Must<Choice2<pop<'i>, push<any>>>, Empty, 4>");
    v.visit::<RepMax<Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>, Empty, 1>>("RepMax<Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>, Empty, 1>");
    v.visit::<RepMax<Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>, Empty, 2>>("RepMax<Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>, Empty, 2>");
    v.visit::<RepMax<Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>, Empty, 4>>("RepMax<Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>, Empty, 4>");
    v.visit::<RepMax<Must<Sequence2<drop, Empty, Str<Sa>, Empty>>, Option<Str<Ssp>>, 1>>("RepMax<Must<Sequence2<drop, Empty, Str<Sa>, Empty>>, Option<Str<Ssp>>, 1>");
    v.visit::<RepMax<Must<Sequence2<drop, Empty, Str<Sa>, Empty>>, Option<Str<Ssp>>, 2>>("RepMax<Must<Sequence2<drop, Empty, Str<Sa>, Empty>>, Option<Str<Ssp>>, 2>");
    v.visit::<RepMax<Must<Sequence2<drop, Empty, Str<Sa>, Empty>>, Option<Str<Ssp>>, 4>>("RepMax<Must<Sequence2<drop, Empty, Str<Sa>, Empty>>, Option<Str<Ssp>>, 4>");
    v.visit::<Rep<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty>>("Rep<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Empty>");
    v.visit::<Rep<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>>>("Rep<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Option<Str<Ssp>>>");
    v.visit::<Rep<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>>>("Rep<Must<Sequence2<push<any>, Empty, Str<Sb>, Empty>>, Sequence2<push<any>, Empty, Str<Sb>, Empty>>");
    v.visit::<Rep<Must<RuleA<'i, any>>, Empty>>("Rep<Must<RuleA<'i, any>>, Empty>");
    v.visit::<Rep<Must<newline>, Rep<Str<Ssp>, Empty>>>("Rep<Must<newline>, Rep<Str<Ssp>, Empty>>");
}
