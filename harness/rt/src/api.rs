//! Type-erased access to a generated rule type and what is observed through it.
use pest3_core::typed::{Tracker, TypedNode};
use pest3_core::{error::Error, token::Pair, typed::RuleType, Position, Span, Stack};
use std::fmt::{Debug, Write};

/// What is seen of a parsed node.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct View {
    pub walk: String,
    /// Pairs as contributed to the parent.
    pub pairs: String,
    /// `as_pair_tree` (rules that have it).
    pub tree: Option<String>,
    pub getters: Vec<(&'static str, String)>,
    pub problems: Vec<String>,
}
pub fn pair_text<R: Debug>(p: &Pair<R>, o: &mut String) {
    let _ = write!(o, "{:?}@{}..{}[", p.rule, p.start, p.end);
    p.children.iter().for_each(|c| pair_text(c, o));
    o.push(']');
}
/// `Display` of a pair, re-rendered from the tree.
fn pair_display<R: Debug>(p: &Pair<R>, o: &mut String) {
    let _ = write!(o, "{:?}({}, {}, [", p.rule, p.start, p.end);
    for (i, c) in p.children.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        pair_display(c, o);
    }
    o.push_str("])");
}
pub fn check_pair<R: RuleType>(p: &Pair<R>, o: &mut Vec<String>) {
    let mut d = String::new();
    pair_display(p, &mut d);
    if d != p.to_string() {
        o.push(format!("Display of a pair is {p}, the tree is {d}"));
    }
    let c: Pair<String> = p.convert(&|r: R| format!("{r:?}"));
    fn cmp<R: Debug>(a: &Pair<R>, b: &Pair<String>) -> bool {
        format!("{:?}", a.rule) == b.rule
            && a.start == b.start
            && a.end == b.end
            && a.children.len() == b.children.len()
            && a.children.iter().zip(&b.children).all(|(x, y)| cmp(x, y))
    }
    if !cmp(p, &c) {
        o.push(format!("convert changed {p}"));
    }
}

pub struct Api<R: RuleType + 'static> {
    /// As in the model.
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub ppp: for<'i> fn(Position<'i>, &mut Stack<Span<'i>>, &mut Tracker<'i, R>) -> Option<(Position<'i>, View)>,
    pub pp: for<'i> fn(Position<'i>, &mut Stack<Span<'i>>, &mut Tracker<'i, R>) -> Option<View>,
    pub cpp: for<'i> fn(Position<'i>, &mut Stack<Span<'i>>, &mut Tracker<'i, R>) -> Option<Position<'i>>,
    pub cp: for<'i> fn(Position<'i>, &mut Stack<Span<'i>>, &mut Tracker<'i, R>) -> bool,
    pub p: for<'i> fn(&'i str) -> Result<View, Box<Error<R>>>,
    pub part: for<'i> fn(&'i str) -> Result<(Position<'i>, View), Box<Error<R>>>,
    pub c: for<'i> fn(&'i str) -> Result<(), Box<Error<R>>>,
    pub cpart: for<'i> fn(&'i str) -> Result<Position<'i>, Box<Error<R>>>,
    /// Through `TypedParser`.
    pub tp: for<'i> fn(&'i str) -> Result<View, Box<Error<R>>>,
    pub tpart: for<'i> fn(&'i str) -> Result<(Position<'i>, View), Box<Error<R>>>,
    pub rule: fn() -> Option<R>,
    /// Clones, comparisons and threads (profile "safe").
    pub extra: Option<for<'i> fn(&'i str) -> Vec<String>>,
}
/// `view_fn!(R, parser, |'i| rules::x<'i>, pairs | silent, ["getter"...])`
#[macro_export]
macro_rules! api {
    ($R:ty, $P:ty, $name:expr, $args:expr, $i:lifetime, $T:ty, $kind:ident, [$($g:ident),*] $(, $x:ident)?) => {{
        use $crate::pest3_core::{typed::{TypedNode, TypedParser, Tracker}, Position, Span, Stack, error::Error};
        fn view<$i>(t: &$T) -> $crate::View {
            let mut v = $crate::View::default();
            $crate::Walk::walk(t, &mut v.walk);
            $crate::api_pairs!($kind, t, v, $R, $T);
            $( v.getters.push((stringify!($g), $crate::shape::shape(t.$g()))); )*
            v
        }
        fn ppp<$i>(p: Position<$i>, s: &mut Stack<Span<$i>>, t: &mut Tracker<$i, $R>) -> Option<(Position<$i>, $crate::View)> { <$T as TypedNode<$i, $R>>::try_parse_with_partial(p, s, t).map(|(p, x)| (p, view(&x))) }
        fn pp<$i>(p: Position<$i>, s: &mut Stack<Span<$i>>, t: &mut Tracker<$i, $R>) -> Option<$crate::View> { <$T as TypedNode<$i, $R>>::try_parse_with(p, s, t).map(|x| view(&x)) }
        fn cpp<$i>(p: Position<$i>, s: &mut Stack<Span<$i>>, t: &mut Tracker<$i, $R>) -> Option<Position<$i>> { <$T as TypedNode<$i, $R>>::check_with_partial(p, s, t) }
        fn cp<$i>(p: Position<$i>, s: &mut Stack<Span<$i>>, t: &mut Tracker<$i, $R>) -> bool { <$T as TypedNode<$i, $R>>::check_with(p, s, t) }
        fn p<$i>(s: &$i str) -> Result<$crate::View, Box<Error<$R>>> { <$T as TypedNode<$i, $R>>::try_parse(s).map(|x| view(&x)) }
        fn part<$i>(s: &$i str) -> Result<(Position<$i>, $crate::View), Box<Error<$R>>> { <$T as TypedNode<$i, $R>>::try_parse_partial(s).map(|(p, x)| (p, view(&x))) }
        fn c<$i>(s: &$i str) -> Result<(), Box<Error<$R>>> { <$T as TypedNode<$i, $R>>::check(s) }
        fn cpart<$i>(s: &$i str) -> Result<Position<$i>, Box<Error<$R>>> { <$T as TypedNode<$i, $R>>::check_partial(s) }
        fn tp<$i>(s: &$i str) -> Result<$crate::View, Box<Error<$R>>> { <$P as TypedParser<$R>>::try_parse::<$T>(s).map(|x| view(&x)) }
        fn tpart<$i>(s: &$i str) -> Result<(Position<$i>, $crate::View), Box<Error<$R>>> { <$P as TypedParser<$R>>::try_parse_partial::<$T>(s).map(|(p, x)| (p, view(&x))) }
        fn rule<$i>() -> Option<$R> { $crate::api_rule!($kind, $R, $T) }
        $crate::Api::<$R> { name: $name, args: $args, ppp, pp, cpp, cp, p, part, c, cpart, tp, tpart, rule, extra: $crate::api_extra!($($x)? $R, $i, $T, view) }
    }};
}
#[macro_export]
macro_rules! api_extra {
    (full $R:ty, $i:lifetime, $T:ty, $view:ident) => {{
        fn extra<$i>(s: &$i str) -> Vec<String> {
            fn shared<T: Send + Sync>(_: &T) {}
            $crate::walk::parsing(s);
            match <$T as $crate::pest3_core::typed::TypedNode<$i, $R>>::try_parse_partial(s) {
                Err(e) => {
                    shared(&e);
                    let c = e.clone();
                    let (a, b) = (e.to_string(), format!("{e:?}"));
                    drop(e);
                    if (a, b) == (c.to_string(), format!("{c:?}")) { vec![] } else { vec!["a clone of an error differs".into()] }
                }
                Ok((_, t)) => {
                    shared(&t);
                    let mut problems = vec![];
                    let t = Box::new(t);
                    let c = Box::new((*t).clone());
                    if *c != *t { problems.push("a clone of a tree is not equal to it".into()); }
                    let a = ($view(&*t), if cfg!(miri) { String::new() } else { format!("{t:?} {t:#?}") });
                    drop(t);
                    if a != ($view(&*c), if cfg!(miri) { String::new() } else { format!("{c:?} {c:#?}") }) { problems.push("a clone of a tree holds something else".into()); }
                    let away = std::thread::scope(|x| x.spawn(|| $view(&*c)).join());
                    if away.ok().as_ref() != Some(&a.0) { problems.push("a tree holds something else on another thread".into()); }
                    problems
                }
            }
        }
        Some(extra)
    }};
    ($R:ty, $i:lifetime, $T:ty, $view:ident) => { None };
}
#[macro_export]
macro_rules! api_rule {
    (pairs, $R:ty, $T:ty) => { Some(<$T as $crate::pest3_core::typed::PairTree<$R>>::get_rule()) };
    ($k:ident, $R:ty, $T:ty) => { None };
}
#[macro_export]
macro_rules! api_pairs {
    (silent, $t:ident, $v:ident, $R:ty, $T:ty) => {
        <$T as $crate::pest3_core::typed::PairContainer<$R>>::for_self_or_for_each_child_pair($t, &mut |p| $crate::pair_text(&p, &mut $v.pairs));
        if !<$T as $crate::pest3_core::typed::PairContainer<$R>>::vec_children_pairs($t).is_empty() { $v.problems.push("silent rule has child pairs".into()); }
    };
    (pairs, $t:ident, $v:ident, $R:ty, $T:ty) => {
        let mut all = vec![];
        <$T as $crate::pest3_core::typed::PairContainer<$R>>::for_self_or_for_each_child_pair($t, &mut |p| all.push(p));
        all.iter().for_each(|p| $crate::pair_text(p, &mut $v.pairs));
        let tree = <$T as $crate::pest3_core::typed::PairTree<$R>>::as_pair_tree($t);
        let mut s = String::new();
        $crate::pair_text(&tree, &mut s);
        $crate::check_pair(&tree, &mut $v.problems);
        if <$T as $crate::pest3_core::typed::PairTree<$R>>::get_span($t) != (tree.start, tree.end) { $v.problems.push("get_span differs from the pair's span".into()); }
        if <$T as $crate::pest3_core::typed::PairContainer<$R>>::vec_children_pairs($t) != tree.children { $v.problems.push("vec_children_pairs differs from the pair's children".into()); }
        $v.tree = Some(s);
    };
    (none, $t:ident, $v:ident, $R:ty, $T:ty) => { $v.pairs.push_str("none"); };
}

/// What one call showed.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Obs {
    pub ppp: Option<(usize, View)>,
    pub pp: Option<View>,
    pub cpp: Option<usize>,
    pub cp: bool,
    /// Stack after each successful call (as spans), in the order ppp, pp, cpp, cp.
    pub stacks: Vec<Option<Vec<(usize, usize)>>>,
    /// Tracker texts of ppp, cpp, pp, cp.
    pub tracks: Vec<String>,
    /// Whether the snapshots were balanced.
    pub balanced: Vec<bool>,
    pub simple: Option<Simple>,
    /// The trackers of failed ppp and pp as errors, if `simple` has none.
    pub errors: [Option<Fail>; 2],
    pub problems: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub pos: usize,
    pub line_col: (usize, usize),
    pub message: String,
    pub display: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Simple {
    pub p: Result<View, Fail>,
    pub part: Result<(usize, View), Fail>,
    pub c: Result<(), Fail>,
    pub cpart: Result<usize, Fail>,
    pub tp: Result<View, Fail>,
    pub tpart: Result<(usize, View), Fail>,
}
fn track_text<R: RuleType>(t: Tracker<'_, R>) -> String {
    let (pos, at) = t.finish();
    let mut o = format!("@{}", pos.pos());
    for (k, (p, n, s)) in at {
        let names = |mut v: Vec<R>| {
            v.sort();
            v.dedup();
            v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",")
        };
        let _ = write!(
            o,
            " {{by {}: +[{}] -[{}] !{:?}}}",
            k.map_or("-".into(), |r| format!("{r:?}")),
            names(p),
            names(n),
            s.iter().map(|x| x.to_string()).collect::<Vec<_>>()
        );
    }
    o
}
fn fail<R: pest2::RuleType>(e: Box<Error<R>>) -> Fail {
    use pest2::error::{ErrorVariant, InputLocation, LineColLocation};
    let pos = match e.location {
        InputLocation::Pos(p) => p,
        InputLocation::Span(_) => usize::MAX,
    };
    let line_col = match e.line_col {
        LineColLocation::Pos(p) => p,
        LineColLocation::Span(..) => (0, 0),
    };
    let message = match &e.variant {
        ErrorVariant::CustomError { message } => message.clone(),
        v => format!("{v:?}"),
    };
    Fail { pos, line_col, message, display: e.to_string() }
}
/// One parse session's arguments.
#[derive(Clone, Debug)]
pub struct Call<'a> {
    pub input: &'a str,
    pub start: usize,
    pub stack: &'a [(usize, usize)],
}
pub trait Dyn {
    fn len(&self) -> usize;
    fn name(&self, i: usize) -> &'static str;
    fn args(&self, i: usize) -> &'static [&'static str];
    fn observe(&self, i: usize, call: &Call<'_>) -> Obs;
    /// `try_parse` and `check` only, or the same from a position inside.
    fn quick(&self, i: usize, input: &str, start: usize) -> (Result<View, Fail>, Result<(), Fail>);
    /// The same call many times: how many of each kind succeeded.
    fn again(&self, i: usize, input: &str, n: usize) -> (usize, usize);
    fn rule_name(&self, i: usize) -> Option<String>;
    fn extra(&self, i: usize, input: &str) -> Option<Vec<String>>;
    /// Partial parse and check, with what they leave.
    fn light(&self, i: usize, call: &Call<'_>) -> (Option<(usize, View)>, Option<usize>, String, Vec<(usize, usize)>, Option<Fail>);
}
fn raw(s: &Stack<Span<'_>>) -> Vec<(usize, usize)> {
    s[0..s.len()].iter().map(|x| (x.start(), x.end())).collect()
}
impl<R: RuleType + pest2::RuleType> Dyn for Vec<Api<R>> {
    fn len(&self) -> usize {
        Vec::len(self)
    }
    fn name(&self, i: usize) -> &'static str {
        self[i].name
    }
    fn args(&self, i: usize) -> &'static [&'static str] {
        self[i].args
    }
    fn rule_name(&self, i: usize) -> Option<String> {
        (self[i].rule)().map(|r| format!("{r:?}"))
    }
    fn light(&self, i: usize, call: &Call<'_>) -> (Option<(usize, View)>, Option<usize>, String, Vec<(usize, usize)>, Option<Fail>) {
        let a = &self[i];
        crate::walk::parsing(call.input);
        let pos = Position::new(call.input, call.start).expect("boundary");
        let mk = || {
            let mut s = Stack::new();
            for (x, y) in call.stack {
                s.push(Span::new(call.input, *x, *y).expect("span"));
            }
            s.snapshot();
            s
        };
        let (mut s, mut t) = (mk(), Tracker::new(pos));
        let p = (a.ppp)(pos, &mut s, &mut t).map(|(p, v)| (p.pos(), v));
        let left = raw(&s);
        let mut s = mk();
        let mut t2 = Tracker::new(pos);
        let c = (a.cpp)(pos, &mut s, &mut t2).map(|p| p.pos());
        (p, c, track_text(t), left, (a.c)(call.input).map_err(fail).err())
    }
    fn extra(&self, i: usize, input: &str) -> Option<Vec<String>> {
        self[i].extra.map(|f| f(input))
    }
    fn quick(&self, i: usize, input: &str, start: usize) -> (Result<View, Fail>, Result<(), Fail>) {
        crate::walk::parsing(input);
        if start > 0 {
            let a = &self[i];
            let pos = Position::new(input, start).expect("boundary");
            let (mut t, mut u) = (Tracker::new(pos), Tracker::new(pos));
            let p = (a.pp)(pos, &mut Stack::new(), &mut t).ok_or_else(|| fail(t.collect()));
            let c = (a.cp)(pos, &mut Stack::new(), &mut u);
            return (p, if c { Ok(()) } else { Err(fail(u.collect())) });
        }
        ((self[i].p)(input).map_err(fail), (self[i].c)(input).map_err(fail))
    }
    fn again(&self, i: usize, input: &str, n: usize) -> (usize, usize) {
        let a = &self[i];
        let pos = Position::from_start(input);
        let mut o = (0, 0);
        for _ in 0..n {
            let (mut t, mut u) = (Tracker::new(pos), Tracker::new(pos));
            o.0 += (a.pp)(pos, &mut Stack::new(), &mut t).is_some() as usize;
            o.1 += (a.cp)(pos, &mut Stack::new(), &mut u) as usize;
        }
        o
    }
    fn observe(&self, i: usize, call: &Call<'_>) -> Obs {
        let a = &self[i];
        crate::walk::parsing(call.input);
        let pos = Position::new(call.input, call.start).expect("boundary");
        let mut o = Obs::default();
        let init: Vec<(usize, usize)> = call.stack.to_vec();
        let mk = || {
            let mut s = Stack::new();
            for (x, y) in call.stack {
                s.push(Span::new(call.input, *x, *y).expect("span"));
            }
            s.snapshot();
            s
        };
        macro_rules! after {
            ($s:ident, $t:ident, $ok:expr) => {
                o.stacks.push(if $ok { Some(raw(&$s)) } else { None });
                $s.restore();
                o.balanced.push(raw(&$s) == init);
                o.tracks.push(track_text($t));
            };
        }
        let same = |p: &Position<'_>| p.pos() <= call.input.len() && call.input.is_char_boundary(p.pos());
        {
            let (mut s, mut t) = (mk(), Tracker::new(pos));
            let r = (a.ppp)(pos, &mut s, &mut t);
            if let Some((p, _)) = &r {
                if !same(p) {
                    o.problems.push(format!("end position {} is not inside the input", p.pos()));
                }
            }
            o.ppp = r.map(|(p, v)| (p.pos(), v));
            after!(s, t, o.ppp.is_some());
        }
        {
            let (mut s, mut t) = (mk(), Tracker::new(pos));
            o.pp = (a.pp)(pos, &mut s, &mut t);
            after!(s, t, o.pp.is_some());
        }
        {
            let (mut s, mut t) = (mk(), Tracker::new(pos));
            o.cpp = (a.cpp)(pos, &mut s, &mut t).map(|p| p.pos());
            after!(s, t, o.cpp.is_some());
        }
        {
            let (mut s, mut t) = (mk(), Tracker::new(pos));
            o.cp = (a.cp)(pos, &mut s, &mut t);
            after!(s, t, o.cp);
        }
        if call.start == 0 && call.stack.is_empty() {
            o.simple = Some(Simple {
                p: (a.p)(call.input).map_err(fail),
                part: (a.part)(call.input).map(|(p, v)| (p.pos(), v)).map_err(fail),
                c: (a.c)(call.input).map_err(fail),
                cpart: (a.cpart)(call.input).map(|p| p.pos()).map_err(fail),
                tp: (a.tp)(call.input).map_err(fail),
                tpart: (a.tpart)(call.input).map(|(p, v)| (p.pos(), v)).map_err(fail),
            });
        } else {
            if o.ppp.is_none() {
                let (mut s, mut t) = (mk(), Tracker::new(pos));
                let _ = (a.ppp)(pos, &mut s, &mut t);
                o.errors[0] = Some(fail(t.collect()));
            }
            if o.pp.is_none() {
                let (mut s, mut t) = (mk(), Tracker::new(pos));
                let _ = (a.pp)(pos, &mut s, &mut t);
                o.errors[1] = Some(fail(t.collect()));
            }
        }
        o
    }
}
/// What a getter that does not exist returns.
#[derive(Clone, Copy)]
pub struct Absent;
/// Keeps the trait in scope for generated code.
pub fn _assert_node<'i, R: RuleType, T: TypedNode<'i, R>>() {}
