//! Nodes used directly, without a generated parser: every type of the zoo against its model.
use crate::zoo::{self, never, types, NeverVisitor, Parser, Rl, Visitor, Zoo, M};
use model::rng::Rng;
use pest3_core::token::Pair;
use pest3_core::typed::template::restore_on_none;
use pest3_core::typed::{NeverFailedTypedNode, RuleType, Tracker, TypedParser};
use pest3_core::{Position, Span, Stack};
use tools::{chk, h, Ctx};

const ABC: &[&str] = &["a", "b", "A", "é", "\r", "\n", " "];
fn texts(c: &Ctx, random: u64, len: usize) -> Vec<String> {
    let mut v = vec![];
    let mut n = 0u64;
    for l in 0..=len {
        for mut k in 0..ABC.len().pow(l as u32) {
            n += 1;
            if n % c.shards != c.shard {
                continue;
            }
            let mut s = String::new();
            for _ in 0..l {
                s += ABC[k % ABC.len()];
                k /= ABC.len();
            }
            v.push(s);
        }
    }
    for i in c.mine(random) {
        let mut r = Rng::new(c.seed.wrapping_mul(131).wrapping_add(i));
        let l = 5 + r.below(14);
        let few = r.pct(60);
        v.push((0..l).map(|_| if few { ABC[r.below(3)] } else { ABC[r.below(7)] }).collect());
    }
    v
}
fn cuts(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|p| s.is_char_boundary(*p)).collect()
}
fn stack_of<'i>(s: &'i str, st: &[(usize, usize)]) -> Stack<Span<'i>> {
    let mut x = Stack::new();
    for (a, b) in st {
        x.push(Span::new(s, *a, *b).unwrap());
    }
    x
}
fn contents(s: &Stack<Span<'_>>) -> Vec<(usize, usize)> {
    s[0..s.len()].iter().map(|x| (x.start(), x.end())).collect()
}
fn err(e: &pest3_core::error::Error<Rl>) -> String {
    format!("{e}")
}
fn attempts(t: Tracker<'_, Rl>) -> String {
    let (p, m) = t.finish();
    let mut o = p.pos().to_string();
    for (k, (mut a, mut b, s)) in m {
        a.sort();
        a.dedup();
        b.sort();
        b.dedup();
        o += &format!(" {k:?}+{a:?}-{b:?}");
        for x in s {
            o += "!";
            o += &x.to_string();
        }
    }
    o
}

/// A node whose type is forgotten.
trait Dyn<'i> {
    fn show(&self) -> String;
    fn own_pairs(&self) -> Vec<Pair<Rl>>;
    fn vec_children(&self) -> Vec<Pair<Rl>>;
    fn each_child(&self) -> Vec<Pair<Rl>>;
    fn clone_is_same(&self) -> bool;
    fn same(&self, o: &dyn Any_<'i>) -> bool;
    fn any(&self) -> &dyn Any_<'i>;
}
/// Equality of nodes of one type.
trait Any_<'i> {
    fn ptr(&self) -> *const ();
}
impl<'i, T: Zoo<'i>> Any_<'i> for T {
    fn ptr(&self) -> *const () {
        self as *const T as *const ()
    }
}
impl<'i, T: Zoo<'i>> Dyn<'i> for T {
    fn show(&self) -> String {
        let mut o = String::new();
        Zoo::show(self, &mut o);
        o
    }
    fn own_pairs(&self) -> Vec<Pair<Rl>> {
        let mut v = vec![];
        self.for_self_or_for_each_child_pair(&mut |p| v.push(p));
        v
    }
    fn vec_children(&self) -> Vec<Pair<Rl>> {
        self.vec_children_pairs()
    }
    fn each_child(&self) -> Vec<Pair<Rl>> {
        let mut v = vec![];
        self.for_each_child_pair(&mut |p| v.push(p));
        v
    }
    fn clone_is_same(&self) -> bool {
        let t = self.clone();
        &t == self && h(&t) == h(self) && format!("{t:?}") == format!("{self:?}")
    }
    fn any(&self) -> &dyn Any_<'i> {
        self
    }
    fn same(&self, o: &dyn Any_<'i>) -> bool {
        // SAFETY: every call passes a node that the same `Ops` made.
        self == unsafe { &*(o.ptr() as *const T) }
    }
}
type Node<'i> = Box<dyn Dyn<'i> + 'i>;
type St<'i> = Stack<Span<'i>>;
type Errs = pest3_core::error::Error<Rl>;
/// The entry points of one node type.
struct Ops<'i> {
    name: &'static str,
    model: fn(&mut M<'_>, usize) -> Option<(usize, zoo::Want)>,
    part: fn(Position<'i>, &mut St<'i>, &mut Tracker<'i, Rl>) -> Option<(Position<'i>, Node<'i>)>,
    check: fn(Position<'i>, &mut St<'i>, &mut Tracker<'i, Rl>) -> Option<Position<'i>>,
    with: fn(Position<'i>, &mut St<'i>, &mut Tracker<'i, Rl>) -> Option<Node<'i>>,
    check_with: fn(Position<'i>, &mut St<'i>, &mut Tracker<'i, Rl>) -> bool,
    via_with: fn(Position<'i>, &mut St<'i>, &mut Tracker<'i, Rl>) -> Option<Node<'i>>,
    via_part: fn(Position<'i>, &mut St<'i>, &mut Tracker<'i, Rl>) -> Option<Position<'i>>,
    s_full: fn(&'i str) -> Result<Node<'i>, Box<Errs>>,
    s_part: fn(&'i str) -> Result<(Position<'i>, Node<'i>), Box<Errs>>,
    s_check: fn(&'i str) -> Result<(), Box<Errs>>,
    s_check_part: fn(&'i str) -> Result<Position<'i>, Box<Errs>>,
    via_full: fn(&'i str) -> Result<Node<'i>, Box<Errs>>,
    via_s_part: fn(&'i str) -> Result<(Position<'i>, Node<'i>), Box<Errs>>,
}
fn bx<'i, T: Zoo<'i> + 'i>(x: T) -> Node<'i> {
    Box::new(x)
}
fn ops<'i, T: Zoo<'i> + 'i>(name: &'static str) -> Ops<'i> {
    Ops {
        name,
        model: T::model,
        part: |p, s, t| T::try_parse_with_partial(p, s, t).map(|(e, x)| (e, bx(x))),
        check: |p, s, t| T::check_with_partial(p, s, t),
        with: |p, s, t| T::try_parse_with(p, s, t).map(bx),
        check_with: |p, s, t| T::check_with(p, s, t),
        via_with: |p, s, t| Parser::try_parse_with::<T>(p, s, t).map(bx),
        via_part: |p, s, t| Parser::try_parse_with_partial::<T>(p, s, t).map(|x| x.0),
        s_full: |s| T::try_parse(s).map(bx),
        s_part: |s| T::try_parse_partial(s).map(|(e, x)| (e, bx(x))),
        s_check: |s| T::check(s),
        s_check_part: |s| T::check_partial(s),
        via_full: |s| Parser::try_parse::<T>(s).map(bx),
        via_s_part: |s| Parser::try_parse_partial::<T>(s).map(|(e, x)| (e, bx(x))),
    }
}
struct All<'i>(Vec<Ops<'i>>);
impl<'i> Visitor<'i> for All<'i> {
    fn visit<T: Zoo<'i> + 'i>(&mut self, name: &'static str) {
        self.0.push(ops::<T>(name));
    }
}
struct One<'c, 'i> {
    c: &'c mut Ctx,
    s: &'i str,
    rng: Rng,
    /// Nodes and how they looked, for equality.
    keep: Vec<(&'static str, String, Node<'i>)>,
}
fn clip(s: &str) -> &str {
    &s[..s.len().min(300)]
}
impl<'c, 'i> One<'c, 'i> {
    fn at(&mut self, o: &Ops<'i>, at: usize, st: &[(usize, usize)]) {
        let (s, name) = (self.s, o.name);
        let c = &mut *self.c;
        let mut m = M { s, st: st.to_vec(), ev: [0; 8] };
        let want = (o.model)(&mut m, at);
        let p = Position::new(s, at).unwrap();
        c.rep.count("sessions", 1);
        // Parse.
        let mut stack = stack_of(s, st);
        // A caller's own snapshot must survive.
        let snap = self.rng.pct(25);
        if snap {
            stack.snapshot();
        }
        let mut tracker = Tracker::new(p);
        let got = (o.part)(p, &mut stack, &mut tracker);
        let end = got.as_ref().map(|x| x.0.pos());
        let wend = want.as_ref().map(|x| x.0);
        chk!(c, end == wend, "node-accept", "a node matches what it is defined to match", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => end, "want" => wend);
        if want.is_some() {
            chk!(c, contents(&stack) == m.st, "node-stack", "a matched node leaves the stack it is defined to leave", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => contents(&stack), "want" => m.st);
        }
        if snap {
            let now = contents(&stack);
            stack.restore();
            chk!(c, contents(&stack) == st, "node-snapshot", "the snapshot of a caller can be restored", "node" => name, "text" => s, "at" => at, "stack" => st, "after the call" => now, "restored" => contents(&stack));
        }
        // Check.
        let mut stack2 = stack_of(s, st);
        let mut tracker2 = Tracker::new(p);
        let end2 = (o.check)(p, &mut stack2, &mut tracker2).map(|x| x.pos());
        chk!(c, end2 == wend, "node-check", "checking agrees with parsing", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => end2, "want" => wend);
        if want.is_some() {
            chk!(c, contents(&stack2) == m.st, "node-check-stack", "checking leaves the stack parsing leaves", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => contents(&stack2), "want" => m.st);
        }
        let (f1, f2) = (attempts(tracker), attempts(tracker2));
        chk!(c, f1 == f2, "node-tracker", "parsing and checking record the same attempts", "node" => name, "text" => s, "at" => at, "stack" => st, "parsing" => f1, "checking" => f2);
        for (i, k) in ["ev:stack_undone", "ev:pushed", "ev:positive", "ev:negative", "ev:iteration", "ev:rule", "ev:later_alternative"].iter().enumerate() {
            if m.ev[i] > 0 {
                c.rep.count(k, m.ev[i]);
            }
        }
        if let (Some((_, node)), Some((e, w))) = (&got, &want) {
            c.rep.count("matched", 1);
            let shown = node.show();
            chk!(c, shown == w.text, "node-content", "a node holds exactly what it matched", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => clip(&shown), "want" => clip(&w.text));
            let seen = node.own_pairs();
            chk!(c, seen == w.pairs, "node-pairs", "a node yields the pairs of the rules matched in it", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => seen, "want" => w.pairs);
            let (direct, each) = (node.vec_children(), node.each_child());
            let inner = if name.starts_with("Rule") { w.pairs[0].children.clone() } else { w.pairs.clone() };
            chk!(c, direct == inner && each == inner, "node-children", "vec_children_pairs and for_each_child_pair yield the pairs inside", "node" => name, "text" => s, "at" => at, "got" => direct, "each" => each, "want" => inner);
            chk!(c, node.clone_is_same(), "node-clone", "a clone is equal, hashes and shows alike", "node" => name, "text" => s, "at" => at);
            if w.text.len() > 12 || w.pairs.len() > 1 {
                c.nontrivial(&format!("{name}{s:?}{at}{st:?}"));
            }
            if at == 0 && st.is_empty() {
                // The other ways in.
                let full = *e == s.len();
                let a = (o.s_full)(s);
                let b = (o.via_full)(s);
                let d = (o.s_check)(s);
                chk!(c, a.is_ok() == full && b.is_ok() == full && d.is_ok() == full, "node-full", "a full parse succeeds exactly when everything was matched", "node" => name, "text" => s, "end" => e, "parse" => a.is_ok(), "parser" => b.is_ok(), "check" => d.is_ok());
                match (a, b, d) {
                    (Ok(a), Ok(b), _) => chk!(c, node.same(a.any()) && node.same(b.any()), "node-full-tree", "a full parse yields the tree of the partial one", "node" => name, "text" => s),
                    (Err(a), Err(b), Err(d)) => {
                        let (a, b, d) = (err(&a), err(&b), err(&d));
                        chk!(c, a == b && a == d, "node-full-error", "the ways in report the same error", "node" => name, "text" => s, "parse" => a, "parser" => b, "check" => d);
                    }
                    _ => (),
                }
                let p1 = (o.s_part)(s);
                let p2 = (o.via_s_part)(s);
                let p3 = (o.s_check_part)(s);
                let ok = matches!((&p1, &p2, &p3), (Ok(a), Ok(b), Ok(d)) if a.0.pos() == *e && b.0.pos() == *e && d.pos() == *e && node.same(a.1.any()) && node.same(b.1.any()));
                chk!(c, ok, "node-partial", "the ways in to a partial parse agree", "node" => name, "text" => s);
            }
            // From the middle of a stack someone else uses.
            if self.rng.pct(10) {
                let mut stack = stack_of(s, st);
                let r = restore_on_none(&mut stack, |k| (o.part)(p, k, &mut Tracker::new(p)).map(|_| ()));
                chk!(c, r.is_some() && contents(&stack) == m.st, "restore-on-none", "restore_on_none keeps the stack of a success", "node" => name, "text" => s, "at" => at, "stack" => st);
            }
            let mut stack = stack_of(s, st);
            let whole = (o.with)(p, &mut stack, &mut Tracker::new(p));
            let ok = (o.check_with)(p, &mut stack_of(s, st), &mut Tracker::new(p));
            let via = (o.via_with)(p, &mut stack_of(s, st), &mut Tracker::new(p));
            let part = (o.via_part)(p, &mut stack_of(s, st), &mut Tracker::new(p));
            let full = *e == s.len();
            chk!(c, whole.is_some() == full && ok == full && via.is_some() == full && part.map(|x| x.pos()) == Some(*e), "node-with", "a full parse from a position succeeds exactly when the rest was matched", "node" => name, "text" => s, "at" => at, "stack" => st, "end" => e);
            if let Some(x) = &whole {
                chk!(c, node.same(x.any()) && via.as_ref().is_some_and(|v| node.same(v.any())), "node-with-tree", "and yields the same tree", "node" => name, "text" => s, "at" => at, "stack" => st);
            }
            // Equal exactly when they look alike.
            let here = self.keep.iter().find(|k| k.0 == name);
            if let Some((_, text, other)) = here {
                c.rep.count("compared", 1);
                let alike = text == &w.text;
                chk!(c, node.same(other.any()) == alike, "node-eq", "nodes of a text are equal exactly when they hold the same", "node" => name, "text" => s, "one" => clip(text), "other" => clip(&w.text));
            } else {
                let (_, n) = got.unwrap();
                self.keep.push((name, w.text.clone(), n));
            }
        } else {
            c.rep.count("failed", 1);
            if at == 0 && st.is_empty() {
                let (a, b, d, e) = ((o.s_full)(s), (o.s_part)(s), (o.s_check)(s), (o.s_check_part)(s));
                chk!(c, a.is_err() && b.is_err() && d.is_err() && e.is_err(), "node-fail", "every way in fails", "node" => name, "text" => s);
                let all = [a.err().map(|x| err(&x)), b.err().map(|x| err(&x)), d.err().map(|x| err(&x)), e.err().map(|x| err(&x))];
                chk!(c, all.iter().all(|x| x == &all[0]), "node-fail-error", "every way in reports the same error", "node" => name, "text" => s, "errors" => all);
            }
            let mut stack = stack_of(s, st);
            let r = restore_on_none(&mut stack, |k| (o.check)(p, k, &mut Tracker::new(p)));
            chk!(c, r.is_none() && contents(&stack) == st, "restore-on-none", "restore_on_none undoes the stack of a failure", "node" => name, "text" => s, "at" => at, "stack" => st, "got" => contents(&stack));
        }
    }
}
impl<'c, 'i> One<'c, 'i> {
    fn visit(&mut self, o: &Ops<'i>) {
        let (s, name) = (self.s, o.name);
        let cut = cuts(s);
        let mut todo: Vec<(usize, Vec<(usize, usize)>)> = vec![(0, vec![])];
        let many = if name.contains("eek") || name.contains("op") { 3 } else { 1 };
        for _ in 0..many {
            let at = *self.rng.pick(&cut);
            let st = (0..self.rng.below(4))
                .map(|_| {
                    let a = self.rng.below(cut.len());
                    let b = (a + self.rng.below(3)).min(cut.len() - 1);
                    (cut[a], cut[b])
                })
                .collect();
            todo.push((at, st));
        }
        for (at, st) in todo {
            let case = (name, s.to_string(), at, st.clone());
            self.c.watch.enter(move || format!("{case:?}"));
            let r = model::watch::guard(|| self.at(o, at, &st));
            self.c.watch.leave();
            if let Err(m) = r {
                self.c.rep.violation("node-panic", "a node or its accessors panicked", &[("node", name), ("text", &format!("{s:?}")), ("at", &at.to_string()), ("stack", &format!("{st:?}")), ("panic", &m)]);
            }
        }
    }
}
type Never<'i> = (Ops<'i>, fn(Position<'i>, &mut St<'i>) -> (Position<'i>, Node<'i>), fn(&'i str) -> (Position<'i>, Node<'i>), fn() -> String);
struct Nevers<'i>(Vec<Never<'i>>);
impl<'i> NeverVisitor<'i> for Nevers<'i> {
    fn visit<T: Zoo<'i> + NeverFailedTypedNode<'i, Rl> + 'i>(&mut self, name: &'static str) {
        self.0.push((
            ops::<T>(name),
            |p, s| {
                let (e, x) = T::parse_with_partial(p, s);
                (e, bx(x))
            },
            |s| {
                let (e, x) = T::parse_partial(s);
                (e, bx(x))
            },
            || Dyn::show(&T::default()),
        ));
    }
}
impl<'c, 'i> One<'c, 'i> {
    fn never(&mut self, n: &Never<'i>) {
        let (s, name) = (self.s, n.0.name);
        let cut = cuts(s);
        let at = *self.rng.pick(&cut);
        let c = &mut *self.c;
        c.rep.count("never_failed", 1);
        for (at, st) in [(0, vec![]), (at, vec![(0, at)])] {
            let p = Position::new(s, at).unwrap();
            let mut stack = stack_of(s, &st);
            let (e, x) = (n.1)(p, &mut stack);
            let mut stack2 = stack_of(s, &st);
            let r = (n.0.part)(p, &mut stack2, &mut Tracker::new(p));
            chk!(c, r.as_ref().is_some_and(|r| r.0 == e && r.1.same(x.any())) && contents(&stack) == contents(&stack2), "never-failed", "parse_with_partial of a node that never fails is its partial parse", "node" => name, "text" => s, "at" => at, "got" => x.show(), "want" => r.map(|x| x.1.show()));
            if at == 0 && st.is_empty() {
                let y = (n.2)(s);
                chk!(c, y.0 == e && x.same(y.1.any()), "never-failed-partial", "parse_partial is parse_with_partial from the start", "node" => name, "text" => s);
            }
            if s.is_empty() {
                let shown = (n.3)();
                chk!(c, shown == "e" || shown == "{}", "never-failed-default", "the default node is an empty match", "node" => name, "got" => shown);
            }
        }
    }
}
pub fn nodes(c: &mut Ctx) {
    for s in texts(c, 4_000 * c.scale, if c.scale > 3 { 5 } else { 4 }) {
        let mut one = One { rng: Rng::new(c.seed ^ model::report::hash(&s)), c, s: &s, keep: vec![] };
        let mut all = All(vec![]);
        types(&mut all);
        // Short texts meet every type, longer ones a quarter of them.
        let every = s.chars().count() < 4;
        for o in &all.0 {
            if every || one.rng.pct(25) {
                one.visit(o);
            }
        }
        let mut nv = Nevers(vec![]);
        never(&mut nv);
        for n in &nv.0 {
            if let Err(m) = model::watch::guard(|| one.never(n)) {
                one.c.rep.violation("node-panic", "a node that never fails panicked", &[("node", n.0.name), ("text", &format!("{s:?}")), ("panic", &m)]);
            }
        }
        c.rep.count("texts", 1);
    }
}

/// A literal node of any content: compared with slices of the text.
pub fn strings(c: &mut Ctx) {
    // Contents are types, so they are those of the zoo; the texts are made for them.
    let parts = ["a", "A", "é", "É", "\r", "\n", "k", "\u{212a}", "ſ", "s", "ab", "aB", " ", "\u{301}", "中", "b"];
    for i in c.mine(40_000 * c.scale) {
        let mut r = Rng::new(c.seed.wrapping_mul(31).wrapping_add(i));
        let s: String = if r.pct(75) {
            (0..1 + r.below(5)).map(|_| *r.pick(&parts)).collect()
        } else {
            // A content, its case and some characters changed.
            let mut s: Vec<char> = r.pick(zoo::CONTENTS).chars().collect();
            if r.pct(50) {
                s.iter_mut().for_each(|x| if x.is_ascii() && r.pct(50) { *x = (*x as u8 ^ 0x20) as char });
            }
            for _ in 0..r.below(3) {
                if !s.is_empty() {
                    let k = r.below(s.len());
                    let with = r.pick(&parts).chars().next().unwrap();
                    match r.below(3) {
                        0 => s[k] = with,
                        1 => s.insert(k, with),
                        _ => std::mem::drop(s.remove(k)),
                    }
                }
            }
            let s: String = s.into_iter().collect();
            format!("{}{s}{}", if r.pct(30) { *r.pick(&parts) } else { "" }, if r.pct(50) { *r.pick(&parts) } else { "" })
        };
        let mut one = One { rng: r, c, s: &s, keep: vec![] };
        let mut all = All(vec![]);
        zoo::literals(&mut all);
        for o in &all.0 {
            one.visit(o);
        }
        c.rep.count("texts", 1);
    }
    // Every content with any one character in place of each of its own.
    let others: Vec<char> = (0..0x180u32).chain([0x17f, 0x212a, 0x130, 0x131, 0xff21, 0xff41, 0x1f600]).filter_map(char::from_u32).collect();
    let mut n = 0u64;
    for (k, text) in zoo::CONTENTS.iter().enumerate() {
        let chars: Vec<char> = text.chars().collect();
        for at in 0..chars.len() {
            n += 1;
            if n % c.shards != c.shard || (chars.len() > 100 && n % 7 != c.seed % 7) {
                continue;
            }
            for x in &others {
                let mut t = chars.clone();
                t[at] = *x;
                let s: String = t.into_iter().collect();
                let mut one = One { rng: Rng::new(0), c, s: &s, keep: vec![] };
                let mut all = All(vec![]);
                zoo::literal(k, &mut all);
                for o in &all.0 {
                    let case = (o.name, s.clone());
                    one.c.watch.enter(move || format!("{case:?}"));
                    let r = model::watch::guard(|| one.at(o, 0, &[]));
                    one.c.watch.leave();
                    if let Err(m) = r {
                        one.c.rep.violation("node-panic", "a literal or its accessors panicked", &[("node", o.name), ("text", &format!("{s:?}")), ("panic", &m)]);
                    }
                }
                c.rep.count("substitutions", 1);
            }
        }
    }
}

/// Pairs are plain values: conversion and display.
pub fn pairs(c: &mut Ctx) {
    fn tree(r: &mut Rng, d: usize, want: &mut String) -> Pair<Rl> {
        let rule = *r.pick(&[Rl::A, Rl::B, Rl::C, Rl::EOI]);
        let (a, b) = (r.below(2000), r.below(2000));
        want.push_str(match rule {
            Rl::A => "A",
            Rl::B => "B",
            Rl::C => "C",
            Rl::EOI => "EOI",
        });
        *want += &format!("({a}, {b}, [");
        let mut children = vec![];
        if d > 0 {
            for k in 0..r.below(4) {
                if k > 0 {
                    *want += ", ";
                }
                children.push(tree(r, d - 1, want));
            }
        }
        *want += "])";
        Pair { rule, start: a, end: b, children }
    }
    fn same(p: &Pair<Rl>, q: &Pair<(u8, Rl)>) -> bool {
        q.rule == (7, p.rule) && (p.start, p.end) == (q.start, q.end) && p.children.len() == q.children.len() && p.children.iter().zip(&q.children).all(|(a, b)| same(a, b))
    }
    for i in c.mine(40_000 * c.scale) {
        let mut r = Rng::new(c.seed.wrapping_mul(17).wrapping_add(i));
        let mut want = String::new();
        let d = r.below(5);
        let p = tree(&mut r, d, &mut want);
        c.rep.count("pairs_made", 1);
        chk!(c, p.to_string() == want, "pair-display", "a pair is displayed as rule, ends and children", "got" => p.to_string(), "want" => want);
        let q = p.convert(&|x| (7u8, x));
        chk!(c, same(&p, &q), "pair-convert", "conversion replaces the rules and nothing else", "pair" => p, "converted" => q);
        chk!(c, p.convert(&|x| x) == p && p.clone() == p, "pair-same", "converting to itself changes nothing", "pair" => p);
        if p.children.len() > 1 {
            c.nontrivial(&want);
        }
    }
    let _ = Rl::EOI == <Rl as RuleType>::EOI;
}
