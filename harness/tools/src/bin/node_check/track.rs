//! The tracker of failures used directly: arbitrary histories of its calls, against a model that keeps every event.
use crate::zoo::Rl;
use model::rng::Rng;
use pest3_core::error::{Error, ErrorVariant, InputLocation, LineColLocation};
use pest3_core::typed::{wrapper, Tracker};
use pest3_core::Position;
use std::collections::BTreeMap;
use std::fmt::Write;
use tools::{chk, Ctx};

macro_rules! wrap {
    ($($n:ident $r:ident),*) => {$(
        #[derive(Clone, PartialEq, Debug)]
        struct $n;
        impl wrapper::Rule for $n {
            type Rule = Rl;
            const RULE: Rl = Rl::$r;
        }
    )*};
}
wrap!(WA A, WB B, WC C, WE EOI);
const RULES: [Rl; 4] = [Rl::A, Rl::B, Rl::C, Rl::EOI];

#[derive(Debug, Clone)]
enum Op {
    /// api, rule, position, succeeds, what happens meanwhile
    Rec(u8, usize, usize, bool, Vec<Op>),
    Sign(bool, Vec<Op>),
    Empty(usize),
    Slice(usize, isize, Option<isize>),
    Many(usize),
}

/// Rules within rules, seldom leaving their offset.
fn ladder(r: &mut Rng, cuts: &[usize]) -> Vec<Op> {
    let n = [8, 12, 15, 16, 17, 18, 20, 31, 32, 33, 40, 64, 65, 100, 127, 128, 129, 256, 300][r.below(19)];
    let mut v = ops(r, cuts, cuts.len() / 2, 8, &mut 6, false);
    let few = r.below(3);
    let mut at = cuts.len() - 1;
    for i in 0..n {
        if r.below(n) < few {
            at = at.saturating_sub(1);
        }
        let p = cuts[if r.pct(2) { r.below(cuts.len()) } else { at }];
        let o = if r.pct(10) { Op::Sign(r.pct(50), v) } else { Op::Rec(r.below(3) as u8, if i + 1 == n { 3 } else { r.below(3) }, p, r.pct(50), v) };
        v = vec![o];
        if r.pct(5) {
            let q = r.below(3);
            let x = ops(r, cuts, at, 9, &mut 2, false);
            if q == 0 {
                v.extend(x);
            } else {
                v.splice(0..0, x);
            }
        }
    }
    v
}
fn ops(r: &mut Rng, cuts: &[usize], at: usize, depth: usize, budget: &mut usize, flat: bool) -> Vec<Op> {
    let n = if depth == 0 { 1 + r.below(4) } else { r.below(4) };
    let mut v = vec![];
    let mut at = at;
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        // mostly forwards, as a parser does, with steps back; sometimes anywhere
        at = match r.below(10) {
            0..=4 => at,
            5..=7 => (at + 1 + r.below(2)).min(cuts.len() - 1),
            8 => at.saturating_sub(1 + r.below(3)),
            _ => r.below(cuts.len()),
        };
        if flat {
            at = at.min(1);
        }
        let p = cuts[at];
        v.push(match r.below(if depth > 9 { 3 } else { 12 }) {
            0 => Op::Empty(p),
            1 => {
                let a = [0, 1, -1, 7, isize::MIN, isize::MAX][r.below(6)];
                Op::Slice(p, a, [None, Some(0), Some(-3), Some(isize::MAX)][r.below(4)])
            }
            2 => Op::Many(p),
            3..=4 => {
                let s = r.pct(50);
                Op::Sign(s, ops(r, cuts, at, depth + 1, budget, flat))
            }
            _ => {
                let (api, rule, ok) = (r.below(3) as u8, r.below(4), r.pct(50));
                let kids = if r.pct(45) { vec![] } else { ops(r, cuts, at, depth + 1, budget, flat) };
                Op::Rec(api, rule, p, ok, kids)
            }
        });
    }
    v
}

/// What every call of the history answered.
type Log = Vec<(usize, usize)>;

fn act<'i>(s: &'i str, t: &mut Tracker<'i, Rl>, v: &[Op], log: &mut Log) -> usize {
    let pos = |p: usize| Position::new(s, p).unwrap();
    for o in v {
        match o {
            Op::Empty(p) => t.empty_stack(pos(*p)),
            Op::Slice(p, a, b) => t.out_of_bound(pos(*p), *a, *b),
            Op::Many(p) => t.repeat_too_many_times(pos(*p)),
            Op::Sign(true, k) => {
                let n = t.positive_during(|t| act(s, t, k, log));
                log.push((n, 1));
            }
            Op::Sign(false, k) => {
                let n = t.negative_during(|t| act(s, t, k, log));
                log.push((n, 0));
            }
            Op::Rec(0, rule, p, ok, k) => {
                let r = t.record_option_during(
                    pos(*p),
                    |t| {
                        let n = act(s, t, k, log);
                        ok.then_some((pos(*p), n))
                    },
                    RULES[*rule],
                );
                log.push(r.map_or((*p, 9), |(q, n)| (q.pos(), 10 + n)));
            }
            Op::Rec(1, rule, p, ok, k) => {
                let r = t.record_empty_during::<()>(
                    pos(*p),
                    |t| {
                        act(s, t, k, log);
                        ok.then_some(pos(*p))
                    },
                    RULES[*rule],
                );
                log.push(r.map_or((*p, 7), |q| (q.pos(), 8)));
            }
            Op::Rec(_, rule, p, ok, k) => {
                macro_rules! go {
                    ($w:ident) => {
                        match t.record_result_during(pos(*p), |t| {
                            let n = act(s, t, k, log);
                            if *ok {
                                Ok((pos(*p), $w))
                            } else {
                                Err(n)
                            }
                        }) {
                            Ok((q, $w)) => log.push((q.pos(), 5)),
                            Err(n) => log.push((*p, 20 + n)),
                        }
                    };
                }
                match rule {
                    0 => go!(WA),
                    1 => go!(WB),
                    2 => go!(WC),
                    _ => go!(WE),
                }
            }
        }
    }
    v.len()
}
fn want_log(v: &[Op], log: &mut Log) {
    for o in v {
        match o {
            Op::Sign(b, k) => {
                want_log(k, log);
                log.push((k.len(), *b as usize));
            }
            Op::Rec(a, _, p, ok, k) => {
                want_log(k, log);
                log.push((*p, match (a, ok) {
                    (0, true) => 10 + k.len(),
                    (0, false) => 9,
                    (1, true) => 8,
                    (1, false) => 7,
                    (_, true) => 5,
                    (_, false) => 20 + k.len(),
                }));
            }
            _ => (),
        }
    }
}

/// Everything that was told to the tracker, in order.
#[derive(Debug)]
struct Ev {
    at: usize,
    /// the innermost rule that began somewhere else
    upper: Option<Rl>,
    what: What,
}
#[derive(Debug)]
enum What {
    /// only says how far it went
    Far,
    Expected(Rl),
    Unexpected(Rl),
    Special(String),
}
fn model(v: &[Op], positive: bool, stack: &mut Vec<(Rl, usize)>, out: &mut Vec<Ev>) {
    let upper = |stack: &[(Rl, usize)], at: usize| stack.iter().rev().find(|x| x.1 != at).map(|x| x.0);
    for o in v {
        match o {
            Op::Empty(p) => out.push(Ev { at: *p, upper: upper(stack, *p), what: What::Special("Nothing to pop or drop.".into()) }),
            Op::Many(p) => out.push(Ev { at: *p, upper: upper(stack, *p), what: What::Special("Repeated too many times.".into()) }),
            Op::Slice(p, a, b) => out.push(Ev { at: *p, upper: upper(stack, *p), what: What::Special(format!("Peek slice {a}..{} out of bound.", b.map_or(String::new(), |b| b.to_string()))) }),
            Op::Sign(b, k) => model(k, *b, stack, out),
            Op::Rec(_, rule, p, ok, k) => {
                let before = out.len();
                stack.push((RULES[*rule], *p));
                model(k, positive, stack, out);
                stack.pop();
                let _ = before;
                if !has_rec(k) {
                    let what = match (positive, ok) {
                        (true, false) => What::Expected(RULES[*rule]),
                        (false, true) => What::Unexpected(RULES[*rule]),
                        _ => What::Far,
                    };
                    out.push(Ev { at: *p, upper: upper(stack, *p), what });
                }
            }
        }
    }
}
fn has_rec(v: &[Op]) -> bool {
    v.iter().any(|o| match o {
        Op::Rec(..) => true,
        Op::Sign(_, k) => has_rec(k),
        _ => false,
    })
}
type Rows = BTreeMap<Option<Rl>, (Vec<Rl>, Vec<Rl>, Vec<String>)>;
fn rows(from: usize, ev: &[Ev]) -> (usize, Rows) {
    let at = ev.iter().map(|e| e.at).fold(from, usize::max);
    let mut m = Rows::new();
    for e in ev.iter().filter(|e| e.at == at) {
        match &e.what {
            What::Far => (),
            What::Expected(r) => m.entry(e.upper).or_default().0.push(*r),
            What::Unexpected(r) => m.entry(e.upper).or_default().1.push(*r),
            What::Special(s) => m.entry(e.upper).or_default().2.push(s.clone()),
        }
    }
    for v in m.values_mut() {
        for l in [&mut v.0, &mut v.1] {
            l.sort();
            l.dedup();
        }
    }
    (at, m)
}
fn line_col(s: &str, at: usize) -> (usize, usize) {
    let b = &s[..at];
    let line = b.matches('\n').count() + 1;
    let from = b.rfind('\n').map_or(0, |x| x + 1);
    (line, b[from..].chars().count() + 1)
}
fn message(s: &str, at: usize, m: &Rows) -> String {
    let (line, _) = line_col(s, at);
    let from = s[..at].rfind('\n').map_or(0, |x| x + 1);
    let nl = format!("\n{}", " ".repeat(line.to_string().len() + 3));
    let mut o = format!("{}^---", &s[from..at]);
    for (u, (pos, neg, spe)) in m {
        o += &nl;
        match (pos.is_empty(), neg.is_empty()) {
            (true, true) => o += "Unknown error (no rule tracked)",
            (false, true) => write!(o, "Expected {pos:?}").unwrap(),
            (true, false) => write!(o, "Unexpected {neg:?}").unwrap(),
            _ => write!(o, "Unexpected {neg:?}, expected {pos:?}").unwrap(),
        }
        if let Some(u) = u {
            write!(o, ", by {u:?}").unwrap();
        }
        o += ".";
        for x in spe {
            o += &nl;
            o += x;
            if let Some(u) = u {
                write!(o, " (By {u:?})").unwrap();
            }
        }
    }
    o
}

pub fn tracker(c: &mut Ctx) {
    const PARTS: &[&str] = &["a", "b", "é", "嗨", "\u{1F388}", "\n", "\r\n", "\r", "\t", " ", "e\u{301}", "\u{2028}"];
    for i in c.mine(40_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "tracker", i);
        let n = r.below(12);
        let mut s: String = (0..n).map(|_| *r.pick(PARTS)).collect();
        if r.pct(4) {
            // far from the start: the number of the line has more digits
            let lines = [8, 9, 10, 98, 99, 100, 998, 1000, 10_000][r.below(9)];
            let pre: String = (0..lines).map(|_| if r.pct(20) { "x\n" } else { "\n" }).collect();
            let keep = s.clone();
            s = pre + &s;
            let cuts: Vec<usize> = (s.len() - keep.len()..=s.len()).filter(|p| s.is_char_boundary(*p)).collect();
            c.rep.count("tracker_far_lines", 1);
            one(c, &mut r, &s, &cuts);
        } else if r.pct(4) {
            let cols = [9, 99, 255, 256, 1000, 70_000][r.below(6)];
            let keep = s.clone();
            s = ["x", "é"][r.below(2)].repeat(cols) + &s;
            let cuts: Vec<usize> = (s.len() - keep.len()..=s.len()).filter(|p| s.is_char_boundary(*p)).collect();
            c.rep.count("tracker_far_columns", 1);
            one(c, &mut r, &s, &cuts);
        } else {
            let cuts: Vec<usize> = (0..=s.len()).filter(|p| s.is_char_boundary(*p)).collect();
            one(c, &mut r, &s, &cuts);
        }
    }
}
fn one(c: &mut Ctx, r: &mut Rng, s: &str, cuts: &[usize]) {
    let start = if r.pct(80) { 0 } else { r.below(cuts.len()) };
    let mut budget = if r.pct(5) { 400 } else { 25 };
    let flat = r.pct(25);
    let v = if r.pct(8) { ladder(r, cuts) } else { ops(r, cuts, start, 0, &mut budget, flat) };
    let from = cuts[start];
    let show = || format!("text {s:?} from {from}: {v:?}").chars().take(6000).collect::<String>();
    let mut ev = vec![];
    model(&v, true, &mut vec![], &mut ev);
    let (at, m) = rows(from, &ev);
    let mut wl = vec![];
    want_log(&v, &mut wl);
    let run = || {
        let mut t = Tracker::<Rl>::new(Position::new(s, from).unwrap());
        let mut l = vec![];
        act(s, &mut t, &v, &mut l);
        (t, l)
    };
    let got = c.call(show, || {
        let (t, l) = run();
        let (p, a) = t.finish();
        let rows: Rows = a
            .into_iter()
            .map(|(k, (mut x, mut y, z))| {
                for l in [&mut x, &mut y] {
                    l.sort();
                    l.dedup();
                }
                (k, (x, y, z.iter().map(|q| q.to_string()).collect()))
            })
            .collect();
        (p.pos(), rows, l)
    });
    let got = match got {
        Ok(x) => x,
        Err(e) => {
            c.rep.violation("tracker panic", "a call of the tracker panicked", &[("panic", &e), ("history", &show())]);
            return;
        }
    };
    c.rep.count("tracker_histories", 1);
    c.rep.count("tracker_events", ev.len() as u64);
    c.rep.max("tracker_rows", m.len() as u64);
    let nontrivial = ev.iter().any(|e| e.at < at) && !m.is_empty();
    chk!(c, got.2 == wl, "tracker result", "a call of the tracker did not return what its closure returned", "history" => show(), "got" => got.2, "want" => wl);
    chk!(c, got.0 == at, "tracker position", "the tracker is not at the furthest recorded offset", "history" => show(), "got" => got.0, "want" => at);
    chk!(c, got.1 == m, "tracker attempts", "the recorded attempts are not those made at the furthest offset", "history" => show(), "got" => got.1, "want" => m);
    let e = match c.call(show, || run().0.collect()) {
        Ok(e) => e,
        Err(p) => {
            c.rep.violation("tracker collect panic", "collecting the error panicked", &[("panic", &p), ("history", &show())]);
            return;
        }
    };
    let msg = message(s, at, &m);
    let got_msg = match &e.variant {
        ErrorVariant::CustomError { message } => message.clone(),
        ErrorVariant::ParsingError { .. } => "(no message)".into(),
    };
    chk!(c, got_msg == msg, "tracker message", "the message is not the one of the recorded attempts", "history" => show(), "got" => got_msg, "want" => msg);
    chk!(c, e.location == InputLocation::Pos(at), "tracker location", "the error is located elsewhere", "history" => show(), "got" => e.location, "want" => at);
    let (line, col) = line_col(s, at);
    chk!(c, e.line_col == LineColLocation::Pos((line, col)), "tracker line/column", "the error has another line or column", "history" => show(), "got" => e.line_col, "want" => (line, col));
    let want = Error::<Rl>::new_from_pos(ErrorVariant::CustomError { message: msg }, pest2::Position::new(s, at).unwrap());
    chk!(c, format!("{e}") == format!("{want}"), "tracker display", "the error is displayed with another line", "history" => show(), "got" => format!("{e}"), "want" => format!("{want}"));
    if nontrivial {
        c.nontrivial(&format!("{s}{from}{v:?}"));
    }
}
