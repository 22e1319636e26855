//! Long inputs: bounded stack, memory and time, and nothing but the described result.
use pest3::typed::{PairContainer, TypedNode};
use pest3_core::Position;
use rt::model::report::Report;
use rt::model::watch;
use std::fmt::Write;
mod deep;
use std::time::Duration;

#[derive(pest3::Parser)]
#[grammar = "src/long.pest"]
pub struct P;

/// What a text of size `n` should give.
struct Case {
    rule: &'static str,
    make: fn(usize) -> String,
    /// Children pairs of the rule.
    children: fn(usize) -> usize,
    /// Characters at the end that do not match.
    rest: usize,
    run: fn(&str) -> Seen,
}
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    end: Option<usize>,
    check: Option<usize>,
    full: bool,
    check_full: bool,
    children: usize,
    error_at: Option<usize>,
    same: bool,
}
macro_rules! run {
    ($t:ident) => {
        |s: &str| -> Seen { run!(@ s, rules::$t<'_>) }
    };
    (@ $s:ident, $T:ty) => {{
        let part = <$T as TypedNode<'_, Rule>>::try_parse_partial($s);
        let check = <$T as TypedNode<'_, Rule>>::check_partial($s).ok().map(|p: Position<'_>| p.pos());
        let full = <$T as TypedNode<'_, Rule>>::try_parse($s);
        let check_full = <$T as TypedNode<'_, Rule>>::check($s);
        let mut children = 0;
        let mut same = true;
        if let Ok((_, t)) = &part {
            t.for_each_child_pair(&mut |_| children += 1);
            let c = t.clone();
            same = c == *t;
            // One pair for the whole, that holds all children.
            let mut all = vec![];
            t.for_self_or_for_each_child_pair(&mut |p| all.push(p));
            same &= all.len() == 1 && all[0].children.len() == children && all[0].end == part.as_ref().unwrap().0.pos();
            let mut o = Count(0);
            let _ = write!(o, "{t:?}");
            same &= o.0 > 0;
            drop(c);
            if let Ok(f) = &full {
                same &= f == t;
            }
        }
        let at = |e: &pest3_core::error::Error<Rule>| match e.location {
            pest3_core::error::InputLocation::Pos(p) => p,
            pest3_core::error::InputLocation::Span((p, _)) => p,
        };
        let error_at = full.as_ref().err().map(|e| at(e));
        same &= check_full.as_ref().err().map(|e| at(e)) == error_at;
        if let Err(e) = &full {
            same &= !e.to_string().is_empty();
        }
        Seen { end: part.as_ref().ok().map(|x| x.0.pos()), check, full: full.is_ok(), check_full: check_full.is_ok(), children, error_at, same }
    }};
}
struct Count(usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
fn cases() -> Vec<Case> {
    fn zero(_: usize) -> usize {
        0
    }
    macro_rules! case {
        ($t:ident, $make:expr, $children:expr, $rest:expr) => {
            Case { rule: stringify!($t), make: $make, children: $children, rest: $rest, run: run!($t) }
        };
    }
    vec![
        case!(chars, |n| "aéz".repeat(n / 3), zero, 0),
        case!(chars, |n| "aéz".repeat(n / 3) + "!", zero, 1),
        case!(bounded, |n| "ab".repeat(n), zero, 0),
        case!(exact, |n| "aBAb".repeat(500) + &"x".repeat(n), zero, usize::MAX),
        case!(list, |n| vec!["12"; n].join(" ,  "), |n| n, 0),
        case!(list, |n| vec!["12"; n].join(",") + " ,", |n| n, 2),
        case!(commas, |n| vec![",12"; n].join(" "), |n| n, 0),
        case!(words, |n| vec!["ab"; n].join(" /* c */ "), |n| n, 0),
        case!(words, |n| format!("ab{}", " ".repeat(n)), |_| 1, usize::MAX),
        case!(text, |n| format!("[{}]", "é".repeat(n)), zero, 0),
        case!(ahead, |n| "ab".repeat(n / 2), zero, 0),
        case!(lines, |n| "ab\r\n\n".repeat(n / 2), |n| n / 2 * 2, 0),
        case!(pushed, |n| format!("{}!{}", "ab".repeat(n / 2), "ba".repeat(n / 2)), zero, 0),
        case!(popped, |n| format!("{}!{}", "ab".repeat(n / 2), "ba".repeat(n / 2)), zero, 0),
        case!(peeked, |n| format!("{}!{}", "ab".repeat(n / 2), "ba".repeat(n / 2)), zero, 0),
        case!(sliced, |n| format!("{}!{}", "ab".repeat(n / 2), "ab".repeat(n / 2)), zero, 0),
        case!(dropped, |n| format!("{}!{}", "ab".repeat(n / 2), ";".repeat(n)), zero, 0),
        case!(undone, |n| "aa;".repeat(n), zero, 0),
        case!(metas, |n| format!("<{}>", "12 ab".repeat(n)), |_| 1, 0),
        case!(silent, |n| "qr".repeat(n), zero, 0),
        case!(chosen, |n| "12ab".repeat(n / 2), |n| n, 0),
        case!(into, |n| format!("ab{}.!", "1..".repeat(n)), |n| n + 1, 0),
        case!(maybe, |n| "ab.a.b..".repeat(n / 4), zero, 0),
        case!(either, |n| "axayaza".repeat(n / 4), zero, 0),
        case!(nested, |n| format!("({})", "()".repeat(n)), |n| n, 0),
        case!(long_literal, |n| "0123456789abcdefghijklmnopqrstuvwxyX".repeat(n / 36), zero, 0),
        case!(han, |n| "中".repeat(n), zero, 0),
        case!(insens, |n| "AbABcÉD".repeat(n / 3), zero, 0),
        case!(insens, |n| "abCÉd".repeat(n / 2) + "céd", zero, 4),
        case!(raw, |n| "aé中🦀".repeat(n / 4), zero, 0),
        case!(ends, |n| "aé中🦀".repeat(n / 4), zero, 0),
        case!(newlines, |n| "\r\n\n\r".repeat(n / 3), zero, 0),
        case!(hexes, |n| "aF0/~9".repeat(n / 6), zero, 0),
        case!(letters, |n| "aÉjЖ".repeat(n / 4) + "1", zero, 1),
        case!(upto, |n| "ab".repeat(n) + "!", zero, 0),
        case!(kept, |n| "ab".repeat(n / 2), zero, 0),
        case!(same, |n| "a,".repeat(n) + "!", zero, 0),
        case!(bars, |n| "a-a;aa-a-a".repeat(n / 6), |n| n / 6 * 3, 0),
        case!(backs, |n| "aababcabc!".repeat(n / 4), zero, 0),
        case!(depths, |n| "1,;\n.,;\n;\n\n".repeat(n / 4), |n| n / 4, 0),
        case!(whole, |n| "a\n".repeat(n), zero, 0),
    ]
}
/// A thread with a stack that does not grow with the input.
fn small<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f).expect("thread").join().expect("joined"))
}
const SMALL: usize = 400;
const GROWTH: usize = 64;
/// More than 16 bits can count, and where comparing the whole text for each item takes most of the time.
const FAR: usize = SMALL * GROWTH * FURTHER;
const FURTHER: usize = 16;
#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, to: *mut Timespec) -> i32;
}
/// What this thread has used of a processor: other load does not count.
fn cpu_time() -> Duration {
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0);
    Duration::new(t.sec as u64, t.nsec as u32)
}

fn main() {
    watch::install_hook();
    let shard = |k: &str, d: usize| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let (me, of) = (shard("VERIF_SHARD", 0), shard("VERIF_SHARDS", 1));
    // What is looked at: the children, what is matched, or everything (also time and memory).
    let look = std::env::var("VERIF_LONG").unwrap_or_default();
    let mut rep = Report::default();
    let w = watch::Watch::new();
    w.spawn(60_000, |case| {
        let mut r = Report::default();
        r.violation("hang", "a call on a long text did not return", &[("case", &case)]);
        r.finish();
        std::process::exit(0);
    });
    deep::all(&mut rep, &w, &look, |k| k % of == me);
    for (k, c) in cases().into_iter().enumerate() {
        if k % of != me || look == "errors" {
            continue;
        }
        let mut took = vec![];
        let mut peak = vec![];
        for n in [SMALL, SMALL * GROWTH, FAR] {
            let again = if n == FAR || !look.is_empty() { 1 } else { 3 };
            let text = (c.make)(n);
            w.enter(|| format!("rule {} with {n} items", c.rule));
            let mut best = Duration::MAX;
            for _ in 0..again {
                let r = small(512 << 10, || {
                    let live = rt::alloc::live();
                    rt::alloc::reset_peak();
                    let t = cpu_time();
                    let r = watch::guard(|| (c.run)(&text));
                    (r, cpu_time() - t, rt::alloc::live() - live, rt::alloc::peak() - live)
                });
                rep.count("long_calls", 4);
                rep.count("bytes_parsed", 4 * text.len() as u64);
                best = best.min(r.1);
                rep.count("long_children", r.0.as_ref().map_or(0, |s| s.children as u64));
                let n_ = n.to_string();
                let mut bad = |key, what, want: String, got: String| rep.violation(key, what, &[("rule", c.rule), ("items", &n_), ("expected", &want), ("got", &got)]);
                match r.0 {
                    Err(m) => bad("panic", "parsing a long text panicked", "no panic".into(), m),
                    Ok(s) => {
                        let end = match c.rest {
                            usize::MAX if c.rule == "exact" => 2000,
                            usize::MAX => 2,
                            r => text.len() - r,
                        };
                        let full = end == text.len();
                        let want = Seen { end: Some(end), check: Some(end), full, check_full: full, children: (c.children)(n), error_at: s.error_at, same: true };
                        let wrong = match look.as_str() {
                            "children" => s.end == want.end && s.children != want.children,
                            "results" => (s.end, s.check, s.full, s.check_full) != (want.end, want.check, want.full, want.check_full),
                            _ => s != want || s.error_at.is_some() == full || s.error_at.is_some_and(|e| e < end),
                        };
                        if wrong {
                            bad("long", "a long text is not parsed as described", format!("{want:?}"), format!("{s:?}"));
                        }
                        if r.2 > 1024 && look.is_empty() {
                            bad("leak", "memory of a call is not freed with its results", "0 bytes".into(), format!("{} bytes", r.2));
                        }
                    }
                }
                if peak.len() < took.len() + 1 {
                    peak.push(r.3);
                }
            }
            w.leave();
            took.push(best);
        }
        rep.max("times_slower", (took[1].as_nanos() / took[0].as_nanos().max(1)) as u64);
        rep.max("times_slower_further", (took[2].as_nanos() / took[1].as_nanos().max(1)) as u64);
        rep.max("times_bigger", (peak[1] / peak[0].max(1)) as u64);
        if std::env::var("LONG_PRINT").is_ok() { eprintln!("{} {} {took:?} {peak:?}", took[1].as_nanos() / took[0].as_nanos(), c.rule); }
        rep.sample(format!("{}: {:?} and {} bytes for {} items, {:?} and {} bytes for {}", c.rule, took[0], peak[0], SMALL, took[1], peak[1], SMALL * GROWTH));
        // Linear growth gives 64, quadratic growth 4096.
        if !look.is_empty() {
            continue;
        }
        if took[1] > took[0] * (GROWTH as u32 * 16) && took[1] > Duration::from_millis(500) {
            rep.violation("time", "time grows much faster than the text", &[("rule", c.rule), ("times", &format!("{took:?}"))]);
        }
        // Linear growth gives 16, quadratic growth 256.
        if took[2] > took[1] * (FURTHER as u32 * 4) && took[2] > Duration::from_millis(700) {
            rep.violation("time", "time grows much faster than a very long text", &[("rule", c.rule), ("times", &format!("{took:?}"))]);
        }
        if peak[2] > peak[1] * FURTHER as i64 * 4 && peak[2] > 64 << 20 {
            rep.violation("memory", "memory grows much faster than a very long text", &[("rule", c.rule), ("peaks", &format!("{peak:?}"))]);
        }
        if peak[1] > peak[0] * GROWTH as i64 * 8 && peak[1] > 8 << 20 {
            rep.violation("memory", "memory grows much faster than the text", &[("rule", c.rule), ("peaks", &format!("{peak:?}"))]);
        }
    }
    rep.finish();
}
