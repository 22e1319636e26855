//! Texts whose trees are deep: every level is as the first ones are.
use crate::{rules, Rule};
use pest3::typed::{TypedNode};
use pest3_core::token::Pair;
use pest3_core::typed::PairTree;
use rt::model::report::Report;
use rt::model::watch;

/// A node of a tree in preorder: depth, rule, start and end.
type Row = (usize, &'static str, usize, usize);

struct Deep {
    rule: &'static str,
    make: fn(usize) -> String,
    /// The pairs of the text, the root included.
    tree: fn(usize) -> Vec<Row>,
    /// Where a `$` is put to get a wrong text.
    wrong: fn(usize) -> usize,
    run: fn(&str) -> Out,
}
struct Out {
    rows: Result<Vec<(usize, String, usize, usize)>, String>,
    check: Result<(), String>,
    partial: Option<usize>,
    check_partial: Option<usize>,
    at: Option<usize>,
    check_at: Option<usize>,
    same: bool,
}
fn flat(root: Pair<Rule>) -> Vec<(usize, String, usize, usize)> {
    let mut rows = vec![];
    let mut todo = vec![(0, root)];
    while let Some((d, p)) = todo.pop() {
        rows.push((d, format!("{:?}", p.rule), p.start, p.end));
        todo.extend(p.children.into_iter().rev().map(|c| (d + 1, c)));
    }
    rows
}
/// The message without the position and the line it is in.
fn tail(e: &pest3_core::error::Error<Rule>) -> String {
    match &e.variant {
        pest3_core::error::ErrorVariant::CustomError { message } => message.lines().skip(1).map(str::trim).collect::<Vec<_>>().join("\n"),
        v => format!("{v:?}"),
    }
}
fn at(e: &pest3_core::error::Error<Rule>) -> usize {
    match e.location {
        pest3_core::error::InputLocation::Pos(p) => p,
        pest3_core::error::InputLocation::Span((p, _)) => p,
    }
}
macro_rules! run {
    ($t:ident) => {
        |s: &str| -> Out {
            type T<'i> = rules::$t<'i>;
            let full = <T<'_> as TypedNode<'_, Rule>>::try_parse(s);
            let check = <T<'_> as TypedNode<'_, Rule>>::check(s);
            let mut same = true;
            if let Ok(t) = &full {
                same = t.clone() == *t;
            }
            Out {
                at: full.as_ref().err().map(|e| at(e)),
                check_at: check.as_ref().err().map(|e| at(e)),
                partial: <T<'_> as TypedNode<'_, Rule>>::try_parse_partial(s).ok().map(|x| x.0.pos()),
                check_partial: <T<'_> as TypedNode<'_, Rule>>::check_partial(s).ok().map(|x| x.pos()),
                rows: full.map(|t| flat(t.as_pair_tree())).map_err(|e| tail(&e)),
                check: check.map_err(|e| tail(&e)),
                same,
            }
        }
    };
}
fn nest(n: usize, rule: &'static str) -> Vec<Row> {
    (0..n).map(|k| (k, rule, k, 2 * n - k)).collect()
}
fn cases() -> Vec<Deep> {
    macro_rules! case {
        ($t:ident, $make:expr, $tree:expr, $wrong:expr) => {
            Deep { rule: stringify!($t), make: $make, tree: $tree, wrong: $wrong, run: run!($t) }
        };
    }
    vec![
        case!(deep, |n| "(".repeat(n) + &")".repeat(n), |n| nest(n, "deep"), |n| n),
        case!(right, |n| vec!["7"; n].join(","), |n| {
            (0..n).flat_map(|k| [(k, "right", 2 * k, 2 * n - 1), (k + 1, "item", 2 * k, 2 * k + 1)]).collect()
        }, |n| 2 * n - 2),
        case!(prefix, |n| "!".repeat(n) + "5", |n| (0..=n).map(|k| (k, "prefix", k, n + 1)).chain([(n + 1, "item", n, n + 1)]).collect(), |n| n),
        case!(block, |n| "{ ".repeat(n) + &"} ".repeat(n - 1) + "}", |n| (0..n).map(|k| (k, "block", 2 * k, 4 * n - 1 - 2 * k)).collect(), |n| 2 * n),
        case!(mirror, |n| (0..n).map(|i| b"ab"[i * i / 3 % 2] as char).collect::<String>() + ";" + &(0..n).rev().map(|i| b"ab"[i * i / 3 % 2] as char).collect::<String>(), |n| {
            (0..n).map(|k| (k, "mirror", k, 2 * n + 1 - k)).collect()
        }, |n| n),
        case!(around_item, |n| "<".repeat(n) + "9" + &">".repeat(n), |n| vec![(0, "around_item", 0, 2 * n + 1)].into_iter().chain((0..n).map(|k| (k + 1, "around", k, 2 * n + 1 - k))).chain([(n + 1, "item", n, n + 1)]).collect(), |n| n),
        case!(through, |n| "[".repeat(n) + "9" + &"]".repeat(n), |n| vec![(0, "through", 0, 2 * n + 1)], |n| n),
        case!(call, |n| "f( ".repeat(n) + "g()" + &" , h())".repeat(n), |n| {
            // Before it: three bytes a level; after it: seven.
            let (mut v, a) = (vec![], 3 * n + 3);
            for k in 0..n {
                v.push((k, "call", 3 * k, a + 7 * (n - k)));
                v.push((k + 1, "word", 3 * k, 3 * k + 1));
            }
            v.push((n, "call", 3 * n, a));
            v.push((n + 1, "word", 3 * n, 3 * n + 1));
            for k in 0..n {
                let h = a + 7 * k + 3;
                v.push((n - k, "call", h, h + 3));
                v.push((n - k + 1, "word", h, h + 1));
            }
            v
        }, |n| 3 * n),
        case!(sum, |n| "(1+".repeat(n) + "2" + &")".repeat(n), |n| {
            let e = 4 * n + 1;
            let mut v = vec![(0, "sum", 0, e)];
            let mut d = 1;
            for k in 0..n {
                v.push((d, "term", 3 * k, e - k));
                v.push((d + 1, "sum", 3 * k + 1, e - k - 1));
                v.push((d + 2, "term", 3 * k + 1, 3 * k + 2));
                v.push((d + 3, "item", 3 * k + 1, 3 * k + 2));
                d += 2;
            }
            v.push((d, "term", 3 * n, 3 * n + 1));
            v.push((d + 1, "item", 3 * n, 3 * n + 1));
            v
        }, |n| 3 * n),
    ]
}
const DEPTHS: &[usize] = &[2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, DEEP];
const DEEP: usize = 3000;
const TIMES: usize = 16;

pub fn all(rep: &mut Report, w: &watch::Watch, look: &str, mine: impl Fn(usize) -> bool) {
    for (k, c) in cases().into_iter().enumerate() {
        if !mine(k) {
            continue;
        }
        let mut first: Option<(isize, String)> = None;
        let mut took = vec![];
        for n in DEPTHS.iter().copied().chain(look.is_empty().then_some(DEEP * TIMES)) {
            let text = (c.make)(n);
            let k = (c.wrong)(n);
            let wrong = format!("{}${}", &text[..k], &text[k..]);
            w.enter(|| format!("rule {} with {n} levels", c.rule));
            let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 30).spawn_scoped(s, || {
                let start = crate::cpu_time();
                let r = (watch::guard(|| (c.run)(&text)), watch::guard(|| (c.run)(&wrong)));
                if n >= DEEP {
                    took.push(crate::cpu_time() - start);
                }
                r
            }).expect("thread").join().expect("joined"));
            w.leave();
            rep.count("deep_calls", 8);
            rep.max("levels", n as u64);
            let n_ = n.to_string();
            let mut bad = |key, what, want: String, got: String| rep.violation(key, what, &[("rule", c.rule), ("levels", &n_), ("expected", &want.chars().take(300).collect::<String>()), ("got", &got.chars().take(300).collect::<String>())]);
            let (good, wrong_) = match r {
                (Ok(a), Ok(b)) => (a, b),
                (a, b) => {
                    bad("panic", "parsing a deep text panicked", "no panic".into(), format!("{:?} {:?}", a.err(), b.err()));
                    continue;
                }
            };
            if look != "errors" {
                let want = (c.tree)(n);
                let ok = (good.check.is_ok(), good.partial, good.check_partial, good.same) == (true, Some(text.len()), Some(text.len()), true);
                match &good.rows {
                    Err(e) => bad("deep", "a deep text is refused", "a tree".into(), e.clone()),
                    _ if !ok && look != "children" => bad("deep", "the entry points do not agree on a deep text", format!("{} bytes", text.len()), format!("check {:?}, {:?} and {:?} bytes, same {}", good.check, good.partial, good.check_partial, good.same)),
                    Ok(rows) if look != "results" => {
                        rep.count("deep_pairs", rows.len() as u64);
                        let i = (0..rows.len().max(want.len())).find(|i| rows.get(*i).map(|r| (r.0, r.1.as_str(), r.2, r.3)) != want.get(*i).copied());
                        if let Some(i) = i {
                            rep.violation("deep", "the pairs of a deep text are others than matched", &[("rule", c.rule), ("levels", &n_), ("pair", &i.to_string()), ("expected", &format!("{:?}", want.get(i))), ("got", &format!("{:?}", rows.get(i)))]);
                        }
                    }
                    _ => {}
                }
                if wrong_.rows.is_ok() || wrong_.check.is_ok() {
                    rep.violation("deep", "a wrong text is accepted", &[("rule", c.rule), ("levels", &n_)]);
                }
            }
            if look == "errors" || look.is_empty() {
                // The error is where it is with two levels, and says the same.
                let Err(e) = &wrong_.rows else { continue };
                let got = (wrong_.at.map_or(-1, |a| a as isize) - k as isize, e.clone());
                rep.count("deep_errors", 1);
                if wrong_.check_at != wrong_.at || wrong_.check.as_ref() != Err(e) {
                    rep.violation("deep-error", "checking a deep text reports another error than parsing it", &[("rule", c.rule), ("levels", &n_), ("parse", e), ("check", &format!("{:?}", wrong_.check))]);
                }
                match &first {
                    None => first = Some(got),
                    Some(f) if *f == got => {}
                    Some(f) => rep.violation("deep-error", "an error in a deep text is not what it is in a flat one", &[("rule", c.rule), ("levels", &n_), ("expected", &format!("{f:?}")), ("got", &format!("{got:?}"))]),
                }
                if n == 100 {
                    rep.sample(format!("{}: {:?}", c.rule, first));
                }
            }
        }
        if let [small, big] = took[..] {
            if std::env::var("LONG_PRINT").is_ok() { eprintln!("deep {} {took:?}", c.rule); }
            rep.max("times_slower_deep", (big.as_nanos() / small.as_nanos().max(1)) as u64);
            if big > small * (TIMES as u32 * 4) && big > std::time::Duration::from_millis(500) {
                rep.violation("time", "time grows much faster than the levels of a text", &[("rule", c.rule), ("times", &format!("{took:?}"))]);
            }
        }
    }
}
