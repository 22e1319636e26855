//! Drives every rule of every compiled grammar and compares with the reference model.
use crate::api::*;
use crate::watch;
use model::interp::{self, Events, Prog, N};
use model::report::Report;
use model::rng::Rng;
use model::{expect, ggen, inputs, render};
use std::rc::Rc;

pub struct Entry {
    pub idx: u64,
    pub api: Box<dyn Dyn + Sync + Send>,
}
fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.into())
}
fn num(k: &str, d: u64) -> u64 {
    env(k, "").parse().unwrap_or(d)
}
struct Cfg {
    seed: u64,
    profile: String,
    facets: Vec<String>,
    inputs: usize,
    budget: u64,
    /// What makes a session non-trivial for the property: any of these happened.
    nontrivial: Vec<String>,
    seen: std::sync::Mutex<std::collections::HashSet<u64>>,
    #[allow(clippy::type_complexity)]
    recorded: std::sync::Mutex<Vec<((u64, usize, bool, bool, bool, bool), String)>>,
}
impl Cfg {
    /// Steps of the model.
    fn budget(&self, input: &str) -> u64 {
        self.budget * (1 + input.len() as u64 / 600)
    }
    fn has(&self, f: &str) -> bool {
        self.facets.iter().any(|x| x == f)
    }
}
/// Entry point of a generated binary.
pub fn main(entries: Vec<Entry>) {
    watch::install_hook();
    if let Ok(f) = std::env::var("VERIF_REPLAY") {
        return replay(&entries, &f);
    }
    let main = move || {
        if let Err(m) = watch::guard(|| match std::env::var("VERIF_FRESH") {
            Ok(f) => fresh_child(&entries, &f),
            Err(_) => real_main(entries),
        }) {
            panic!("{}", {
                eprintln!("{m}");
                m
            });
        }
    };
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(main).expect("spawn");
    if h.join().is_err() {
        eprintln!("runner thread panicked");
        std::process::exit(3);
    }
}
fn real_main(entries: Vec<Entry>) {
    let cfg = Cfg {
        seed: num("VERIF_GEN_SEED", 1),
        profile: env("VERIF_PROFILE", "core"),
        facets: env("VERIF_FACETS", "ACC").split(',').map(|s| s.to_string()).collect(),
        inputs: num("VERIF_INPUTS", 60) as usize,
        budget: num("VERIF_BUDGET", 20000),
        nontrivial: env("VERIF_NT", "rule_calls").split(',').map(|s| s.to_string()).collect(),
        seen: Default::default(),
        recorded: Default::default(),
    };
    let only: Option<u64> = std::env::var("VERIF_ONLY").ok().and_then(|s| s.parse().ok());
    let w = watch::Watch::new();
    w.spawn(num("VERIF_HANG_MS", 30000), |case| {
        let mut r = Report::default();
        r.violation("hang", "a parse that the reference model finishes in bounded steps did not return", &[("case", &case)]);
        r.finish();
        std::process::exit(0);
    });
    let mut rep = Report::default();
    let mut ev = Events::default();
    let mut concurrent: Vec<Case> = vec![];
    let mut recorded: Vec<String> = vec![];
    for (ei, en) in entries.iter().enumerate() {
        if only.is_some_and(|o| o != en.idx) {
            continue;
        }
        let g = ggen::grammar(cfg.seed, &cfg.profile, en.idx);
        let prog = interp::compile(&g).expect("model compiles");
        rep.count("grammars", 1);
        let mut ops = std::collections::BTreeMap::new();
        for m in &g.modules {
            for r in &m.rules {
                r.expr.ops(&mut ops);
            }
        }
        for (k, v) in ops {
            rep.count(&format!("op:{k}"), v);
        }
        let text: String = g.modules.iter().map(|m| format!("--- {}\n{}", m.file, render::Style::plain().module(m))).collect();
        for ri in 0..en.api.len() {
            let name = en.api.name(ri);
            let rule = *prog.by_name.get(name).unwrap_or_else(|| panic!("rule {name} not in the model"));
            let args: Vec<N> = en.api.args(ri).iter().map(|a| N::Call(prog.by_name[*a], Rc::new(vec![]))).collect();
            let shown = if args.is_empty() { name.to_string() } else { format!("{name}({})", en.api.args(ri).join(", ")) };
            let mut rng = Rng::derive(cfg.seed, &format!("in:{}:{shown}", cfg.profile), en.idx);
            rep.count("rules", 1);
            if let Some(n) = en.api.rule_name(ri) {
                if n != name && cfg.has("PAIRS") {
                    rep.violation("rule-value", "PairTree::get_rule returns another rule", &[("grammar", &text), ("rule", name), ("got", &n)]);
                }
            }
            let getters = if cfg.has("GETTERS") { expect::getters(&prog, rule) } else { Default::default() };
            for input in inputs::inputs(&prog, crate::walk::unicode, rule, &args, &mut rng, cfg.inputs) {
                let mut calls = vec![(0usize, vec![])];
                if rng.pct(35) {
                    let b: Vec<usize> = input.char_indices().map(|x| x.0).chain([input.len()]).collect();
                    let mut st = vec![];
                    for _ in 0..rng.weighted(&[3, 3, 2, 1]) {
                        let (x, y) = (*rng.pick(&b), *rng.pick(&b));
                        st.push((x.min(y), x.max(y)));
                    }
                    if rng.pct(3) {
                        // A deep one, mostly of what matches nothing.
                        let n = *rng.pick(&[15usize, 16, 17, 64, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025]);
                        let (x, y) = (*rng.pick(&b), *rng.pick(&b));
                        let other = (x.min(y), x.max(y));
                        let few = rng.below(4);
                        for _ in 0..n {
                            st.push(if rng.below(n) < few { other } else { (x, x) });
                        }
                        rep.count("deep_stacks", 1);
                    }
                    let s = if rng.pct(60) { *rng.pick(&b) } else { 0 };
                    calls.push((s, st));
                }
                for (start, st) in calls {
                    one(&cfg, en, ri, rule, &shown, &prog, &args, &input, start, &st, &text, &getters, &mut rep, &mut ev, &w);
                }
                // The same further down a longer text.
                let before = rng.pct(20).then(|| before(&mut rng));
                let (whole, start) = match &before {
                    Some(b) => (format!("{b}{input}"), b.len()),
                    None => (input.clone(), 0),
                };
                if before.is_some() {
                    rep.count("moved_down", 1);
                    one(&cfg, en, ri, rule, &shown, &prog, &args, &whole, start, &[], &text, &getters, &mut rep, &mut ev, &w);
                }
                if cfg.has("CONC") && whole.len() < 5000 && concurrent.len() < num("VERIF_CONC", 6000) as usize {
                    // Only inputs the model handles in bounded steps.
                    if let Ok(exp) = interp::run(&prog, crate::walk::unicode, rule, args.clone(), &whole, start, vec![], cfg.budget(&whole)) {
                        w.enter(|| format!("grammar {} rule {shown} input {whole:?} start {start}", en.idx));
                        let q = watch::guard(|| en.api.quick(ri, &whole, start));
                        w.leave();
                        recorded.push(format!("{q:?}"));
                        let had = exp.ev.kv().iter().filter(|x| x.1 > 0).map(|x| x.0).collect();
                        concurrent.push(Case { ei, ri, input: whole, start, had });
                    }
                }
            }
        }
    }
    if cfg.has("CONC") {
        fresh(&entries, &concurrent, &recorded, &mut rep);
        conc(&cfg, &entries, &concurrent, &recorded, &mut rep);
        if !cfg.has("THREADS") {
            marathon(&cfg, &entries, &concurrent, &recorded, &mut rep);
        }
    }
    if cfg.has("RECORD") {
        let mut all = std::mem::take(&mut *cfg.recorded.lock().unwrap());
        let mut rng = Rng::derive(cfg.seed, "record", entries.first().map_or(0, |e| e.idx));
        for i in (1..all.len()).rev() {
            all.swap(i, rng.below(i + 1));
        }
        all.truncate(num("VERIF_RECORD_MAX", 30) as usize);
        let text: String = all.iter().map(|x| format!("{}\n", x.1)).collect();
        std::fs::write(env("VERIF_RECORD", "recorded.txt"), text).expect("recorded calls");
    }
    for (k, v) in ev.kv() {
        if k.starts_with("max") {
            rep.max(k, v);
        } else {
            rep.count(&format!("ev:{k}"), v);
        }
    }
    rep.finish();
}
/// A text to come before another one: several lines.
fn before(rng: &mut Rng) -> String {
    if rng.below(1000) < 3 {
        // Far down, or far to the right.
        let n = *rng.pick(&[255usize, 256, 999, 4000, 9_999, 65_535, 65_536, 70_000]);
        return if rng.pct(50) { "\n".repeat(n) } else { format!("x\n{}", "x".repeat(n)) };
    }
    let lines = *rng.pick(&[0usize, 1, 7, 8, 9, 10, 98, 99, 120]);
    let mut b: String = (0..lines).map(|_| *rng.pick(&["\n", "\n", "\r\n", "x\n", "é\n", "\t\n"])).collect();
    b += *rng.pick(&["", "", "x", "é", "\t中", " "]);
    if b.is_empty() {
        b.push('\n');
    }
    b
}
struct Case {
    ei: usize,
    ri: usize,
    input: String,
    start: usize,
    /// What happens in it, by the model.
    had: Vec<&'static str>,
}
/// The same calls in a process of their own, the other way round.
fn fresh(entries: &[Entry], cases: &[Case], recorded: &[String], rep: &mut Report) {
    if cases.is_empty() {
        return;
    }
    let out = env("VERIF_OUT", "/tmp/out.json");
    let dir = std::path::Path::new(&out).parent().expect("dir").display().to_string();
    let (i, o) = (format!("{dir}/fresh-{}.in", std::process::id()), format!("{dir}/fresh-{}.out", std::process::id()));
    let text: String = cases.iter().map(|c| format!("{}\n", Recorded { idx: entries[c.ei].idx, ri: c.ri, start: c.start, stack: vec![], input: c.input.clone() }.write())).collect();
    std::fs::write(&i, text).expect("calls");
    let ok = std::process::Command::new(std::env::current_exe().expect("exe")).env("VERIF_FRESH", &i).env("VERIF_FRESH_OUT", &o).status().is_ok_and(|s| s.success());
    let got = std::fs::read_to_string(&o).unwrap_or_default();
    let _ = (std::fs::remove_file(&i), std::fs::remove_file(&o));
    let mut got: Vec<&str> = got.lines().collect();
    got.reverse();
    rep.count("calls_in_a_fresh_process", got.len() as u64);
    if !ok || got.len() != cases.len() {
        rep.violation("history-end", "a process that repeats calls that returned ended early", &[("calls", &cases.len().to_string()), ("done", &got.len().to_string())]);
        return;
    }
    for ((c, was), now) in cases.iter().zip(recorded).zip(got) {
        // Debug texts have no line ends of their own.
        if was != now {
            rep.violation(
                "history",
                "the same rule on the same text gave another result in another process",
                &[("grammar_index", &entries[c.ei].idx.to_string()), ("rule", entries[c.ei].api.name(c.ri)), ("input", &format!("{:?}", c.input)), ("start", &c.start.to_string()), ("first", was), ("now", now)],
            );
        }
    }
}
fn fresh_child(entries: &[Entry], file: &str) {
    use std::io::Write;
    let mut cases: Vec<Recorded> = std::fs::read_to_string(file).expect("calls").lines().map(Recorded::read).collect();
    cases.reverse();
    let mut out = std::io::BufWriter::new(std::fs::File::create(env("VERIF_FRESH_OUT", "")).expect("out"));
    let w = watch::Watch::new();
    w.spawn(num("VERIF_HANG_MS", 30000), |_| std::process::exit(7));
    for c in &cases {
        let en = entries.iter().find(|e| e.idx == c.idx).expect("grammar");
        w.enter(String::new);
        let q = watch::guard(|| en.api.quick(c.ri, &c.input, c.start));
        w.leave();
        writeln!(out, "{q:?}").expect("out");
    }
    out.flush().expect("out");
}
/// Calls recorded by another process, without the model (for interpreters): one thread, then three.
fn replay(entries: &[Entry], file: &str) {
    let cases: Vec<Recorded> = std::fs::read_to_string(file).expect("recorded calls").lines().map(Recorded::read).collect();
    let mut rep = Report::default();
    let mut first = vec![];
    let run = |c: &Recorded, again: bool| {
        let en = entries.iter().find(|e| e.idx == c.idx).expect("grammar");
        let input: Box<str> = c.input.as_str().into();
        let o = watch::guard(|| en.api.light(c.ri, &Call { input: &input, start: c.start, stack: &c.stack }));
        let x = watch::guard(|| if again { None } else { en.api.extra(c.ri, &input) });
        (o, x)
    };
    for c in &cases {
        let r = run(c, false);
        let clone = r.1.as_ref().ok().cloned().flatten().and_then(|p| p.first().cloned());
        if let Some(p) = clone {
            rep.violation("clone", "a clone is not like its original", &[("call", &c.write()), ("got", &p)]);
        }
        rep.count("interpreted_calls", 4);
        if r.0.is_err() || r.1.is_err() {
            rep.violation("panic", "a call panicked under the interpreter", &[("call", &c.write()), ("got", &format!("{:?} {:?}", r.0, r.1))]);
        }
        first.push(r);
    }
    let out = std::sync::Mutex::new(&mut rep);
    let n = cases.len().min(4);
    std::thread::scope(|s| {
        for t in 0..3 {
            let (out, cases, first, run) = (&out, &cases, &first, &run);
            s.spawn(move || {
                for k in (0..n).map(|k| (k + t) % n) {
                    let same = run(&cases[k], true).0 == first[k].0;
                    let mut rep = out.lock().unwrap();
                    rep.count("interpreted_concurrently", 3);
                    if !same {
                        rep.violation("history", "the same call gave another result on another thread", &[("call", &cases[k].write())]);
                    }
                }
            });
        }
    });
    rep.finish();
}
/// One call, as a line of a file.
struct Recorded {
    idx: u64,
    ri: usize,
    start: usize,
    stack: Vec<(usize, usize)>,
    input: String,
}
impl Recorded {
    fn write(&self) -> String {
        let hex: String = self.input.bytes().map(|b| format!("{b:02x}")).collect();
        let stack: String = self.stack.iter().map(|(a, b)| format!("{a}-{b};")).collect();
        format!("{},{},{},{stack},{hex}", self.idx, self.ri, self.start)
    }
    fn read(line: &str) -> Recorded {
        let f: Vec<&str> = line.split(',').collect();
        let b: Vec<u8> = (0..f[4].len() / 2).map(|i| u8::from_str_radix(&f[4][2 * i..2 * i + 2], 16).unwrap()).collect();
        let stack = f[3].split_terminator(';').map(|x| x.split_once('-').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
        Recorded { idx: f[0].parse().unwrap(), ri: f[1].parse().unwrap(), start: f[2].parse().unwrap(), stack, input: String::from_utf8(b).unwrap() }
    }
}
/// Replays the recorded calls from several threads, each in its own order, twice.
fn conc(cfg: &Cfg, entries: &[Entry], cases: &[Case], recorded: &[String], rep: &mut Report) {
    let threads = 8;
    let bar = std::sync::Barrier::new(threads);
    let out = std::sync::Mutex::new(Report::default());
    let switches = std::sync::atomic::AtomicU64::new(0);
    let last = std::sync::atomic::AtomicU64::new(99);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (bar, out, switches, last) = (&bar, &out, &switches, &last);
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn_scoped(s, move || {
                    let mut rng = Rng::derive(cfg.seed, "conc", t as u64);
                    let mut order: Vec<usize> = (0..cases.len()).collect();
                    let mut r = Report::default();
                    for round in 0..2 {
                        for i in (1..order.len()).rev() {
                            order.swap(i, rng.below(i + 1));
                        }
                        bar.wait();
                        for &k in &order {
                            let Case { ei, ri, input, start, .. } = &cases[k];
                            if last.swap(t as u64, std::sync::atomic::Ordering::Relaxed) != t as u64 {
                                switches.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            }
                            if rng.pct(3) {
                                std::thread::yield_now();
                            }
                            // A private copy: nothing may depend on the address of the input.
                            let copy = format!("{}{input}", "#".repeat(k % 7));
                            let q = format!("{:?}", watch::guard(|| entries[*ei].api.quick(*ri, &copy[k % 7..], *start)));
                            r.count("concurrent_calls", 1);
                            if q != recorded[k] {
                                r.violation(
                                    "history",
                                    "the same rule on the same text gave another result later / on another thread",
                                    &[("grammar_index", &entries[*ei].idx.to_string()), ("rule", entries[*ei].api.name(*ri)), ("input", input), ("first", &recorded[k]), ("now", &q), ("thread", &t.to_string()), ("round", &round.to_string())],
                                );
                            }
                        }
                    }
                    out.lock().unwrap().merge(r);
                })
                .expect("spawn");
        }
    });
    let mut o = out.into_inner().unwrap();
    o.count("thread_switches_seen", switches.into_inner());
    rep.merge(o);
}
/// A long history on one thread: few calls, again and again, and then all of them.
fn marathon(cfg: &Cfg, entries: &[Entry], cases: &[Case], recorded: &[String], rep: &mut Report) {
    let small: Vec<usize> = (0..cases.len()).filter(|k| cases[*k].input.len() < 60).collect();
    if small.is_empty() {
        return;
    }
    let mut rng = Rng::derive(cfg.seed, "marathon", entries.first().map_or(0, |e| e.idx));
    let some: Vec<usize> = (0..64).map(|_| *rng.pick(&small)).collect();
    let all = num("VERIF_MARATHON", 100);
    let rounds = all as usize * 3;
    let mut r = Report::default();
    // Few calls of each kind, a great many times.
    let mut kinds: std::collections::BTreeMap<&str, Vec<usize>> = Default::default();
    for &k in small.iter().filter(|k| cases[**k].start == 0) {
        for e in &cases[k].had {
            kinds.entry(e).or_default().push(k);
        }
    }
    for (kind, of) in &kinds {
        for _ in 0..3 {
            let k = *rng.pick(of);
            let Case { ei, ri, input, .. } = &cases[k];
            let n = all as usize * if input.len() < 20 { 700 } else { 200 };
            let once = watch::guard(|| entries[*ei].api.again(*ri, input, 1));
            let many = watch::guard(|| entries[*ei].api.again(*ri, input, n));
            r.count("marathon_calls", n as u64);
            if many != once.clone().map(|x| (x.0 * n, x.1 * n)) {
                r.violation(
                    "history",
                    "the same rule on the same text gave another result the more often it was called",
                    &[("grammar_index", &entries[*ei].idx.to_string()), ("rule", entries[*ei].api.name(*ri)), ("input", input), ("kind", kind), ("once", &format!("{once:?}")), ("calls", &n.to_string()), ("succeeded", &format!("{many:?}"))],
                );
            }
        }
    }
    let mut go = |k: usize, round: usize| {
        let Case { ei, ri, input, start, .. } = &cases[k];
        let q = format!("{:?}", watch::guard(|| entries[*ei].api.quick(*ri, input, *start)));
        r.count("marathon_calls", 1);
        if q != recorded[k] {
            r.violation(
                "history",
                "the same rule on the same text gave another result after many calls on one thread",
                &[("grammar_index", &entries[*ei].idx.to_string()), ("rule", entries[*ei].api.name(*ri)), ("input", input), ("first", &recorded[k]), ("now", &q), ("round", &round.to_string())],
            );
        }
    };
    for round in 0..rounds {
        for &k in &some {
            go(k, round);
        }
    }
    for k in 0..cases.len() {
        go(k, rounds);
    }
    rep.merge(r);
}

#[allow(clippy::too_many_arguments)]
fn one(
    cfg: &Cfg,
    en: &Entry,
    ri: usize,
    rule: usize,
    shown: &str,
    prog: &Prog,
    args: &[N],
    input: &str,
    start: usize,
    st: &[(usize, usize)],
    text: &str,
    getters: &std::collections::BTreeMap<String, expect::G>,
    rep: &mut Report,
    ev: &mut Events,
    w: &watch::Watch,
) {
    let exp = match interp::run(prog, crate::walk::unicode, rule, args.to_vec(), input, start, st.to_vec(), cfg.budget(input)) {
        Ok(e) => e,
        Err(_) => {
            rep.count("skipped_by_budget", 1);
            return;
        }
    };
    ev.add(&exp.ev);
    rep.count("sessions", 1);
    let happened = |k: &str| match k {
        "accepted" => exp.res.is_some(),
        "rejected" => !exp.full,
        "nodes2" => exp.res.as_ref().is_some_and(|x| x.1.rule_nodes() >= 2),
        _ => exp.ev.kv().iter().any(|(n, v)| *n == k && *v > 0),
    };
    if cfg.nontrivial.iter().any(|k| happened(k)) && cfg.seen.lock().unwrap().insert(model::report::hash(&format!("{}|{shown}|{input}|{start}|{st:?}", en.idx))) {
        rep.count("distinct_nontrivial", 1);
    }
    rep.max("input_bytes", input.len() as u64);
    rep.count(
        match (&exp.res, exp.full) {
            (None, _) => "outcome:reject",
            (Some(_), false) => "outcome:prefix",
            (Some(_), true) => "outcome:full",
        },
        1,
    );
    // Exactly its bytes on the heap: a sanitizer sees reads beyond them.
    let exact: Box<str> = input.into();
    let call = Call { input: &exact, start, stack: st };
    let (wins, wine) = (start.to_string(), format!("{st:?}"));
    let idx = en.idx.to_string();
    macro_rules! bad {
        ($key:expr, $what:expr, $exp:expr, $got:expr) => {{
            let (e, g): (String, String) = ($exp, $got);
            rep.violation(
                $key,
                $what,
                &[("profile", &cfg.profile), ("grammar_index", &idx), ("grammar", text), ("rule", shown), ("input", &format!("{input:?}")), ("start", &wins), ("stack", &wine), ("expected", &e), ("got", &g)],
            )
        }};
    }
    w.enter(|| format!("profile {} grammar {idx} rule {shown} input {input:?} start {start} stack {st:?}\n{text}", cfg.profile));
    let o = watch::guard(|| en.api.observe(ri, &call));
    w.leave();
    let o = match o {
        Ok(o) => o,
        Err(m) => {
            bad!("panic", "parsing panicked", "no panic".into(), m);
            return;
        }
    };
    if let Some(p) = o.problems.first() {
        bad!("position", "an end position is outside the input", "inside".into(), p.clone());
    }
    if cfg.has("RECORD") && input.len() <= 24 && interp::run(prog, crate::walk::unicode, rule, args.to_vec(), input, start, st.to_vec(), 300).is_ok() {
        // The first session of each kind in each rule.
        let kind = (en.idx, ri, exp.res.is_some(), exp.full, !st.is_empty(), !input.is_ascii());
        let e: &mut Vec<_> = &mut cfg.recorded.lock().unwrap();
        if !e.iter().any(|x| x.0 == kind) {
            e.push((kind, Recorded { idx: en.idx, ri, start, stack: st.to_vec(), input: input.into() }.write()));
        }
    }
    if cfg.has("SAFE") {
        // What a call allocated is gone with its results (the first call may fill caches).
        w.enter(|| format!("profile {} grammar {idx} rule {shown} input {input:?} start {start} stack {st:?} (again)\n{text}", cfg.profile));
        let mut left = 0;
        for _ in 0..3 {
            let before = crate::alloc::live();
            drop(watch::guard(|| en.api.observe(ri, &call)));
            left = crate::alloc::live() - before;
            if left == 0 {
                break;
            }
        }
        rep.count("allocations_balanced", 1);
        if left != 0 {
            bad!("leak", "memory of a call is not freed with its results", "0 bytes".into(), format!("{left} bytes"));
        }
        if start == 0 && st.is_empty() {
            match watch::guard(|| en.api.extra(ri, input)) {
                Ok(None) => (),
                Ok(Some(p)) => {
                    rep.count("clones_checked", 1);
                    if let Some(p) = p.first() {
                        bad!("clone", "a clone is not like its original", "like it".into(), p.clone());
                    }
                }
                Err(m) => bad!("panic", "cloning or showing a result panicked", "no panic".into(), m),
            }
        }
        w.leave();
    }
    let end = exp.res.as_ref().map(|x| x.0);
    let obs_end = o.ppp.as_ref().map(|x| x.0);
    if cfg.has("ACC") {
        rep.count("checked:ACC", 1);
        if obs_end != end {
            bad!("accept", "try_parse_with_partial does not match the PEG meaning", format!("{end:?}"), format!("{obs_end:?}"));
        }
        if o.cpp != end {
            bad!("accept", "check_with_partial does not match the PEG meaning", format!("{end:?}"), format!("{:?}", o.cpp));
        }
        if o.pp.is_some() != exp.full || o.cp != exp.full {
            bad!("accept-full", "full parse does not match the PEG meaning", format!("{}", exp.full), format!("parse {} check {}", o.pp.is_some(), o.cp));
        }
    }
    if cfg.has("AGREE") {
        rep.count("checked:AGREE", 1);
        let full = obs_end == Some(input.len());
        if o.cpp != obs_end {
            bad!("agree", "check_with_partial disagrees with try_parse_with_partial", format!("{obs_end:?}"), format!("{:?}", o.cpp));
        }
        if o.cp != full || o.pp.is_some() != full {
            bad!("agree", "full entry points disagree with the partial ones", format!("{full}"), format!("parse {} check {}", o.pp.is_some(), o.cp));
        }
        if let (Some((_, a)), Some(b)) = (&o.ppp, &o.pp) {
            if a != b {
                bad!("agree", "try_parse_with and try_parse_with_partial give different trees", format!("{a:?}"), format!("{b:?}"));
            }
        }
        if o.tracks[0] != o.tracks[2] || o.tracks[1] != o.tracks[3] {
            bad!("agree", "parsing and checking record different attempts", format!("{} / {}", o.tracks[0], o.tracks[1]), format!("{} / {}", o.tracks[2], o.tracks[3]));
        }
        if o.stacks[0] != o.stacks[2] || o.stacks[1] != o.stacks[3] {
            bad!("agree", "parsing and checking leave different stacks", format!("{:?} / {:?}", o.stacks[0], o.stacks[1]), format!("{:?} / {:?}", o.stacks[2], o.stacks[3]));
        }
        if let Some(s) = &o.simple {
            rep.count("checked:AGREE-simple", 1);
            if s.part.as_ref().ok().map(|x| (x.0, x.1.clone())) != o.ppp {
                bad!("agree", "try_parse_partial disagrees with try_parse_with_partial", format!("{:?}", o.ppp), format!("{:?}", s.part));
            }
            if s.p.as_ref().ok() != o.pp.as_ref() {
                bad!("agree", "try_parse disagrees with try_parse_with", format!("{:?}", o.pp), format!("{:?}", s.p));
            }
            if s.c.is_ok() != s.p.is_ok() || s.c.as_ref().err() != s.p.as_ref().err() {
                bad!("agree", "check disagrees with try_parse", format!("{:?}", s.p), format!("{:?}", s.c));
            }
            let ends: Result<usize, Fail> = s.part.clone().map(|x| x.0);
            if s.cpart != ends {
                bad!("agree", "check_partial disagrees with try_parse_partial", format!("{ends:?}"), format!("{:?}", s.cpart));
            }
            if s.tp != s.p || s.tpart != s.part {
                bad!("agree", "TypedParser disagrees with TypedNode", format!("{:?} {:?}", s.p, s.part), format!("{:?} {:?}", s.tp, s.tpart));
            }
            if !full && s.part.is_ok() && s.p.is_ok() {
                bad!("agree", "try_parse accepted although the partial parse leaves a rest", "Err".into(), "Ok".into());
            }
        }
    }
    let both = obs_end == end && o.ppp.is_some();
    if both {
        let (_, v) = o.ppp.as_ref().unwrap();
        let tree = &exp.res.as_ref().unwrap().1;
        if cfg.has("WALK") {
            rep.count("checked:WALK", 1);
            rep.count("tree_rule_nodes", tree.rule_nodes() as u64);
            let want = tree.show(prog);
            if v.walk != want {
                bad!("tree", "the typed tree is not the one the grammar describes", want.clone(), v.walk.clone());
            }
            rep.sample(want);
        }
        if cfg.has("PAIRS") && v.pairs == "none" {
            rep.count("without_pairs", 1);
        } else if cfg.has("PAIRS") {
            rep.count("checked:PAIRS", 1);
            let mut want = String::new();
            tree.pairs(prog, &mut want);
            rep.count("pairs_seen", want.matches('@').count() as u64);
            if v.pairs != want {
                bad!("pairs", "token pairs are not the ones the grammar describes", want.clone(), v.pairs.clone());
            }
            if let Some(t) = &v.tree {
                if *t != want {
                    bad!("pairs", "as_pair_tree is not the pair the grammar describes", want.clone(), t.clone());
                }
            }
            if let Some(p) = v.problems.first() {
                bad!("pairs-api", "the pair API is inconsistent", want.clone(), p.clone());
            }
            rep.sample(want);
        }
        if cfg.has("GETTERS") {
            if let interp::W::Rule { content, .. } = tree {
                for (g, got) in &v.getters {
                    let g = g.trim_start_matches("r#");
                    let e = &getters[g];
                    let want = e.show(content, prog);
                    rep.count("checked:GETTERS", 1);
                    rep.count(if want.starts_with('[') { "getter:vec" } else if want.starts_with('(') { "getter:tuple" } else if want.starts_with('?') { "getter:option" } else { "getter:direct" }, 1);
                    if *got != want {
                        bad!("getter", "a getter does not return the referenced nodes", format!("{g}: {want}"), got.clone());
                    }
                    rep.sample(format!("{g}: {want}"));
                }
            }
        }
    }
    if cfg.has("STACK") {
        rep.count("checked:STACK", 1);
        for (k, s) in o.stacks.iter().enumerate() {
            if let Some(s) = s {
                if both && *s != exp.stack {
                    bad!("stack", "the stack after a successful call is not the described one", format!("{:?}", exp.stack), format!("{s:?} (call {k})"));
                }
            }
        }
        for (k, b) in o.balanced.iter().enumerate() {
            if !b {
                bad!("stack-balance", "after the call, restoring the caller's snapshot does not give the caller's stack", format!("{st:?}"), format!("call {k}"));
            }
        }
    }
    if cfg.has("FAIL") && obs_end == end {
        rep.count("checked:FAIL", 1);
        let (a, b) = (exp.track.show(), exp.track_full.show());
        for (k, (got, want)) in o.tracks.iter().zip([&a, &b, &a, &b]).enumerate() {
            if got != want {
                bad!("report", "recorded attempts are not the furthest failures", want.clone(), format!("{got} (call {k})"));
            }
        }
        {
            let mut f = |f: &Fail, t: &interp::Track| {
                rep.count("error_reports_checked", 1);
                rep.count(&format!("error_line_digits:{}", line_col(input, t.position).0.to_string().len()), 1);
                let (line, col) = line_col(input, t.position);
                let from = input[..t.position].rfind('\n').map_or(0, |x| x + 1);
                let lines = t.message_lines();
                let pad = " ".repeat(line.to_string().len() + 3);
                let mut want = format!("{}^---", &input[from..t.position]);
                for l in &lines {
                    want.push('\n');
                    want.push_str(&pad);
                    want.push_str(l);
                }
                if f.pos != t.position || f.line_col != (line, col) {
                    bad!("error-position", "the error is not at the furthest failure", format!("{} {:?}", t.position, (line, col)), format!("{} {:?}", f.pos, f.line_col));
                } else if f.message != want {
                    bad!("error-message", "the error message does not list the furthest attempts", want, f.message.clone());
                } else if !f.display.contains(&format!("{line}:{col}")) {
                    bad!("error-display", "the rendered error lacks its position", format!("{line}:{col}"), f.display.clone());
                }
            };
            if let Some(Err(e)) = o.simple.as_ref().map(|s| &s.p) {
                f(e, &exp.track_full);
            }
            if let Some(Err(e)) = o.simple.as_ref().map(|s| &s.part) {
                f(e, &exp.track);
            }
            for (e, t) in o.errors.iter().zip([&exp.track, &exp.track_full]) {
                if let Some(e) = e {
                    f(e, t);
                }
            }
        }
    }
}
/// 1-based line and column (in characters) as documented: lines end at `\n`, and `\r\n` counts once.
pub fn line_col(s: &str, pos: usize) -> (usize, usize) {
    let b = &s[..pos];
    let line = b.matches('\n').count() + 1;
    let from = b.rfind('\n').map_or(0, |x| x + 1);
    (line, b[from..].chars().count() + 1)
}
