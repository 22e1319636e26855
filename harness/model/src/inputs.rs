//! Inputs for a compiled grammar: strings sampled by walking the grammar (simulating the stack),
//! and mutations of them.
use crate::interp::*;
use crate::rng::Rng;

pub struct Sampler<'p> {
    p: &'p Prog,
    rng: &'p mut Rng,
    out: String,
    stack: Vec<String>,
    budget: usize,
    uni: UniPred,
    /// No more is written beyond this many bytes.
    limit: usize,
    /// So many repetitions are iterated `many` times (or around their bounds).
    long: usize,
    many: usize,
    /// Whether one was.
    reached: bool,
}
type Env = Option<std::rc::Rc<Vec<(N, EnvBox)>>>;
#[derive(Clone)]
pub struct EnvBox(Env);

pub const PROBES: &[char] = &[
    'a', 'b', 'z', 'A', 'Z', '0', '1', '7', '9', 'f', 'F', 'g', ' ', '\t', '\n', '\r', '_', '-', '+', '"', '\\', '\'', '\0', '\x7f', '\u{80}',
    'é', 'ß', 'ſ', 'İ', 'ı', 'K', 'λ', 'Σ', 'ς', 'Ж', '中', '文', '😀', '\u{301}', '\u{200d}', '\u{a0}', '\u{85}', '\u{2028}', '\u{feff}', '٣', '０',
    '²', 'Ⅷ', '∑', '€', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{b}', '\u{c}', '\u{3000}',
];

impl<'p> Sampler<'p> {
    /// Sometimes, all of a long literal but one character.
    fn near_miss(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        if n < 6 || !self.rng.pct(if n < 12 { 6 } else { 18 }) {
            return false;
        }
        let at = match self.rng.below(5) {
            0 | 1 => n - 1,
            2 => 0,
            _ => self.rng.below(n),
        };
        let other = s.chars().nth(self.rng.below(n)).unwrap_or('a');
        for (i, c) in s.chars().enumerate() {
            if i != at {
                self.out.push(c);
            } else if self.rng.pct(80) {
                self.out.push(if other != c { other } else { 'q' });
            }
        }
        true
    }
    fn n(&mut self, n: &N, env: &Env, depth: usize) {
        if self.out.len() > self.limit {
            return;
        }
        let exhausted = self.budget == 0 || depth > 60;
        self.budget = self.budget.saturating_sub(1);
        match n {
            N::Str(s) if !self.near_miss(s) => self.out.push_str(s),
            N::Str(_) => (),
            N::Ins(s) => {
                if self.near_miss(s) {
                    return;
                }
                for c in s.chars() {
                    if self.rng.pct(50) && c.is_ascii() {
                        self.out.push(if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() });
                    } else {
                        self.out.push(c);
                    }
                }
            }
            N::Range(a, b) => {
                if a > b {
                    return self.out.push(*a);
                }
                let c = match self.rng.below(6) {
                    0 => *a,
                    1 => *b,
                    2 => char::from_u32((*a as u32).wrapping_sub(1)).unwrap_or(*a),
                    3 if self.rng.pct(40) => char::from_u32(*b as u32 + 1).unwrap_or(*b),
                    _ => {
                        let span = *b as u32 - *a as u32 + 1;
                        char::from_u32(*a as u32 + self.rng.below(span as usize) as u32).unwrap_or(*a)
                    }
                };
                self.out.push(c);
            }
            N::Uni(name) => {
                let good: Vec<char> = PROBES.iter().copied().filter(|c| (self.uni)(name, *c)).collect();
                if good.is_empty() || self.rng.pct(10) {
                    let c = *self.rng.pick(PROBES);
                    self.out.push(c);
                } else {
                    let c = *self.rng.pick(&good);
                    self.out.push(c);
                }
            }
            N::Any => {
                let c = *self.rng.pick(PROBES);
                self.out.push(c);
            }
            N::Soi | N::Eoi | N::Neg(_) => {}
            N::Pos(x) => {
                // Usually what follows has to match as well; sometimes emit the lookahead.
                if self.rng.pct(12) {
                    self.n(x, env, depth + 1);
                }
            }
            N::Newline => {
                let s = *self.rng.pick(&["\n", "\r\n", "\r"]);
                self.out.push_str(s);
            }
            N::Peek => {
                if let Some(s) = self.stack.last() {
                    self.out.push_str(s)
                }
            }
            N::Pop => {
                if let Some(s) = self.stack.pop() {
                    self.out.push_str(&s)
                }
            }
            N::Drop => {
                self.stack.pop();
            }
            N::PeekAll | N::PopAll => {
                let v: Vec<String> = self.stack.iter().rev().cloned().collect();
                v.iter().for_each(|s| self.out.push_str(s));
                if matches!(n, N::PopAll) {
                    self.stack.clear();
                }
            }
            N::Slice(a, b) => {
                let len = self.stack.len() as i64;
                let f = |i: i64| (if i < 0 { i + len } else { i }).clamp(0, len) as usize;
                let (s, e) = (f(*a), b.map_or(len as usize, f));
                if s < e {
                    let v: Vec<String> = self.stack[s..e].to_vec();
                    v.iter().for_each(|s| self.out.push_str(s));
                }
            }
            N::Push(x) => {
                let at = self.out.len();
                self.n(x, env, depth + 1);
                let s = self.out[at..].to_string();
                self.stack.push(s);
            }
            N::Bi(_, x) => self.n(x, env, depth + 1),
            N::Call(r, args) => {
                if exhausted && depth > 80 {
                    return;
                }
                let p = self.p;
                let e: Env = if args.is_empty() {
                    None
                } else {
                    Some(std::rc::Rc::new(args.iter().map(|a| (a.clone(), EnvBox(env.clone()))).collect()))
                };
                self.n(&p.rules[*r].body, &e, depth + 1)
            }
            N::Arg(i) => {
                if let Some(f) = env {
                    let (n, e) = f[*i].clone();
                    self.n(&n, &e.0, depth + 1)
                }
            }
            N::Seq(v) => {
                for (t, x) in v.iter() {
                    self.trivia(t, depth);
                    self.n(x, env, depth + 1);
                }
            }
            N::Choice(v) => {
                let i = if exhausted { 
                    // the smallest alternative
                    (0..v.len()).min_by_key(|i| weight(&v[*i], 6)).unwrap()
                } else {
                    self.rng.below(v.len())
                };
                // A failing attempt at an alternative first: shared prefixes.
                if !exhausted && i > 0 && self.rng.pct(6) {
                    let j = self.rng.below(i);
                    let st = self.stack.clone();
                    let at = self.out.len();
                    self.n(&v[j], env, depth + 1);
                    self.stack = st;
                    if self.rng.pct(50) {
                        self.out.truncate(at);
                    }
                }
                self.n(&v[i], env, depth + 1);
            }
            N::Opt(x) => {
                if !exhausted && self.rng.pct(55) {
                    self.n(x, env, depth + 1);
                }
            }
            N::Rep(x, t, min, max) => {
                if self.long > 0 && *max > 12 {
                    self.long -= 1;
                    self.reached = true;
                    let mut k = self.many as u64;
                    let near = 1u64 << 18;
                    match self.rng.below(6) {
                        0 if *min > 12 && *min < near => k = *min - 1,
                        1 | 2 if *min > 12 && *min < near => k = *min,
                        1 | 3 if *max < near => k = *max,
                        4 if *max < near => k = *max + 1,
                        _ => (),
                    }
                    for i in 0..k {
                        if self.out.len() > self.limit {
                            return;
                        }
                        self.budget = self.budget.max(6);
                        if i > 0 {
                            self.trivia(t, depth);
                        }
                        self.n(x, env, depth + 1);
                    }
                    return;
                }
                let hi = (*max).min(min.saturating_add(4));
                let k = if exhausted {
                    *min
                } else {
                    match self.rng.below(7) {
                        0 => *min,
                        1 => hi,
                        2 => (*max).min(min.saturating_add(2)).saturating_add(1).min(min.saturating_add(6)),
                        3 => min.saturating_sub(1),
                        _ => *min + self.rng.below((hi - *min + 1) as usize) as u64,
                    }
                };
                for i in 0..k.min(12) {
                    if i > 0 {
                        self.trivia(t, depth);
                    }
                    self.n(x, env, depth + 1);
                }
                if self.rng.pct(12) {
                    self.trivia(t, depth);
                }
            }
        }
    }
    fn trivia(&mut self, t: &Triv, depth: usize) {
        if let Some(n) = self.p.trivia_of(t) {
            let n = n.clone();
            if self.rng.pct(85) {
                self.n(&n, &None, depth + 1);
            }
        }
    }
}
fn weight(n: &N, d: usize) -> usize {
    if d == 0 {
        return 50;
    }
    match n {
        N::Call(..) => 20,
        N::Arg(_) => 10,
        N::Seq(v) => v.iter().map(|x| weight(&x.1, d - 1)).fold(0, usize::saturating_add),
        N::Choice(v) => v.iter().map(|x| weight(x, d - 1)).min().unwrap_or(0).saturating_add(1),
        N::Rep(x, _, min, _) => (*min as usize).saturating_mul(weight(x, d - 1)).saturating_add(1),
        N::Push(x) | N::Pos(x) | N::Neg(x) | N::Bi(_, x) => weight(x, d - 1),
        _ => 1,
    }
}

/// One string sampled from `rule`.
pub fn sample(p: &Prog, uni: UniPred, rule: usize, args: &[N], rng: &mut Rng) -> String {
    let budget = rng.range(20, 160);
    let mut s = Sampler { p, rng, out: String::new(), stack: vec![], budget, uni, limit: 400, long: 0, many: 0, reached: false };
    s.n(&N::Call(rule, std::rc::Rc::new(args.to_vec())), &None, 0);
    s.out
}
/// One with a repetition iterated `many` times, if the rule gets to one.
pub fn long(p: &Prog, uni: UniPred, rule: usize, args: &[N], rng: &mut Rng, many: usize) -> Option<String> {
    for _ in 0..4 {
        let long = rng.range(1, 2);
        let mut s = Sampler { p, rng, out: String::new(), stack: vec![], budget: 60, uni, limit: many * 2 + 6000, long, many, reached: false };
        s.n(&N::Call(rule, std::rc::Rc::new(args.to_vec())), &None, 0);
        if s.reached && s.out.len() > 12 {
            return Some(s.out);
        }
    }
    None
}

pub fn mutate(s: &str, alpha: &[char], rng: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let n = v.len();
        let c = if rng.pct(80) { *rng.pick(alpha) } else { *rng.pick(PROBES) };
        match rng.below(7) {
            0 => v.insert(rng.below(n + 1), c),
            1 if n > 0 => {
                v.remove(rng.below(n));
            }
            2 if n > 0 => v[rng.below(n)] = c,
            3 if n > 0 => v.truncate(rng.below(n + 1)),
            4 => v.push(c),
            5 if n > 1 => {
                let i = rng.below(n - 1);
                v.swap(i, i + 1);
            }
            6 if n > 0 => {
                let i = rng.below(n);
                let j = (i + rng.range(1, 4)).min(n);
                let d: Vec<char> = v[i..j].to_vec();
                let at = rng.below(n + 1);
                for (k, x) in d.into_iter().enumerate() {
                    v.insert(at + k, x);
                }
            }
            _ => v.push(c),
        }
    }
    v.into_iter().collect()
}
/// Characters that matter to a grammar.
pub fn alphabet(p: &Prog) -> Vec<char> {
    fn go(n: &N, out: &mut Vec<char>) {
        match n {
            N::Str(s) | N::Ins(s) => out.extend(s.chars()),
            N::Range(a, b) => out.extend([*a, *b]),
            N::Push(x) | N::Pos(x) | N::Neg(x) | N::Bi(_, x) | N::Opt(x) | N::Rep(x, ..) => go(x, out),
            N::Call(_, a) => a.iter().for_each(|x| go(x, out)),
            N::Seq(v) => v.iter().for_each(|x| go(&x.1, out)),
            N::Choice(v) => v.iter().for_each(|x| go(x, out)),
            _ => {}
        }
    }
    let mut v = vec!['a', 'b', ' '];
    for r in &p.rules {
        go(&r.body, &mut v);
    }
    for t in p.all_trivia() {
        go(t, &mut v);
    }
    v.sort();
    v.dedup();
    v
}
/// `n` distinct inputs for `rule`.
pub fn inputs(p: &Prog, uni: UniPred, rule: usize, args: &[N], rng: &mut Rng, n: usize) -> Vec<String> {
    let alpha = alphabet(p);
    let mut out: Vec<String> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut last = String::new();
    // Many iterations.
    let many = match rng.below(400) {
        0..=6 => Some(*rng.pick(&[65_535usize, 65_536, 65_537, 70_000])),
        7..=160 => Some(*rng.pick(&[13, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1025, 2000])),
        _ => None,
    };
    if let Some(s) = many.and_then(|m| long(p, uni, rule, args, rng, m)) {
        if s.len() < 6000 {
            let mut v: Vec<char> = s.chars().collect();
            let at = if rng.pct(60) { v.len() - rng.below(v.len().min(4)) } else { rng.below(v.len()) };
            let end = v.split_off(at);
            let t: String = v.into_iter().chain(mutate(&end.into_iter().collect::<String>(), &alpha, rng).chars()).collect();
            if seen.insert(t.clone()) {
                out.push(t);
            }
        }
        seen.insert(s.clone());
        out.push(s);
    }
    let n = n + out.len();
    for k in 0..n * 4 {
        if out.len() >= n {
            break;
        }
        let s = match k % 8 {
            0..=3 => {
                last = sample(p, uni, rule, args, rng);
                last.clone()
            }
            4 | 5 => mutate(&last, &alpha, rng),
            6 => {
                let mut t = sample(p, uni, rule, args, rng);
                if rng.pct(50) {
                    t.push_str(&sample(p, uni, rule, args, rng));
                } else {
                    let c = *rng.pick(&alpha);
                    t.push(c);
                }
                t
            }
            _ => (0..rng.below(8)).map(|_| *rng.pick(&alpha)).collect(),
        };
        if s.len() <= 600 && seen.insert(s.clone()) {
            out.push(s);
        }
    }
    out
}
