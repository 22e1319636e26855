//! Reference interpreter: PEG semantics of a grammar, evaluated directly on the AST.
use crate::ast::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

/// Unicode predicates are supplied by the harness (from `pest` 2.x's tables).
pub type UniPred = fn(&str, char) -> bool;

#[derive(Clone, Debug)]
pub enum N {
    Str(Rc<str>),
    Ins(Rc<str>),
    Range(char, char),
    Uni(Rc<str>),
    Any,
    Soi,
    Eoi,
    Newline,
    Peek,
    PeekAll,
    Pop,
    PopAll,
    Drop,
    Slice(i64, Option<i64>),
    Push(Rc<N>),
    /// Rule index, arguments.
    Call(usize, Rc<Vec<N>>),
    Arg(usize),
    Pos(Rc<N>),
    Neg(Rc<N>),
    /// Elements with the trivia preceding each (instance, kind).
    Seq(Rc<Vec<(Triv, N)>>),
    Choice(Rc<Vec<N>>),
    /// A built-in (never merged into an enclosing choice), under the name it was referred to by.
    Bi(Rc<str>, Rc<N>),
    Opt(Rc<N>),
    Rep(Rc<N>, Triv, u64, u64),
}
pub type Triv = Option<(usize, Tr)>;

#[derive(Clone, Debug)]
pub struct RuleIR {
    /// As printed by `Debug` of the root `Rule` enum, e.g. `a` or `m(a)`.
    pub name: String,
    pub local: String,
    pub rank: Vec<usize>,
    pub inst: usize,
    pub silent: bool,
    pub argc: usize,
    pub params: Vec<String>,
    pub body: N,
}
#[derive(Debug, Default)]
struct Inst {
    module: usize,
    /// alias path from the root
    path: Vec<String>,
    rank: Vec<usize>,
    /// alias -> instance
    files: HashMap<String, usize>,
    builtins: HashMap<String, Vec<String>>,
    opt: Option<N>,
    man: Option<N>,
    /// rule name -> rule index
    rules: HashMap<String, usize>,
}
pub struct Prog {
    pub rules: Vec<RuleIR>,
    triv: Vec<(Option<N>, Option<N>)>,
    /// rule debug name -> index
    pub by_name: HashMap<String, usize>,
    pub eoi_rank: Vec<usize>,
}

impl Prog {
    pub fn trivia_of(&self, t: &Triv) -> Option<&N> {
        match t {
            Some((i, Tr::Opt)) => self.triv[*i].0.as_ref(),
            Some((i, Tr::Man)) => self.triv[*i].1.as_ref(),
            _ => None,
        }
    }
    pub fn all_trivia(&self) -> Vec<&N> {
        self.triv.iter().flat_map(|(a, b)| a.iter().chain(b.iter())).collect()
    }
}

fn debug_name(path: &[String], local: &str) -> String {
    let mut s = String::new();
    for p in path {
        s.push_str(p);
        s.push('(');
    }
    s.push_str(local);
    for _ in path {
        s.push(')');
    }
    s
}

struct Compiler<'g> {
    g: &'g Grammar,
    insts: Vec<Inst>,
    rules: Vec<RuleIR>,
}
#[derive(Debug)]
pub struct CompileError(pub String);
type CR<T> = Result<T, CompileError>;
enum Target {
    Rule(usize, usize),
    Builtin(Vec<String>),
}
#[derive(Clone)]
enum Env {
    /// Names are parameters of a non-silent rule.
    Params(Vec<String>),
    /// Names are replaced.
    Subst(HashMap<String, N>),
}
impl<'g> Compiler<'g> {
    fn add_inst(&mut self, module: usize, path: Vec<String>, rank: Vec<usize>) -> usize {
        let idx = self.insts.len();
        self.insts.push(Inst { module, path: path.clone(), rank: rank.clone(), ..Default::default() });
        let g = self.g;
        let m = &g.modules[module];
        // variants: EOI = 0, rules 1.., sub modules afterwards.
        let mut k = 1;
        for r in &m.rules {
            if r.is_trivia() {
                continue;
            }
            let mut rk = rank.clone();
            rk.push(k);
            k += 1;
            let ri = self.rules.len();
            self.rules.push(RuleIR {
                name: debug_name(&path, &r.name),
                local: r.name.clone(),
                rank: rk,
                inst: idx,
                silent: r.silent,
                argc: r.args.len(),
                params: r.args.clone(),
                body: N::Soi,
            });
            self.insts[idx].rules.insert(r.name.clone(), ri);
        }
        for im in &m.imports {
            match &im.kind {
                ImportKind::Builtin(p) => {
                    self.insts[idx].builtins.insert(im.alias.clone(), p.clone());
                }
                ImportKind::File(mi) => {
                    let mut p = path.clone();
                    p.push(im.alias.clone());
                    let mut rk = rank.clone();
                    rk.push(k);
                    k += 1;
                    let sub = self.add_inst(*mi, p, rk);
                    self.insts[idx].files.insert(im.alias.clone(), sub);
                }
            }
        }
        idx
    }
    fn resolve(&self, inst: usize, path: &[String]) -> CR<Target> {
        if path[0] == "pest" {
            return Ok(Target::Builtin(path[1..].to_vec()));
        }
        let i = &self.insts[inst];
        if let Some(b) = i.builtins.get(&path[0]) {
            let mut p = b[1..].to_vec();
            p.extend(path[1..].iter().cloned());
            return Ok(Target::Builtin(p));
        }
        if path.len() == 1 {
            return match i.rules.get(&path[0]) {
                Some(r) => Ok(Target::Rule(inst, *r)),
                None => Err(CompileError(format!("undefined {path:?}"))),
            };
        }
        match i.files.get(&path[0]) {
            Some(s) => self.resolve(*s, &path[1..]),
            None => Err(CompileError(format!("undefined {path:?}"))),
        }
    }
    fn builtin(&self, p: &[String], slice: Option<(Option<i64>, Option<i64>)>, args: &mut Option<Vec<N>>) -> CR<N> {
        let k = p.join("::");
        let rng = |a, b| N::Range(a, b);
        let ch = |v: Vec<N>| N::Bi("".into(), Rc::new(N::Choice(Rc::new(v))));
        if let Some((a, b)) = slice {
            if k != "stack::peek" {
                return Err(CompileError(format!("slice of {k}")));
            }
            return Ok(N::Slice(a.unwrap_or(0), b));
        }
        if k == "stack::push" {
            let mut a = args.take().ok_or(CompileError("push without args".into()))?;
            if a.len() != 1 {
                return Err(CompileError("push arity".into()));
            }
            return Ok(N::Push(Rc::new(a.remove(0))));
        }
        Ok(match k.as_str() {
            "soi" => N::Soi,
            "eoi" => N::Eoi,
            "any" => N::Any,
            "newline" => N::Newline,
            "stack::peek" => N::Peek,
            "stack::peek_all" => N::PeekAll,
            "stack::pop" => N::Pop,
            "stack::pop_all" => N::PopAll,
            "stack::drop" => N::Drop,
            "ascii" => rng('\0', '\x7f'),
            "ascii_digit" => rng('0', '9'),
            "ascii_nonzero_digit" => rng('1', '9'),
            "ascii_bin_digit" => rng('0', '1'),
            "ascii_oct_digit" => rng('0', '7'),
            "ascii_hex_digit" => ch(vec![rng('0', '9'), rng('a', 'f'), rng('A', 'F')]),
            "ascii_alpha_lower" => rng('a', 'z'),
            "ascii_alpha_upper" => rng('A', 'Z'),
            "ascii_alpha" => ch(vec![rng('a', 'z'), rng('A', 'Z')]),
            "ascii_alphanumeric" => ch(vec![ch(vec![rng('a', 'z'), rng('A', 'Z')]), rng('0', '9')]),
            _ => {
                if p.len() == 2 && p[0] == "unicode" {
                    N::Uni(p[1].as_str().into())
                } else {
                    return Err(CompileError(format!("no builtin {k}")));
                }
            }
        })
    }
    fn expr(&self, e: &E, inst: usize, env: &Env, depth: usize) -> CR<N> {
        if depth > 200 {
            return Err(CompileError("inlining too deep".into()));
        }
        let sub = |x: &E| self.expr(x, inst, env, depth + 1);
        let tv = |t: Tr| if t == Tr::None { None } else { Some((inst, t)) };
        let rep_tv = |x: &E| match x {
            E::Sep(_, t) => tv(*t),
            _ => None,
        };
        Ok(match e {
            E::Str(s) => N::Str(s.as_str().into()),
            E::Ins(s) => N::Ins(s.as_str().into()),
            E::Range(a, b) => N::Range(*a, *b),
            E::Pos(x) => N::Pos(Rc::new(sub(x)?)),
            E::Neg(x) => N::Neg(Rc::new(sub(x)?)),
            E::Opt(x) => N::Opt(Rc::new(sub(x)?)),
            E::Rep(x) => N::Rep(Rc::new(sub(x)?), rep_tv(x), 0, u64::MAX),
            E::RepOnce(x) => N::Rep(Rc::new(sub(x)?), rep_tv(x), 1, u64::MAX),
            E::RepRange(x, a, b) => N::Rep(Rc::new(sub(x)?), rep_tv(x), a.unwrap_or(0), b.unwrap_or(u64::MAX)),
            E::Sep(x, _) => sub(x)?,
            E::Seq(l, r, t) => {
                let mut v = vec![(None, sub(l)?)];
                match sub(r)? {
                    N::Seq(items) => {
                        for (i, (tr, n)) in items.iter().enumerate() {
                            v.push((if i == 0 { tv(*t) } else { *tr }, n.clone()));
                        }
                    }
                    n => v.push((tv(*t), n)),
                }
                N::Seq(Rc::new(v))
            }
            E::Choice(l, r) => {
                let mut v = vec![sub(l)?];
                match sub(r)? {
                    N::Choice(items) => v.extend(items.iter().cloned()),
                    n => v.push(n),
                }
                N::Choice(Rc::new(v))
            }
            E::Path(p, args) => {
                if p.len() == 1 {
                    match env {
                        Env::Params(ps) => {
                            if let Some(i) = ps.iter().position(|x| *x == p[0]) {
                                return Ok(N::Arg(i));
                            }
                        }
                        Env::Subst(m) => {
                            if let Some(n) = m.get(&p[0]) {
                                return Ok(n.clone());
                            }
                        }
                    }
                }
                let mut cargs = None;
                let mut slice = None;
                match args {
                    Args::None => {}
                    Args::Call(a) => cargs = Some(a.iter().map(sub).collect::<CR<Vec<_>>>()?),
                    Args::Slice(a, b) => slice = Some((*a, *b)),
                }
                match self.resolve(inst, p)? {
                    Target::Builtin(b) => {
                        let n = self.builtin(&b, slice, &mut cargs)?;
                        N::Bi(p.last().unwrap().as_str().into(), Rc::new(n))
                    }
                    Target::Rule(i2, r) => {
                        let ir = &self.rules[r];
                        let a = cargs.unwrap_or_default();
                        if a.len() != ir.argc || slice.is_some() {
                            return Err(CompileError(format!("arity of {p:?}")));
                        }
                        if ir.silent && ir.argc > 0 {
                            let rule = self.g.modules[self.insts[i2].module].rule(&ir.local).unwrap().1;
                            let m = rule.args.iter().cloned().zip(a).collect();
                            self.expr(&rule.expr, i2, &Env::Subst(m), depth + 1)?
                        } else {
                            N::Call(r, Rc::new(a))
                        }
                    }
                }
            }
        })
    }
}
pub fn compile(g: &Grammar) -> CR<Prog> {
    let mut c = Compiler { g, insts: vec![], rules: vec![] };
    c.add_inst(0, vec![], vec![]);
    for ri in 0..c.rules.len() {
        let inst = c.rules[ri].inst;
        let m = c.insts[inst].module;
        let rule = g.modules[m].rule(&c.rules[ri].local).unwrap().1;
        if rule.silent && !rule.args.is_empty() {
            continue;
        }
        let env = Env::Params(rule.args.clone());
        let body = c.expr(&rule.expr, inst, &env, 0)?;
        c.rules[ri].body = body;
    }
    for i in 0..c.insts.len() {
        let m = c.insts[i].module;
        for r in &g.modules[m].rules {
            if r.is_trivia() {
                let n = c.expr(&r.expr, i, &Env::Params(vec![]), 0)?;
                if r.name == "~" {
                    c.insts[i].opt = Some(n);
                } else {
                    c.insts[i].man = Some(n);
                }
            }
        }
    }
    let by_name = c.rules.iter().enumerate().map(|(i, r)| (r.name.clone(), i)).collect();
    Ok(Prog {
        triv: c.insts.iter().map(|i| (i.opt.clone(), i.man.clone())).collect(),
        rules: c.rules,
        by_name,
        eoi_rank: vec![0],
    })
}

/// Result tree.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Leaf(String),
    Rule { rule: usize, s: usize, e: usize, content: Box<W> },
    Seq(Vec<W>),
    Choice(usize, usize, Box<W>),
    Opt(Option<Box<W>>),
    Rep(Vec<W>),
    Pos(Box<W>),
    Neg,
    Push(Box<W>),
}
impl W {
    pub fn fmt(&self, p: &Prog, out: &mut String) {
        use std::fmt::Write;
        match self {
            W::Leaf(s) => out.push_str(s),
            W::Rule { rule, s, e, content } => {
                let _ = write!(out, "<{} {}..{} ", p.rules[*rule].name, s, e);
                content.fmt(p, out);
                out.push('>');
            }
            W::Seq(v) => {
                out.push_str("S(");
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    x.fmt(p, out);
                }
                out.push(')');
            }
            W::Choice(i, n, x) => {
                let _ = write!(out, "C{i}/{n}(");
                x.fmt(p, out);
                out.push(')');
            }
            W::Opt(None) => out.push_str("None"),
            W::Opt(Some(x)) => {
                out.push_str("Some(");
                x.fmt(p, out);
                out.push(')');
            }
            W::Rep(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    x.fmt(p, out);
                }
                out.push(']');
            }
            W::Pos(x) => {
                out.push_str("Pos(");
                x.fmt(p, out);
                out.push(')');
            }
            W::Neg => out.push_str("Neg"),
            W::Push(x) => {
                out.push_str("Push(");
                x.fmt(p, out);
                out.push(')');
            }
        }
    }
    pub fn show(&self, p: &Prog) -> String {
        let mut s = String::new();
        self.fmt(p, &mut s);
        s
    }
    /// Token pairs of this node as seen from outside.
    pub fn pairs(&self, p: &Prog, out: &mut String) {
        use std::fmt::Write;
        match self {
            W::Leaf(_) | W::Pos(_) | W::Neg | W::Opt(None) => {}
            W::Rule { rule, s, e, content } => {
                if p.rules[*rule].silent {
                    return;
                }
                let _ = write!(out, "{}@{}..{}[", p.rules[*rule].name, s, e);
                content.pairs(p, out);
                out.push(']');
            }
            W::Seq(v) | W::Rep(v) => v.iter().for_each(|x| x.pairs(p, out)),
            W::Choice(_, _, x) | W::Opt(Some(x)) | W::Push(x) => x.pairs(p, out),
        }
    }
    pub fn rule_nodes(&self) -> usize {
        match self {
            W::Leaf(_) | W::Neg | W::Opt(None) => 0,
            W::Rule { content, .. } => 1 + content.rule_nodes(),
            W::Seq(v) | W::Rep(v) => v.iter().map(|x| x.rule_nodes()).sum(),
            W::Choice(_, _, x) | W::Opt(Some(x)) | W::Push(x) | W::Pos(x) => x.rule_nodes(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct RName {
    pub rank: Vec<usize>,
    pub name: String,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Attempts {
    pub pos: Vec<RName>,
    pub neg: Vec<RName>,
    pub special: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Track {
    pub position: usize,
    positive: bool,
    pub attempts: BTreeMap<Option<RName>, Attempts>,
    stack: Vec<(RName, usize, bool)>,
}
impl Track {
    fn prepare(&mut self, pos: usize) -> bool {
        if pos > self.position {
            self.attempts.clear();
            self.position = pos;
        }
        pos == self.position
    }
    fn entry(&mut self, pos: usize) -> &mut Attempts {
        let upper = self.stack.iter().rev().find(|(_, p, _)| *p != pos).map(|x| x.0.clone());
        self.attempts.entry(upper).or_default()
    }
    fn record(&mut self, rule: RName, pos: usize, ok: bool) {
        if self.prepare(pos) && ok != self.positive {
            let positive = self.positive;
            let en = self.entry(pos);
            let v = if positive { &mut en.pos } else { &mut en.neg };
            if v.last() != Some(&rule) {
                v.push(rule);
            }
        }
    }
    fn special(&mut self, pos: usize, s: String) {
        if self.prepare(pos) {
            self.entry(pos).special.push(s);
        }
    }
    /// Canonical text: position, then per enclosing rule the *sets* of expected and unexpected
    /// rules and the list of stack errors.
    pub fn show(&self) -> String {
        use std::fmt::Write;
        let mut o = format!("@{}", self.position);
        for (k, v) in &self.attempts {
            let names = |v: &Vec<RName>| {
                let mut v = v.clone();
                v.sort();
                v.dedup();
                v.iter().map(|x| x.name.clone()).collect::<Vec<_>>().join(",")
            };
            let _ = write!(
                o,
                " {{by {}: +[{}] -[{}] !{:?}}}",
                k.as_ref().map_or("-", |r| r.name.as_str()),
                names(&v.pos),
                names(&v.neg),
                v.special
            );
        }
        o
    }
    /// The lines of the message after the marker.
    pub fn message_lines(&self) -> Vec<String> {
        let mut out = vec![];
        for (k, v) in &self.attempts {
            let names = |v: &Vec<RName>| {
                let mut v = v.clone();
                v.sort();
                v.dedup();
                format!("[{}]", v.iter().map(|x| x.name.clone()).collect::<Vec<_>>().join(", "))
            };
            let mut s = match (v.pos.is_empty(), v.neg.is_empty()) {
                (true, true) => "Unknown error (no rule tracked)".to_string(),
                (false, true) => format!("Expected {}", names(&v.pos)),
                (true, false) => format!("Unexpected {}", names(&v.neg)),
                (false, false) => format!("Unexpected {}, expected {}", names(&v.neg), names(&v.pos)),
            };
            if let Some(u) = k {
                s.push_str(&format!(", by {}", u.name));
            }
            s.push('.');
            out.push(s);
            for sp in &v.special {
                let mut s = sp.clone();
                if let Some(u) = k {
                    s.push_str(&format!(" (By {})", u.name));
                }
                out.push(s);
            }
        }
        out
    }
}

/// Events counted while the model runs (for evidence).
#[derive(Clone, Debug, Default)]
pub struct Events {
    pub rule_calls: u64,
    pub backtracks: u64,
    pub stack_pushes: u64,
    pub stack_reads: u64,
    pub stack_restores_nontrivial: u64,
    pub pred_ok: u64,
    pub pred_fail: u64,
    pub trivia_ok: u64,
    pub trivia_nonempty: u64,
    pub trivia_fail: u64,
    pub rep_stop_max: u64,
    pub rep_stop_fail: u64,
    pub rep_under_min: u64,
    pub rep_giveback: u64,
    pub meta_calls: u64,
    pub inner_mod_calls: u64,
    pub max_stack: u64,
    pub max_iterations: u64,
}
impl Events {
    pub fn add(&mut self, o: &Events) {
        macro_rules! s { ($($f:ident)*) => { $( self.$f += o.$f; )* } }
        s!(rule_calls backtracks stack_pushes stack_reads stack_restores_nontrivial pred_ok pred_fail trivia_ok trivia_nonempty trivia_fail rep_stop_max rep_stop_fail rep_under_min rep_giveback meta_calls inner_mod_calls);
        self.max_stack = self.max_stack.max(o.max_stack);
        self.max_iterations = self.max_iterations.max(o.max_iterations);
    }
    pub fn kv(&self) -> Vec<(&'static str, u64)> {
        macro_rules! s { ($($f:ident)*) => { vec![$( (stringify!($f), self.$f), )*] } }
        s!(rule_calls backtracks stack_pushes stack_reads stack_restores_nontrivial pred_ok pred_fail trivia_ok trivia_nonempty trivia_fail rep_stop_max rep_stop_fail rep_under_min rep_giveback meta_calls inner_mod_calls max_stack max_iterations)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Exhausted;

pub struct Machine<'p, 'i> {
    pub p: &'p Prog,
    pub input: &'i str,
    pub stack: Vec<(usize, usize)>,
    pub track: Track,
    pub steps: u64,
    pub budget: u64,
    depth: u32,
    max_depth: u32,
    exhausted: bool,
    pub ev: Events,
    uni: UniPred,
    in_inst: usize,
}
type Frame = Rc<Vec<Closure>>;
#[derive(Clone)]
pub struct Closure {
    n: N,
    env: Option<Frame>,
}
struct Ctx {
    env: Option<Frame>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// Partial parse: end and tree.
    pub res: Option<(usize, W)>,
    pub stack: Vec<(usize, usize)>,
    pub track: Track,
    /// Tracker after also trying the end of input (full parse), when the partial parse succeeded.
    pub track_full: Track,
    pub full: bool,
    pub steps: u64,
    pub ev: Events,
}

/// Run `rule` at `start` with an initial stack.
pub fn run(
    p: &Prog,
    uni: UniPred,
    rule: usize,
    args: Vec<N>,
    input: &str,
    start: usize,
    stack: Vec<(usize, usize)>,
    budget: u64,
) -> Result<Outcome, Exhausted> {
    let mut m = Machine {
        p,
        input,
        stack,
        track: Track { position: start, positive: true, attempts: BTreeMap::new(), stack: vec![] },
        steps: 0,
        budget,
        depth: 0,
        max_depth: 1500,
        exhausted: false,
        ev: Events::default(),
        uni,
        in_inst: p.rules[rule].inst,
    };
    let res = m.eval(&N::Call(rule, Rc::new(args)), start, &Ctx { env: None });
    if m.exhausted {
        return Err(Exhausted);
    }
    let mut track_full = m.track.clone();
    let mut full = false;
    if let Some((e, _)) = &res {
        full = *e == input.len();
        track_full.record(RName { rank: vec![0], name: "EOI".into() }, *e, full);
    }
    Ok(Outcome { res, stack: m.stack, track: m.track, track_full, full, steps: m.steps, ev: m.ev })
}

impl<'p, 'i> Machine<'p, 'i> {
    fn ch(&self, pos: usize) -> Option<char> {
        self.input[pos..].chars().next()
    }
    fn trivia(&mut self, t: &Triv, pos: usize) -> Option<usize> {
        let (inst, k) = match t {
            None => return Some(pos),
            Some(x) => x,
        };
        let n = match k {
            Tr::Opt => self.p.triv[*inst].0.as_ref(),
            Tr::Man => self.p.triv[*inst].1.as_ref(),
            Tr::None => return Some(pos),
        };
        let p = self.p;
        let _ = p;
        let r = match n {
            Some(n) => self.eval(n, pos, &Ctx { env: None }).map(|x| x.0),
            None => Some(pos),
        };
        match r {
            Some(e) => {
                self.ev.trivia_ok += 1;
                if e > pos {
                    self.ev.trivia_nonempty += 1;
                }
            }
            None => self.ev.trivia_fail += 1,
        }
        r
    }
    fn restore(&mut self, snap: Vec<(usize, usize)>) {
        if snap != self.stack {
            self.ev.stack_restores_nontrivial += 1;
        }
        self.ev.backtracks += 1;
        self.stack = snap;
    }
    fn matches(&self, pos: usize, s: &str) -> Option<usize> {
        if self.input[pos..].starts_with(s) {
            Some(pos + s.len())
        } else {
            None
        }
    }
    fn spans_match(&mut self, pos: usize, spans: &[(usize, usize)]) -> Option<usize> {
        let mut p = pos;
        for (a, b) in spans {
            self.ev.stack_reads += 1;
            p = self.matches(p, &self.input[*a..*b])?;
        }
        Some(p)
    }
    fn eval(&mut self, n: &N, pos: usize, cx: &Ctx) -> Option<(usize, W)> {
        self.steps += 1;
        if self.exhausted || self.steps > self.budget || self.depth > self.max_depth {
            self.exhausted = true;
            return None;
        }
        self.depth += 1;
        let r = self.eval2(n, pos, cx);
        self.depth -= 1;
        if self.exhausted {
            return None;
        }
        r
    }
    fn eval2(&mut self, n: &N, pos: usize, cx: &Ctx) -> Option<(usize, W)> {
        let leaf = |e: usize, s: String| Some((e, W::Leaf(s)));
        match n {
            N::Str(s) => {
                let e = self.matches(pos, s)?;
                leaf(e, format!("{s:?}"))
            }
            N::Ins(s) => {
                let t = self.input.get(pos..pos.checked_add(s.len())?)?;
                if t.eq_ignore_ascii_case(s) {
                    leaf(pos + s.len(), format!("i{s:?}={t:?}"))
                } else {
                    None
                }
            }
            N::Range(a, b) => {
                let c = self.ch(pos)?;
                if *a <= c && c <= *b {
                    leaf(pos + c.len_utf8(), format!("{c:?}"))
                } else {
                    None
                }
            }
            N::Uni(name) => {
                let c = self.ch(pos)?;
                if (self.uni)(name, c) {
                    leaf(pos + c.len_utf8(), format!("u{c:?}"))
                } else {
                    None
                }
            }
            N::Any => {
                let c = self.ch(pos)?;
                leaf(pos + c.len_utf8(), format!("any{c:?}"))
            }
            N::Soi => {
                if pos == 0 {
                    leaf(pos, "soi".into())
                } else {
                    None
                }
            }
            N::Eoi => {
                if pos == self.input.len() {
                    leaf(pos, "eoi".into())
                } else {
                    None
                }
            }
            N::Newline => {
                for (t, s) in [("\r\n", "CRLF"), ("\n", "LF"), ("\r", "CR")] {
                    if let Some(e) = self.matches(pos, t) {
                        return leaf(e, format!("nl{s}"));
                    }
                }
                None
            }
            N::Peek => match self.stack.last().copied() {
                None => {
                    self.track.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(sp) => {
                    let e = self.spans_match(pos, &[sp])?;
                    leaf(e, format!("peek {pos}..{e}"))
                }
            },
            N::PeekAll | N::PopAll => {
                let v: Vec<_> = self.stack.iter().rev().copied().collect();
                let e = self.spans_match(pos, &v)?;
                if matches!(n, N::PopAll) {
                    self.stack.clear();
                    leaf(e, format!("pop_all {pos}..{e}"))
                } else {
                    leaf(e, format!("peek_all {pos}..{e}"))
                }
            }
            N::Pop => match self.stack.pop() {
                None => {
                    self.track.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(sp) => {
                    let e = self.spans_match(pos, &[sp])?;
                    leaf(e, format!("pop {pos}..{e}"))
                }
            },
            N::Drop => match self.stack.pop() {
                None => {
                    self.track.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(_) => leaf(pos, "drop".into()),
            },
            N::Slice(a, b) => {
                let len = self.stack.len() as i64;
                let idx = |i: i64| {
                    let k = if i < 0 { i + len } else { i };
                    if k < 0 || k > len {
                        None
                    } else {
                        Some(k as usize)
                    }
                };
                let s = idx(*a);
                let e = match b {
                    None => Some(len as usize),
                    Some(b) => idx(*b),
                };
                match (s, e) {
                    (Some(s), Some(e)) => {
                        let v: Vec<_> = if e <= s { vec![] } else { self.stack[s..e].to_vec() };
                        let e = self.spans_match(pos, &v)?;
                        leaf(e, "slice".into())
                    }
                    _ => {
                        let m = match b {
                            Some(b) => format!("Peek slice {a}..{b} out of bound."),
                            None => format!("Peek slice {a}.. out of bound."),
                        };
                        self.track.special(pos, m);
                        None
                    }
                }
            }
            N::Bi(_, x) => self.eval(x, pos, cx),
            N::Push(x) => {
                let (e, w) = self.eval(x, pos, cx)?;
                self.stack.push((pos, e));
                self.ev.stack_pushes += 1;
                self.ev.max_stack = self.ev.max_stack.max(self.stack.len() as u64);
                Some((e, W::Push(Box::new(w))))
            }
            N::Arg(i) => {
                let c = cx.env.as_ref().expect("args")[*i].clone();
                self.eval(&c.n, pos, &Ctx { env: c.env })
            }
            N::Call(r, args) => {
                let p = self.p;
                let ir = &p.rules[*r];
                self.ev.rule_calls += 1;
                if !args.is_empty() {
                    self.ev.meta_calls += 1;
                }
                if ir.inst != self.in_inst {
                    self.ev.inner_mod_calls += 1;
                }
                let env: Option<Frame> = if args.is_empty() {
                    None
                } else {
                    Some(Rc::new(args.iter().map(|n| Closure { n: n.clone(), env: cx.env.clone() }).collect()))
                };
                let name = RName { rank: ir.rank.clone(), name: ir.name.clone() };
                if let Some(t) = self.track.stack.last_mut() {
                    t.2 = true;
                }
                self.track.stack.push((name.clone(), pos, false));
                let res = self.eval(&ir.body, pos, &Ctx { env });
                let (_, _, ch) = self.track.stack.pop().unwrap();
                if !ch {
                    self.track.record(name, pos, res.is_some());
                }
                let (e, w) = res?;
                Some((e, W::Rule { rule: *r, s: pos, e, content: Box::new(w) }))
            }
            N::Pos(x) | N::Neg(x) => {
                let positive = matches!(n, N::Pos(_));
                let orig = self.track.positive;
                self.track.positive = positive;
                let snap = self.stack.clone();
                let r = self.eval(x, pos, cx);
                self.track.positive = orig;
                if snap != self.stack {
                    self.ev.stack_restores_nontrivial += 1;
                }
                self.stack = snap;
                let ok = r.is_some() == positive;
                if ok {
                    self.ev.pred_ok += 1;
                } else {
                    self.ev.pred_fail += 1;
                }
                if !ok {
                    return None;
                }
                Some((pos, if positive { W::Pos(Box::new(r.unwrap().1)) } else { W::Neg }))
            }
            N::Seq(items) => {
                let mut p = pos;
                let mut v = vec![];
                for (t, x) in items.iter() {
                    p = self.trivia(t, p)?;
                    let (e, w) = self.eval(x, p, cx)?;
                    p = e;
                    v.push(w);
                }
                Some((p, W::Seq(v)))
            }
            N::Choice(items) => {
                for (i, x) in items.iter().enumerate() {
                    let snap = self.stack.clone();
                    match self.eval(x, pos, cx) {
                        Some((e, w)) => return Some((e, W::Choice(i, items.len(), Box::new(w)))),
                        None => {
                            if self.exhausted {
                                return None;
                            }
                            self.restore(snap)
                        }
                    }
                }
                None
            }
            N::Opt(x) => {
                let snap = self.stack.clone();
                match self.eval(x, pos, cx) {
                    Some((e, w)) => Some((e, W::Opt(Some(Box::new(w))))),
                    None => {
                        self.restore(snap);
                        Some((pos, W::Opt(None)))
                    }
                }
            }
            N::Rep(x, t, min, max) => {
                let mut p = pos;
                let mut v = vec![];
                let mut i = 0u64;
                while i < *max {
                    let snap = self.stack.clone();
                    let before = p;
                    let r = (|| {
                        let q = if i > 0 { self.trivia(t, p)? } else { p };
                        let r = self.eval(x, q, cx);
                        if r.is_none() && q > before {
                            self.ev.rep_giveback += 1;
                        }
                        r
                    })();
                    match r {
                        Some((e, w)) => {
                            p = e;
                            v.push(w);
                        }
                        None => {
                            if self.exhausted {
                                return None;
                            }
                            self.restore(snap);
                            if i < *min {
                                self.ev.rep_under_min += 1;
                                return None;
                            }
                            self.ev.rep_stop_fail += 1;
                            break;
                        }
                    }
                    i += 1;
                }
                self.ev.max_iterations = self.ev.max_iterations.max(i);
                if i == *max {
                    self.ev.rep_stop_max += 1;
                }
                Some((p, W::Rep(v)))
            }
        }
    }
}
