//! Generator of random *well-formed* grammars: no left recursion, no unbounded repetition of
//! something that can match empty, every reference defined, every parameter used (or ignored by a silent rule).
use crate::ast::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub rules: (usize, usize),
    pub depth: usize,
    // weights of expression forms
    pub w_str: usize,
    pub w_ins: usize,
    pub w_range: usize,
    pub w_class: usize,
    pub w_uni: usize,
    pub w_any: usize,
    pub w_rule: usize,
    pub w_meta: usize,
    pub w_pred: usize,
    pub w_seq: usize,
    pub w_choice: usize,
    pub w_opt: usize,
    pub w_rep: usize,
    pub w_repn: usize,
    pub w_stack: usize,
    pub w_anchor: usize,
    /// weights of none / optional / mandatory trivia
    pub trivia: [usize; 3],
    /// percent
    pub silent: usize,
    pub multibyte: usize,
    pub big: usize,
    pub empty_str: usize,
    pub metas: (usize, usize),
    pub silent_meta: usize,
    pub modules: (usize, usize),
    pub odd_names: usize,
    /// percent of trivia rules that may use stack/choices of rules
    pub rich_trivia: usize,
    pub repeat_names: usize,
    /// nested repetitions with large bounds
    pub max_bound: usize,
    /// percent of root modules with a long cycle of rules
    pub ring: usize,
    /// A rule with a long sequence or choice (per cent).
    pub train: usize,
    /// Wide bounds among the counted repetitions (per cent).
    pub wide: usize,
    /// Long chains of rules that begin at one place (per cent).
    pub ladder: usize,
    /// A rule that refers to one or two others many times (per cent).
    pub many: usize,
    /// A rule that replaces what is on the stack, and fails (per cent).
    pub undo: usize,
    /// Literals with odd characters, line ends among them.
    pub odd_lits: bool,
}
impl Profile {
    pub fn base(name: &'static str) -> Profile {
        Profile {
            name,
            rules: (4, 7),
            depth: 4,
            w_str: 22,
            w_ins: 4,
            w_range: 6,
            w_class: 4,
            w_uni: 2,
            w_any: 3,
            w_rule: 20,
            w_meta: 0,
            w_pred: 5,
            w_seq: 24,
            w_choice: 18,
            w_opt: 8,
            w_rep: 8,
            w_repn: 4,
            w_stack: 0,
            w_anchor: 1,
            trivia: [70, 25, 5],
            silent: 15,
            multibyte: 25,
            big: 2,
            empty_str: 3,
            metas: (0, 0),
            silent_meta: 0,
            modules: (0, 0),
            odd_names: 15,
            rich_trivia: 20,
            repeat_names: 0,
            max_bound: 4,
            ring: 3,
            train: 4,
            ladder: 3,
            wide: 8,
            many: 0,
            undo: 0,
            odd_lits: false,
        }
    }
    /// One profile per property.
    pub fn by_name(n: &str) -> Profile {
        let mut p = Profile::base("base");
        match n {
            "core" => {
                p.name = "core";
                p.w_ins = 7;
                p.w_range = 9;
                p.w_stack = 2;
                p.w_meta = 2;
                p.metas = (0, 1);
                p.big = 4;
            }
            "trivia" => {
                p.train = 25;
                p.name = "trivia";
                p.w_stack = 3;
                p.trivia = [25, 45, 30];
                p.rich_trivia = 45;
                p.w_rep = 14;
                p.w_repn = 8;
                p.w_seq = 30;
                p.multibyte = 15;
            }
            "stack" => {
                p.name = "stack";
                p.undo = 40;
                p.w_stack = 45;
                p.w_pred = 8;
                p.w_choice = 22;
                p.w_opt = 10;
                p.w_uni = 0;
                p.w_class = 1;
                p.trivia = [85, 10, 5];
                p.silent = 5;
                p.metas = (0, 1);
                p.w_meta = 3;
            }
            "pred" => {
                p.name = "pred";
                p.undo = 10;
                p.w_pred = 30;
                p.w_stack = 8;
                p.w_uni = 0;
            }
            "rep" => {
                p.name = "rep";
                p.w_rep = 22;
                p.w_repn = 34;
                p.trivia = [55, 30, 15];
                p.w_choice = 12;
                p.max_bound = 9;
                p.w_stack = 4;
            }
            "pairs" => {
                p.name = "pairs";
                p.w_rule = 45;
                p.silent = 30;
                p.w_pred = 7;
                p.w_stack = 4;
                p.rules = (6, 9);
                p.metas = (0, 2);
                p.w_meta = 8;
            }
            "tree" => {
                p.name = "tree";
                p.many = 10;
                p.w_rule = 24;
                p.w_stack = 8;
                p.w_ins = 7;
                p.w_class = 8;
                p.w_uni = 4;
                p.w_any = 5;
                p.big = 6;
            }
            "getters" => {
                p.name = "getters";
                p.many = 35;
                p.w_rule = 55;
                p.repeat_names = 60;
                p.rules = (5, 8);
                p.metas = (0, 1);
                p.w_meta = 4;
                p.w_stack = 4;
                p.w_opt = 12;
                p.w_rep = 12;
                p.w_pred = 7;
                p.w_class = 8;
            }
            "meta" => {
                p.name = "meta";
                p.metas = (2, 4);
                p.w_meta = 45;
                p.silent_meta = 50;
                p.w_stack = 2;
                p.trivia = [65, 25, 10];
            }
            "modules" => {
                p.name = "modules";
                p.modules = (1, 3);
                p.rules = (3, 4);
                p.w_rule = 40;
                p.trivia = [45, 35, 20];
                p.metas = (0, 2);
                p.w_meta = 10;
                p.silent_meta = 30;
                p.silent = 20;
                p.w_class = 5;
                p.odd_names = 5;
            }
            "fail" => {
                p.name = "fail";
                p.ladder = 15;
                p.w_rule = 34;
                p.w_pred = 12;
                p.w_stack = 10;
                p.rules = (6, 9);
                p.trivia = [60, 30, 10];
            }
            "lits" => {
                p.name = "lits";
                p.odd_lits = true;
                p.w_str = 40;
                p.w_ins = 12;
                p.w_range = 14;
                p.w_stack = 2;
                p.w_uni = 0;
                p.w_class = 1;
                p.rules = (3, 4);
                p.depth = 2;
                p.multibyte = 60;
            }
            "builtin" => {
                p.name = "builtin";
                p.w_class = 30;
                p.w_uni = 25;
                p.w_any = 10;
                p.w_anchor = 5;
                p.w_range = 20;
                p.w_ins = 12;
                p.multibyte = 60;
            }
            "all" | "safe" => {
                p.name = if n == "all" { "all" } else { "safe" };
                if n == "safe" {
                    p.w_repn = 9;
                    p.wide = 30;
                    p.modules = (0, 1);
                }
                p.w_stack = 8;
                p.metas = (0, 2);
                p.w_meta = 8;
                p.silent_meta = 40;
                p.big = 5;
                p.multibyte = 40;
                p.odd_names = 40;
            }
            "opts" => {
                p.name = "opts";
                p.ring = 40;
                p.modules = (0, 2);
                p.rules = (3, 5);
                p.w_rule = 34;
                p.w_stack = 5;
                p.trivia = [60, 28, 12];
                p.metas = (0, 2);
                p.w_meta = 9;
                p.silent_meta = 35;
                p.silent = 20;
                p.big = 4;
                p.odd_names = 25;
            }
            _ => panic!("profile {n}"),
        }
        p
    }
}

pub const ASCII: &[&str] = &[
    "ascii", "ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit",
    "ascii_alpha_lower", "ascii_alpha_upper", "ascii_alpha", "ascii_alphanumeric",
];
pub const UNI: &[&str] = &[
    "alphabetic", "uppercase", "lowercase", "white_space", "han", "greek", "emoji", "number", "letter", "math", "xid_start", "symbol",
];
const ODD: &[&str] = &[
    "fn", "type", "match", "async", "dyn", "loop", "impl", "r#", "Str", "Rep", "Box", "Vec", "String", "Span", "Position", "Rule", "EOI_",
    "rules", "generics", "str", "usize", "T0", "TR0", "Choice2", "Sequence2", "A", "__x", "_a9", "snake_case_name", "CamelCase", "x1", "i", "r",
    "unicode", "wrapper", "any", "soi", "push", "pop", "Result", "Ok", "Err", "Clone", "Debug", "u8", "core", "std", "where", "move", "in",
    "yield", "try", "union", "static", "Default", "content1", "peek", "None", "_0", "_1a", "__", "__0",
];
const KEYWORDS: &[&str] = &["type", "match", "mod", "use", "as", "fn", "async", "dyn", "static", "yield", "gen", "union", "raw", "macro_rules"];
const ALIASES: &[&str] = &["_", "__", "__al", "AL", "Al_", "al__", "rules", "rules_impl", "pest", "std", "core", "wrapper", "generics", "Rule", "a_very_long_name_for_a_file_that_is_imported_once_", "self_", "u", "r"];
const PLAIN: &[&str] = &["main", "item", "expr", "term", "num", "word", "list", "pair", "key", "val", "op", "stmt", "blk", "head", "tail"];
/// Where encodings change.
const ENDS: &[char] = &['\0', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
const MULTI: &[char] = &['é', 'ß', '中', '文', '😀', '\u{301}', 'λ', 'Ж', '\u{a0}', '０', '\u{2028}', 'İ', 'ſ'];

#[derive(Clone, Debug)]
struct RInfo {
    /// how to refer to it
    path: String,
    argc: usize,
    nullable: bool,
    silent: bool,
}
pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub p: Profile,
    pub alpha: Vec<char>,
    strs: Vec<String>,
    /// rules usable without having consumed anything
    done: Vec<RInfo>,
    /// rules only usable after consuming (self and later ones)
    later: Vec<RInfo>,
    /// parameters of the rule being defined
    params: Vec<String>,
    unused: Vec<String>,
    has_opt: bool,
    has_man: bool,
    builtin_alias: Vec<(String, String)>,
    in_trivia: bool,
    call_depth: usize,
    /// the module being generated is imported, so its silent meta rules are
    /// expanded in a module with different trivia
    imported_module: bool,
    no_trivia: bool,
    /// some silent rule ignores a parameter
    ignoring: bool,
}
fn nullable_builtin(_: &str) -> bool {
    false
}
impl<'r> Gen<'r> {
    pub fn new(rng: &'r mut Rng, p: Profile) -> Self {
        let mut alpha = vec!['a', 'b'];
        for _ in 0..rng.range(1, 3) {
            let c = if rng.pct(p.multibyte) {
                *rng.pick(MULTI)
            } else {
                *rng.pick(&['c', 'd', 'A', 'B', '1', '2', '0', '(', ')', ',', '+', '"', '\\', '\n', 'z', '_', '\r', '\t', '\'', '\0', '#'])
            };
            if !alpha.contains(&c) {
                alpha.push(c);
            }
        }
        if p.odd_lits {
            for c in ['\r', '\n', '\\', '"', '\'', '#', '\0', '\t'] {
                if rng.pct(40) && !alpha.contains(&c) {
                    alpha.push(c);
                }
            }
        }
        let mut strs = vec![];
        if p.odd_lits {
            for _ in 0..3 {
                let ends = *rng.pick(&["\r\n", "\n\r", "\r", "\n", "\r\n\r\n", "\\r\\n", "\\\"", "\"#"]);
                let (a, b) = (*rng.pick(&alpha), *rng.pick(&alpha));
                strs.push(match rng.below(4) {
                    0 => ends.to_string(),
                    1 => format!("{a}{ends}"),
                    2 => format!("{ends}{b}"),
                    _ => format!("{a}{ends}{b}"),
                });
            }
        }
        for _ in 0..6 {
            let n = rng.weighted(&[0, 6, 4, 2, 1]);
            let mut s = String::new();
            for _ in 0..n {
                s.push(*rng.pick(&alpha));
            }
            strs.push(s);
        }
        if rng.pct(if p.odd_lits { 50 } else { 12 }) {
            // A long one.
            let n = if rng.pct(if p.odd_lits { 35 } else { 15 }) { rng.range(250, 700) } else { rng.range(30, 90) };
            strs.push((0..n).map(|_| *rng.pick(&alpha)).collect());
            if rng.pct(60) {
                // and others that begin or end like it
                let long: String = strs[strs.len() - 1].clone();
                for _ in 0..rng.range(1, 2) {
                    let c = *rng.pick(&alpha);
                    strs.push(match rng.below(4) {
                        0 => format!("{long}{c}"),
                        1 => format!("{c}{long}"),
                        2 => long.char_indices().map(|(i, x)| if i == 0 { c } else { x }).collect(),
                        _ => {
                            let mut x = long.clone();
                            x.pop();
                            x.push(c);
                            x
                        }
                    });
                }
                // Long ones are to be met often.
                let (a, b) = (strs[strs.len() - 1].clone(), strs[strs.len() - 2].clone());
                strs.extend([a, b]);
            }
        }
        Gen {
            rng,
            p,
            alpha,
            strs,
            done: vec![],
            later: vec![],
            params: vec![],
            unused: vec![],
            has_opt: false,
            has_man: false,
            builtin_alias: vec![],
            in_trivia: false,
            call_depth: 0,
            imported_module: false,
            no_trivia: false,
            ignoring: false,
        }
    }
    fn big(&mut self) -> usize {
        if self.rng.pct(15) {
            self.rng.range(31, 40)
        } else {
            self.rng.range(9, 19)
        }
    }
    fn lit(&mut self) -> String {
        if self.rng.pct(self.p.empty_str) {
            return String::new();
        }
        self.rng.pick(&self.strs).clone()
    }
    fn builtin(&mut self, k: &str) -> E {
        let full = format!("pest::{k}");
        let aliases: Vec<String> = self
            .builtin_alias
            .iter()
            .filter_map(|(a, t)| {
                if *t == full {
                    Some(a.clone())
                } else {
                    full.strip_prefix(&format!("{t}::")).map(|r| format!("{a}::{r}"))
                }
            })
            .collect();
        if !aliases.is_empty() && self.rng.pct(60) {
            let a = self.rng.pick(&aliases).clone();
            return E::path(&a);
        }
        E::path(&full)
    }
    fn tr(&mut self) -> Tr {
        if self.in_trivia || self.no_trivia {
            return Tr::None;
        }
        let w = [
            self.p.trivia[0],
            if self.has_opt { self.p.trivia[1] } else { 0 },
            if self.has_man { self.p.trivia[2] } else { 0 },
        ];
        [Tr::None, Tr::Opt, Tr::Man][self.rng.weighted(&w)]
    }
    fn consuming_leaf(&mut self) -> E {
        let p = self.p.clone();
        match self.rng.weighted(&[p.w_str.max(1), p.w_ins, p.w_range, p.w_class, p.w_uni, p.w_any]) {
            0 => {
                let mut s = self.lit();
                if s.is_empty() {
                    s.push(*self.rng.pick(&self.alpha.clone()));
                }
                E::Str(s)
            }
            1 => {
                let mut s = self.lit();
                if s.is_empty() {
                    s.push('a');
                }
                let up = self.rng.pct(50);
                E::Ins(if up { s.to_uppercase() } else { s })
            }
            2 => {
                let mut end = || if self.rng.pct(8) { *self.rng.pick(ENDS) } else { *self.rng.pick(&self.alpha) };
                let (a, b) = (end(), end());
                let (a, b) = if a <= b || self.rng.pct(3) { (a, b) } else { (b, a) };
                E::Range(a, b)
            }
            3 => {
                if self.rng.pct(15) {
                    self.builtin("newline")
                } else {
                    let k = *self.rng.pick(ASCII);
                    self.builtin(k)
                }
            }
            4 => {
                let k = format!("unicode::{}", self.rng.pick(UNI));
                self.builtin(&k)
            }
            _ => self.builtin("any"),
        }
    }
    /// Returns the expression and whether it may match empty.
    pub fn expr(&mut self, depth: usize, consumed: bool) -> (E, bool) {
        let p = self.p.clone();
        if depth == 0 {
            return self.leaf(consumed);
        }
        let leafw = p.w_str + p.w_ins + p.w_range + p.w_class + p.w_uni + p.w_any + p.w_rule + p.w_meta + p.w_anchor;
        match self.rng.weighted(&[leafw, p.w_pred, p.w_seq, p.w_choice, p.w_opt, p.w_rep, p.w_repn, p.w_stack]) {
            0 => self.leaf(consumed),
            1 => {
                let (e, _) = self.expr(depth - 1, consumed);
                (if self.rng.pct(55) { E::Neg(Box::new(e)) } else { E::Pos(Box::new(e)) }, true)
            }
            2 => {
                let n = if self.rng.pct(p.big) { self.big() } else { self.rng.weighted(&[0, 0, 10, 7, 3, 1]) };
                let d = if n > 6 { 1 } else { depth - 1 };
                let mut v = vec![];
                let mut cons = consumed;
                let mut null = true;
                for _ in 0..n {
                    let t = self.tr();
                    let (e, nu) = if n > 6 && self.rng.pct(70) {
                        if self.rng.pct(50) {
                            (E::Opt(Box::new(self.consuming_leaf())), true)
                        } else {
                            (self.consuming_leaf(), false)
                        }
                    } else {
                        self.expr(d, cons)
                    };
                    if !nu {
                        cons = true;
                        null = false;
                    }
                    v.push((t, e));
                }
                // Left-nested sequences keep their own shape.
                if n >= 3 && n < 6 && self.rng.pct(15) {
                    let tail = v.split_off(2);
                    let head = E::seq(v);
                    let mut w = vec![(Tr::None, head)];
                    w.extend(tail);
                    return (E::seq(w), null);
                }
                (E::seq(v), null)
            }
            3 => {
                let n = if self.rng.pct(p.big) { self.big() } else { self.rng.weighted(&[0, 0, 10, 6, 3, 1]) };
                let d = if n > 6 { 1 } else { depth - 1 };
                let mut v = vec![];
                let mut null = false;
                for _ in 0..n {
                    let (e, nu) = if n > 6 && self.rng.pct(70) { (self.consuming_leaf(), false) } else { self.expr(d, consumed) };
                    null |= nu;
                    v.push(e);
                }
                if n >= 3 && n < 6 && self.rng.pct(15) {
                    let tail = v.split_off(2);
                    let head = E::choice(v);
                    let mut w = vec![head];
                    w.extend(tail);
                    return (E::choice(w), null);
                }
                (E::choice(v), null)
            }
            4 => {
                let (e, _) = self.expr(depth - 1, consumed);
                (E::Opt(Box::new(e)), true)
            }
            5 => {
                // pop*, drop*: bounded by the stack
                if p.w_stack > 10 && self.rng.pct(15) {
                    let k = *self.rng.pick(&["stack::pop", "stack::drop"]);
                    let e = self.builtin(k);
                    let e = self.sep(e);
                    return if self.rng.pct(70) { (E::Rep(Box::new(e)), true) } else { (E::RepOnce(Box::new(e)), true) };
                }
                let e = self.consuming(depth - 1, consumed);
                let e = self.sep(e);
                if self.rng.pct(60) {
                    (E::Rep(Box::new(e)), true)
                } else {
                    (E::RepOnce(Box::new(e)), false)
                }
            }
            6 if self.rng.pct(p.wide) => {
                // Wide bounds, of what is small and matches something.
                const AT: &[u64] = &[13, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 65_535, 65_536, 65_537];
                const MOST: &[u64] = &[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 1 << 31, 1 << 24];
                let at = if self.rng.pct(80) { &AT[..15] } else { AT };
                let k = *self.rng.pick(at);
                let most = *self.rng.pick(MOST);
                let few = self.rng.below(4) as u64;
                let top = *self.rng.pick(&[None, Some(most), Some(u64::MAX)]);
                let (a, b) = match self.rng.below(8) {
                    0 => (Some(k), Some(k)),
                    1 => (Some(k), None),
                    2 => (None, Some(k)),
                    3 => (Some(few), Some(k)),
                    4 => (Some(k), Some(k + few)),
                    5 => (Some(few), Some(most)),
                    6 => (Some(most), top),
                    _ => (Some(k), Some(most)),
                };
                let e = self.consuming_leaf();
                let e = self.sep(e);
                let null = a.unwrap_or(0) == 0;
                (E::RepRange(Box::new(e), a, b), null)
            }
            6 => {
                let mb = p.max_bound;
                let hi = self.rng.range(1, mb);
                let lo = self.rng.below(hi + 1);
                let (a, b) = match self.rng.below(6) {
                    0 => (Some(hi), Some(hi)),
                    1 => (Some(lo), None),
                    2 => (None, Some(hi)),
                    3 => (None, None),
                    _ => (Some(lo), Some(hi)),
                };
                let (e, nu) = if b.is_some() && self.rng.pct(20) {
                    self.expr(depth - 1, consumed)
                } else {
                    (self.consuming(depth - 1, consumed), false)
                };
                let e = self.sep(e);
                let null = nu || a.unwrap_or(0) == 0;
                (E::RepRange(Box::new(e), a.map(|x| x as u64), b.map(|x| x as u64)), null)
            }
            _ => self.stack_op(depth, consumed),
        }
    }
    fn sep(&mut self, e: E) -> E {
        match self.tr() {
            Tr::None => e,
            t => E::Sep(Box::new(e), t),
        }
    }
    /// An expression that consumes at least one character when it succeeds.
    fn consuming(&mut self, depth: usize, consumed: bool) -> E {
        let (e, nu) = self.expr(depth, consumed);
        if !nu {
            return e;
        }
        let l = self.consuming_leaf();
        let t = self.tr();
        if self.rng.pct(50) {
            E::seq(vec![(Tr::None, l), (t, e)])
        } else {
            E::seq(vec![(Tr::None, e), (t, l)])
        }
    }
    fn stack_op(&mut self, depth: usize, consumed: bool) -> (E, bool) {
        match self.rng.weighted(&[30, 14, 16, 6, 4, 6, 8, 10, 8]) {
            0 => {
                let (e, nu) = self.expr(depth - 1, consumed);
                (E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![e])), nu)
            }
            1 => (self.builtin("stack::peek"), true),
            2 => (self.builtin("stack::pop"), true),
            3 => (self.builtin("stack::drop"), true),
            4 => (self.builtin("stack::pop_all"), true),
            5 => (self.builtin("stack::peek_all"), true),
            6 => {
                const EDGES: &[i64] = &[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, -128, -129, -256, 127, 128, 255, 256, 257, 1 << 16, 1 << 31, 1 << 32, -(1 << 31) - 1, 10, 16, -16, -17, 100];
                let n = |s: &mut Self| {
                    if s.rng.pct(25) {
                        None
                    } else if s.rng.pct(7) {
                        Some(*s.rng.pick(EDGES))
                    } else {
                        Some(s.rng.range(0, 6) as i64 - 3)
                    }
                };
                let (a, b) = (n(self), n(self));
                (E::Path(vec!["pest".into(), "stack".into(), "peek".into()], Args::Slice(a, b)), true)
            }
            7 => {
                // push(x) - middle - (pop | peek ...)
                let (x, xn) = self.expr(depth.saturating_sub(1).min(2), consumed);
                let push = E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![x]));
                let (m, mn) = self.expr(depth - 1, consumed || !xn);
                let k = *self.rng.pick(&["stack::pop", "stack::peek", "stack::drop", "stack::pop_all", "stack::peek_all"]);
                let end = self.builtin(k);
                let (t1, t2) = (self.tr(), self.tr());
                (E::seq(vec![(Tr::None, push), (t1, m), (t2, end)]), xn && mn)
            }
            _ => {
                // an alternative that changes the stack and then fails
                let (x, xn) = self.expr(depth.saturating_sub(1).min(1), consumed);
                let push = E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![x]));
                let k = *self.rng.pick(&["stack::pop", "stack::drop", "stack::pop_all"]);
                let first = if self.rng.pct(50) { push } else { self.builtin(k) };
                let bad = self.consuming_leaf();
                let a = E::seq(vec![(Tr::None, first), (Tr::None, bad)]);
                let (b, bn) = self.expr(depth - 1, consumed);
                let _ = xn;
                if self.rng.pct(60) {
                    (E::choice(vec![a, b]), bn)
                } else {
                    (E::seq(vec![(Tr::None, E::Opt(Box::new(a))), (Tr::None, b)]), bn)
                }
            }
        }
    }
    fn refer(&mut self, consumed: bool, meta: bool) -> Option<RInfo> {
        let mut v: Vec<RInfo> = self.done.iter().filter(|r| (r.argc > 0) == meta).cloned().collect();
        if consumed {
            v.extend(self.later.iter().filter(|r| (r.argc > 0) == meta).cloned());
        }
        if v.is_empty() {
            return None;
        }
        // prefer recent
        if self.rng.pct(40) {
            let k = v.len().saturating_sub(3);
            return Some(v[self.rng.range(k, v.len() - 1)].clone());
        }
        Some(self.rng.pick(&v).clone())
    }
    fn leaf(&mut self, consumed: bool) -> (E, bool) {
        let p = self.p.clone();
        if !self.unused.is_empty() && self.rng.pct(50) {
            let i = self.rng.below(self.unused.len());
            let a = self.unused.remove(i);
            return (E::path(&a), true);
        }
        if !self.params.is_empty() && self.rng.pct(25) {
            let a = self.rng.pick(&self.params.clone()).clone();
            return (E::path(&a), true);
        }
        let base = p.w_str + p.w_ins + p.w_range + p.w_class + p.w_uni + p.w_any;
        let st = if p.w_stack > 10 { p.w_stack / 3 } else { 0 };
        let wm = if self.call_depth < 3 { p.w_meta >> (2 * self.call_depth) } else { 0 };
        match self.rng.weighted(&[base, p.w_rule, wm, p.w_anchor, p.empty_str / 3 + 1, st]) {
            0 => (self.consuming_leaf(), false),
            1 => match self.refer(consumed, false) {
                Some(r) => {
                    let e = if self.rng.pct(4) && !r.path.contains("::") { E::call(&r.path, vec![]) } else { E::path(&r.path) };
                    (e, r.nullable)
                }
                None => (self.consuming_leaf(), false),
            },
            2 => match self.refer(consumed, true) {
                Some(r) => {
                    let mut a = vec![];
                    self.call_depth += 1;
                    for _ in 0..r.argc {
                        let d = self.rng.weighted(&[6, 3, 1]);
                        // Arguments of a recursive call must not grow.
                        let (e, _) = if !self.params.is_empty() { self.arg_in_meta() } else { self.expr(d, consumed) };
                        a.push(e);
                    }
                    self.call_depth -= 1;
                    (E::call(&r.path, a), r.nullable)
                }
                None => (self.consuming_leaf(), false),
            },
            3 => {
                let k = *self.rng.pick(&["soi", "eoi"]);
                (self.builtin(k), true)
            }
            4 => (E::Str(String::new()), true),
            _ => {
                let k = *self.rng.pick(&["stack::pop", "stack::peek", "stack::drop", "stack::peek_all", "stack::pop_all"]);
                (self.builtin(k), true)
            }
        }
    }
    fn arg_in_meta(&mut self) -> (E, bool) {
        if self.rng.pct(60) {
            if !self.unused.is_empty() {
                let i = self.rng.below(self.unused.len());
                let a = self.unused.remove(i);
                return (E::path(&a), true);
            }
            let a = self.rng.pick(&self.params.clone()).clone();
            (E::path(&a), true)
        } else {
            let l = self.consuming_leaf();
            if self.rng.pct(30) {
                let a = self.rng.pick(&self.params.clone()).clone();
                self.unused.retain(|x| *x != a);
                (E::seq(vec![(Tr::None, l), (Tr::None, E::path(&a))]), false)
            } else {
                (l, false)
            }
        }
    }
    fn fresh_name(&mut self, used: &mut Vec<String>) -> String {
        loop {
            let n = if self.rng.pct(self.p.odd_names) { self.rng.pick(ODD).replace('#', "_q") } else { self.rng.pick(PLAIN).to_string() };
            let n = if self.rng.pct(30) { format!("{n}{}", self.rng.below(30)) } else { n };
            let n = if self.p.odd_names >= 25 && !used.is_empty() && self.rng.pct(12) {
                // Hardly differs from another one.
                let o = self.rng.pick(&used[..]).clone();
                match self.rng.below(6) {
                    0 => o.to_ascii_uppercase(),
                    1 => o.to_ascii_lowercase(),
                    2 => format!("{o}_"),
                    3 => format!("_{o}"),
                    4 => o.replace('_', ""),
                    _ => format!("{o}_with_a_long_name_of_more_than_sixty_four_characters_that_all_begin_alike_{}", self.rng.below(30)),
                }
            } else {
                n
            };
            if n.is_empty() || n == "EOI" || n == "_" || n.starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            if !used.contains(&n) {
                used.push(n.clone());
                return n;
            }
        }
    }
    /// Pushes, an attempt that takes some of them off and puts others there but fails, and what
    /// reads all of the stack.
    fn undo(&mut self) -> E {
        let push = |s: &str| E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![E::str(s)]));
        let peek = |a: Option<i64>, b: Option<i64>| E::Path(vec!["pest".into(), "stack".into(), "peek".into()], Args::Slice(a, b));
        let drop = || E::path("pest::stack::drop");
        let texts: Vec<&str> = (0..self.rng.range(2, 4)).map(|_| *self.rng.pick(&["a", "b", "c", "ab"])).collect();
        let k = self.rng.range(1, texts.len());
        let mut v: Vec<E> = texts.iter().map(|t| push(t)).collect();
        // The attempt.
        let mut w = vec![];
        if self.rng.pct(40) {
            w.push(E::str("."));
        }
        for i in 0..k {
            // Pops match what was pushed.
            w.push(if self.rng.pct(70) { drop() } else { E::str(["", "."][i % 2]) });
        }
        let new = if self.rng.pct(70) { k } else { self.rng.range(0, 3) };
        let mut put: Vec<&str> = (0..new).map(|_| *self.rng.pick(&["a", "b", "c", "ab"])).collect();
        if let (true, Some(l)) = (self.rng.pct(70), put.last_mut()) {
            *l = texts[texts.len() - 1];
        }
        w.extend(put.iter().map(|t| push(t)));
        if self.rng.pct(30) {
            w.push(peek(None, None));
        }
        w.push(E::str("!"));
        let w = E::seq(w.into_iter().map(|e| (Tr::None, e)).collect());
        let rest: String = put.concat();
        let tried = match self.rng.below(6) {
            0 => E::Opt(Box::new(w)),
            1 => E::Rep(Box::new(w)),
            2 => E::choice(vec![w, E::str("")]),
            3 => E::seq(vec![(Tr::None, E::Pos(Box::new(E::Opt(Box::new(w))))), (Tr::None, E::str(""))]),
            4 => E::RepRange(Box::new(w), None, Some(3)),
            _ => E::Neg(Box::new(w)),
        };
        v.push(tried);
        if self.rng.pct(85) {
            // What the attempt matched before it failed.
            if self.rng.pct(50) {
                v.push(E::Opt(Box::new(E::str("."))));
            }
            v.push(if self.rng.pct(70) { E::str(&rest) } else { E::Opt(Box::new(E::str(&rest))) });
        }
        for _ in 0..self.rng.range(1, texts.len() + 1) {
            v.push(match self.rng.below(7) {
                0 => E::path("pest::stack::peek_all"),
                1 => E::path("pest::stack::pop_all"),
                2 => peek(Some(0), Some(1)),
                3 => peek(Some(0), None),
                4 => E::path("pest::stack::peek"),
                _ => E::path("pest::stack::pop"),
            });
        }
        E::seq(v.into_iter().map(|e| (Tr::None, e)).collect())
    }
    fn trivia_rule(&mut self, mandatory: bool) -> E {
        self.in_trivia = true;
        let sp = *self.rng.pick(&[" ", " ", "_", "\t", "--"]);
        if self.p.w_stack > 10 && self.rng.pct(35) || self.p.w_stack > 3 && self.rng.pct(8) || self.p.name == "trivia" && self.rng.pct(15) {
            let x = if self.rng.pct(70) { E::str(sp) } else { E::choice(vec![E::str(sp), E::str(";")]) };
            let push = E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![x]));
            let one = match self.rng.below(5) {
                0 | 1 => push,
                2 => E::choice(vec![push, E::str(",")]),
                3 => E::seq(vec![(Tr::None, E::str(sp)), (Tr::None, self.builtin("stack::drop"))]),
                _ => E::seq(vec![(Tr::None, E::str(sp)), (Tr::None, E::Opt(Box::new(self.builtin("stack::pop"))))]),
            };
            self.in_trivia = false;
            return match (mandatory, self.rng.below(3)) {
                (true, 0) => E::RepOnce(Box::new(one)),
                (true, _) => one,
                (false, 0) => E::Opt(Box::new(one)),
                (false, _) => E::Rep(Box::new(one)),
            };
        }
        let e = match (mandatory, self.rng.below(5)) {
            (false, 0 | 1) => E::Rep(Box::new(E::str(sp))),
            (false, 2) => E::Rep(Box::new(E::choice(vec![E::str(sp), E::path("pest::newline")]))),
            (false, 3) => E::Opt(Box::new(E::str(sp))),
            (true, 0 | 1) => E::RepOnce(Box::new(E::str(sp))),
            (true, 2) => E::choice(vec![E::path("pest::newline"), E::str(";")]),
            (true, 3) => E::str(";"),
            _ => {
                let c = self.consuming(1, false);
                if mandatory {
                    c
                } else {
                    E::Rep(Box::new(c))
                }
            }
        };
        self.in_trivia = false;
        e
    }
    /// Rules of one module. `imported`: references into other modules (usable everywhere).
    fn module(&mut self, file: &str, imports: Vec<Import>, imported: Vec<RInfo>, is_root: bool) -> (Module, Vec<RInfo>) {
        let mut m = Module { file: file.into(), imports, ..Default::default() };
        let mut used: Vec<String> = m.imports.iter().map(|i| i.alias.clone()).collect();
        self.imported_module = !is_root;
        self.done = imported;
        self.later = vec![];
        self.has_opt = false;
        self.has_man = false;
        let p = self.p.clone();
        let mut exported: Vec<RInfo> = vec![];
        let mut out: Vec<Rule> = vec![];
        let mut triv: Vec<Rule> = vec![];
        let want_opt = p.trivia[1] > 0 && self.rng.pct(90);
        let want_man = p.trivia[2] > 0 && self.rng.pct(70);
        // A rule for trivia to use.
        if self.rng.pct(p.rich_trivia) && (want_opt || want_man) {
            let n = self.fresh_name(&mut used);
            let e = E::choice(vec![
                E::str(" "),
                E::seq(vec![
                    (Tr::None, E::str("#")),
                    (Tr::None, E::Rep(Box::new(E::seq(vec![(Tr::None, E::Neg(Box::new(E::str("#")))), (Tr::None, E::path("pest::any"))])))),
                    (Tr::None, E::str("#")),
                ]),
            ]);
            let silent = self.rng.pct(30);
            out.push(Rule { name: n.clone(), args: vec![], silent, expr: e, doc: vec![] });
            self.done.push(RInfo { path: n.clone(), argc: 0, nullable: false, silent });
            if want_opt {
                triv.push(Rule::new("~", E::Rep(Box::new(E::path(&n)))));
            }
            if want_man {
                let e = if self.rng.pct(50) {
                    E::RepOnce(Box::new(E::path(&n)))
                } else {
                    self.trivia_rule(true)
                };
                triv.push(Rule::new("^", e));
            }
        } else {
            if want_opt {
                let e = self.trivia_rule(false);
                triv.push(Rule::new("~", e));
            }
            if want_man {
                // the mandatory trivia may be written with the optional one
                let e = if want_opt && self.rng.pct(15) {
                    E::seq(vec![(Tr::None, E::str(";")), (Tr::Opt, E::str(","))])
                } else {
                    self.trivia_rule(true)
                };
                triv.push(Rule::new("^", e));
            }
        }
        self.has_opt = want_opt;
        self.has_man = want_man;
        // Meta rules first.
        let nm = self.rng.range(p.metas.0, p.metas.1);
        for _ in 0..nm {
            let name = self.fresh_name(&mut used);
            let argc = if self.rng.pct(6) { self.rng.range(4, 12) } else { self.rng.weighted(&[0, 5, 4, 1]) };
            let silent = self.rng.pct(p.silent_meta);
            let params: Vec<String> = (0..argc)
                .map(|i| {
                    // sometimes shadow a rule's or another meta rule's parameter name
                    if i > 2 {
                        format!("p{i}")
                    } else if self.rng.pct(70) {
                        ["x", "y", "z"][i].to_string()
                    } else {
                        ["elem", "sep", "E"][i].to_string()
                    }
                })
                .collect();
            self.no_trivia = silent && self.imported_module;
            self.params = params.clone();
            self.unused = params.clone();
            let (mut e, mut nu) = self.expr(p.depth.min(3), false);
            self.unused.clear();
            // A silent rule may drop its argument, so that what is only mentioned there is unused.
            let named = |e: &E, a: &str| if self.ignoring { mentions_outside_calls(e, a) } else { mentions(e, a) };
            let left: Vec<String> = params.iter().filter(|a| if silent { !mentions(&e, a) } else { !named(&e, a) }).cloned().collect();
            // Silent rules may ignore a parameter.
            if !left.is_empty() && silent && self.rng.pct(40) {
                self.ignoring = true;
            } else if !left.is_empty() {
                let mut v = vec![(Tr::None, e)];
                for a in left {
                    let t = self.tr();
                    v.push((t, E::path(&a)));
                }
                e = E::seq(v);
            }
            // Parameters may match empty, but the rest may consume.
            if self.rng.pct(30) && nu {
                let l = self.consuming_leaf();
                let t = self.tr();
                e = E::seq(vec![(Tr::None, l), (t, e)]);
                nu = false;
            }
            self.params = vec![];
            self.no_trivia = false;
            out.push(Rule { name: name.clone(), args: params, silent, expr: e, doc: vec![] });
            let info = RInfo { path: name, argc, nullable: nu, silent };
            self.done.push(info.clone());
            exported.push(info);
        }
        let nr = self.rng.range(p.rules.0, p.rules.1);
        let names: Vec<String> = (0..nr).map(|_| self.fresh_name(&mut used)).collect();
        let silents: Vec<bool> = (0..nr).map(|i| !(is_root && i == nr - 1) && self.rng.pct(p.silent)).collect();
        for i in 0..nr {
            self.later = (i..nr).map(|k| RInfo { path: names[k].clone(), argc: 0, nullable: true, silent: silents[k] }).collect();
            let d = if i + 1 == nr { p.depth } else { self.rng.range(1, p.depth) };
            let (e, nu) = self.expr(d, false);
            out.push(Rule { name: names[i].clone(), args: vec![], silent: silents[i], expr: e, doc: vec![] });
            let info = RInfo { path: names[i].clone(), argc: 0, nullable: nu, silent: silents[i] };
            self.done.push(info.clone());
            exported.push(info);
        }
        if is_root && self.rng.pct(p.train) {
            let n = self.rng.range(18, 48);
            let name = self.fresh_name(&mut used);
            let mut v = vec![];
            for _ in 0..n {
                let t = (0..3).map(|_| self.tr()).find(|t| *t != Tr::None).unwrap_or(Tr::None);
                let e = match self.rng.below(10) {
                    0 => self.consuming_leaf(),
                    1 => E::Opt(Box::new(E::Str(self.lit()))),
                    _ => E::Str(self.lit()),
                };
                v.push((t, e));
            }
            let e = if self.rng.pct(70) { E::seq(v) } else { E::choice(v.into_iter().map(|x| x.1).collect()) };
            out.push(Rule { name, args: vec![], silent: false, expr: e, doc: vec![] });
        }
        if is_root && p.many > 0 && self.rng.pct(p.many) {
            let near: Vec<String> = self.done.iter().filter(|x| x.argc == 0).map(|x| x.path.clone()).collect();
            if !near.is_empty() {
                let name = self.fresh_name(&mut used);
                let which: Vec<String> = (0..self.rng.range(1, 2)).map(|_| self.rng.pick(&near).clone()).collect();
                let v = (0..self.rng.range(5, 14))
                    .map(|_| {
                        let x = E::path(self.rng.pick(&which));
                        let l = self.consuming_leaf();
                        let e = match self.rng.below(9) {
                            0 => E::Opt(Box::new(x)),
                            1 => E::choice(vec![x, l]),
                            2 => E::choice(vec![l, x]),
                            3 => E::RepRange(Box::new(E::seq(vec![(Tr::None, l), (Tr::None, x)])), None, Some(2)),
                            4 => E::Opt(Box::new(E::seq(vec![(Tr::None, l), (Tr::None, x)]))),
                            _ => x,
                        };
                        (self.tr(), e)
                    })
                    .collect();
                out.push(Rule { name, args: vec![], silent: false, expr: E::seq(v), doc: vec![] });
            }
        }
        if is_root && p.undo > 0 && self.rng.pct(p.undo) {
            let name = self.fresh_name(&mut used);
            let e = self.undo();
            out.push(Rule { name, args: vec![], silent: false, expr: e, doc: vec![] });
        }
        let mut ring = vec![];
        if is_root && self.rng.pct(p.ring) {
            let n = if self.rng.pct(70) { self.rng.range(3, 12) } else { self.rng.range(13, 40) };
            let names: Vec<String> = (0..n).map(|_| self.fresh_name(&mut used)).collect();
            let metas: Vec<(String, usize)> = self.done.iter().filter(|x| x.argc > 0).map(|x| (x.path.clone(), x.argc)).collect();
            // A repetition breaks the cycle of types: most rings have none.
            let breaks = self.rng.pct(30);
            for i in 0..n {
                let lit = self.consuming_leaf();
                let next = E::path(&names[(i + 1) % n]);
                let next = if !metas.is_empty() && self.rng.pct(25) {
                    let (m, argc) = self.rng.pick(&metas).clone();
                    let at = self.rng.below(argc);
                    let mut v: Vec<E> = (0..argc).map(|_| self.consuming_leaf()).collect();
                    v[at] = next;
                    E::call(&m, v)
                } else {
                    next
                };
                let rest = match self.rng.below(5) {
                    0 => E::Opt(Box::new(next)),
                    1 => E::choice(vec![next, self.consuming_leaf()]),
                    2 => E::choice(vec![self.consuming_leaf(), next]),
                    3 if breaks => E::RepRange(Box::new(next), None, Some(2)),
                    _ => E::Opt(Box::new(E::seq(vec![(Tr::None, next), (Tr::None, self.consuming_leaf())]))),
                };
                let t = self.tr();
                let silent = self.rng.pct(p.silent);
                ring.push(Rule { name: names[i].clone(), args: vec![], silent, expr: E::seq(vec![(Tr::None, lit), (t, rest)]), doc: vec![] });
            }
        }
        // Keep the order of a cycle in most cases: how it is found depends on it.
        if self.rng.pct(40) {
            out.append(&mut ring);
        }
        // Rules within rules that all begin at one place.
        if is_root && self.rng.pct(p.ladder) {
            let n = self.rng.range(8, 26);
            let names: Vec<String> = (0..n).map(|_| self.fresh_name(&mut used)).collect();
            let few = if self.rng.pct(60) { 4 } else { 25 };
            for i in 0..n {
                let next = if i + 1 < n { E::path(&names[i + 1]) } else { self.consuming(1, false) };
                let e = match self.rng.below(100) {
                    x if x >= few => next,
                    x if x % 4 == 0 => E::choice(vec![next, self.consuming_leaf()]),
                    x if x % 4 == 1 => E::choice(vec![self.consuming_leaf(), next]),
                    x if x % 4 == 2 => {
                        let l = self.consuming_leaf();
                        let t = self.tr();
                        E::seq(vec![(Tr::None, l), (t, next)])
                    }
                    _ => {
                        let l = self.consuming_leaf();
                        let t = self.tr();
                        E::seq(vec![(Tr::None, next), (t, l)])
                    }
                };
                let silent = self.rng.pct(p.silent / 2);
                out.push(Rule { name: names[i].clone(), args: vec![], silent, expr: e, doc: vec![] });
            }
        }
        // Order of rules is irrelevant: shuffle.
        out.extend(triv);
        for i in (1..out.len()).rev() {
            let j = self.rng.below(i + 1);
            out.swap(i, j);
        }
        let mut at = 0;
        for x in ring {
            at = self.rng.range(at, out.len());
            out.insert(at, x);
            at += 1;
        }
        m.rules = out;
        (m, exported)
    }
    pub fn grammar(&mut self) -> Grammar {
        let p = self.p.clone();
        let nmod = self.rng.range(p.modules.0, p.modules.1);
        let nmod = if p.modules.0 > 0 && self.rng.pct(12) { nmod + self.rng.range(1, 4) } else { nmod };
        let mut g = Grammar { modules: vec![Module::default()] };
        let files: Vec<String> = (0..nmod).map(|i| ["m0.pest", "sub/m1.pest", "sub/deep/m2.pest", "sub/m0.pest", "other/m1.pest", "loop.pest", "sub/deep/er/m2.pest"][i].to_string()).collect();
        let mut exports: Vec<Vec<RInfo>> = vec![];
        let mut used_alias: Vec<Vec<String>> = vec![];
        let build_imports = |me: &mut Self, from: &str, avail: usize, all: bool, exports: &Vec<Vec<RInfo>>| -> (Vec<Import>, Vec<RInfo>) {
            let mut im = vec![];
            let mut refs = vec![];
            for k in 0..avail {
                if !(all && k + 1 == avail) && !me.rng.pct(60) {
                    continue;
                }
                let segs = rel(from, &files[k]);
                let def = segs.last().unwrap().clone();
                let alias = match me.rng.below(10) {
                    0..=4 => def.clone(),
                    5..=6 => format!("al{k}"),
                    7 => me.rng.pick(KEYWORDS).to_string(),
                    _ => format!("{}{k}", me.rng.pick(ALIASES)),
                };
                let alias = if im.iter().any(|i: &Import| i.alias == alias) { format!("al{k}") } else { alias };
                let text = if alias == def { format!("use {}", segs.join("::")) } else { format!("use {} as {alias}", segs.join("::")) };
                im.push(Import { alias: alias.clone(), kind: ImportKind::File(k + 1), text });
                for r in &exports[k] {
                    refs.push(RInfo { path: format!("{alias}::{}", r.path), ..r.clone() });
                }
            }
            (im, refs)
        };
        for k in 0..nmod {
            let (mut im, refs) = build_imports(self, &files[k], k, false, &exports);
            self.builtin_aliases(&mut im);
            let (m, ex) = self.module(&files[k], im.clone(), refs.clone(), false);
            g.modules.push(m);
            // Rules reachable through this module, including its own imports.
            let mut ex = ex;
            if self.rng.pct(50) {
                ex.extend(refs.into_iter().take(3));
            }
            exports.push(ex);
            used_alias.push(vec![]);
        }
        let (mut im, refs) = build_imports(self, "main.pest", nmod, true, &exports);
        self.builtin_aliases(&mut im);
        let (m, _) = self.module("main.pest", im, refs, true);
        g.modules[0] = m;
        g
    }
    fn builtin_aliases(&mut self, im: &mut Vec<Import>) {
        self.builtin_alias = vec![];
        if self.p.modules.1 == 0 || !self.rng.pct(60) {
            return;
        }
        let _ = nullable_builtin;
        for (t, a) in [("pest::ascii_digit", "ascii_digit"), ("pest::stack", "stk"), ("pest::unicode", "unicode"), ("pest::any", "any"), ("pest::ascii_alpha", "letter_"), ("pest::newline", "__nl")] {
            if self.rng.pct(50) && !im.iter().any(|i| i.alias == a) {
                let def = t.rsplit("::").next().unwrap();
                let text = if def == a { format!("use {t}") } else { format!("use {t} as {a}") };
                im.push(Import { alias: a.into(), kind: ImportKind::Builtin(t.split("::").map(|s| s.to_string()).collect()), text });
                self.builtin_alias.push((a.into(), t.into()));
            }
        }
    }
}
/// Module path of `to` as seen from file `from` (both relative to the grammar directory).
pub fn rel(from: &str, to: &str) -> Vec<String> {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.trim_end_matches(".pest").split('/').collect();
    let fd = &f[..f.len() - 1];
    let mut k = 0;
    while k < fd.len() && k + 1 < t.len() && fd[k] == t[k] {
        k += 1;
    }
    let mut v: Vec<String> = vec![];
    for _ in k..fd.len() {
        v.push("super".into());
    }
    v.extend(t[k..].iter().map(|s| s.to_string()));
    v
}
pub fn grammar(seed: u64, profile: &str, idx: u64) -> Grammar {
    let mut rng = Rng::derive(seed, profile, idx);
    loop {
        let g = Gen::new(&mut rng, Profile::by_name(profile)).grammar();
        if expansion(&g) < 6000 {
            return g;
        }
    }
}

/// Size of the grammar when calls of meta rules are expanded.
pub fn expansion(g: &Grammar) -> usize {
    let mut total = 0usize;
    for m in g.modules.iter() {
        for r in m.rules.iter().filter(|r| r.args.is_empty()) {
            let n = size(g, m, &r.expr, &[], 0);
            total = total.saturating_add(n);
        }
    }
    total
}
fn size(g: &Grammar, m: &Module, e: &E, env: &[(String, usize)], depth: usize) -> usize {
    if depth > 40 {
        return 1_000_000;
    }
    match e {
        E::Str(_) | E::Ins(_) | E::Range(..) => 1,
        E::Pos(x) | E::Neg(x) | E::Opt(x) | E::Rep(x) | E::RepOnce(x) | E::RepRange(x, ..) | E::Sep(x, _) => 1usize.saturating_add(size(g, m, x, env, depth)),
        E::Seq(a, b, _) | E::Choice(a, b) => size(g, m, a, env, depth).saturating_add(size(g, m, b, env, depth)).saturating_add(1),
        E::Path(p, args) => {
            if p.len() == 1 {
                if let Some((_, n)) = env.iter().find(|(k, _)| *k == p[0]) {
                    return *n;
                }
            }
            let Args::Call(args) = args else { return 1 };
            let sizes: Vec<usize> = args.iter().map(|a| size(g, m, a, env, depth)).collect();
            let mut cur = m;
            for seg in &p[..p.len() - 1] {
                match cur.imports.iter().find(|i| i.alias == *seg).map(|i| &i.kind) {
                    Some(ImportKind::File(k)) => cur = &g.modules[*k],
                    _ => return sizes.iter().fold(1, |a, b| a.saturating_add(*b)),
                }
            }
            match cur.rules.iter().find(|r| r.name == *p.last().unwrap()) {
                Some(r) if !r.args.is_empty() => {
                    let env: Vec<(String, usize)> = r.args.iter().cloned().zip(sizes).collect();
                    1usize.saturating_add(size(g, cur, &r.expr, &env, depth + 1))
                }
                _ => 1,
            }
        }
    }
}

fn mentions_outside_calls(e: &E, name: &str) -> bool {
    match e {
        E::Str(_) | E::Ins(_) | E::Range(..) => false,
        E::Pos(x) | E::Neg(x) | E::Opt(x) | E::Rep(x) | E::RepOnce(x) | E::RepRange(x, ..) | E::Sep(x, _) => mentions_outside_calls(x, name),
        E::Seq(a, b, _) | E::Choice(a, b) => mentions_outside_calls(a, name) || mentions_outside_calls(b, name),
        E::Path(p, _) => p.len() == 1 && p[0] == name,
    }
}

pub fn mentions(e: &E, name: &str) -> bool {
    match e {
        E::Str(_) | E::Ins(_) | E::Range(..) => false,
        E::Pos(x) | E::Neg(x) | E::Opt(x) | E::Rep(x) | E::RepOnce(x) | E::RepRange(x, ..) | E::Sep(x, _) => mentions(x, name),
        E::Seq(a, b, _) | E::Choice(a, b) => mentions(a, name) || mentions(b, name),
        E::Path(p, args) => (p.len() == 1 && p[0] == name) || matches!(args, Args::Call(v) if v.iter().any(|a| mentions(a, name))),
    }
}
