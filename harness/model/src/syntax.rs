//! Reference parser of the grammar language, written by hand from its definition
//! (meta/src/grammar.pest): a recursive-descent recogniser that also yields the tree, the spans
//! (without trailing trivia) and the places of the semantic mistakes.
use crate::ast::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Str(String),
    Ins(String),
    Range(char, char),
    Path(Vec<String>),
    /// Children are the arguments.
    Call(Vec<String>),
    Slice(Vec<String>, Option<i128>, Option<i128>),
    Pos,
    Neg,
    Seq(Tr),
    Choice,
    Opt,
    Rep,
    RepOnce,
    RepRange(Option<u128>, Option<u128>),
    Sep(Tr),
}
#[derive(Clone, Debug, PartialEq)]
pub struct S {
    pub k: K,
    pub start: usize,
    /// End of the last token.
    pub end: usize,
    pub kids: Vec<S>,
}
impl S {
    /// Same shape as `dump` of meta's tree: operators and leaves in prefix form, without spans.
    pub fn dump(&self, o: &mut String) {
        use std::fmt::Write;
        match &self.k {
            K::Str(s) => write!(o, "Str{s:?}"),
            K::Ins(s) => write!(o, "Ins{s:?}"),
            K::Range(a, b) => write!(o, "Range{a:?}{b:?}"),
            K::Path(p) => write!(o, "Path{p:?}"),
            K::Call(p) => write!(o, "Call{p:?}"),
            K::Slice(p, a, b) => write!(o, "Slice{p:?}{a:?}..{b:?}"),
            K::Pos => write!(o, "Pos"),
            K::Neg => write!(o, "Neg"),
            K::Seq(t) => write!(o, "Seq{}", t.sym()),
            K::Choice => write!(o, "Choice"),
            K::Opt => write!(o, "Opt"),
            K::Rep => write!(o, "Rep"),
            K::RepOnce => write!(o, "Rep1"),
            K::RepRange(a, b) => write!(o, "RepN{a:?}..{b:?}"),
            K::Sep(t) => write!(o, "Sep{}", t.sym()),
        }
        .unwrap();
        if !self.kids.is_empty() {
            o.push('(');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                k.dump(o);
            }
            o.push(')');
        }
    }
    pub fn spans(&self, out: &mut Vec<(usize, usize)>) {
        out.push((self.start, self.end));
        self.kids.iter().for_each(|k| k.spans(out));
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn from_e(e: &E) -> S {
        let b = |k, kids: Vec<&E>| S { k, start: 0, end: 0, kids: kids.into_iter().map(S::from_e).collect() };
        match e {
            E::Str(s) => b(K::Str(s.clone()), vec![]),
            E::Ins(s) => b(K::Ins(s.clone()), vec![]),
            E::Range(x, y) => b(K::Range(*x, *y), vec![]),
            E::Path(p, Args::None) => b(K::Path(p.clone()), vec![]),
            E::Path(p, Args::Call(a)) => b(K::Call(p.clone()), a.iter().collect()),
            E::Path(p, Args::Slice(x, y)) => b(K::Slice(p.clone(), x.map(|x| x as i128), y.map(|x| x as i128)), vec![]),
            E::Pos(x) => b(K::Pos, vec![x]),
            E::Neg(x) => b(K::Neg, vec![x]),
            E::Opt(x) => b(K::Opt, vec![x]),
            E::Rep(x) => b(K::Rep, vec![x]),
            E::RepOnce(x) => b(K::RepOnce, vec![x]),
            E::RepRange(x, lo, hi) => b(K::RepRange(lo.map(|x| x as u128), hi.map(|x| x as u128)), vec![x]),
            E::Sep(x, t) => b(K::Sep(*t), vec![x]),
            E::Seq(x, y, t) => b(K::Seq(*t), vec![x, y]),
            E::Choice(x, y) => b(K::Choice, vec![x, y]),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct SRule {
    pub name: String,
    pub args: Vec<String>,
    pub silent: bool,
    pub doc: Vec<String>,
    pub start: usize,
    pub end: usize,
    pub node: S,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SImport {
    pub path: Vec<String>,
    /// Arguments are syntactically possible, but never allowed.
    pub has_args: bool,
    pub file: Option<String>,
    pub alias: Option<String>,
    pub start: usize,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SModule {
    pub doc: Vec<String>,
    pub imports: Vec<SImport>,
    pub rules: Vec<SRule>,
    /// Start and kind of each semantic mistake: with any, the grammar is rejected.
    pub mistakes: Vec<(usize, &'static str)>,
}

struct P<'a> {
    s: &'a str,
    i: usize,
    mistakes: Vec<(usize, &'static str)>,
    depth: usize,
    too_deep: bool,
}
type R<T> = Option<T>;

pub const MAX_DEPTH: usize = 400;

/// `Err(true)`: not decided (nested too deeply). `Err(false)`: not a grammar.
pub fn parse(s: &str) -> Result<SModule, bool> {
    let mut p = P { s, i: 0, mistakes: vec![], depth: 0, too_deep: false };
    let r = p.grammar();
    match r {
        Some(mut m) if p.i == s.len() && !p.too_deep => {
            m.mistakes = p.mistakes;
            Ok(m)
        }
        _ => Err(p.too_deep),
    }
}

/// Length of the trivia at the start of `s`.
pub fn trivia(s: &str) -> usize {
    let mut i = 0;
    loop {
        let r = &s[i..];
        if r.starts_with([' ', '\t', '\n']) {
            i += 1;
        } else if r.starts_with("\r\n") {
            i += 2;
        } else if r.starts_with("/*") {
            match block(r) {
                Some(n) => i += n,
                None => return i,
            }
        } else if r.starts_with("//") && !r.starts_with("///") && !r.starts_with("//!") {
            i += line(r);
        } else {
            return i;
        }
    }
}
fn line(s: &str) -> usize {
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c == '\n' || (c == '\r' && matches!(it.peek(), Some((_, '\n')))) {
            return i;
        }
    }
    s.len()
}
/// Comments nest; the whole must be closed. An opening that is never closed is text of the
/// enclosing comment.
fn block(s: &str) -> Option<usize> {
    fn at(b: &[u8], p: usize, memo: &mut std::collections::HashMap<usize, Option<usize>>) -> Option<usize> {
        if let Some(r) = memo.get(&p) {
            return *r;
        }
        let mut i = p + 2;
        let mut r = None;
        while i < b.len() {
            if b[i..].starts_with(b"/*") {
                match at(b, i, memo) {
                    Some(e) => i = e,
                    None => i += 1,
                }
            } else if b[i..].starts_with(b"*/") {
                r = Some(i + 2);
                break;
            } else {
                i += 1;
            }
        }
        memo.insert(p, r);
        r
    }
    at(s.as_bytes(), 0, &mut Default::default())
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn skip(&mut self) {
        self.i += trivia(self.rest());
    }
    fn lit(&mut self, t: &str) -> R<()> {
        if self.rest().starts_with(t) {
            self.i += t.len();
            Some(())
        } else {
            None
        }
    }
    fn try_<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let (i, m) = (self.i, self.mistakes.len());
        let r = f(self);
        if r.is_none() {
            self.i = i;
            self.mistakes.truncate(m);
        }
        r
    }
    /// Skip trivia and then try.
    fn next<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.try_(|p| {
            p.skip();
            f(p)
        })
    }
    fn ident(&mut self) -> R<String> {
        let r = self.rest();
        let n = r.bytes().take_while(|b| *b == b'_' || b.is_ascii_alphanumeric()).count();
        if n == 0 || r.as_bytes()[0].is_ascii_digit() {
            return None;
        }
        self.i += n;
        Some(r[..n].to_string())
    }
    fn doc(&mut self, mark: &str) -> R<String> {
        if !self.rest().starts_with(mark) {
            return None;
        }
        let n = line(self.rest());
        let t = self.rest()[3..n].trim().to_string();
        self.i += n;
        Some(t)
    }
    fn grammar(&mut self) -> R<SModule> {
        let mut m = SModule::default();
        self.skip();
        while let Some(d) = self.next(|p| p.doc("//!")) {
            m.doc.push(d);
        }
        let mut any = false;
        loop {
            if let Some(i) = self.next(|p| p.import()) {
                m.imports.push(i);
            } else if let Some(r) = self.next(|p| p.rule()) {
                m.rules.push(r);
                any = true;
            } else {
                break;
            }
        }
        self.skip();
        any.then_some(m)
    }
    fn import(&mut self) -> R<SImport> {
        let start = self.i;
        self.lit("use ")?;
        self.skip();
        let p = self.path()?;
        let (path, has_args) = match p.k {
            K::Path(v) => (v, false),
            K::Call(v) | K::Slice(v, ..) => (v, true),
            _ => unreachable!(),
        };
        if has_args {
            self.mistakes.push((p.start, "import-args"));
        }
        let file = self.next(|p| {
            p.lit("in")?;
            p.skip();
            p.string()
        });
        let alias = self.next(|p| {
            p.lit("as")?;
            if p.rest().starts_with(|c: char| c == '_' || c.is_ascii_alphanumeric()) {
                return None;
            }
            p.skip();
            p.ident()
        });
        Some(SImport { path, has_args, file, alias, start })
    }
    fn rule(&mut self) -> R<SRule> {
        let start = self.i;
        let mut doc = vec![];
        while let Some(d) = self.next(|p| p.doc("///")) {
            doc.push(d);
        }
        self.skip();
        let name = match self.ident() {
            Some(n) => n,
            None if self.lit("~").is_some() => "~".to_string(),
            None => {
                self.lit("^")?;
                "^".to_string()
            }
        };
        let args = self.next(|p| p.params()).unwrap_or_default();
        self.skip();
        self.lit("=")?;
        let silent = self
            .next(|p| {
                p.lit("_")?;
                if p.s[p.i..].starts_with(|c: char| c == '_' || c.is_ascii_alphanumeric()) {
                    return None;
                }
                Some(())
            })
            .is_some();
        self.skip();
        let braces = self.try_(|p| {
            p.lit("{")?;
            p.skip();
            let e = p.expr()?;
            p.skip();
            p.lit("}")?;
            Some(e)
        });
        let node = match braces {
            Some(x) => x,
            None => self.expr()?,
        };
        Some(SRule { name, args, silent, doc, start, end: self.i, node })
    }
    fn params(&mut self) -> R<Vec<String>> {
        self.lit("(")?;
        let mut v = vec![];
        if let Some(x) = self.next(|p| p.ident()) {
            v.push(x);
            while let Some(x) = self.next(|p| {
                p.lit(",")?;
                p.skip();
                p.ident()
            }) {
                v.push(x);
            }
            self.next(|p| p.lit(","));
        }
        self.skip();
        self.lit(")")?;
        Some(v)
    }
    fn choice_op(&mut self) -> R<()> {
        self.try_(|p| {
            if p.lit("~").is_some() || p.lit("^").is_some() {
                p.skip();
            }
            p.lit("|")
        })
    }
    fn expr(&mut self) -> R<S> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            self.too_deep = true;
            self.depth -= 1;
            return None;
        }
        let r = self.expr_();
        self.depth -= 1;
        r
    }
    fn expr_(&mut self) -> R<S> {
        // None stands for the choice operator.
        let mut terms = vec![];
        let mut ops: Vec<Option<Tr>> = vec![];
        if self.choice_op().is_some() {
            // A leading `|` needs another one after the first alternative's only term.
            self.skip();
            terms.push(self.term()?);
            self.skip();
            self.choice_op()?;
            ops.push(None);
            self.skip();
            terms.push(self.term()?);
        } else {
            terms.push(self.term()?);
            if self.next(|p| p.choice_op()).is_some() {
                ops.push(None);
                self.skip();
                terms.push(self.term()?);
            }
        }
        while let Some((op, t)) = self.next(|p| {
            let op = if p.lit("-").is_some() {
                Some(Tr::None)
            } else if p.lit("~").is_some() {
                Some(Tr::Opt)
            } else if p.lit("^").is_some() {
                Some(Tr::Man)
            } else {
                p.lit("|")?;
                None
            };
            p.skip();
            Some((op, p.term()?))
        }) {
            ops.push(op);
            terms.push(t);
        }
        // `|` binds weakest; everything associates to the right.
        let mut alts: Vec<Vec<S>> = vec![vec![]];
        let mut trs: Vec<Vec<Tr>> = vec![vec![]];
        let mut it = terms.into_iter();
        alts[0].push(it.next().unwrap());
        for (op, t) in ops.into_iter().zip(it) {
            match op {
                None => {
                    alts.push(vec![t]);
                    trs.push(vec![]);
                }
                Some(tr) => {
                    trs.last_mut().unwrap().push(tr);
                    alts.last_mut().unwrap().push(t);
                }
            }
        }
        let bin = |k, l: S, r: S| S { k, start: l.start, end: r.end, kids: vec![l, r] };
        let mut seqs: Vec<S> = alts
            .into_iter()
            .zip(trs)
            .map(|(mut a, mut t)| {
                let mut e = a.pop().unwrap();
                while let Some(l) = a.pop() {
                    e = bin(K::Seq(t.pop().unwrap()), l, e);
                }
                e
            })
            .collect();
        let mut e = seqs.pop().unwrap();
        while let Some(l) = seqs.pop() {
            e = bin(K::Choice, l, e);
        }
        Some(e)
    }
    fn term(&mut self) -> R<S> {
        let mut pre = vec![];
        loop {
            let at = self.i;
            if self.lit("&").is_some() {
                pre.push((K::Pos, at));
            } else if self.lit("!").is_some() {
                pre.push((K::Neg, at));
            } else {
                break;
            }
            self.skip();
        }
        let mut e = self.node()?;
        loop {
            let r = self.next(|p| {
                let sep = if p.lit("~").is_some() {
                    Some(Tr::Opt)
                } else if p.lit("^").is_some() {
                    Some(Tr::Man)
                } else {
                    None
                };
                let sep_end = p.i;
                if sep.is_some() {
                    p.skip();
                }
                let k = if p.lit("?").is_some() {
                    K::Opt
                } else if p.lit("*").is_some() {
                    K::Rep
                } else if p.lit("+").is_some() {
                    K::RepOnce
                } else {
                    let (a, b) = p.bounds()?;
                    K::RepRange(a, b)
                };
                Some((sep.map(|s| (s, sep_end)), k, p.i))
            });
            let Some((sep, k, end)) = r else { break };
            if let Some((t, se)) = sep {
                e = S { start: e.start, end: se, k: K::Sep(t), kids: vec![e] };
            }
            e = S { start: e.start, end, k, kids: vec![e] };
        }
        for (k, at) in pre.into_iter().rev() {
            e = S { k, start: at, end: e.end, kids: vec![e] };
        }
        Some(e)
    }
    fn digits(&mut self) -> R<(usize, String)> {
        let r = self.rest();
        let n = match r.bytes().next() {
            Some(b'0') => 1,
            Some(b'1'..=b'9') => r.bytes().take_while(|b| b.is_ascii_digit()).count(),
            _ => return None,
        };
        let at = self.i;
        self.i += n;
        Some((at, r[..n].to_string()))
    }
    fn bounds(&mut self) -> R<(Option<u128>, Option<u128>)> {
        self.lit("{")?;
        self.skip();
        let inner = self.i;
        let a = self.digits();
        let (a, b, exact) = match self.next(|p| p.lit("..")) {
            Some(()) => (a, self.next(|p| p.digits()), false),
            None => {
                let a = a?;
                (Some(a.clone()), Some(a), true)
            }
        };
        self.skip();
        self.lit("}")?;
        let mut num = |x: Option<(usize, String)>| -> Option<u128> {
            let (at, t) = x?;
            let v = t.parse::<u128>().ok().filter(|v| *v <= u64::MAX as u128);
            if v.is_none() {
                self.mistakes.push((at, "overflow"));
            }
            v
        };
        let had_b = b.is_some();
        let a = num(a);
        let b = if exact { a } else { num(b) };
        if let (Some(x), Some(y)) = (a, b) {
            if x > y {
                self.mistakes.push((inner, "void"));
            }
        }
        if had_b && b == Some(0) {
            self.mistakes.push((inner, "zero"));
        }
        Some((a, b))
    }
    fn node(&mut self) -> R<S> {
        if self.rest().starts_with('(') {
            return self.try_(|p| {
                p.lit("(")?;
                p.skip();
                let e = p.expr()?;
                p.skip();
                p.lit(")")?;
                Some(e)
            });
        }
        let start = self.i;
        if let Some(s) = self.try_(|p| p.string()) {
            return Some(S { k: K::Str(s), start, end: self.i, kids: vec![] });
        }
        if let Some(s) = self.try_(|p| p.raw()) {
            return Some(S { k: K::Str(s), start, end: self.i, kids: vec![] });
        }
        if let Some(s) = self.try_(|p| {
            p.lit("i")?;
            let m = p.mistakes.len();
            let s = p.string()?;
            for x in &mut p.mistakes[m..] {
                x.0 = start;
            }
            Some(s)
        }) {
            return Some(S { k: K::Ins(s), start, end: self.i, kids: vec![] });
        }
        if let Some(e) = self.try_(|p| p.path()) {
            return Some(e);
        }
        self.try_(|p| {
            let a = p.character()?;
            p.skip();
            p.lit("..")?;
            p.skip();
            let b = p.character()?;
            Some(S { k: K::Range(a, b), start, end: p.i, kids: vec![] })
        })
    }
    fn path(&mut self) -> R<S> {
        let start = self.i;
        let mut v = vec![self.ident()?];
        let mut end = self.i;
        while let Some(x) = self.next(|p| {
            p.lit("::")?;
            p.skip();
            p.ident()
        }) {
            v.push(x);
            end = self.i;
        }
        if let Some(args) = self.next(|p| {
            p.lit("(")?;
            let mut args = vec![];
            if let Some(e) = p.next(|p| p.expr()) {
                args.push(e);
                while let Some(e) = p.next(|p| {
                    p.lit(",")?;
                    p.skip();
                    p.expr()
                }) {
                    args.push(e);
                }
                p.next(|p| p.lit(","));
            }
            p.skip();
            p.lit(")")?;
            Some(args)
        }) {
            return Some(S { k: K::Call(v), start, end: self.i, kids: args });
        }
        if let Some((a, b)) = self.next(|p| {
            p.lit("[")?;
            let a = p.next(|p| p.integer());
            p.skip();
            p.lit("..")?;
            let b = p.next(|p| p.integer());
            p.skip();
            p.lit("]")?;
            Some((a, b))
        }) {
            let a = a.flatten_or(&mut self.mistakes);
            let b = b.flatten_or(&mut self.mistakes);
            return Some(S { k: K::Slice(v, a, b), start, end: self.i, kids: vec![] });
        }
        Some(S { k: K::Path(v), start, end, kids: vec![] })
    }
    fn integer(&mut self) -> R<(usize, Option<i128>)> {
        let at = self.i;
        let neg = self.lit("-").is_some();
        if !neg {
            let _ = self.lit("+");
        }
        let (_, d) = self.digits()?;
        let v = d.parse::<i128>().ok().map(|v| if neg { -v } else { v });
        Some((at, v.filter(|v| *v >= i64::MIN as i128 && *v <= i64::MAX as i128)))
    }
    /// An escape after the backslash, as it is written: `Some(Some(c))` means `c`, `Some(None)`
    /// is well-formed but denotes nothing.
    fn escape(&mut self) -> R<Option<char>> {
        let r = self.rest();
        let mut it = r.chars();
        let c = it.next()?;
        let simple = match c {
            '"' | '\\' | '\'' => Some(c),
            'r' => Some('\r'),
            'n' => Some('\n'),
            't' => Some('\t'),
            '0' => Some('\0'),
            _ => None,
        };
        if let Some(c) = simple {
            self.i += 1;
            return Some(Some(c));
        }
        let b = r.as_bytes();
        match c {
            'x' => {
                if b.len() < 3 || !b[1].is_ascii_hexdigit() || !b[2].is_ascii_hexdigit() {
                    return None;
                }
                self.i += 3;
                let v = u32::from_str_radix(&r[1..3], 16).unwrap();
                Some(if v <= 0x7f { char::from_u32(v) } else { None })
            }
            'u' => {
                if b.get(1) != Some(&b'{') {
                    return None;
                }
                let n = b[2..].iter().take(6).take_while(|x| x.is_ascii_hexdigit()).count();
                if n == 0 || b.get(2 + n) != Some(&b'}') {
                    return None;
                }
                self.i += 3 + n;
                Some(char::from_u32(u32::from_str_radix(&r[2..2 + n], 16).unwrap()))
            }
            _ => None,
        }
    }
    fn string(&mut self) -> R<String> {
        let start = self.i;
        self.lit("\"")?;
        let mut o = String::new();
        let mut bad = false;
        loop {
            let c = self.rest().chars().next()?;
            self.i += c.len_utf8();
            match c {
                '"' => break,
                '\\' => match self.escape()? {
                    Some(c) => o.push(c),
                    None => bad = true,
                },
                c => o.push(c),
            }
        }
        if bad {
            self.mistakes.push((start, "string"));
        }
        Some(o)
    }
    fn raw(&mut self) -> R<String> {
        self.lit("r")?;
        let n = self.rest().bytes().take_while(|b| *b == b'#').count();
        self.i += n;
        self.lit("\"")?;
        let close = format!("\"{}", "#".repeat(n));
        let k = self.rest().find(&close)?;
        let t = self.rest()[..k].to_string();
        self.i += k + close.len();
        Some(t)
    }
    fn character(&mut self) -> R<char> {
        let start = self.i;
        self.lit("'")?;
        let c = self.rest().chars().next()?;
        let v = match c {
            '\\' => {
                let esc = self.try_(|p| {
                    p.lit("\\")?;
                    p.escape()
                });
                match esc {
                    Some(v) => v,
                    None => {
                        // A lone backslash before the quote cannot happen: `\'` is an escape.
                        self.i += 1;
                        None
                    }
                }
            }
            c => {
                self.i += c.len_utf8();
                Some(c)
            }
        };
        self.lit("'")?;
        if v.is_none() {
            self.mistakes.push((start, "char"));
        }
        Some(v.unwrap_or('\0'))
    }
}
trait FlattenOr {
    fn flatten_or(self, m: &mut Vec<(usize, &'static str)>) -> Option<i128>;
}
impl FlattenOr for Option<(usize, Option<i128>)> {
    fn flatten_or(self, m: &mut Vec<(usize, &'static str)>) -> Option<i128> {
        let (at, v) = self?;
        if v.is_none() {
            m.push((at, "overflow"));
        }
        v
    }
}
