//! AST of the pest3 grammar language (same shape as the documented one).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tr {
    None,
    Opt,
    Man,
}
impl Tr {
    pub fn sym(self) -> &'static str {
        match self {
            Tr::None => "-",
            Tr::Opt => "~",
            Tr::Man => "^",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Args {
    None,
    Call(Vec<E>),
    Slice(Option<i64>, Option<i64>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Str(String),
    Ins(String),
    Range(char, char),
    Path(Vec<String>, Args),
    Pos(Box<E>),
    Neg(Box<E>),
    Seq(Box<E>, Box<E>, Tr),
    Choice(Box<E>, Box<E>),
    Opt(Box<E>),
    Rep(Box<E>),
    RepOnce(Box<E>),
    RepRange(Box<E>, Option<u64>, Option<u64>),
    Sep(Box<E>, Tr),
}
impl E {
    pub fn path(p: &str) -> E {
        E::Path(p.split("::").map(|s| s.to_string()).collect(), Args::None)
    }
    pub fn call(p: &str, args: Vec<E>) -> E {
        E::Path(p.split("::").map(|s| s.to_string()).collect(), Args::Call(args))
    }
    pub fn str(s: &str) -> E {
        E::Str(s.into())
    }
    /// `a - (b - (c ...))` with the given trivia.
    pub fn seq(mut v: Vec<(Tr, E)>) -> E {
        let (mut t, mut e) = v.pop().expect("nonempty");
        while let Some((t2, l)) = v.pop() {
            e = E::Seq(Box::new(l), Box::new(e), t);
            t = t2;
        }
        let _ = t;
        e
    }
    pub fn choice(mut v: Vec<E>) -> E {
        let mut e = v.pop().expect("nonempty");
        while let Some(l) = v.pop() {
            e = E::Choice(Box::new(l), Box::new(e));
        }
        e
    }
    pub fn children(&self) -> Vec<&E> {
        match self {
            E::Str(_) | E::Ins(_) | E::Range(..) => vec![],
            E::Path(_, Args::Call(a)) => a.iter().collect(),
            E::Path(..) => vec![],
            E::Pos(a) | E::Neg(a) | E::Opt(a) | E::Rep(a) | E::RepOnce(a) | E::RepRange(a, ..) | E::Sep(a, _) => vec![a],
            E::Seq(a, b, _) | E::Choice(a, b) => vec![a, b],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn map_children(&self, f: &mut dyn FnMut(&E) -> E) -> E {
        let mut b = |e: &E| Box::new(f(e));
        match self {
            E::Str(_) | E::Ins(_) | E::Range(..) => self.clone(),
            E::Path(p, Args::Call(a)) => E::Path(p.clone(), Args::Call(a.iter().map(|x| *b(x)).collect())),
            E::Path(..) => self.clone(),
            E::Pos(a) => E::Pos(b(a)),
            E::Neg(a) => E::Neg(b(a)),
            E::Opt(a) => E::Opt(b(a)),
            E::Rep(a) => E::Rep(b(a)),
            E::RepOnce(a) => E::RepOnce(b(a)),
            E::RepRange(a, x, y) => E::RepRange(b(a), *x, *y),
            E::Sep(a, t) => E::Sep(b(a), *t),
            E::Seq(x, y, t) => {
                let x = b(x);
                E::Seq(x, b(y), *t)
            }
            E::Choice(x, y) => {
                let x = b(x);
                E::Choice(x, b(y))
            }
        }
    }
    /// Operator names used, for coverage.
    pub fn ops(&self, out: &mut std::collections::BTreeMap<&'static str, u64>) {
        let k = match self {
            E::Str(_) => "str",
            E::Ins(_) => "insens",
            E::Range(..) => "range",
            E::Path(_, Args::None) => "path",
            E::Path(_, Args::Call(_)) => "call",
            E::Path(_, Args::Slice(..)) => "slice",
            E::Pos(_) => "pos",
            E::Neg(_) => "neg",
            E::Seq(_, _, Tr::None) => "seq-",
            E::Seq(_, _, Tr::Opt) => "seq~",
            E::Seq(_, _, Tr::Man) => "seq^",
            E::Choice(..) => "choice",
            E::Opt(_) => "opt",
            E::Rep(_) => "rep",
            E::RepOnce(_) => "rep1",
            E::RepRange(..) => "repn",
            E::Sep(_, Tr::Man) => "sep^",
            E::Sep(..) => "sep~",
        };
        *out.entry(k).or_default() += 1;
        for c in self.children() {
            c.ops(out);
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rule {
    pub name: String,
    pub args: Vec<String>,
    pub silent: bool,
    pub expr: E,
    pub doc: Vec<String>,
}
impl Rule {
    pub fn new(name: &str, expr: E) -> Rule {
        Rule { name: name.into(), args: vec![], silent: false, expr, doc: vec![] }
    }
    pub fn is_trivia(&self) -> bool {
        self.name == "~" || self.name == "^"
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ImportKind {
    /// `use pest::a::b`
    Builtin(Vec<String>),
    /// Index into `Grammar::modules`.
    File(usize),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Import {
    pub alias: String,
    pub kind: ImportKind,
    /// Text of the `use` statement (without newline).
    pub text: String,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Module {
    /// File name relative to the grammar directory, e.g. `main.pest`.
    pub file: String,
    pub imports: Vec<Import>,
    pub rules: Vec<Rule>,
    pub doc: Vec<String>,
}
impl Module {
    pub fn rule(&self, name: &str) -> Option<(usize, &Rule)> {
        self.rules.iter().enumerate().find(|(_, r)| r.name == name)
    }
}
/// A grammar: `modules[0]` is the root.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Grammar {
    pub modules: Vec<Module>,
}
