//! Expected results of getters, derived from the rule's structure and the reference tree.
use crate::interp::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum G {
    Leaf,
    Content(Box<G>),
    Field(usize, Box<G>),
    Alt(usize, Box<G>),
    Opt(Box<G>),
    Many(Box<G>),
    Tuple(Vec<G>),
}
impl G {
    fn optional(&self) -> bool {
        match self {
            G::Content(g) | G::Field(_, g) => g.optional(),
            G::Alt(..) | G::Opt(_) => true,
            G::Leaf | G::Many(_) | G::Tuple(_) => false,
        }
    }
    fn max_tuple(&self) -> usize {
        match self {
            G::Leaf => 0,
            G::Content(g) | G::Field(_, g) | G::Alt(_, g) | G::Opt(g) | G::Many(g) => g.max_tuple(),
            G::Tuple(v) => v.len().max(v.iter().map(|g| g.max_tuple()).max().unwrap_or(0)),
        }
    }
    /// Text of the value this getter returns on `w`.
    pub fn show(&self, w: &W, p: &Prog) -> String {
        let some = |g: &G, w: &W| if g.optional() { g.show(w, p) } else { format!("?({})", g.show(w, p)) };
        match (self, w) {
            (G::Leaf, w) => w.show(p),
            (G::Content(g), W::Pos(x)) => g.show(x, p),
            (G::Field(i, g), W::Seq(v)) => g.show(&v[*i], p),
            (G::Alt(i, g), W::Choice(k, _, x)) => {
                if i == k {
                    some(g, x)
                } else {
                    "?-".into()
                }
            }
            (G::Opt(g), W::Opt(x)) => match x {
                Some(x) => some(g, x),
                None => "?-".into(),
            },
            (G::Many(g), W::Rep(v)) => format!("[{}]", v.iter().map(|x| g.show(x, p)).collect::<Vec<_>>().join("; ")),
            (G::Tuple(v), w) => format!("({})", v.iter().map(|x| x.show(w, p)).collect::<Vec<_>>().join("; ")),
            (g, w) => panic!("getter {g:?} on {w:?}"),
        }
    }
}
type Map = BTreeMap<String, G>;
fn wrap(m: Map, f: impl Fn(Box<G>) -> G) -> Map {
    m.into_iter().map(|(k, g)| (k, f(Box::new(g)))).collect()
}
fn join(a: &mut Map, b: Map) {
    for (k, g) in b {
        match a.remove(&k) {
            None => {
                a.insert(k, g);
            }
            Some(G::Tuple(mut v)) => {
                v.push(g);
                a.insert(k, G::Tuple(v));
            }
            Some(o) => {
                a.insert(k, G::Tuple(vec![o, g]));
            }
        }
    }
}
fn one(k: &str) -> Map {
    Map::from([(k.to_string(), G::Leaf)])
}
fn go(n: &N, p: &Prog, params: &[String]) -> Map {
    match n {
        N::Bi(name, _) => one(name),
        N::Call(r, _) => one(&p.rules[*r].local),
        N::Arg(i) => one(&params[*i]),
        N::Pos(x) => wrap(go(x, p, params), G::Content),
        N::Neg(_) => Map::new(),
        N::Seq(v) => {
            let mut m = Map::new();
            for (i, (_, x)) in v.iter().enumerate() {
                join(&mut m, wrap(go(x, p, params), |g| G::Field(i, g)));
            }
            m
        }
        N::Choice(v) => {
            let mut m = Map::new();
            for (i, x) in v.iter().enumerate() {
                join(&mut m, wrap(go(x, p, params), |g| G::Alt(i, g)));
            }
            m
        }
        N::Opt(x) => wrap(go(x, p, params), G::Opt),
        N::Rep(x, ..) => wrap(go(x, p, params), G::Many),
        _ => Map::new(),
    }
}
/// Getters of a rule.
pub fn getters(p: &Prog, rule: usize) -> BTreeMap<String, G> {
    let r = &p.rules[rule];
    if r.silent && r.argc > 0 {
        return Map::new();
    }
    let mut m = go(&r.body, p, &r.params);
    m.retain(|_, g| g.max_tuple() <= 12);
    m
}
