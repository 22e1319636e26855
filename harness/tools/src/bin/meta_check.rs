//! Monitors for the grammar language: pest3_meta::parser::parse against the reference parser, the
//! renderer and the module graph on disk.
//! argv: facets out of tree, lit, total, span, import, growth; or `huge NAME` (a child process).
use model::ast::{Args, Tr, E};
use model::rng::Rng;
use model::syntax::{self, S};
use model::{ggen, render};
use pest3_meta::parser::{parse, GrammarModule, Import, ParseExpr, ParseNode, PathArgs, Trivia};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tools::Ctx;

const ROOT: &str = "/nonexistent-verif/x.pest";

fn tr(t: &Trivia) -> &'static str {
    match t {
        Trivia::None => "-",
        Trivia::Optional => "~",
        Trivia::Mandatory => "^",
    }
}
fn dump(n: &ParseNode, o: &mut String) {
    let kids: Vec<&ParseNode> = match &n.expr {
        ParseExpr::Str(s) => {
            write!(o, "Str{s:?}").unwrap();
            vec![]
        }
        ParseExpr::Insens(s) => {
            write!(o, "Ins{s:?}").unwrap();
            vec![]
        }
        ParseExpr::Range(a, b) => {
            write!(o, "Range{a:?}{b:?}").unwrap();
            vec![]
        }
        ParseExpr::Path(p, None) => {
            write!(o, "Path{p:?}").unwrap();
            vec![]
        }
        ParseExpr::Path(p, Some(PathArgs::Call(a))) => {
            write!(o, "Call{p:?}").unwrap();
            a.iter().collect()
        }
        ParseExpr::Path(p, Some(PathArgs::Slice(r))) => {
            write!(o, "Slice{p:?}{:?}..{:?}", r.start, r.end).unwrap();
            vec![]
        }
        ParseExpr::PosPred(x) => {
            o.push_str("Pos");
            vec![x]
        }
        ParseExpr::NegPred(x) => {
            o.push_str("Neg");
            vec![x]
        }
        ParseExpr::Seq(a, b, t) => {
            write!(o, "Seq{}", tr(t)).unwrap();
            vec![a, b]
        }
        ParseExpr::Choice(a, b) => {
            o.push_str("Choice");
            vec![a, b]
        }
        ParseExpr::Opt(x) => {
            o.push_str("Opt");
            vec![x]
        }
        ParseExpr::Rep(x) => {
            o.push_str("Rep");
            vec![x]
        }
        ParseExpr::RepOnce(x) => {
            o.push_str("Rep1");
            vec![x]
        }
        ParseExpr::RepRange(x, r) => {
            write!(o, "RepN{:?}..{:?}", r.start, r.end).unwrap();
            vec![x]
        }
        ParseExpr::Separated(x, t) => {
            write!(o, "Sep{}", tr(t)).unwrap();
            vec![x]
        }
    };
    if !kids.is_empty() {
        o.push('(');
        for (i, k) in kids.into_iter().enumerate() {
            if i > 0 {
                o.push(' ');
            }
            dump(k, o);
        }
        o.push(')');
    }
}
fn spans(n: &ParseNode, o: &mut Vec<(usize, usize)>) {
    o.push((n.span.start, n.span.end));
    match &n.expr {
        ParseExpr::Path(_, Some(PathArgs::Call(a))) => a.iter().for_each(|x| spans(x, o)),
        ParseExpr::PosPred(x) | ParseExpr::NegPred(x) | ParseExpr::Opt(x) | ParseExpr::Rep(x) | ParseExpr::RepOnce(x) | ParseExpr::RepRange(x, _) | ParseExpr::Separated(x, _) => spans(x, o),
        ParseExpr::Seq(a, b, _) | ParseExpr::Choice(a, b) => {
            spans(a, o);
            spans(b, o);
        }
        _ => {}
    }
}
fn node_paths<'a>(n: &'a ParseNode, o: &mut Vec<&'a Path>) {
    o.push(&n.span.path);
}
/// Everything the meta parser says about the rules of a module.
fn dump_module(m: &GrammarModule) -> String {
    let mut o = String::new();
    for r in &m.rules {
        write!(o, "{}{:?}{}=", r.name, r.args, if r.silent { "_" } else { "" }).unwrap();
        dump(&r.node, &mut o);
        o.push('\n');
    }
    o
}
fn dump_ref(m: &syntax::SModule) -> String {
    let mut o = String::new();
    for r in &m.rules {
        write!(o, "{}{:?}{}=", r.name, r.args, if r.silent { "_" } else { "" }).unwrap();
        r.node.dump(&mut o);
        o.push('\n');
    }
    o
}

// ---- random expressions of the language (no meaning needed)
const NAMES: &[&str] = &["a", "b", "r", "i", "as", "use", "in", "x1", "__", "_a", "A_b9", "inner", "assign", "user", "super", "pest", "Zz", "fn", "self_", "raw", "u", "x"];
const CHARS: &[char] = &['a', 'b', 'Z', '0', '9', ' ', '\t', '\n', '\r', '\0', '"', '\'', '\\', '#', '/', '*', '{', '}', '|', '~', '^', '\u{7f}', '\u{80}', 'é', 'ß', '中', '\u{2028}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '𝒳', '\u{10ffff}', '\u{1}', '\u{1b}', 'n', 'r', 't', 'x', 'u'];

fn ch(r: &mut Rng) -> char {
    if r.pct(85) {
        *r.pick(CHARS)
    } else {
        loop {
            if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) {
                return c;
            }
        }
    }
}
fn text(r: &mut Rng) -> String {
    let n = r.weighted(&[2, 8, 6, 4, 2, 1, 1]);
    (0..n).map(|_| ch(r)).collect()
}
fn path(r: &mut Rng) -> Vec<String> {
    let n = r.weighted(&[0, 8, 3, 1]);
    (0..n).map(|_| r.pick(NAMES).to_string()).collect()
}
fn int(r: &mut Rng) -> Option<i64> {
    match r.below(8) {
        0 | 1 => None,
        2 => Some(i64::MAX),
        3 => Some(i64::MIN),
        4 => Some(0),
        5 => Some(r.next() as i64),
        _ => Some(r.below(9) as i64 - 4),
    }
}
fn bounds(r: &mut Rng) -> (Option<u64>, Option<u64>) {
    let n = |r: &mut Rng| match r.below(6) {
        0 => u64::MAX,
        1 => r.next(),
        2 => 10 * r.below(30) as u64 + 1,
        _ => r.below(5) as u64,
    };
    let (a, b) = (n(r), n(r));
    let (a, b) = (a.min(b), a.max(b).max(1));
    match r.below(5) {
        0 => (Some(a), None),
        1 => (None, Some(b)),
        2 => (None, None),
        3 => (Some(b), Some(b)),
        _ => (Some(a), Some(b)),
    }
}
fn expr(r: &mut Rng, d: usize) -> E {
    let leaf = d == 0 || r.pct(12);
    if leaf {
        return match r.weighted(&[30, 8, 12, 30, 8]) {
            0 => E::Str(text(r)),
            1 => E::Ins(text(r)),
            2 => E::Range(ch(r), ch(r)),
            3 => E::Path(path(r), if r.pct(10) { Args::Call(vec![]) } else { Args::None }),
            _ => E::Path(path(r), Args::Slice(int(r), int(r))),
        };
    }
    let tr = |r: &mut Rng| *r.pick(&[Tr::None, Tr::Opt, Tr::Man]);
    let sep = |r: &mut Rng, e: E| if r.pct(40) { E::Sep(Box::new(e), *r.pick(&[Tr::Opt, Tr::Man])) } else { e };
    match r.weighted(&[8, 8, 34, 26, 7, 7, 5, 7, 5]) {
        0 => E::Pos(Box::new(expr(r, d - 1))),
        1 => E::Neg(Box::new(expr(r, d - 1))),
        2 => {
            if r.pct(60) {
                let n = r.range(2, 5);
                E::seq((0..n).map(|_| (tr(r), expr(r, d - 1))).collect())
            } else {
                E::Seq(Box::new(expr(r, d - 1)), Box::new(expr(r, d - 1)), tr(r))
            }
        }
        3 => {
            if r.pct(60) {
                let n = r.range(2, 5);
                E::choice((0..n).map(|_| expr(r, d - 1)).collect())
            } else {
                E::Choice(Box::new(expr(r, d - 1)), Box::new(expr(r, d - 1)))
            }
        }
        4 => {
            let e = expr(r, d - 1);
            E::Opt(Box::new(sep(r, e)))
        }
        5 => {
            let e = expr(r, d - 1);
            E::Rep(Box::new(sep(r, e)))
        }
        6 => {
            let e = expr(r, d - 1);
            E::RepOnce(Box::new(sep(r, e)))
        }
        7 => {
            let (a, b) = bounds(r);
            let e = expr(r, d - 1);
            E::RepRange(Box::new(sep(r, e)), a, b)
        }
        _ => {
            let n = r.range(1, 3);
            let p = path(r);
            E::Path(p, Args::Call((0..n).map(|_| expr(r, d - 1)).collect()))
        }
    }
}
fn module(r: &mut Rng) -> model::ast::Module {
    let mut m = model::ast::Module { file: "x.pest".into(), ..Default::default() };
    for _ in 0..r.weighted(&[6, 2, 1]) {
        m.doc.push(doc(r));
    }
    for _ in 0..r.weighted(&[6, 2, 1]) {
        let mut p = vec!["pest".to_string()];
        p.extend(path(r));
        let alias = r.pct(50).then(|| r.pick(NAMES).to_string());
        let mut t = format!("use {}", p.join("::"));
        if let Some(a) = &alias {
            write!(t, " as {a}").unwrap();
        }
        m.imports.push(model::ast::Import { alias: alias.unwrap_or_else(|| p.last().unwrap().clone()), kind: model::ast::ImportKind::Builtin(p), text: t });
    }
    for _ in 0..r.range(1, 3) {
        let name = if r.pct(12) { ["~", "^"][r.below(2)].to_string() } else { r.pick(NAMES).to_string() };
        let d = r.range(0, 5);
        let mut rule = model::ast::Rule::new(&name, expr(r, d));
        for _ in 0..r.weighted(&[6, 2, 1]) {
            rule.doc.push(doc(r));
        }
        // (`a = b` and then `~(x) = ..` would continue the sequence.)
        for _ in 0..if rule.is_trivia() { 0 } else { r.weighted(&[6, 2, 1, 1]) } {
            rule.args.push(r.pick(NAMES).to_string());
        }
        rule.silent = r.pct(25);
        m.rules.push(rule);
    }
    m
}
/// A grammar that is large in one way.
fn huge(r: &mut Rng) -> model::ast::Module {
    let n = *r.pick(&[100usize, 127, 128, 129, 200, 255, 256, 257, 300, 700]);
    let long = *r.pick(&[1000usize, 4095, 4096, 4097, 30_000, 65_534, 65_535, 65_536, 70_000]);
    let mut m = module(r);
    let at = r.below(m.rules.len() + 1);
    let name = |r: &mut Rng, k: usize| format!("{}{k}", r.pick(NAMES));
    let word = |r: &mut Rng, n: usize| -> String {
        let c = *r.pick(&['a', '_', 'Z']);
        std::iter::once(c).chain((1..n).map(|_| *r.pick(&['b', '0', '_', 'R']))).collect()
    };
    let mut rule = model::ast::Rule::new("huge", E::path("a"));
    match r.below(12) {
        0 => {
            for k in 0..n * 3 {
                let (a, e) = (name(r, k), expr(r, 1));
                let mut x = model::ast::Rule::new(&a, e);
                x.silent = r.pct(20);
                if r.pct(10) {
                    x.doc.push(doc(r));
                }
                m.rules.push(x);
            }
        }
        1 => rule.expr = E::seq((0..n).map(|_| (*r.pick(&[Tr::None, Tr::Opt, Tr::Man]), expr(r, 0))).collect()),
        2 => rule.expr = E::choice((0..n).map(|_| expr(r, 0)).collect()),
        3 => {
            let mut v: Vec<E> = (0..n).map(|_| expr(r, 0)).collect();
            let mut e = v.pop().unwrap();
            for x in v {
                e = if r.pct(50) { E::Seq(Box::new(x), Box::new(e), Tr::Opt) } else { E::Choice(Box::new(x), Box::new(e)) };
            }
            rule.expr = e;
        }
        4 => {
            let t: String = (0..long).map(|_| ch(r)).collect();
            rule.expr = if r.pct(70) { E::Str(t) } else { E::Ins(t) };
        }
        5 => {
            rule.args = (0..n).map(|k| name(r, k)).collect();
            rule.expr = E::Path(path(r), Args::Call((0..n).map(|_| expr(r, 1)).collect()));
        }
        6 => {
            rule.name = word(r, long);
            rule.args = vec![word(r, long)];
            rule.expr = E::Path(vec![word(r, long), word(r, 3)], Args::None);
        }
        7 => rule.expr = E::Path((0..n).map(|_| r.pick(NAMES).to_string()).collect(), Args::None),
        8 => {
            rule.doc = (0..n).map(|_| doc(r)).collect();
            m.doc = (0..n).map(|_| doc(r)).collect();
        }
        9 => {
            let d: String = doc(r).repeat(long / 6).trim().to_string();
            rule.doc = vec![d.clone()];
            m.doc = vec![d];
        }
        10 => {
            for k in 0..n {
                let p = vec!["pest".to_string(), name(r, k)];
                let text = format!("use {}", p.join("::"));
                m.imports.push(model::ast::Import { alias: p[1].clone(), kind: model::ast::ImportKind::Builtin(p), text });
            }
        }
        _ => {
            let mut e = expr(r, 0);
            for _ in 0..r.range(61, 150) {
                e = if r.pct(50) { E::Pos(Box::new(e)) } else { E::Neg(Box::new(e)) };
            }
            rule.expr = e;
        }
    }
    m.rules.insert(at, rule);
    m
}
fn doc(r: &mut Rng) -> String {
    let n = r.below(12);
    (0..n)
        .map(|_| loop {
            let c = ch(r);
            if c != '\n' && c != '\r' {
                return c;
            }
        })
        .collect()
}

fn tree(c: &mut Ctx) {
    for i in c.mine(40_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "tree", i);
        let m = if r.below(700) == 0 {
            c.rep.count("large_grammars", 1);
            huge(&mut r)
        } else {
            module(&mut r)
        };
        let mut st = match i % 3 {
            0 => render::Style::plain(),
            _ => render::Style::noisy(c.seed ^ i),
        };
        let src = st.module(&m);
        c.rep.count("grammars_parsed", 1);
        let got = c.call(|| src.clone(), || parse(&src, &ROOT));
        let mut want = String::new();
        for r in &m.rules {
            write!(want, "{}{:?}{}=", r.name, r.args, if r.silent { "_" } else { "" }).unwrap();
            S::from_e(&r.expr).dump(&mut want);
            want.push('\n');
            c.rep.count("rules_compared", 1);
            let s = r.expr.size();
            c.rep.max("tree_size", s as u64);
            if s >= 4 {
                c.nontrivial(&render::plain(&r.expr));
            }
            let mut ops = Default::default();
            r.expr.ops(&mut ops);
            for (k, n) in ops {
                c.rep.count(&format!("op:{k}"), n);
            }
        }
        // The reference parser is itself checked here.
        match syntax::parse(&src) {
            Ok(p) if p.mistakes.is_empty() && dump_ref(&p) == want => {}
            p => panic!("reference parser disagrees with the renderer on {src:?}: {p:?}\nwanted {want}"),
        }
        match got {
            Ok(Ok(g)) => {
                let d = dump_module(&g);
                if d != want {
                    c.rep.violation("tree", "a grammar is read as another expression tree than its text denotes", &[("grammar", &src), ("expected", &want), ("read", &d)]);
                }
            }
            Ok(Err(e)) => c.rep.violation("tree-reject", "a valid grammar is rejected", &[("grammar", &src), ("error", &e.to_string())]),
            Err(p) => c.rep.violation("panic", "the grammar parser panicked", &[("grammar", &src), ("panic", &p)]),
        }
        if i < 16 {
            c.rep.sample(src);
        }
    }
}

/// Parse `rules` (spelling, expected dump or None for "must be rejected"), valid ones batched.
fn lits(c: &mut Ctx, what: &str, items: Vec<(String, Option<String>)>) {
    let (good, bad): (Vec<_>, Vec<_>) = items.into_iter().partition(|x| x.1.is_some());
    for batch in good.chunks(400) {
        let src: String = batch.iter().map(|(s, _)| format!("a = {s}\n")).collect();
        c.rep.count("literals_decoded", batch.len() as u64);
        c.rep.count(&format!("lit:{what}"), batch.len() as u64);
        let got = c.call(|| src.clone(), || parse(&src, &ROOT));
        let one = |c: &mut Ctx, s: &str, want: &str| {
            let src = format!("a = {s}\n");
            let got = match c.call(|| src.clone(), || parse(&src, &ROOT)) {
                Ok(Ok(m)) if m.rules.len() == 1 => {
                    let mut d = String::new();
                    dump(&m.rules[0].node, &mut d);
                    d
                }
                Ok(Ok(m)) => format!("{} rules", m.rules.len()),
                Ok(Err(e)) => format!("error: {e}"),
                Err(p) => format!("panic: {p}"),
            };
            if got != want {
                c.rep.violation("literal", "a literal does not denote what it spells", &[("literal", s), ("expected", want), ("got", &got)]);
                return true;
            }
            false
        };
        match got {
            Ok(Ok(m)) if m.rules.len() == batch.len() => {
                for (r, (s, want)) in m.rules.iter().zip(batch) {
                    let mut d = String::new();
                    dump(&r.node, &mut d);
                    if &d != want.as_ref().unwrap() {
                        one(c, s, want.as_ref().unwrap());
                    }
                }
            }
            _ => {
                let mut found = false;
                for (s, want) in batch {
                    found |= one(c, s, want.as_ref().unwrap());
                }
                if !found {
                    c.rep.violation("literal-batch", "literals that are read one by one are not read in one grammar", &[("grammar", &src)]);
                }
            }
        }
    }
    for (s, _) in bad {
        let src = format!("a = {s}\n");
        c.rep.count("bad_literals", 1);
        c.rep.count(&format!("bad:{what}"), 1);
        match c.call(|| src.clone(), || parse(&src, &ROOT)) {
            Ok(Err(_)) => {}
            Ok(Ok(m)) => {
                let d = dump_module(&m);
                c.rep.violation("literal-accept", "a malformed literal is accepted", &[("literal", &s), ("read", &d)])
            }
            Err(p) => c.rep.violation("panic", "the grammar parser panicked", &[("literal", &s), ("panic", &p)]),
        }
    }
}
fn lit(c: &mut Ctx) {
    let str_ = |s: &str| Some(format!("Str{s:?}"));
    let ins = |s: &str| Some(format!("Ins{s:?}"));
    let rng = |a: char, b: char| Some(format!("Range{a:?}{b:?}"));
    // Every \xHH in three literal forms and both cases.
    if c.shard == 0 {
        let mut v = vec![];
        for n in 0..256u32 {
            for t in [format!("\\x{n:02x}"), format!("\\x{n:02X}")] {
                let ok = char::from_u32(n).filter(|c| (*c as u32) < 0x80);
                v.push((format!("\"p{t}q\""), ok.and_then(|k| str_(&format!("p{k}q")))));
                v.push((format!("i\"{t}\""), ok.and_then(|k| ins(&k.to_string()))));
                v.push((format!("'{t}'..'z'"), ok.and_then(|k| rng(k, 'z'))));
                v.push((format!("'\\0' .. '{t}'"), ok.and_then(|k| rng('\0', k))));
            }
        }
        lits(c, "hex", v);
        // Every character after a backslash.
        let mut v = vec![];
        for n in 0..0x180u32 {
            let Some(k) = char::from_u32(n) else { continue };
            let ok = match k {
                '"' | '\\' | '\'' => Some(k),
                'r' => Some('\r'),
                'n' => Some('\n'),
                't' => Some('\t'),
                '0' => Some('\0'),
                _ => None,
            };
            v.push((format!("\"\\{k}\" - \"!\""), ok.map(|k| format!("Seq-(Str{:?} Str\"!\")", k.to_string()))));
            v.push((format!("'\\{k}'..'\\{k}'"), ok.and_then(|k| rng(k, k))));
        }
        lits(c, "escape", v);
        // Malformed unicode escapes.
        let mut v = vec![];
        for t in ["\\u{}", "\\u{1234567}", "\\u{0000041}", "\\u{g}", "\\u41", "\\u{41", "\\u41}", "\\u{ 41}", "\\u{+41}", "\\u{-1}", "\\u(41)", "\\x4", "\\x", "\\xg0", "\\x 4", "\\x+4", "\\U{41}", "\\u{4 1}", "\\u {41}", "\\"] {
            v.push((format!("\"{t}\""), None));
            v.push((format!("i\"{t}\""), None));
            v.push((format!("'{t}'..'z'"), if t == "\\" { None } else { None }));
        }
        for t in ["''..'a'", "'ab'..'c'", "'a'..''", "'a'..", "..'a'", "'a'...'b'", "'a'.'b'", "'a'", "\"a", "r\"a", "r#\"a\"", "r#a#", "i 'a'", "i\"a", "\"a\"\"b\"", "r##\"a\"#", "'\\'..'a'", "ir\"a\"", "ri\"a\""] {
            v.push((t.to_string(), None));
        }
        lits(c, "malformed", v);
    }
    // Every code point: as itself and escaped, in strings, case-insensitive strings and ranges.
    let step = 0x110000 / 64;
    for part in c.mine(64) {
        let mut v = vec![];
        for n in (part * step) as u32..((part + 1) * step) as u32 {
            let k = char::from_u32(n);
            if let Some(k) = k {
                let next = char::from_u32(n + 1).unwrap_or('a');
                if !matches!(k, '\\') && (n % 4 == 3 || n < 0x3000) {
                    v.push((format!("'{k}'..'\\u{{{:x}}}'", next as u32), rng(k, next)));
                }
                if n % 16 == 0 || n < 0x3000 {
                    if k != '"' && k != '\\' {
                        v.push((format!("\"{k}\""), str_(&k.to_string())));
                        v.push((format!("r\"{k}\""), str_(&k.to_string())));
                        v.push((format!("i\"{k}\""), ins(&k.to_string())));
                    }
                    v.push((format!("r#\"{k}\"#"), str_(&k.to_string())));
                    v.push((format!("\"\\u{{{n:06X}}}\""), str_(&k.to_string())));
                }
            } else {
                v.push((format!("\"\\u{{{n:x}}}\""), None));
                if n % 16 == 0 {
                    v.push((format!("'\\u{{{n:x}}}'..'z'"), None));
                    v.push((format!("i\"a\\u{{{n:X}}}\""), None));
                }
            }
        }
        lits(c, "codepoint", v);
    }
    // Beyond Unicode.
    let v = c.mine(3000).map(|i| (format!("\"\\u{{{:x}}}\"", 0x110000 + Rng::derive(c.seed, "beyond", i).below(0xffffff - 0x110000)), None)).chain([("\"\\u{110000}\"".to_string(), None), ("\"\\u{ffffff}\"".to_string(), None)]).collect();
    lits(c, "beyond", v);
    // Random strings in random spellings.
    let mut v = vec![];
    for i in c.mine(60_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "lit", i);
        let n = r.below(9);
        let t: String = (0..n).map(|_| ch(&mut r)).collect();
        let mut st = render::Style::noisy(r.next());
        st.esc = r.below(90);
        st.raw = 30;
        st.parens = 0;
        let e = match r.below(4) {
            0 | 1 => E::Str(t),
            2 => E::Ins(t),
            _ => E::Range(ch(&mut r), ch(&mut r)),
        };
        let mut s = String::new();
        st.expr(&e, 0, &mut s);
        let mut d = String::new();
        S::from_e(&e).dump(&mut d);
        c.nontrivial(&s);
        if i < 16 {
            c.rep.sample(format!("{s} => {d}"));
        }
        v.push((s, Some(d)));
    }
    lits(c, "spelling", v);
    // Long ones.
    for i in c.mine(200) {
        let mut r = Rng::derive(c.seed, "long-lit", i);
        let n = *r.pick(&[60usize, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 700, 1000]);
        let p = "#".repeat(n);
        let fewer = "#".repeat(n - 1);
        let t: String = (0..r.below(6)).map(|_| ch(&mut r)).collect();
        let inner = format!("{t}\"{fewer}{}", if r.pct(50) { "\"" } else { "x" });
        let mut v = vec![
            (format!("r{p}\"{inner}\"{p}"), str_(&inner)),
            (format!("r{p}\"\"{p}"), str_("")),
            (format!("r{p}\"a\"{fewer}"), None),
        ];
        let m = *r.pick(&[300usize, 4095, 4096, 4097, 65_534, 65_535, 65_536, 70_000]);
        let t: String = (0..m).map(|_| ch(&mut r)).collect();
        let mut st = render::Style::noisy(r.next());
        st.esc = r.below(60);
        st.parens = 0;
        let e = if r.pct(60) { E::Str(t) } else { E::Ins(t) };
        let (mut s, mut d) = (String::new(), String::new());
        st.expr(&e, 0, &mut s);
        S::from_e(&e).dump(&mut d);
        v.push((s, Some(d)));
        lits(c, "long", v);
    }
}

// ---- arbitrary texts
const TOKENS: &[&str] = &[
    "a", "b", "rule", "=", "=", "_", "{", "}", "(", ")", "[", "]", "\"x\"", "\"\"", "i\"y\"", "r\"z\"", "r#\"q\"#", "'a'..'z'", "'a'", "..", "|", "|", "-", "~", "^", "&", "!", "?", "*", "+", "{2}", "{1..3}", "{..}", "{0}", "{3..1}", "{..0}", "{18446744073709551616}", "{18446744073709551615}", ",", "::", "use ", "use", " as ", " in ", "\n", " ", "\t", "\r\n", "\r", "// c\n", "//c", "/* c */", "/*", "*/", "/// doc\n", "///", "//! g\n", "//!", "0", "7", "-1", "+2", "[..]", "[1..-1]", "[9223372036854775808..]", "[-9223372036854775808..]", "\\", "\"", "'", "#", "r#", "\"\\u{110000}\"", "\"\\xff\"", "'\\u{d800}'..'a'", "é", "\0", "pest::any", "pest", "super", "~|", "^|", "(a, b)", "()", "a(b|c)", "x = y", "~ = \" \"", "^ = \"\\t\"",
];
fn tokens(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut i = 0;
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let at = |k: usize| b.get(k).map_or(s.len(), |x| x.0);
    while i < b.len() {
        let st = i;
        let c = b[i].1;
        if c.is_ascii_alphanumeric() || c == '_' {
            while i < b.len() && (b[i].1.is_ascii_alphanumeric() || b[i].1 == '_') {
                i += 1;
            }
        } else if c == ' ' {
            while i < b.len() && b[i].1 == ' ' {
                i += 1;
            }
        } else {
            i += 1;
        }
        v.push(&s[at(st)..at(i)]);
    }
    v
}
fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let mut t: Vec<String> = tokens(s).into_iter().map(|x| x.to_string()).collect();
    let o: Vec<&str> = tokens(other);
    for _ in 0..r.weighted(&[0, 10, 5, 2, 1]) {
        let k = r.below(t.len().max(1));
        if t.is_empty() {
            t.push(r.pick(TOKENS).to_string());
            continue;
        }
        match r.below(10) {
            0 | 1 => {
                t.remove(k);
            }
            2 => {
                let x = t[k].clone();
                t.insert(k, x);
            }
            3 => {
                let j = r.below(t.len());
                t.swap(k, j);
            }
            4 | 5 => t[k] = r.pick(TOKENS).to_string(),
            6 => t.insert(k, r.pick(TOKENS).to_string()),
            7 => t.truncate(k),
            8 => {
                if !o.is_empty() {
                    let a = r.below(o.len());
                    let n = r.range(1, 6).min(o.len() - a);
                    for (j, x) in o[a..a + n].iter().enumerate() {
                        t.insert(k + j, x.to_string());
                    }
                }
            }
            _ => {
                let mut cs: Vec<char> = t[k].chars().collect();
                let j = r.below(cs.len().max(1));
                match r.below(3) {
                    0 => cs.insert(j, ch(r)),
                    1 if !cs.is_empty() => {
                        cs.remove(j);
                    }
                    _ if !cs.is_empty() => cs[j] = ch(r),
                    _ => {}
                }
                t[k] = cs.into_iter().collect();
            }
        }
    }
    t.concat()
}
fn line_col(s: &str, at: usize) -> (usize, usize) {
    let before = &s[..at];
    let line = before.matches('\n').count() + 1;
    let col = before[before.rfind('\n').map_or(0, |x| x + 1)..].chars().count() + 1;
    (line, col)
}
/// What an error says is expected could stand there: with it, the text before goes on further.
fn expected<R: pest2::RuleType>(c: &mut Ctx, src: &str, e: &pest2::error::Error<R>, rename: impl Fn(&R) -> String, message: &str, renamed: &str) {
    use pest2::error::{ErrorVariant, InputLocation};
    let (ErrorVariant::ParsingError { positives, .. }, InputLocation::Pos(at)) = (&e.variant, &e.location) else { return };
    if src.len() > 4000 || *at > src.len() {
        return;
    }
    for rule in positives {
        let name = rename(rule);
        let debug = format!("{rule:?}");
        let token = match debug.as_str() {
            "EOI" => "",
            "insensitive_string" => "i\"x\"",
            "string" => "\"x\"",
            "raw_string" => "r\"x\"",
            "identifier" | "path" | "term" | "expression" => "x",
            "number" | "integer" => "1",
            "range" => "'a'..'b'",
            "character" => "'a'",
            "import" => "use pest::any ",
            "grammar_rule" => "x = y",
            "tilde_operator" => "~",
            "caret_operator" => "^",
            "ancestry_operator" => "::",
            "bounded_repeat" => "{2}",
            "silent_modifier" => "_ ",
            "as_keyword" => "as ",
            "trivia_opening_brace" => "~{",
            "call" => "()",
            "slice" => "[..]",
            "arguments" => "()",
            _ => match name.strip_prefix('`').and_then(|x| x.strip_suffix('`')) {
                Some(t) => t,
                // Parts of tokens.
                None => continue,
            },
        };
        c.rep.count("expected_tokens", 1);
        c.rep.count(&format!("expected:{debug}"), 1);
        let goes_on = [token.to_string(), format!(" {token}")].iter().any(|t| {
            let text = format!("{}{t}", &src[..*at]);
            match parse(&text, &ROOT) {
                Ok(_) => true,
                Err(e) => match (&e.variant, &e.location) {
                    (ErrorVariant::ParsingError { .. }, InputLocation::Pos(p)) => *p > *at + (t.len() - t.trim_start().len()) && !t.trim().is_empty(),
                    // It is a grammar, but makes no sense.
                    _ => true,
                },
            }
        });
        if !goes_on {
            c.rep.violation("expected", "the error says that something is expected that cannot stand there", &[("text", src), ("said", &name), ("rule", &debug), ("error", message), ("with names", renamed)]);
        }
    }
}
fn total_case(c: &mut Ctx, src: &str, class: &str) {
    let want = syntax::parse(src);
    if want == Err(true) {
        return;
    }
    c.rep.count("texts", 1);
    c.rep.count(&format!("class:{class}"), 1);
    let got = c.call(|| src.to_string(), || parse(src, &ROOT).map_err(|e| (e.clone(), e.to_string(), e.renamed_rules(pest3_meta::error::rename_meta_rule).to_string())));
    let got = match got {
        Err(p) => return c.rep.violation("panic", "the grammar parser panicked", &[("text", src), ("panic", &p)]),
        Ok(g) => g,
    };
    if let Err((e, m, _)) = &got {
        // The place of the error lies in the text.
        let pos = match e.line_col {
            pest2::error::LineColLocation::Pos(p) | pest2::error::LineColLocation::Span(p, _) => p,
        };
        let lines = src.split('\n').collect::<Vec<_>>();
        if pos.0 == 0 || pos.0 > lines.len() || pos.1 == 0 || pos.1 > lines[pos.0 - 1].chars().count() + 2 {
            c.rep.violation("error-place", "the error of a rejected grammar points outside of its text", &[("text", src), ("error", m)]);
        }
    }
    match (&want, &got) {
        (Err(_), Err((e, m, renamed))) => {
            c.rep.count("rejected_syntax", 1);
            expected(c, src, e, pest3_meta::error::rename_meta_rule, m, renamed);
        }
        (Ok(m), Err((e, msg, _))) if !m.mistakes.is_empty() => {
            c.rep.count("rejected_mistake", 1);
            for k in &m.mistakes {
                c.rep.count(&format!("mistake:{}", k.1), 1);
            }
            if m.imports.iter().all(|i| i.path[0] == "pest") {
                let pos = match e.line_col {
                    pest2::error::LineColLocation::Pos(p) | pest2::error::LineColLocation::Span(p, _) => p,
                };
                if !m.mistakes.iter().any(|k| line_col(src, k.0) == pos) {
                    c.rep.violation("mistake-place", "the error does not point at the mistake", &[("text", src), ("error", msg), ("mistakes", &format!("{:?}", m.mistakes))]);
                }
            }
        }
        (Ok(m), Err(_)) if m.imports.iter().any(|i| i.path[0] != "pest") => {
            c.rep.count("rejected_import", 1);
        }
        (Ok(m), Ok(g)) if m.mistakes.is_empty() && m.imports.iter().all(|i| i.path[0] == "pest") => {
            c.rep.count("accepted", 1);
            let (a, b) = (dump_ref(m), dump_module(g));
            if a != b {
                c.rep.violation("total-tree", "a grammar is read as another expression tree than its text denotes", &[("grammar", src), ("expected", &a), ("read", &b)]);
            }
            let ia: Vec<String> = m.imports.iter().map(|i| format!("{:?} {:?}", i.alias.as_ref().unwrap_or_else(|| i.path.last().unwrap()), i.path)).collect();
            let ib: Vec<String> = g
                .imports
                .iter()
                .map(|i| match i {
                    Import::Builtin(a, p) => format!("{a:?} {p:?}"),
                    Import::File(a, _) => format!("{a:?} file"),
                })
                .collect();
            if ia != ib {
                c.rep.violation("total-imports", "imports are read as others", &[("grammar", src), ("expected", &ia.join("; ")), ("read", &ib.join("; "))]);
            }
        }
        (Ok(m), Ok(_)) => c.rep.violation("accept", "an invalid grammar is accepted", &[("text", src), ("mistakes", &format!("{:?}", m.mistakes))]),
        (Err(_), Ok(g)) => {
            let d = dump_module(g);
            c.rep.violation("accept", "a text that is no grammar is accepted", &[("text", src), ("read", &d)])
        }
        (Ok(_), Err((_, m, _))) => c.rep.violation("reject", "a valid grammar is rejected", &[("text", src), ("error", m)]),
    }
}
fn source(r: &mut Rng, seed: u64) -> String {
    if r.below(1200) == 0 {
        let m = huge(r);
        let mut st = if r.pct(30) { render::Style::noisy(r.next()) } else { render::Style::plain() };
        return st.module(&m);
    }
    if r.pct(60) {
        let m = module(r);
        let mut st = if r.pct(60) { render::Style::noisy(r.next()) } else { render::Style::plain() };
        st.module(&m)
    } else {
        let prof = *r.pick(&["all", "modules", "meta", "core", "trivia"]);
        let g = ggen::grammar(seed, prof, r.below(400) as u64);
        let m = &g.modules[r.below(g.modules.len())];
        let mut st = if r.pct(50) { render::Style::noisy(r.next()) } else { render::Style::plain() };
        st.module(m)
    }
}
fn total(c: &mut Ctx) {
    for i in c.mine(120_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "total", i);
        let a = source(&mut r, c.seed);
        let (t, class) = match r.below(20) {
            6 | 7 => {
                // Well-formed, but one literal, bound or import is impossible.
                let bad = *r.pick(&["\"\\u{110000}\"", "\"a\\xff\"", "i\"\\u{dfff}\"", "'\\u{d800}'..'a'", "'a' .. '\\x80'", "b{0}", "b{..0}", "b{3..2}", "b~{0..0}", "b{18446744073709551616}", "b{..99999999999999999999}", "b[9223372036854775808..]", "b[..-9223372036854775809]"]);
                if r.pct(15) {
                    let u = *r.pick(&["use pest::a()", "use pest::a(b | c)", "use pest::x[1..]", "use pest::any(d) as e", "use pest(a - b ~ c)"]);
                    (format!("{u}\n{a}"), "mistake")
                } else {
                    let (d1, d2) = (r.below(3), r.below(3));
                    let op = |r: &mut Rng| *r.pick(&["|", "-", "~", "^"]);
                    let (e1, e2) = (expr(&mut r, d1), expr(&mut r, d2));
                    let mut st = render::Style::noisy(r.next());
                    let (mut t1, mut t2) = (String::new(), String::new());
                    st.expr(&e1, 2, &mut t1);
                    st.expr(&e2, 2, &mut t2);
                    let (o1, o2) = (op(&mut r), op(&mut r));
                    let t = match r.below(4) {
                        0 => format!("a = {t1} {o1} {bad} {o2} {t2}\n"),
                        1 => format!("a = f({t1}, {bad}) {o1} {t2}\n"),
                        2 => format!("x = {t1}\n\ny = ({t2} {o1} !{bad})*\n"),
                        _ => format!("x(y) = _{{ {bad} {o1} {t1} }}\nz = {t2}"),
                    };
                    (t, "mistake")
                }
            }
            0 => (a, "valid"),
            1 => {
                let n = r.range(1, 14);
                ((0..n).map(|_| *r.pick(TOKENS)).collect(), "soup")
            }
            2 => {
                let n = r.range(1, 12);
                (format!("a = {}", (0..n).map(|_| *r.pick(TOKENS)).collect::<String>()), "rule-soup")
            }
            3 => {
                let n = r.range(1, 40);
                ((0..n).map(|_| ch(&mut r)).collect(), "noise")
            }
            4 | 5 => {
                // Small expressions, where a change usually matters.
                let e = expr(&mut r, 2);
                let mut s = format!("a = {}", render::plain(&e));
                for _ in 0..r.range(1, 2) {
                    s = mutate(&mut r, &s, &a);
                }
                (s, "small")
            }
            _ => {
                let b = source(&mut r, c.seed);
                (mutate(&mut r, &a, &b), "mutated")
            }
        };
        c.nontrivial(&t);
        if i < 40 && class != "valid" {
            c.rep.sample(t.clone());
        }
        total_case(c, &t, class);
    }
    // Nesting must cost no more than its length.
    // Long but flat.
    for (k, n) in [300usize, 1000, 1500].into_iter().enumerate() {
        if c.shard != 1 + k as u64 % c.shards.max(2) {
            continue;
        }
        let o = |t: &str| t.repeat(n);
        for t in [
            format!("a = {}b", o("c | ")),
            format!("a = {}b", o("c ~ ")),
            format!("a = {}", o("c - ")),
            format!("a = c{}", o("::c")),
            format!("a = c{}", o("::")),
            format!("a = \"{}\"", o("\\n\\u{e9}")),
            format!("a = \"{}", o("\\n\\u{e9}")),
            format!("a = r{}\"x\"{}", o("#"), o("#")),
            format!("a = r{}\"x\"{}", o("#"), "#".repeat(n - 1)),
            format!("a = f({})", o("b,")),
            format!("a = f({}", o("b,")),
            format!("a({}) = b", o("b,")),
            format!("a = {}b", o("/* c */")),
            format!("{}a = b", o("// c\n")),
            format!("{}a = b", o("//! c\n")),
            format!("{}a = b", o("/// c\n")),
            format!("{}a = b", o("\r\n\t ")),
            format!("{}a = b =", o("\n")),
            format!("a = \"{}\" =", o("\u{e9}")),
            format!("a = b{{{}1}}", o("0")),
            format!("a = b{{{}}}", o("9")),
            format!("a = b[{}..]", o("9")),
            format!("{}a = b", o("use pest::any ")),
            o("a = b\n"),
            o("a = b /* "),
        ] {
            c.rep.count("long_texts", 1);
            total_case(c, &t, "long");
        }
    }
    if c.shard == 0 {
        for n in [10, 30, 60] {
            let (o, x) = (|t: &str| t.repeat(n), ())
            ;
            let _ = x;
            for t in [
                format!("a = {}b{}", o("("), o(")")),
                format!("a = {}b{}", o("("), o(")*")),
                format!("a = {}b{}", o("!("), o(")")),
                format!("a = {}b{}", o("f("), o(")")),
                format!("a = {}b{}", o("(| c | "), o(")")),
                format!("a = {{ {}b{} }}", o("("), o(")")),
                format!("a = {}b{}", o("("), ")".repeat(n - 1)),
                format!("a = {}b{}", o("(x - "), ")".repeat(n - 1)),
                format!("a = b {}", o("/* ")),
                format!("a = b {}{}", o("/* "), o(" */")),
                format!("a = b {}{}", o("/* "), " */".repeat(n - 1)),
                format!("a = b{}", o("*")),
                format!("a = {}b", o("!&")),
                format!("a = \"{}\"", o("\\n")),
                format!("a = {}b", o("c | ")),
                format!("a = {}b", o("c ~ ")),
                format!("a = c{}", o("::c")),
                format!("a = r{}\"x\"{}", o("#"), o("#")),
                o("a = b\n"),
            ] {
                c.rep.count("nested_texts", 1);
                total_case(c, &t, "nested");
            }
        }
    }
}
fn span(c: &mut Ctx) {
    for i in c.mine(30_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "span", i);
        let mut src = source(&mut r, c.seed);
        if r.pct(50) {
            // Odd documentation and layout.
            let pre = *r.pick(&["//! top\n", "//!no space\n//!   many  \n", "//!\n", "//! a\r\n//! b\r\n", "// plain\n//! after a comment\n", "\n\n  //! indented\n", "//! /// both\n"]);
            let extra = *r.pick(&[
                "/// one\nx9 = \"a\"\n",
                "///one\n///  two  \n///\nx9 = \"a\"\n",
                "/// a\n// not documentation\n/// b\nx9 = \"a\"\n",
                "/// a\r\n/// b\r\nx9\r\n=\r\n\"a\"\r\n",
                "/// `//!` inside\n/* c */ /// late\nx9 = { \"a\" } // end\n",
                "    /// indented\n\t/// tab\n  x9 (p, q,) = _ { p - q /* end */ } \n",
                "//// four\nx9 = \"a\"\n",
                "///\u{a0}nbsp é 中\nx9 = \"é\" - 'é'..'中'\n",
                "/// last \u{2028} sep\nx9 = ( ( \"a\" ) ) /* t */ \n",
            ]);
            src = format!("{}{pre}{src}{extra}", if src.starts_with("//!") { "" } else { "" });
        }
        let Ok(want) = syntax::parse(&src) else { continue };
        if !want.mistakes.is_empty() || want.imports.iter().any(|i| i.path[0] != "pest") {
            continue;
        }
        let root = PathBuf::from(format!("/nonexistent-verif/d{}/g{}.pest", i % 3, i % 7));
        let g = match c.call(|| src.clone(), || parse(&src, &root)) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) => {
                c.rep.violation("reject", "a valid grammar is rejected", &[("text", &src), ("error", &e.to_string())]);
                continue;
            }
            Err(p) => {
                c.rep.violation("panic", "the grammar parser panicked", &[("text", &src), ("panic", &p)]);
                continue;
            }
        };
        c.rep.count("grammars_parsed", 1);
        if !want.doc.is_empty() || want.rules.iter().any(|r| !r.doc.is_empty()) {
            c.rep.count("with_docs", 1);
        }
        c.nontrivial(&src);
        if i < 16 {
            c.rep.sample(src.clone());
        }
        if g.doc.grammar_doc != want.doc {
            c.rep.violation("grammar-doc", "the documentation of the grammar is read wrongly", &[("text", &src), ("expected", &format!("{:?}", want.doc)), ("read", &format!("{:?}", g.doc.grammar_doc))]);
        }
        if g.rules.len() != want.rules.len() {
            c.rep.violation("rules", "rules are missing or invented", &[("text", &src)]);
            continue;
        }
        for (a, b) in g.rules.iter().zip(&want.rules) {
            c.rep.count("rules_checked", 1);
            if a.doc != b.doc {
                c.rep.violation("rule-doc", "the documentation of a rule is read wrongly", &[("text", &src), ("rule", &b.name), ("expected", &format!("{:?}", b.doc)), ("read", &format!("{:?}", a.doc))]);
            }
            if a.name != b.name || a.args != b.args || a.silent != b.silent {
                c.rep.violation("rule-head", "name, parameters or silence of a rule are read wrongly", &[("text", &src), ("rule", &b.name), ("read", &format!("{} {:?} {}", a.name, a.args, a.silent))]);
            }
            let (mut sa, mut sb) = (vec![(a.span.start, a.span.end)], vec![(b.start, b.end)]);
            spans(&a.node, &mut sa);
            b.node.spans(&mut sb);
            let mut paths = vec![a.span.path.as_path()];
            node_paths(&a.node, &mut paths);
            if paths.iter().any(|p| *p != root) {
                c.rep.violation("span-path", "a span names another file", &[("text", &src), ("rule", &b.name)]);
            }
            let ok = sa.len() == sb.len()
                && sa.iter().zip(&sb).all(|((s, e), (ws, we))| {
                    s == ws && e >= we && *e <= src.len() && src.is_char_boundary(*e) && syntax::trivia(&src[*we..]) >= e - we
                });
            c.rep.count("spans_checked", sa.len() as u64);
            if !ok {
                let show = |v: &[(usize, usize)]| v.iter().map(|(a, b)| format!("{a}..{b} {:?}", src.get(*a..*b))).collect::<Vec<_>>().join("; ");
                c.rep.violation("span", "a span does not cover the text of its rule or expression", &[("text", &src), ("rule", &b.name), ("expected", &show(&sb)), ("read", &show(&sa))]);
            }
        }
    }
}

// ---- import graphs on disk
struct File {
    dir: Vec<&'static str>,
    name: String,
    text: String,
    imports: Vec<(String, usize)>,
    /// Shows up when the file is read, if anything.
    broken: Option<&'static str>,
}
impl File {
    fn rel(&self) -> PathBuf {
        let mut p: PathBuf = self.dir.iter().collect();
        p.push(format!("{}.pest", self.name));
        p
    }
}
fn same(g: &GrammarModule, files: &[File], k: usize, c: &mut Ctx) -> Result<(), String> {
    c.rep.count("modules_compared", 1);
    let want = syntax::parse(&files[k].text).map_err(|_| "reference".to_string())?;
    if dump_ref(&want) != dump_module(g) {
        return Err(format!("{}: rules {} instead of {}", files[k].rel().display(), dump_module(g), dump_ref(&want)));
    }
    if g.doc.grammar_doc != want.doc {
        return Err(format!("{}: doc", files[k].rel().display()));
    }
    let inner: Vec<(&String, &Arc<GrammarModule>)> = g
        .imports
        .iter()
        .filter_map(|i| match i {
            Import::File(a, m) => Some((a, m)),
            _ => None,
        })
        .collect();
    let names: Vec<&String> = inner.iter().map(|x| x.0).collect();
    let wanted: Vec<&String> = files[k].imports.iter().map(|x| &x.0).collect();
    if names != wanted {
        return Err(format!("{}: imports {names:?} instead of {wanted:?}", files[k].rel().display()));
    }
    let targets: Vec<usize> = files[k].imports.iter().map(|x| x.1).collect();
    for ((_, m), t) in inner.into_iter().zip(targets) {
        same(m, files, t, c)?;
    }
    Ok(())
}
/// A ladder of files, each imported twice (in two ways) by the one before: 2^40 ways to its end.
fn ladder(c: &mut Ctx, base: &Path) {
    let root = base.join("ladder");
    let n = 40;
    for (kind, second) in [("alias", "use m{} as again\n"), ("path", "use other{} in {}\n")] {
        std::fs::create_dir_all(&root).expect("mkdir");
        for k in 0..=n {
            let p = root.join(format!("m{}.pest", k + 1));
            let next = format!("use m{}\n{}", k + 1, second.replacen("{}", &(k + 1).to_string(), 1).replacen("{}", &format!("{:?}", p.to_str().unwrap()), 1));
            std::fs::write(root.join(format!("m{k}.pest")), format!("{}r{k} = \"x\"\n", if k < n { &next } else { "" })).expect("write");
        }
        let main = root.join("m0.pest");
        let src = std::fs::read_to_string(&main).expect("read");
        let what = format!("ladder of {n} files, second import by {kind}");
        match c.call(|| what.clone(), || parse(&src, &main)) {
            Err(p) => c.rep.violation("panic", "resolving imports panicked", &[("files", &what), ("panic", &p)]),
            Ok(Err(e)) => c.rep.violation("import-reject", "a resolvable import is rejected", &[("files", &what), ("error", &e.to_string())]),
            Ok(Ok(g)) => {
                c.rep.count("ladders", 1);
                if g.dependencies.len() != n {
                    c.rep.violation("dependencies", "the dependencies of a grammar are not the files it imports", &[("files", &what), ("got", &g.dependencies.len().to_string())]);
                }
                // Down the ladder in a random way.
                let mut r = Rng::derive(c.seed, "ladder", 0);
                let mut at = g;
                for k in 0..=n {
                    if at.rules.len() != 1 || at.rules[0].name != format!("r{k}") || at.imports.len() != if k < n { 2 } else { 0 } {
                        c.rep.violation("import-module", "an import does not yield the module of its file", &[("files", &what), ("level", &k.to_string())]);
                        break;
                    }
                    if k < n {
                        let next = match r.pick(&at.imports) {
                            Import::File(_, m) => m.clone(),
                            _ => break,
                        };
                        at = next;
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    }
}
/// A chain of files that goes deeper with each, then back up, and a file with many imports.
fn far(c: &mut Ctx, base: &Path) {
    for (n, deep) in [(20usize, 20usize), (40, 0), (66, 33), (130, 10)] {
        let root = base.join("far");
        let dir = |k: usize| -> PathBuf { (0..k.min(n - k).min(deep)).map(|i| format!("d{i}")).collect() };
        for k in 0..=n {
            let d = root.join(dir(k));
            std::fs::create_dir_all(&d).expect("mkdir");
            let (here, next) = (dir(k).components().count(), dir((k + 1).min(n)).components().count());
            let by = match next as i64 - here as i64 {
                1 => format!("d{here}::"),
                -1 => "super::".into(),
                _ => String::new(),
            };
            // Also the one far up.
            let up = if here > 0 && k < n { format!("use {}m{n} as last\n", "super::".repeat(here)) } else { String::new() };
            let text = if k < n { format!("use {by}m{}\n{up}r{k} = \"x\"\n", k + 1) } else { format!("r{k} = \"x\"\n") };
            std::fs::write(d.join(format!("m{k}.pest")), text).expect("write");
        }
        let all: String = (1..n).map(|k| format!("use {}m{k}\n", dir(k).components().map(|x| format!("{}::", x.as_os_str().to_str().unwrap())).collect::<String>())).collect();
        for (what, text) in [(format!("chain of {n} files, {deep} directories deep"), std::fs::read_to_string(root.join("m0.pest")).expect("read")), (format!("{n} imports in one file"), format!("{all}r0 = \"x\"\n"))] {
            let main = root.join("m0.pest");
            match c.call(|| what.clone(), || parse(&text, &main)) {
                Err(p) => c.rep.violation("panic", "resolving imports panicked", &[("files", &what), ("panic", &p)]),
                Ok(Err(e)) => c.rep.violation("import-reject", "a resolvable import is rejected", &[("files", &what), ("error", &e.to_string())]),
                Ok(Ok(g)) => {
                    c.rep.count("long_chains", 1);
                    if g.dependencies.len() != n {
                        c.rep.violation("dependencies", "the dependencies of a grammar are not the files it imports", &[("files", &what), ("got", &g.dependencies.len().to_string())]);
                    }
                    let starts: Vec<(usize, Arc<GrammarModule>)> = g.imports.iter().filter_map(|i| if let Import::File(a, m) = i { Some((a[1..].parse().unwrap_or(n), m.clone())) } else { None }).collect();
                    if what.contains("imports") && starts.len() != n - 1 {
                        c.rep.violation("import-module", "imports are missing", &[("files", &what), ("got", &starts.len().to_string())]);
                    }
                    for (k, m) in starts {
                        let (mut k, mut at) = (k, m);
                        loop {
                            c.rep.count("modules_compared", 1);
                            if at.rules.len() != 1 || at.rules[0].name != format!("r{k}") {
                                c.rep.violation("import-module", "an import does not yield the module of its file", &[("files", &what), ("level", &k.to_string())]);
                                break;
                            }
                            let next = at.imports.iter().find_map(|i| if let Import::File(a, m) = i { (*a == format!("m{}", k + 1)).then(|| m.clone()) } else { None });
                            match next {
                                Some(m) => (k, at) = (k + 1, m),
                                None => {
                                    if k != n {
                                        c.rep.violation("import-module", "a chain of imports ends early", &[("files", &what), ("level", &k.to_string())]);
                                    }
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    }
}
fn import(c: &mut Ctx) {
    let base = std::env::current_dir().expect("cwd").join(format!("imports-{}-{}", std::process::id(), c.shard));
    let _ = std::fs::remove_dir_all(&base);
    if c.shard == 0 {
        ladder(c, &base);
    }
    if c.shard == 1 % c.shards {
        far(c, &base);
    }
    // Files that nothing means, where names would lead from the working directory.
    for name in ["m", "grammar", "A", "_x", "as", "lib"] {
        for k in ["", "0", "1", "2", "3", "4", "5", "6"] {
            std::fs::write(format!("{name}{k}.pest"), "decoy = \"not this one\"\n").expect("write");
        }
    }
    for i in c.mine(3_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "import", i);
        let root = base.join(format!("r{i}"));
        let n = r.range(1, 7);
        let dirs: [&[&'static str]; 6] = [&[], &[], &["d"], &["d", "e"], &["f"], &["sub_dir", "d2", "d3"]];
        let mut files: Vec<File> = vec![];
        for k in 0..n {
            let d: &[&str] = *r.pick(&dirs);
            let mut name = format!("{}{}", r.pick(&["m", "grammar", "A", "_x", "as", "lib"]), if r.pct(50) { k.to_string() } else { String::new() });
            while files.iter().any(|f: &File| f.dir == d && f.name == name) {
                name.push('_');
            }
            files.push(File { dir: d.to_vec(), name, text: String::new(), imports: vec![], broken: None });
        }
        // Edges: forward ones make a graph without cycles.
        let fault = r.weighted(&[60, 12, 12, 16]);
        let mut expect_err: Option<(&'static str, usize)> = None;
        let mut extra: Vec<(usize, String)> = vec![];
        let edge = |files: &Vec<File>, r: &mut Rng, a: usize, b: usize| -> (String, String) {
            let (fa, fb) = (&files[a], &files[b]);
            let common = fa.dir.iter().zip(&fb.dir).take_while(|(x, y)| x == y).count();
            let mut segs: Vec<String> = vec!["super".to_string(); fa.dir.len() - common];
            segs.extend(fb.dir[common..].iter().map(|s| s.to_string()));
            segs.push(fb.name.clone());
            let alias = r.pct(40).then(|| format!("{}{}", r.pick(&["al", "as", "use", "in", "x"]), r.below(3)));
            let sep = *r.pick(&["::", "::", " :: ", "/*c*/::\n"]);
            let mut t = format!("use {}", segs.join(sep));
            let by_path = r.pct(20);
            if by_path {
                // As it stands: absolute, or relative to the working directory of the process.
                let p = root.join(fb.rel());
                let cwd = std::env::current_dir().expect("cwd");
                let p = if r.pct(50) { p.strip_prefix(&cwd).expect("below the working directory").to_path_buf() } else { p };
                if p.is_relative() && r.pct(40) {
                    // Another file where the path would lead from the importing file.
                    let near = root.join(fa.rel()).with_file_name(&p);
                    std::fs::create_dir_all(near.parent().unwrap()).expect("mkdir");
                    std::fs::write(&near, "decoy = \"not this one\"\n").expect("write");
                }
                t = format!("use {}{}in {:?}", if r.pct(50) { segs.join(sep) } else { fb.name.clone() }, r.pick(&[" ", "\n", " /*x*/ "]), p.to_str().unwrap());
            }
            if let Some(a) = &alias {
                t.push_str(&format!("{}as{}{a}", r.pick(&[" ", "\n"]), r.pick(&[" ", "  ", " // c\n"])));
            }
            (t, alias.unwrap_or_else(|| fb.name.clone()))
        };
        let mut uses: Vec<Vec<String>> = vec![vec![]; n];
        for b in 1..n {
            for a in 0..b {
                // Everything is reachable from the root.
                if (a == b - 1 && r.pct(70)) || r.pct(30) || (a == 0 && !files.iter().any(|f| f.imports.iter().any(|x| x.1 == b)) && r.pct(50)) {
                    let (t, alias) = edge(&files, &mut r, a, b);
                    uses[a].push(t);
                    files[a].imports.push((alias, b));
                }
            }
        }
        let mut reach = vec![false; n];
        let mut todo = vec![0];
        while let Some(k) = todo.pop() {
            if !std::mem::replace(&mut reach[k], true) {
                todo.extend(files[k].imports.iter().map(|x| x.1));
            }
        }
        let reachable: Vec<usize> = (0..n).filter(|k| reach[*k]).collect();
        match fault {
            1 => {
                let a = *r.pick(&reachable);
                extra.push((a, (*r.pick(&["use missing_one", "use d::missing", "use super::nowhere", "use x in \"/nonexistent-verif/y.pest\"", "use d"])).to_string()));
                expect_err = Some(("missing", a));
            }
            2 => {
                if let Some(k) = reachable.iter().skip(1).last() {
                    files[*k].broken = Some(*r.pick(&["\nz = = \"x\"\n", "\nz = \"\\u{d800}\"\n", "\nz = \"a\"{0}\n", "\nz = (\"a\"\n", "\n}\n", "\nuse w(q)\n"]));
                    expect_err = Some(("broken", *k));
                }
            }
            3 => {
                let k = *r.pick(&reachable);
                // Back to itself or to one that leads here.
                let mut to: Vec<usize> = vec![k];
                for a in 0..n {
                    let mut seen = vec![false; n];
                    let mut todo = vec![a];
                    while let Some(x) = todo.pop() {
                        if !std::mem::replace(&mut seen[x], true) {
                            todo.extend(files[x].imports.iter().map(|y| y.1));
                        }
                    }
                    if a != k && reach[a] && seen[k] {
                        to.push(a);
                    }
                }
                let t = *r.pick(&to);
                let (text, _) = edge(&files, &mut r, k, t);
                extra.push((k, text));
                expect_err = Some(("cycle", k));
            }
            _ => {}
        }
        for (a, t) in extra {
            let at = r.below(uses[a].len() + 1);
            uses[a].insert(at, t);
        }
        for k in 0..n {
            let mut m = module(&mut r);
            m.imports.clear();
            m.rules.push(model::ast::Rule::new(&format!("only_in_{k}"), E::str("x")));
            let mut t = render::Style::plain().module(&m);
            let us = uses[k].join("\n");
            // Imports may follow the first rule.
            if r.pct(30) && m.doc.is_empty() {
                t = format!("first{k} = \"f\"\n{us}\n{t}");
            } else {
                let head: String = m.doc.iter().map(|d| format!("//! {d}\n")).collect();
                t = format!("{head}{us}\n{}", &t[head.len()..]);
            }
            if let Some(b) = files[k].broken {
                t.push_str(b);
            }
            files[k].text = t;
            let p = root.join(files[k].rel());
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(&p, &files[k].text).expect("write");
        }
        for d in dirs {
            std::fs::create_dir_all(root.join(d.iter().collect::<PathBuf>())).expect("mkdir");
        }
        let main = root.join(files[0].rel());
        let shown: String = files.iter().map(|f| format!("--- {}\n{}\n", f.rel().display(), f.text)).collect();
        c.rep.count("graphs", 1);
        c.rep.max("modules", n as u64);
        let edges: usize = files.iter().map(|f| f.imports.len()).sum();
        if edges > 0 {
            c.nontrivial(&shown);
        }
        let src = files[0].text.clone();
        let got = c.call(|| shown.clone(), || parse(&src, &main));
        match (got, expect_err) {
            (Err(p), _) => c.rep.violation("panic", "resolving imports panicked", &[("files", &shown), ("panic", &p)]),
            (Ok(Ok(_)), Some((k, at))) => c.rep.violation("import-accept", "a grammar with an import that cannot be resolved is accepted", &[("files", &shown), ("fault", k), ("in", &files[at].rel().display().to_string())]),
            (Ok(Err(e)), Some((k, at))) => {
                c.rep.count(&format!("fault:{k}"), 1);
                let msg = e.to_string();
                if msg.is_empty() {
                    c.rep.violation("import-error", "an error without a message", &[("files", &shown)]);
                }
                // The error names the file at fault, unless that is the root itself.
                let cyclic_again = k == "cycle";
                if at != 0 && !cyclic_again {
                    let named = e.path().map(|p| Path::new(p).canonicalize().unwrap_or_else(|_| p.into()));
                    let want = root.join(files[at].rel()).canonicalize().unwrap();
                    if named.as_ref() != Some(&want) {
                        c.rep.violation("import-error-path", "the error does not name the file at fault", &[("files", &shown), ("error", &msg), ("expected", &want.display().to_string()), ("named", &format!("{named:?}"))]);
                    }
                }
            }
            (Ok(Err(e)), None) => c.rep.violation("import-reject", "a resolvable import is rejected", &[("files", &shown), ("error", &e.to_string())]),
            (Ok(Ok(g)), None) => {
                c.rep.count("fault:none", 1);
                c.rep.count("imports_resolved", edges as u64);
                if let Err(e) = same(&g, &files, 0, c) {
                    c.rep.violation("import-module", "an import does not yield the module of its file", &[("files", &shown), ("difference", &e)]);
                }
                let mut deps: Vec<PathBuf> = g.dependencies.iter().map(|p| p.canonicalize().unwrap_or_else(|_| p.clone())).collect();
                deps.sort();
                deps.dedup();
                let mut want: Vec<PathBuf> = reachable.iter().skip(1).map(|k| root.join(files[*k].rel()).canonicalize().unwrap()).collect();
                want.sort();
                if deps != want {
                    c.rep.violation("dependencies", "the dependencies of a grammar are not the files it imports", &[("files", &shown), ("expected", &format!("{want:?}")), ("got", &format!("{deps:?}"))]);
                }
                if i < 30 {
                    c.rep.sample(shown);
                }
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    }
    let _ = std::fs::remove_dir_all(&base);
}
/// Grammars that are long, not deep: name, text of `n` items, whether it is one of the language.
type Flat = (&'static str, fn(usize) -> String, bool);
const FLAT: &[Flat] = &[
    ("rules", |n| (0..n).map(|i| format!("r{i} = a\n")).collect(), true),
    ("strings", |n| (0..n).map(|i| format!("r{i} = \"b\"\n")).collect(), true),
    ("insensitive", |n| (0..n).map(|i| format!("r{i} = i\"b\" ~ i\"\\x41\"\n")).collect(), true),
    ("raw", |n| (0..n).map(|i| format!("r{i} = r#\"b\"#\n")).collect(), true),
    ("ranges", |n| (0..n).map(|i| format!("r{i} = 'a'..'\\u{{7a}}'\n")).collect(), true),
    ("bounds", |n| (0..n).map(|i| format!("r{i} = a{{1..4}} - a{{2}} - a*\n")).collect(), true),
    ("slices", |n| (0..n).map(|i| format!("r{i} = pest::stack::peek[1..-2]\n")).collect(), true),
    ("calls", |n| (0..n).map(|i| format!("r{i}(x) = x - r{i}(\"a\", b)\n")).collect(), true),
    ("choices", |n| (0..n).map(|i| format!("r{i} = (a | b ~ c) - (!d - e)+\n")).collect(), true),
    ("documented", |n| (0..n).map(|i| format!("/// d {i}\nr{i} = _{{ a }}\n")).collect(), true),
    ("docs", |n| "/// d\n".repeat(n) + "a = b", true),
    ("grammar docs", |n| "//! d\n".repeat(n) + "a = b", true),
    ("comments", |n| "// c\n/* /* d */ */".repeat(n) + "a = b", true),
    ("blanks", |n| "\r\n\t ".repeat(n) + "a = b", true),
    ("parameters", |n| format!("a({}q) = b", (0..n).map(|i| format!("p{i}, ")).collect::<String>()), true),
    ("arguments", |n| format!("a = f({}b)", "\"a\", ".repeat(n)), true),
    ("path", |n| format!("a = b{}", "::b".repeat(n)), true),
    ("imports", |n| (0..n).map(|i| format!("use pest::ascii_digit as d{i}\n")).collect::<String>() + "a = b", true),
    ("escapes", |n| format!("a = \"{}\"", "\\n\\x41\\u{e9}".repeat(n)), true),
    ("quotes", |n| format!("a = i\"{}\"", "\\\"'".repeat(n)), true),
    ("pounds", |n| format!("a = r{0}\"b\"{0}", "#".repeat(n)), true),
    ("name", |n| format!("{} = b", "a".repeat(n)), true),
    ("no end", |n| format!("a = \"{}", "\\n\\x41".repeat(n)), false),
    ("late mistake", |n| (0..n).map(|i| format!("r{i} = \"b\"\n")).collect::<String>() + "r = ", false),
    ("late overflow", |n| (0..n).map(|i| format!("r{i} = \"b\"\n")).collect::<String>() + "r = a{99999999999999999999}", false),
];
/// Time grows as the text does.
fn growth(c: &mut Ctx) {
    const SMALL: usize = 500;
    const TIMES: usize = 32;
    for k in c.mine(FLAT.len() as u64) {
        let (name, make, good) = FLAT[k as usize];
        let mut took = vec![];
        for n in [SMALL, SMALL * TIMES] {
            let t = make(n);
            let mut best = std::time::Duration::MAX;
            for _ in 0..3 {
                c.watch.enter(|| format!("{n} of {name}"));
                let start = tools::cpu_time();
                let r = model::watch::guard(|| pest3_meta::parser::parse(&t, &"/grammar").map(|m| m.rules.len()));
                best = best.min(tools::cpu_time() - start);
                c.watch.leave();
                c.rep.count("flat_texts", 1);
                let n = n.to_string();
                match r {
                    Err(m) => c.rep.violation("panic", "reading a grammar panicked", &[("text", &format!("{n} of {name}")), ("message", &m)]),
                    Ok(r) if r.is_ok() != good => c.rep.violation("flat", "a long grammar is not read as a short one of its kind", &[("text", &format!("{n} of {name}")), ("read", &format!("{:?}", r.map_err(|e| e.to_string().chars().take(300).collect::<String>())))]),
                    Ok(_) => (),
                }
            }
            took.push(best);
        }
        c.rep.max("times_slower", (took[1].as_nanos() / took[0].as_nanos().max(1)) as u64);
        c.rep.sample(format!("{name}: {:?} for {SMALL}, {:?} for {}", took[0], took[1], SMALL * TIMES));
        // Quadratic growth would be 1024.
        if took[1] > took[0] * (TIMES as u32 * 8) && took[1] > std::time::Duration::from_millis(400) {
            c.rep.violation("growth", "the time of reading a grammar grows much faster than the grammar", &[("text", name), ("times", &format!("{took:?}"))]);
        }
    }
    // Long literals need no more stack than short ones.
    if c.shard == 0 {
        for (name, make, good) in FLAT.iter().filter(|f| ["escapes", "quotes", "no end", "name", "comments", "docs", "rules", "late mistake"].contains(&f.0)) {
            let t = make(20_000);
            c.watch.enter(|| format!("{name} in a small thread"));
            let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || model::watch::guard(|| pest3_meta::parser::parse(&t, &"/grammar").map(|_| ()).map_err(|e| e.to_string().chars().rev().take(300).collect::<String>().chars().rev().collect::<String>()))).expect("thread").join().expect("joined"));
            c.watch.leave();
            c.rep.count("small_threads", 1);
            if !matches!(&r, Ok(r) if r.is_ok() == *good) {
                c.rep.violation("stack", "a long grammar needs more stack than a short one", &[("text", name), ("read", &format!("{r:?}"))]);
            }
        }
    }
    // Expressions with very many operands, in processes of their own.
    let me = std::env::current_exe().expect("path");
    for k in c.mine(HUGE.len() as u64) {
        let (name, n) = (HUGE[k as usize].0, HUGE[k as usize].1);
        c.watch.enter(|| format!("{n} {name}"));
        let out = std::process::Command::new(&me).args(["huge", name]).output().expect("child");
        c.watch.leave();
        c.rep.count("huge_texts", 1);
        if !out.status.success() {
            c.rep.violation("abort", "reading a grammar ends the process", &[("text", &format!("{n} {name}")), ("status", &out.status.to_string())]);
        }
    }
}
const HUGE: &[(&str, usize, fn(usize) -> String)] = &[
    ("alternatives", 40_000, |n| format!("a = {}b", "c | ".repeat(n))),
    ("operands of a sequence", 40_000, |n| format!("a = {}b", "c ~ ".repeat(n))),
    ("predicates", 1_000_000, |n| format!("a = {}b", "!".repeat(n))),
    ("options of options", 1_000_000, |n| format!("a = b{}", "?".repeat(n))),
    ("parentheses", 40_000, |n| format!("a = {}b{}", "(".repeat(n), ")".repeat(n))),
    ("calls in calls", 40_000, |n| format!("a = {}b{}", "f(".repeat(n), ")".repeat(n))),
    ("comments in comments", 40_000, |n| format!("a = b {}{}", "/*".repeat(n), "*/".repeat(n))),
    ("small alternatives", 1000, |n| format!("a = {}b", "c | ".repeat(n))),
    ("small predicates", 3000, |n| format!("a = {}b", "!".repeat(n))),
];
fn child(name: &str) {
    let x = HUGE.iter().find(|x| x.0 == name).expect("name");
    let t = (x.2)(x.1);
    // The stack of a main thread.
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || drop(pest3_meta::parser::parse(&t, &"/grammar"))).expect("thread").join().expect("joined");
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("huge") {
        return child(&std::env::args().nth(2).expect("name"));
    }
    tools::main_(|c, facets| {
        for f in facets {
            match f.as_str() {
                "tree" => tree(c),
                "lit" => lit(c),
                "total" => total(c),
                "span" => span(c),
                "import" => import(c),
                "growth" => growth(c),
                f => panic!("facet {f}"),
            }
        }
    });
}
