//! Monitor for the code generator: rejection of mistakes, determinism, what the output contains.
//! argv: facets out of reject, output, growth; or `digest FROM TO` (a child process).
use model::ast::*;
use model::ggen;
use model::render::Style;
use model::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use tools::{chk, Ctx};

const PROFILES: &[&str] = &["opts", "modules", "meta", "all", "trivia", "stack", "opts", "core"];
fn profile(i: u64) -> &'static str {
    PROFILES[(i / 3 % PROFILES.len() as u64) as usize]
}
/// Everything about a call of the derive: attributes in order.
fn derive(attrs: &[String], include: bool) -> Result<String, String> {
    let src = format!("{}\nstruct Parser__;", attrs.join("\n"));
    let tokens: proc_macro2::TokenStream = src.parse().expect("tokens");
    model::watch::guard(|| pest3_generator::typed::derive_typed_parser(tokens, include, true).to_string())
}
fn write(p: &Path, s: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, s).unwrap();
}
/// Writes the files of a grammar; the attribute for its root.
fn put(dir: &Path, g: &Grammar, text: impl Fn(usize, &Module) -> String) -> String {
    for (k, m) in g.modules.iter().enumerate() {
        write(&dir.join(&m.file), &text(k, m));
    }
    format!("#[grammar = {:?}]", g.modules[0].file)
}
fn inline(text: &str) -> String {
    format!("#[grammar_inline = {text:?}]")
}
fn docs(g: &mut Grammar, r: &mut Rng) {
    // Also empty lines: paragraphs.
    let mut line = |r: &mut Rng| (0..if r.pct(15) { 0 } else { 1 + r.below(4) }).map(|_| *r.pick(&["doc", "of", "\"quoted\"", "`code`", "é中", "\\n", "#", "//", "a = \"b\""])).collect::<Vec<_>>().join(" ");
    for m in &mut g.modules {
        if r.pct(50) {
            m.doc = (0..r.below(4)).map(|_| line(r)).collect();
        }
        for x in &mut m.rules {
            if r.pct(40) && !x.is_trivia() {
                x.doc = (0..r.below(4)).map(|_| line(r)).collect();
            }
        }
    }
}
fn grammar(seed: u64, i: u64) -> Grammar {
    let mut g = ggen::grammar(seed ^ 0x6e65, profile(i), i);
    let mut r = Rng::derive(seed, "swell", i);
    if r.pct(3) {
        swell(&mut g, &mut r);
    }
    docs(&mut g, &mut Rng::derive(seed, "docs", i));
    g
}
/// Many more rules, before, after and between the others.
fn swell(g: &mut Grammar, r: &mut Rng) {
    let m = r.below(g.modules.len());
    let n = *r.pick(&[20usize, 64, 65, 130, 255, 256, 257, 300]);
    let mut new = vec![];
    for k in 0..n {
        let lit = E::Str(format!("x{k}"));
        let e = match r.below(4) {
            0 if k > 0 => E::choice(vec![lit, E::path(&format!("pad{}", r.below(k)))]),
            1 if k + 1 < n => E::seq(vec![(Tr::None, lit), (Tr::None, E::Opt(Box::new(E::path(&format!("pad{}", k + 1)))))]),
            _ => lit,
        };
        new.push(Rule { name: format!("pad{k}"), args: vec![], silent: r.pct(10), expr: e, doc: vec![] });
    }
    let old = &mut g.modules[m].rules;
    let at = *r.pick(&[0, old.len(), old.len() / 2]);
    old.splice(at..at, new);
}
fn show(g: &Grammar) -> String {
    g.modules.iter().map(|m| format!("--- {}\n{}", m.file, Style::plain().module(m))).collect()
}
fn scratch(c: &Ctx) -> PathBuf {
    // The driver runs the monitors in a directory of the check.
    let d = std::env::current_dir().unwrap().join(format!("gen_check-{}", c.shard));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn here(d: &Path) {
    std::env::set_var("CARGO_MANIFEST_DIR", d);
}

// ---- reject

/// Replace the `n`-th node (in preorder).
fn replace(e: &E, n: &mut usize, by: &dyn Fn(&E) -> E) -> E {
    if *n == 0 {
        *n = usize::MAX;
        return by(e);
    }
    if *n != usize::MAX {
        *n -= 1;
    }
    e.map_children(&mut |x| if *n == usize::MAX { x.clone() } else { replace(x, n, by) })
}
struct Mistake {
    kind: &'static str,
    /// One of these is in the message.
    named: Vec<String>,
}
/// Rules of the modules one can call from module `m`: path, number of parameters, silent.
fn callable(g: &Grammar, m: usize) -> Vec<(String, usize, bool)> {
    let mut v = vec![];
    for r in g.modules[m].rules.iter().filter(|r| !r.is_trivia()) {
        v.push((r.name.clone(), r.args.len(), r.silent));
    }
    for i in &g.modules[m].imports {
        if let ImportKind::File(k) = i.kind {
            for r in g.modules[k].rules.iter().filter(|r| !r.is_trivia()) {
                v.push((format!("{}::{}", i.alias, r.name), r.args.len(), r.silent));
            }
        }
    }
    v
}
/// Arguments for a parameter that a silent rule ignores are expanded away: let it use all of them.
fn use_parameters(g: &mut Grammar) {
    fn uses(e: &E, p: &str) -> bool {
        let mut found = matches!(e, E::Path(s, _) if s.len() == 1 && s[0] == p);
        e.map_children(&mut |x| {
            found |= uses(x, p);
            x.clone()
        });
        found
    }
    for x in g.modules.iter_mut().flat_map(|m| m.rules.iter_mut()).filter(|x| x.silent) {
        for p in x.args.clone() {
            if !uses(&x.expr, &p) {
                x.expr = E::Choice(Box::new(x.expr.clone()), Box::new(E::path(&p)));
            }
        }
    }
}
/// Make one mistake in a grammar.
fn spoil(g: &mut Grammar, r: &mut Rng, kind: usize) -> Option<Mistake> {
    // Only modules the root imports in some way are read; all are.
    let m = if g.modules.len() > 1 && r.pct(40) { 1 + r.below(g.modules.len() - 1) } else { 0 };
    let reached = {
        let mut seen: BTreeSet<usize> = [0].into();
        let mut todo = vec![0];
        while let Some(k) = todo.pop() {
            for i in &g.modules[k].imports {
                if let ImportKind::File(f) = i.kind {
                    if seen.insert(f) {
                        todo.push(f);
                    }
                }
            }
        }
        seen.contains(&m)
    };
    if !reached {
        return None;
    }
    // Bodies of silent rules with parameters only count where they are called.
    let places: Vec<usize> = g.modules[m].rules.iter().enumerate().filter(|(_, x)| !(x.silent && !x.args.is_empty())).map(|x| x.0).collect();
    if places.is_empty() {
        return None;
    }
    let at = *r.pick(&places);
    let all = callable(g, m);
    let plain: Vec<_> = all.iter().filter(|x| x.1 == 0).cloned().collect();
    let metas: Vec<_> = all.iter().filter(|x| x.1 > 0).cloned().collect();
    let leaf = |r: &mut Rng| if r.pct(50) { E::str("q") } else { E::Rep(Box::new(E::path("pest::any"))) };
    let slice = |p: &str, r: &mut Rng| E::Path(p.split("::").map(|s| s.to_string()).collect(), Args::Slice(r.pct(50).then(|| r.below(4) as i64 - 2), r.pct(50).then(|| r.below(4) as i64 - 2)));
    let last = |p: &str| p.rsplit("::").next().unwrap().to_string();
    let one = |kind, e: E, named: Vec<String>| Some((kind, e, named));
    let found = match kind {
        0 => one("undefined rule", E::path("zz_none"), vec!["zz_none".into()]),
        1 => {
            let p = *r.pick(&["pest::zz_none", "pest::unicode::zz_none", "pest::stack::zz_none", "zz_none::a", "zz_none::b::c", "pest::ASCII_DIGIT", "pest::unicode::HAN", "pest::stack::PUSH", "pest::ascii_digi", "pest::peek", "stack::peek_"]);
            one("undefined path", E::path(p), p.split("::").map(|x| x.to_string()).collect())
        }
        2 => {
            let i = g.modules[m].imports.iter().find(|i| matches!(i.kind, ImportKind::File(_)))?;
            one("undefined rule of a module", E::path(&format!("{}::zz_none", i.alias)), vec!["zz_none".into()])
        }
        3 => {
            let (p, ..) = plain.get(r.below(plain.len()))?;
            let args = (0..1 + r.below(2)).map(|_| leaf(r)).collect();
            one("arguments for a rule without parameters", E::call(p, args), vec![last(p)])
        }
        4 => {
            let (p, ..) = metas.get(r.below(metas.len()))?;
            one("no arguments for a rule with parameters", E::path(p), vec![last(p)])
        }
        5 => {
            let (p, n, _) = metas.get(r.below(metas.len()))?;
            let k = *r.pick(&[0, n - 1, n + 1, n + 2]);
            one("wrong number of arguments", E::call(p, (0..k).map(|_| leaf(r)).collect()), vec![last(p)])
        }
        6 => {
            let (p, ..) = all.get(r.below(all.len()))?;
            one("slice of a rule", slice(p, r), vec![last(p)])
        }
        7 => {
            let p = *r.pick(&["pest::stack::pop", "pest::stack::push", "pest::stack::drop", "pest::stack::peek_all", "pest::stack::pop_all", "pest::any", "pest::soi", "pest::newline", "pest::ascii", "pest::unicode::han", "pest::unicode::letter"]);
            // Rules of `pest::unicode` are reported without their path.
            one("slice of a built-in", slice(p, r), vec![last(p)])
        }
        8 => {
            let p = *r.pick(&["pest::stack::peek", "pest::stack::pop", "pest::stack::drop", "pest::stack::peek_all", "pest::any", "pest::soi", "pest::eoi", "pest::ascii_digit", "pest::newline", "pest::unicode::han"]);
            one("arguments for a built-in without parameters", E::call(p, vec![leaf(r)]), vec![last(p)])
        }
        9 => match r.below(3) {
            0 => one("no arguments for push", E::path("pest::stack::push"), vec!["push".into()]),
            1 => one("no arguments for push", E::call("pest::stack::push", vec![]), vec!["push".into()]),
            _ => one("two arguments for push", E::call("pest::stack::push", vec![leaf(r), leaf(r)]), vec!["push".into()]),
        },
        10 => {
            let p = *r.pick(&["pest", "pest::stack", "pest::unicode"]);
            let args = if r.pct(30) { vec![leaf(r)] } else { vec![] };
            one("a module used as a rule", if r.pct(60) { E::path(p) } else { E::call(p, args) }, vec![last(p)])
        }
        11 => {
            let (p, ..) = all.get(r.below(all.len()))?;
            one("a path through a rule", E::path(&format!("{p}::{}", last(p))), vec![])
        }
        _ => None,
    };
    if let Some((kind, e, named)) = found {
        let x = &mut g.modules[m].rules[at];
        let mut n = r.below(x.expr.size());
        x.expr = match r.below(3) {
            0 => replace(&x.expr, &mut n, &|_| e.clone()),
            // Separators stay directly under their repetition.
            1 => replace(&x.expr, &mut n, &|o| if matches!(o, E::Sep(..)) { e.clone() } else { E::Choice(Box::new(o.clone()), Box::new(e.clone())) }),
            _ => replace(&x.expr, &mut n, &|o| if matches!(o, E::Sep(..)) { e.clone() } else { E::Neg(Box::new(E::Seq(Box::new(e.clone()), Box::new(o.clone()), Tr::None))) }),
        };
        return Some(Mistake { kind, named });
    }
    let module = &mut g.modules[m];
    match kind {
        12 => {
            let named: Vec<Rule> = module.rules.iter().filter(|x| !x.is_trivia() && !(x.silent && !x.args.is_empty())).cloned().collect();
            let mut again = named.get(r.below(named.len()))?.clone();
            let name = again.name.clone();
            if r.pct(60) {
                again.expr = E::str("again");
            }
            let k = r.below(module.rules.len() + 1);
            module.rules.insert(k, again);
            Some(Mistake { kind: "a rule defined twice", named: vec![name] })
        }
        13 => {
            let alias = module.imports.get(r.below(module.imports.len()))?.alias.clone();
            module.rules.push(Rule::new(&alias, E::str("again")));
            Some(Mistake { kind: "a rule with the name of an import", named: vec![alias] })
        }
        14 => {
            let p = *r.pick(&["pest::zz_none", "pest::unicode::zz_none", "pest::stack::zz_none"]);
            module.imports.push(Import { alias: "zz".into(), kind: ImportKind::Builtin(vec![]), text: format!("use {p} as zz") });
            // The search goes on from the outermost module, and the message is about its end.
            Some(Mistake { kind: "import of an undefined built-in", named: vec!["zz_none".into(), "pest".into()] })
        }
        15 | 16 => {
            let (name, tr, text) = if kind == 15 { ("~", Tr::Opt, "`~") } else { ("^", Tr::Man, "`^") };
            module.rules.retain(|x| x.name != name);
            let places: Vec<usize> = module.rules.iter().enumerate().filter(|(_, x)| !(x.silent && !x.args.is_empty())).map(|x| x.0).collect();
            let x = &mut module.rules[*places.get(r.below(places.len()))?];
            let mut n = r.below(x.expr.size());
            let rep = r.pct(40);
            x.expr = replace(&x.expr, &mut n, &|o| match o {
                E::Sep(i, _) => E::Sep(i.clone(), tr),
                o if rep => E::Rep(Box::new(E::Sep(Box::new(E::Seq(Box::new(E::str("q")), Box::new(o.clone()), Tr::None)), tr))),
                o => E::Seq(Box::new(o.clone()), Box::new(E::str("q")), tr),
            });
            // Some generated names contain it already: the message says what to define.
            Some(Mistake { kind: if kind == 15 { "undefined optional trivia" } else { "undefined mandatory trivia" }, named: vec![text.into()] })
        }
        17 => {
            // Silent rules with parameters are expanded, which must end.
            let n = 1 + r.below(3);
            for k in 0..n {
                let next = format!("zz_loop{}", (k + 1) % n);
                let body = E::Choice(Box::new(E::path("p")), Box::new(E::Seq(Box::new(E::str("(")), Box::new(E::call(&next, vec![if r.pct(50) { E::path("p") } else { E::Opt(Box::new(E::path("p"))) }])), Tr::None)));
                let j = r.below(module.rules.len() + 1);
                module.rules.insert(j, Rule { name: format!("zz_loop{k}"), args: vec!["p".into()], silent: true, expr: body, doc: vec![] });
            }
            if r.pct(60) {
                module.rules.push(Rule::new("zz_use", E::call("zz_loop0", vec![E::str("x")])));
            }
            Some(Mistake { kind: "a recursive silent rule with parameters", named: vec!["zz_loop".into()] })
        }
        18 => {
            let mut t = module.rules.iter().find(|x| x.is_trivia())?.clone();
            if r.pct(60) {
                t.expr = E::str("again");
            }
            let name = t.name.clone();
            let k = r.below(module.rules.len() + 1);
            module.rules.insert(k, t);
            Some(Mistake { kind: "trivia defined twice", named: vec![name] })
        }
        19 => {
            let i = module.imports.get(r.below(module.imports.len()))?.clone();
            // The same name for something else.
            let text = format!("use pest::{} as {}", r.pick(&["any", "newline", "stack"]), i.alias);
            let k = r.below(module.imports.len() + 1);
            module.imports.insert(k, Import { alias: i.alias.clone(), kind: ImportKind::Builtin(vec![]), text });
            Some(Mistake { kind: "two imports of the same name", named: vec![i.alias] })
        }
        20..=22 => {
            let with: Vec<usize> = module.rules.iter().enumerate().filter(|(_, x)| !x.args.is_empty()).map(|x| x.0).collect();
            let at = if with.is_empty() || r.pct(30) {
                // A parameter may have the name of a rule, which is then not meant.
                let p = if r.pct(30) && !module.rules[0].is_trivia() { module.rules[0].name.clone() } else { "zz_p".to_string() };
                let k = r.below(module.rules.len() + 1);
                let body = E::Seq(Box::new(E::path(&p)), Box::new(E::str("q")), Tr::None);
                module.rules.insert(k, Rule { name: "zz_params".into(), args: vec![p], silent: r.pct(50), expr: body, doc: vec![] });
                k
            } else {
                *r.pick(&with)
            };
            let x = &mut module.rules[at];
            let p = r.pick(&x.args).clone();
            if kind == 22 {
                let k = r.below(x.args.len() + 1);
                x.args.insert(k, p.clone());
                return Some(Mistake { kind: "two parameters of the same name", named: vec![p] });
            }
            let e = if kind == 20 { E::call(&p, (0..1 + r.below(2)).map(|_| leaf(r)).collect()) } else { slice(&p, r) };
            // Anywhere, also in the arguments of calls.
            let mut n = r.below(x.expr.size());
            let keep = r.pct(60);
            x.expr = replace(&x.expr, &mut n, &|o| if !keep || matches!(o, E::Sep(..)) { e.clone() } else { E::Choice(Box::new(o.clone()), Box::new(e.clone())) });
            Some(Mistake { kind: if kind == 20 { "arguments for a parameter" } else { "slice of a parameter" }, named: vec![p] })
        }
        _ => unreachable!(),
    }
}
const KINDS: usize = 23;

fn reject(c: &mut Ctx) {
    let dir = scratch(c);
    here(&dir);
    for i in c.mine(9_000 * c.scale) {
        let mut r = Rng::derive(c.seed, "reject", i);
        let kind = r.below(KINDS);
        let p = match kind {
            2 | 13 | 19 => "modules",
            4 | 5 | 20..=22 if r.pct(50) => "meta",
            _ => *r.pick(PROFILES),
        };
        let mut g = ggen::grammar(c.seed ^ 77, p, i);
        use_parameters(&mut g);
        let Some(m) = spoil(&mut g, &mut r, kind) else { continue };
        let noisy = r.pct(30);
        let text = |k: usize, x: &Module| if noisy { Style::noisy(c.seed ^ i ^ k as u64).module(x) } else { Style::plain().module(x) };
        let attr = if g.modules.len() == 1 && r.pct(60) { inline(&text(0, &g.modules[0])) } else { put(&dir, &g, text) };
        let mut attrs = vec![attr];
        for k in ["no_pair", "no_getter", "box_rules_only_if_needed"] {
            if r.pct(20) {
                attrs.push(format!("#[{k}]"));
            }
        }
        let case = attrs.join("\n") + &show(&g);
        c.watch.enter(|| case);
        let out = derive(&attrs, true);
        c.watch.leave();
        c.rep.count("mistakes", 1);
        c.rep.count(&format!("mistake:{}", m.kind), 1);
        c.nontrivial(&show(&g));
        match out {
            Ok(t) if !t.contains("compile_error") => c.rep.violation("accepted", "a grammar with a mistake is rejected when the parser is generated", &[("mistake", m.kind), ("about", &format!("{:?}", m.named)), ("grammar", &show(&g))]),
            Ok(t) | Err(t) => {
                if !m.named.is_empty() && !m.named.iter().any(|n| t.contains(n.as_str())) {
                    c.rep.violation("message", "the rejection names what is wrong", &[("mistake", m.kind), ("about", &format!("{:?}", m.named)), ("message", &t), ("grammar", &show(&g))]);
                }
                if c.rep.samples.len() < 12 && r.pct(5) {
                    c.rep.sample(format!("{}: {}", m.kind, t.chars().take(160).collect::<String>()));
                }
            }
        }
    }
    attributes(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}
/// Misused attributes.
fn attributes(c: &mut Ctx, dir: &Path) {
    write(&dir.join("ok.pest"), "a = \"a\"\n");
    write(&dir.join("bad.pest"), "a = = \"a\"\n");
    std::fs::create_dir_all(dir.join("folder")).unwrap();
    std::fs::write(dir.join("bytes.pest"), b"a = \"\xff\"\n").unwrap();
    let ok = "#[grammar = \"ok.pest\"]";
    let cases: Vec<(Vec<&str>, bool, &str)> = vec![
        (vec![], false, "grammar"),
        (vec!["#[no_pair]"], false, "grammar"),
        (vec!["#[other = 3]"], false, "grammar"),
        (vec![ok], true, ""),
        (vec!["#[doc = \"text\"]", ok, "#[derive(Clone)]"], true, ""),
        (vec!["#[grammar = 3]"], false, "grammar"),
        (vec!["#[grammar]"], false, "grammar"),
        (vec!["#[grammar(\"ok.pest\")]"], false, "grammar"),
        (vec!["#[grammar_inline = true]"], false, "grammar_inline"),
        (vec!["#[grammar_inline]"], false, "grammar_inline"),
        (vec!["#[grammar_inline(\"a\")]"], false, "grammar_inline"),
        (vec!["#[grammar = \"none.pest\"]"], false, "none.pest"),
        (vec![ok, "#[grammar = \"none.pest\"]"], false, "none.pest"),
        (vec!["#[grammar = \"folder\"]"], false, "folder"),
        (vec!["#[grammar = \"bytes.pest\"]"], false, "bytes.pest"),
        (vec!["#[grammar = \"bad.pest\"]"], false, "1:5"),
        (vec![ok, "#[grammar_inline = \"b = = b\"]"], false, "1:5"),
        (vec!["#[grammar_inline = \"\"]"], false, "1:1"),
        (vec![ok, "#[grammar_inline = \"a = \\\"again\\\"\"]"], false, "a"),
        (vec![ok, "#[grammar_inline = \"b = a\"]"], true, ""),
        (vec!["#[grammar_inline = \"b = a\"]", ok], true, ""),
        (vec!["#[grammar_inline = \"b = a\"]"], false, "a"),
        (vec![ok, "#[no_pair = 3]"], false, "no_pair"),
        (vec![ok, "#[no_pair = \"true\"]"], false, "no_pair"),
        (vec![ok, "#[no_pair(true)]"], false, "no_pair"),
        (vec![ok, "#[no_span = 1]"], false, "no_span"),
        (vec![ok, "#[no_warnings(false)]"], false, "no_warnings"),
        (vec![ok, "#[no_getter = \"\"]"], false, "no_getter"),
        (vec![ok, "#[box_rules_only_if_needed = 0]"], false, "box_rules_only_if_needed"),
        (vec![ok, "#[box_rules_only_if_needed = false]"], true, ""),
        (vec![ok, "#[no_getter = true]", "#[no_pair = false]"], true, ""),
        (vec![ok, "#[rules_mod]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = 1]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod(\"x\")]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"\"]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"1a\"]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"a b\"]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"a::b\"]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"fn\"]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"a-b\"]"], false, "rules_mod"),
        (vec![ok, "#[rules_mod = \"nodes\"]"], true, ""),
        (vec![ok, "#[rules_mod = \"_n1\"]"], true, ""),
    ];
    for (attrs, good, named) in cases {
        let attrs: Vec<String> = attrs.iter().map(|s| s.to_string()).collect();
        let out = derive(&attrs, true);
        c.rep.count("attribute_cases", 1);
        match &out {
            Ok(_) if good => (),
            Err(m) if !good && m.contains(named) => (),
            Ok(t) if !good && t.contains("compile_error") && t.contains(named) => (),
            _ => c.rep.violation("attribute", "attributes of the derive are accepted exactly when they make sense, and errors name them", &[("attributes", &attrs.join(" ")), ("makes sense", &good.to_string()), ("named", named), ("result", &format!("{out:?}").chars().take(500).collect::<String>())]),
        }
    }
}

// ---- output

/// Tokens of one grammar, as a child process makes them.
fn tokens(seed: u64, i: u64, dir: &Path) -> Result<String, String> {
    let g = grammar(seed, i);
    let attr = put(dir, &g, |_, x| Style::plain().module(x));
    derive(&[attr], true)
}
fn digest() {
    let a: Vec<u64> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
    let (seed, from, to, step) = (a[0], a[1], a[2], a[3]);
    model::watch::install_hook();
    let dir = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    // Backwards: nothing depends on what was generated before.
    let mut all: Vec<u64> = (from..to).step_by(step as usize).collect();
    all.reverse();
    for i in all {
        println!("{i} {:016x}", model::report::hash(&format!("{:?}", tokens(seed, i, &dir))));
    }
}
/// Doc lines of attributes.
fn doc_lines(a: &[syn::Attribute]) -> Vec<String> {
    a.iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(v) => match &v.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
fn name_of(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(s)
}
/// What is declared in one module of the output: the `Rule` enum, its docs, the rules, the modules.
#[derive(Default, Debug, PartialEq)]
struct Decl {
    docs: Vec<String>,
    variants: BTreeMap<String, Vec<String>>,
    structs: BTreeSet<String>,
    mods: BTreeSet<String>,
}
fn declared(items: &[syn::Item], rules_mod: &str, path: &str, out: &mut BTreeMap<String, Decl>) {
    let mut d = Decl::default();
    for it in items {
        match it {
            syn::Item::Enum(e) if e.ident == "Rule" => {
                d.docs = doc_lines(&e.attrs);
                for v in &e.variants {
                    d.variants.insert(name_of(&v.ident), doc_lines(&v.attrs));
                }
            }
            syn::Item::Mod(m) if name_of(&m.ident) == rules_mod => {
                for x in m.content.iter().flat_map(|x| &x.1) {
                    match x {
                        syn::Item::Struct(s) if matches!(s.vis, syn::Visibility::Public(_)) => {
                            d.structs.insert(name_of(&s.ident));
                        }
                        syn::Item::Mod(sub) => {
                            let inner = sub.content.as_ref().map(|x| &x.1[..]).unwrap_or(&[]);
                            // Modules of grammars have rules of their own; others are helpers.
                            if inner.iter().any(|x| matches!(x, syn::Item::Enum(e) if e.ident == "Rule")) {
                                let name = name_of(&sub.ident);
                                declared(inner, rules_mod, &format!("{path}::{name}"), out);
                                d.mods.insert(name);
                            }
                        }
                        _ => (),
                    }
                }
            }
            _ => (),
        }
    }
    out.insert(path.to_string(), d);
}
fn wanted(g: &Grammar, m: usize, path: &str, out: &mut BTreeMap<String, Decl>) {
    let x = &g.modules[m];
    let mut d = Decl { docs: x.doc.clone(), ..Default::default() };
    d.variants.insert("EOI".into(), vec![]);
    for r in x.rules.iter().filter(|r| !r.is_trivia() && !(r.silent && !r.args.is_empty())) {
        d.variants.insert(r.name.clone(), r.doc.clone());
        d.structs.insert(r.name.clone());
    }
    for i in &x.imports {
        if let ImportKind::File(k) = i.kind {
            d.variants.insert(i.alias.clone(), vec![]);
            d.mods.insert(i.alias.clone());
            wanted(g, k, &format!("{path}::{}", i.alias), out);
        }
    }
    out.insert(path.to_string(), d);
}
/// Paths in `include_str!`.
fn includes(f: &syn::File) -> BTreeSet<PathBuf> {
    struct V(BTreeSet<PathBuf>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if m.path.segments.last().is_some_and(|s| s.ident == "include_str") {
                if let Ok(s) = syn::parse2::<syn::LitStr>(m.tokens.clone()) {
                    let p = PathBuf::from(s.value());
                    self.0.insert(p.canonicalize().unwrap_or(p));
                }
            }
        }
    }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_file(&mut v, f);
    v.0
}
fn one_output(c: &mut Ctx, i: u64, dir: &Path, log: &mut BTreeMap<u64, u64>) {
    let g = grammar(c.seed, i);
    let text = show(&g);
    let mut r = Rng::derive(c.seed, "output", i);
    let first = tokens(c.seed, i, dir);
    c.rep.count("grammars", 1);
    log.insert(i, model::report::hash(&format!("{first:?}")));
    chk!(c, first.is_ok(), "refused", "a valid grammar is generated", "grammar" => text, "message" => first);
    let first = first.unwrap();
    c.rep.count("tokens", first.len() as u64);
    if g.modules.len() > 1 || g.modules[0].rules.len() > 4 {
        c.nontrivial(&text);
    }
    // What it declares.
    let file = syn::parse_file(&first);
    chk!(c, file.is_ok(), "syntax", "the output is Rust", "grammar" => text, "error" => file.err().map(|e| e.to_string()));
    let file = file.unwrap();
    let (mut got, mut want) = (BTreeMap::new(), BTreeMap::new());
    declared(&file.items, "rules", "root", &mut got);
    wanted(&g, 0, "root", &mut want);
    for (k, w) in &want {
        // There may be more structs than rules.
        if let Some(x) = got.get_mut(k) {
            x.structs.retain(|s| w.structs.contains(s));
        }
        let x = got.get(k);
        chk!(c, x == Some(w), "declared", "the output declares the rules, modules and docs of the grammar", "grammar" => text, "module" => k, "got" => x, "want" => w);
        c.rep.count("modules_compared", 1);
        c.rep.count("docs_compared", w.docs.len() as u64 + w.variants.values().map(|x| x.len() as u64).sum::<u64>());
    }
    chk!(c, got.keys().eq(want.keys()), "declared", "the output declares no other modules", "grammar" => text, "got" => got.keys(), "want" => want.keys());
    // Files it depends on.
    let files: BTreeSet<PathBuf> = want_files(&g).into_iter().map(|k| dir.join(&g.modules[k].file).canonicalize().unwrap()).collect();
    let inc = includes(&file);
    chk!(c, inc == files, "include", "the output includes exactly the grammar files it was made of", "grammar" => text, "got" => inc, "want" => files);
    c.rep.count("includes_compared", files.len() as u64);
    // Again, and after a failure.
    if r.pct(30) {
        let _ = derive(&[inline("a = b")], true);
    }
    let attr = put(dir, &g, |_, x| Style::plain().module(x));
    let again = derive(&[attr.clone()], true);
    chk!(c, again.as_deref() == Ok(&first[..]), "again", "generating again gives the same", "grammar" => text, "difference" => differ(&first, &again));
    // On other threads, at once.
    if i % 8 < 3 {
        let all: Vec<_> = std::thread::scope(|s| (0..3).map(|_| s.spawn(|| derive(&[attr.clone()], true))).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
        for x in all {
            c.rep.count("generated_on_threads", 1);
            chk!(c, x.as_deref() == Ok(&first[..]), "thread", "generating on another thread gives the same", "grammar" => text, "difference" => differ(&first, &x));
        }
    }
    // Without the files.
    let bare = derive(&[attr], false);
    chk!(c, bare.as_ref().is_ok_and(|x| !x.contains("include_str")), "include-off", "without include_grammar nothing is included", "grammar" => text);
    let bare = bare.unwrap();
    // Layout makes no difference.
    let attr = put(dir, &g, |k, x| Style::noisy(c.seed ^ i.wrapping_mul(31) ^ k as u64).module(x));
    let noisy = derive(&[attr], false);
    c.rep.count("layouts", 1);
    chk!(c, noisy.as_deref() == Ok(&bare[..]), "layout", "layout makes no difference", "grammar" => text, "noisy" => std::fs::read_to_string(dir.join(&g.modules[0].file)).unwrap(), "difference" => differ(&bare, &noisy));
    // Inline, whole and in parts.
    let _ = put(dir, &g, |_, x| Style::plain().module(x));
    let whole = derive(&[inline(&Style::plain().module(&g.modules[0]))], true);
    let whole = whole.map(|x| if g.modules.len() == 1 { x } else { String::new() });
    let bare_inline = derive(&[inline(&Style::plain().module(&g.modules[0]))], false);
    chk!(c, bare_inline.as_deref() == Ok(&bare[..]), "inline", "an inline grammar is generated like a file", "grammar" => text, "difference" => differ(&bare, &bare_inline));
    let _ = whole;
    let rules = &g.modules[0].rules;
    if r.pct(50) {
        places(c, &g, &mut r, dir, &bare, &text);
    }
    if rules.len() > 1 {
        let _ = put(dir, &g, |_, x| Style::plain().module(x));
        let k = 1 + r.below(rules.len() - 1);
        let mut parts = vec![g.modules[0].clone(), g.modules[0].clone()];
        parts[0].rules.truncate(k);
        parts[1].rules.drain(..k);
        parts[1].imports.clear();
        // The docs of the parts are the docs of the whole, in order.
        let d = r.below(parts[0].doc.len() + 1);
        parts[0].doc.truncate(d);
        parts[1].doc.drain(..d);
        let mut attrs = vec![];
        for (n, p) in parts.iter().enumerate() {
            let t = Style::plain().module(p);
            if r.pct(50) {
                attrs.push(inline(&t));
            } else {
                write(&dir.join(format!("part{n}.pest")), &t);
                attrs.push(format!("#[grammar = \"part{n}.pest\"]"));
            }
        }
        let split = derive(&attrs, false);
        c.rep.count("splits", 1);
        c.rep.count("docs_split", (d > 0 && d < g.modules[0].doc.len()) as u64);
        chk!(c, split.as_deref() == Ok(&bare[..]), "sources", "several sources are one grammar", "grammar" => text, "split at" => k, "difference" => differ(&bare, &split));
    }
}
/// The file of a grammar is searched in the package, then in its `src`; it may have any name.
fn places(c: &mut Ctx, g: &Grammar, r: &mut Rng, dir: &Path, bare: &str, text: &str) {
    let _ = std::fs::remove_dir_all(dir);
    let name = format!("{}{}", r.pick(&["main", "Grammar", "my grammar", "x.y", "é"]), r.pick(&[".pest", ".txt", ".grammar", "", ".pest3", ".PEST", ".pest.txt"]));
    let sub = *r.pick(&["", "", "", "in/", "in.pest/", "a/b.pest/"]);
    let name = format!("{sub}{name}");
    // The package's directory may have any name, too.
    let dir = &dir.join(r.pick(&["pkg", "pkg.pest"]));
    here(dir);
    let src = r.pct(50);
    let root = if src { dir.join("src") } else { dir.to_path_buf() };
    for (k, m) in g.modules.iter().enumerate() {
        let f = if k == 0 { name.clone() } else { format!("{sub}{}", m.file) };
        write(&root.join(f), &Style::plain().module(m));
    }
    let decoy = !src && r.pct(70);
    if decoy {
        write(&dir.join("src").join(&name), *r.pick(&["decoy = \"decoy\"\n", "a = = b", ""]));
    } else if src && r.pct(50) {
        std::fs::create_dir_all(dir.join("other")).unwrap();
        write(&dir.join("other").join(name.rsplit('/').next().unwrap()), "decoy = \"decoy\"\n");
    }
    let attr = format!("#[grammar = {name:?}]");
    let with = derive(&[attr.clone()], true);
    let without = derive(&[attr], false);
    c.rep.count("places", 1);
    c.rep.count("places_with_decoy", decoy as u64);
    chk!(c, without.as_deref() == Ok(bare), "place", "a grammar is read from the package's directory, or else from its src", "grammar" => text, "file" => name, "in src" => src, "another in src" => decoy, "difference" => differ(bare, &without));
    let files: BTreeSet<PathBuf> = want_files(g).into_iter().map(|k| root.join(if k == 0 { name.clone() } else { format!("{sub}{}", g.modules[k].file) }).canonicalize().unwrap()).collect();
    let inc = with.as_ref().ok().and_then(|t| syn::parse_file(t).ok()).map(|f| includes(&f));
    chk!(c, inc.as_ref() == Some(&files), "include", "the output includes exactly the grammar files it was made of", "grammar" => text, "got" => inc, "want" => files);
    c.rep.count("includes_compared", files.len() as u64);
    c.rep.count("places_with_imports", (files.len() > 1) as u64);
    here(dir.parent().unwrap());
}
fn want_files(g: &Grammar) -> BTreeSet<usize> {
    let mut seen: BTreeSet<usize> = [0].into();
    let mut todo = vec![0];
    while let Some(k) = todo.pop() {
        for i in &g.modules[k].imports {
            if let ImportKind::File(f) = i.kind {
                if seen.insert(f) {
                    todo.push(f);
                }
            }
        }
    }
    seen
}
fn differ(a: &str, b: &Result<String, String>) -> String {
    match b {
        Err(m) => format!("rejected: {m}"),
        Ok(b) => {
            let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| s.as_bytes()[k.saturating_sub(80).min(s.len())..(k + 160).min(s.len())].iter().map(|b| *b as char).collect::<String>();
            format!("at {k}: …{}… / …{}…", cut(a), cut(b))
        }
    }
}
fn output(c: &mut Ctx) {
    let dir = scratch(c);
    here(&dir);
    let n = 1200 * c.scale;
    let mut log = BTreeMap::new();
    for i in c.mine(n) {
        let case = show(&grammar(c.seed, i));
        c.watch.enter(|| case);
        one_output(c, i, &dir, &mut log);
        c.watch.leave();
    }
    // Two other processes, in the other order.
    for k in 0..2 {
        let child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["digest".to_string(), c.seed.to_string(), c.shard.to_string(), n.to_string(), c.shards.to_string()])
            .env("CARGO_MANIFEST_DIR", &dir)
            .env("VERIF_CHILD", k.to_string())
            .stderr(std::process::Stdio::inherit())
            .output()
            .expect("child");
        assert!(child.status.success(), "the child process failed: {}", child.status);
        for l in String::from_utf8(child.stdout).unwrap().lines() {
            let (i, h) = l.split_once(' ').unwrap();
            let i: u64 = i.parse().unwrap();
            c.rep.count("compared_between_processes", 1);
            if log.get(&i).map(|x| format!("{x:016x}")).as_deref() != Some(h) {
                c.rep.violation("process", "another process generates the same", &[("index", &i.to_string()), ("grammar", &show(&grammar(c.seed, i)))]);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// Grammars with some hundred rules: generating takes seconds, however they refer to each other.
const MANY: &[(&str, fn(usize) -> String)] = &[
    ("rules", |n| (0..n).map(|i| format!("r{i} = \"b\"\n")).collect()),
    ("a chain", |n| (0..n).map(|i| format!("r{i} = \"b\" - r{}\n", i + 1)).collect::<String>() + &format!("r{n} = \"c\"")),
    ("a chain, backwards", |n| (0..n).rev().map(|i| format!("r{i} = \"b\" - r{}\n", i + 1)).collect::<String>() + &format!("r{n} = \"c\"")),
    ("a ring", |n| (0..n).map(|i| format!("r{i} = (\"b\" - r{})?\n", (i + 1) % n)).collect()),
    ("a chain of options", |n| (0..n).map(|i| format!("r{i} = (r{} - \"a\")? - \"b\"\n", i + 1)).collect::<String>() + &format!("r{n} = \"c\"")),
    ("a net", |n| (0..n).map(|i| format!("r{i} = \"b\" - (r{} | r{})\n", (i * 7 + 1) % n, (i * 13 + 5) % n)).collect()),
    ("pairs of rules", |n| (0..n).map(|i| format!("r{i} = \"b\" - r{}?\n", i ^ 1)).collect()),
    ("literals", |n| format!("a = {}\"b\"", (0..n).map(|i| format!("\"c{i}\" - ")).collect::<String>())),
    ("references", |n| format!("b = \"b\"\na = {}\"b\"", "b - ".repeat(n))),
    ("references in options", |n| format!("b = \"b\"\na = {}\"b\"", "(b | \"c\")? - ".repeat(n / 2))),
    ("calls", |n| "m(x) = \"a\" - x\n".to_string() + &(0..n).map(|i| format!("r{i} = m(\"b{i}\")\n")).collect::<String>()),
    ("silent calls", |n| "m(x) = _{ \"a\" - x }\n".to_string() + &(0..n).map(|i| format!("r{i} = m(\"b{i}\")\n")).collect::<String>()),
    ("trivia", |n| "~ = \" \"*\n^ = c+\nc = \"/\"\n".to_string() + &(0..n).map(|i| format!("r{i} = \"a\" ~ \"b\"^* ~ r{}?\n", (i + 1) % n)).collect::<String>()),
    ("documented rules", |n| (0..n).map(|i| format!("/// One.\n/// {i}\nr{i} = \"b\"\n")).collect()),
    ("predicates", |n| format!("a = {}\"b\"", "!".repeat(n / 2))),
];
fn growth(c: &mut Ctx) {
    const N: usize = 300;
    for k in c.mine(MANY.len() as u64) {
        let (name, make) = MANY[k as usize];
        let text = make(N);
        c.watch.enter(|| format!("{N}: {name}"));
        let start = tools::cpu_time();
        let r = derive(&[inline(&text)], false);
        let took = tools::cpu_time() - start;
        c.watch.leave();
        c.rep.count("large_generated", 1);
        c.rep.max("milliseconds", took.as_millis() as u64);
        c.rep.sample(format!("{N}: {name}: {took:?}"));
        if let Err(m) = &r {
            c.rep.violation("large", "a large grammar is refused", &[("grammar", &text[..text.len().min(400)]), ("message", m)]);
        }
        if took > std::time::Duration::from_secs(12) {
            c.rep.violation("slow", "generating code of a few hundred rules takes minutes", &[("kind", name), ("took", &format!("{took:?}"))]);
        }
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("digest") {
        return digest();
    }
    tools::main_(|c, facets| {
        for f in facets {
            match f.as_str() {
                "reject" => reject(c),
                "output" => output(c),
                "growth" => growth(c),
                _ => panic!("facet {f}"),
            }
        }
    })
}
