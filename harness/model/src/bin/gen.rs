//! Emits a cargo project whose binaries contain generated grammars compiled with the real derive.
//! `gen OUTDIR PROFILE SEED FROM COUNT BINS HARNESS_DIR LOCKFILE`
use model::ast::ImportKind;
use model::interp::{self, N};
use model::rng::Rng;
use model::{expect, ggen, render};
use std::collections::BTreeSet;
use std::fmt::Write;

fn arities(n: &N, seq: &mut BTreeSet<usize>, ch: &mut BTreeSet<usize>) {
    match n {
        N::Seq(v) => {
            seq.insert(v.len());
            v.iter().for_each(|x| arities(&x.1, seq, ch));
        }
        N::Choice(v) => {
            ch.insert(v.len());
            v.iter().for_each(|x| arities(x, seq, ch));
        }
        N::Bi(_, x) | N::Pos(x) | N::Neg(x) | N::Opt(x) | N::Push(x) => arities(x, seq, ch),
        N::Rep(x, ..) => arities(x, seq, ch),
        N::Call(_, a) => a.iter().for_each(|x| arities(x, seq, ch)),
        _ => {}
    }
}
/// Rust path of a rule from its model name, e.g. `a(b(x))` -> `rules::r#a::rules::r#b::rules::r#x`.
fn path_in(module: &str, name: &str) -> String {
    let parts: Vec<&str> = name.trim_end_matches(')').split('(').collect();
    parts.iter().map(|p| format!("{module}::r#{p}")).collect::<Vec<_>>().join("::")
}
/// Attributes and shape of the derived type: those of a plain derive, or (profile "opts") any.
struct Opts {
    attrs: Vec<String>,
    module: String,
    no_pair: bool,
    no_getter: bool,
    parser_decl: &'static str,
    parser: &'static str,
    /// How many sources the root module is split into.
    sources: usize,
}
/// Methods every node has through traits: no test for an absent getter of this name.
const TRAIT_METHODS: &[&str] = &["clone", "eq", "ne", "fmt", "hash", "borrow", "borrow_mut", "into", "try_into", "to_owned", "type_id", "cmp", "partial_cmp", "walk"];
fn opts(seed: u64, profile: &str, idx: u64) -> Opts {
    let mut o = Opts { attrs: vec![], module: "rules".into(), no_pair: false, no_getter: false, parser_decl: "pub struct Parser__;", parser: "Parser__", sources: 1 };
    if profile != "opts" {
        return o;
    }
    let mut r = Rng::derive(seed, "attributes", idx);
    for k in ["no_pair", "no_span", "no_warnings", "box_rules_only_if_needed", "no_getter"] {
        // Absent, or given in one of its three forms.
        let on = match (r.pct(if k == "box_rules_only_if_needed" { 70 } else { 45 }), r.below(4)) {
            (false, _) => continue,
            (_, 0) => {
                o.attrs.push(format!("#[{k} = false]"));
                false
            }
            (_, 1) => {
                o.attrs.push(format!("#[{k} = true]"));
                true
            }
            _ => {
                o.attrs.push(format!("#[{k}]"));
                true
            }
        };
        match k {
            "no_pair" => o.no_pair = on,
            "no_getter" => o.no_getter = on,
            _ => (),
        }
    }
    if r.pct(50) {
        o.module = r.pick(&["nodes", "tree", "_rules", "RulesMod", "rules2", "rules", "x"]).to_string();
        o.attrs.push(format!("#[rules_mod = {:?}]", o.module));
    }
    if r.pct(40) {
        (o.parser_decl, o.parser) = *r.pick(&[("pub enum Parser__ {}", "Parser__"), ("pub struct Parser__<T>(std::marker::PhantomData<T>);", "Parser__<u8>"), ("pub struct Parser__<'a, T: Clone, const N: usize>(std::marker::PhantomData<&'a T>) where T: Copy;", "Parser__<'static, u8, 3>"), ("#[allow(dead_code)] pub struct Parser__ { field: u8 }", "Parser__")]);
    }
    o.sources = 1 + r.weighted(&[5, 4, 2]);
    o
}
fn write(p: &std::path::Path, s: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, s).unwrap();
}
fn grammar_mod(out: &std::path::Path, seed: u64, profile: &str, idx: u64) -> String {
    let g = ggen::grammar(seed, profile, idx);
    let prog = interp::compile(&g).unwrap_or_else(|e| panic!("grammar {idx}: {e:?}"));
    let mut o = String::new();
    let noisy = idx % 3 == 2;
    let text = |m| if profile == "lits" { render::Style::spelt(seed ^ idx).module(m) } else if noisy { render::Style::noisy(seed ^ idx).module(m) } else { render::Style::plain().module(m) };
    let op = opts(seed, profile, idx);
    let path = |name: &str| path_in(&op.module, name);
    let mut attrs: Vec<String> = vec![];
    // The root module, in as many sources as asked for.
    let mut parts = vec![g.modules[0].clone(); op.sources.min(g.modules[0].rules.len())];
    if parts.len() > 1 {
        let mut r = Rng::derive(seed, "sources", idx);
        parts.iter_mut().for_each(|m| m.rules.clear());
        parts.iter_mut().skip(1).for_each(|m| m.imports.clear());
        // In order: the rules of a report are sorted as they are defined.
        // Every source needs a rule.
        let rules = &g.modules[0].rules;
        let mut cuts: BTreeSet<usize> = [0].into();
        while cuts.len() < parts.len() {
            cuts.insert(r.below(rules.len()));
        }
        let cuts: Vec<usize> = cuts.into_iter().chain([rules.len()]).collect();
        for (k, m) in parts.iter_mut().enumerate() {
            m.rules = rules[cuts[k]..cuts[k + 1]].to_vec();
        }
    }
    o.push_str("#[derive(pest3::Parser)]\n");
    if profile != "lits" && g.modules.len() == 1 && !g.modules[0].imports.iter().any(|i| matches!(i.kind, ImportKind::File(_))) {
        for m in &parts {
            attrs.push(format!("#[grammar_inline = {:?}]", text(m)));
        }
    } else {
        for m in &g.modules[1..] {
            write(&out.join(format!("grammars/g{idx}")).join(&m.file), &text(m));
        }
        for (k, m) in parts.iter().enumerate() {
            if k % 2 == 0 {
                let file = if k == 0 { m.file.clone() } else { format!("other{k}.pest") };
                write(&out.join(format!("grammars/g{idx}")).join(&file), &text(m));
                attrs.push(format!("#[grammar = \"grammars/g{idx}/{file}\"]"));
            } else {
                attrs.push(format!("#[grammar_inline = {:?}]", text(m)));
            }
        }
    }
    if profile == "opts" {
        let mut r = Rng::derive(seed, "attribute order", idx);
        for a in &op.attrs {
            attrs.insert(r.below(attrs.len() + 1), a.clone());
        }
        let _ = writeln!(o, "// options: {}", attrs.iter().filter(|a| !a.contains("grammar")).cloned().collect::<Vec<_>>().join(" "));
    }
    attrs.iter().for_each(|a| {
        let _ = writeln!(o, "{a}");
    });
    let _ = writeln!(o, "{}", op.parser_decl);
    let (mut seq, mut ch) = (BTreeSet::new(), BTreeSet::new());
    for t in prog.all_trivia() {
        arities(t, &mut seq, &mut ch);
    }
    let mut api = String::new();
    let plain: Vec<usize> = (0..prog.rules.len()).filter(|i| prog.rules[*i].argc == 0).collect();
    for (ri, r) in prog.rules.iter().enumerate() {
        if r.silent && r.argc > 0 {
            continue;
        }
        arities(&r.body, &mut seq, &mut ch);
        let gp: Vec<String> = (0..r.argc).map(|i| format!("A{i}")).collect();
        let gpb: Vec<String> = gp.iter().map(|a| format!("{a}: rt::Walk")).collect();
        let p = path(&r.name);
        let list = |v: &[String]| v.iter().map(|x| format!(", {x}")).collect::<String>();
        let _ = writeln!(
            o,
            "impl<'i{}> rt::Walk for {p}<'i{}> {{ fn walk(&self, o: &mut String) {{ rt::walk::rule({:?}, &self.span, o, |o| rt::Walk::walk(&self.content, o)) }} }}",
            list(&gpb),
            list(&gp),
            r.name
        );
        let getters: Vec<String> = expect::getters(&prog, ri).keys().map(|k| format!("r#{k}")).collect();
        let mut rng = Rng::derive(seed, "metaargs", idx * 1000 + ri as u64);
        let args: Vec<usize> = (0..r.argc).map(|_| *rng.pick(&plain)).collect();
        let ty = format!("{p}<'i{}>", args.iter().map(|a| format!(", {}<'i>", path(&prog.rules[*a].name))).collect::<String>());
        let names: Vec<String> = args.iter().map(|a| format!("{:?}", prog.rules[*a].name)).collect();
        if op.no_pair {
            // Refused by the compiler if the derive implements it as well.
            let _ = writeln!(o, "impl<'i{0}> pest3::typed::PairContainer<Rule> for {p}<'i{0}> {{ fn for_each_child_pair(&self, _: &mut impl FnMut(pest3::token::Pair<Rule>)) {{}} fn for_self_or_for_each_child_pair(&self, _: &mut impl FnMut(pest3::token::Pair<Rule>)) {{}} }}", list(&gp));
        }
        let mut getters = getters;
        if op.no_getter {
            for k in getters.drain(..).filter(|k| !TRAIT_METHODS.contains(&&k[2..])) {
                let _ = writeln!(o, "const _: () = {{ trait No {{ fn {k}(&self) -> rt::Absent; }} impl<T> No for T {{ fn {k}(&self) -> rt::Absent {{ rt::Absent }} }} fn absent<'i>(x: &{ty}) -> rt::Absent {{ x.{k}() }} }};");
            }
        }
        let _ = writeln!(
            api,
            "        rt::api!(Rule, {}, {:?}, &[{}], 'i, {ty}, {}, [{}]{}),",
            op.parser,
            r.name,
            names.join(", "),
            if op.no_pair { "none" } else if r.silent { "silent" } else { "pairs" },
            getters.join(", "),
            if profile == "safe" { ", full" } else { "" }
        );
    }
    for n in seq.into_iter().filter(|n| *n > 16) {
        let ty: String = (0..n).map(|i| format!(" A{i}, T{i},")).collect();
        let fs: String = (0..n).map(|i| format!("[A{i} T{i} field_{i}]")).collect();
        let _ = writeln!(o, "rt::walk_seq!(generics::Sequence{n}<{ty}>, {fs});");
    }
    for n in ch.into_iter().filter(|n| *n > 16) {
        let ty: String = (0..n).map(|i| format!(" A{i},")).collect();
        let fs: String = (0..n).map(|i| format!("[A{i} Choice{i} {i}]")).collect();
        let _ = writeln!(o, "const _: () = {{ use generics::Choice{n}; rt::walk_choice!(Choice{n}, {n}, generics::Choice{n}<{ty}>, {fs}); }};");
    }
    let _ = writeln!(o, "pub fn api() -> std::vec::Vec<rt::Api<Rule>> {{\n    std::vec![\n{api}    ]\n}}");
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = std::path::PathBuf::from(&a[1]);
    let (profile, seed, from, count, bins) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap());
    let harness = &a[7];
    write(
        &out.join("Cargo.toml"),
        &format!(
            "[package]\nname = \"gen\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\nautobins = false\n\n[workspace]\n\n[dependencies]\nrt = {{ path = \"{harness}/rt\" }}\npest3 = {{ path = \"/repo/pest\", features = [\"derive\"] }}\npest3_core = {{ path = \"/repo/core\" }}\n\n[profile.dev]\ndebug = 0\nincremental = false\n\n[profile.dev.package.model]\nopt-level = 2\n\n{}",
            (0..bins).map(|b| format!("[[bin]]\nname = \"b{b}\"\npath = \"src/b{b}.rs\"\n\n")).collect::<String>()
        ),
    );
    std::fs::copy(&a[8], out.join("Cargo.lock")).unwrap();
    let mut mains: Vec<(String, String)> = vec![Default::default(); bins as usize];
    for idx in from..from + count {
        write(&out.join(format!("src/g{idx}.rs")), &grammar_mod(&out, seed, profile, idx));
        let m = &mut mains[(idx % bins) as usize];
        let _ = writeln!(m.0, "mod g{idx};");
        let _ = writeln!(m.1, "        rt::runner::Entry {{ idx: {idx}, api: Box::new(g{idx}::api()) }},");
    }
    for (b, (mods, ents)) in mains.iter().enumerate() {
        write(&out.join(format!("src/b{b}.rs")), &format!("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n{mods}\nfn main() {{\n    rt::main(vec![\n{ents}    ]);\n}}\n"));
    }
}
