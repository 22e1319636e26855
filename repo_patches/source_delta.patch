From f17bcbf26e750d9a19aac7d76e3f12fb2d8092fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 01/35] fix: decode raw strings with pounds as their content

---
 meta/src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..b1b80f7 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -633,11 +633,12 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
-
-    let content = pairs.next().unwrap().as_str();
+    // A raw string may begin with some `pound`s before its `quote`.
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str)
+        .unwrap()
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From 1a45561da15d8c88ece2d6ef0457dd85f84b118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 02/35] fix: let pop record the span it matched, as documented

---
 core/src/typed/template/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..87108fd 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -826,9 +826,10 @@ impl<'i, R: RuleType> TypedNode<'i, R> for pop<'i> {
         stack: &mut Stack<Span<'i>>,
         tracker: &mut Tracker<'i, R>,
     ) -> Option<(Position<'i>, Self)> {
+        let start = input;
         match stack.pop() {
             Some(span) => match input.match_string(span.as_str()) {
-                true => Some((input, Self::from(span))),
+                true => Some((input, Self::from(start.span(&input)))),
                 false => None,
             },
             None => {
-- 
2.43.0


From eed80e08069d5a35778445448dfdd010aa77fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 03/35] fix: keep an unescaped quote in a character literal
 instead of panicking

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index b1b80f7..ea6f595 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -879,7 +879,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -946,7 +947,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From 4d9832b2f6e47ded205725e5a49c76d2c62b19cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 04/35] fix: replace a parameter in every argument of a call

---
 meta/src/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index ea6f595..6237bcb 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -238,9 +238,11 @@ impl ParseExpr {
                 let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
                 replaced_lhs || replaced_rhs
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
-                .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
+            Self::Path(_, Some(PathArgs::Call(args))) => {
+                args.iter_mut().fold(false, |replaced, arg| {
+                    arg.expr.replace(arg_name, new_expr) || replaced
+                })
+            }
             _ => false,
         }
     }
-- 
2.43.0


From ddb240b74baf3392d83e38090c55c26dd15d767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 05/35] fix: report arguments in an import as an error instead
 of panicking

---
 meta/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 6237bcb..697acd0 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -338,7 +338,12 @@ fn _parse<P: AsRef<Path>>(
                 };
                 let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 if args.is_some() {
-                    todo!("import module node with arguments.")
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "arguments are not allowed in an import".to_owned(),
+                        },
+                        span_path2,
+                    ));
                 }
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
-- 
2.43.0


From 37b485a093490680ea7b1863a8d9be0cef782b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 06/35] fix: return errors of imported grammars instead of
 panicking

---
 meta/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 697acd0..c5a4d7a 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -389,7 +389,10 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| match err.path() {
+                                    Some(_) => err,
+                                    None => err.with_path(&path.to_string_lossy()),
+                                })?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 95c1f744c38d8f8580a123d02f0a3941eaa90a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 07/35] fix: report cyclic imports instead of overflowing the
 stack

---
 meta/src/parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index c5a4d7a..587fbc5 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -313,7 +313,7 @@ pub enum Import {
 fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
-    cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    cache: &mut HashMap<PathBuf, Option<Arc<GrammarModule>>>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -371,9 +371,20 @@ fn _parse<P: AsRef<Path>>(
                     let path = fs_path;
 
                     let import = {
-                        let module = match cache.get(&path) {
-                            Some(module) => module.clone(),
+                        let key = path.canonicalize().unwrap_or_else(|_| path.clone());
+                        let module = match cache.get(&key) {
+                            Some(Some(module)) => module.clone(),
+                            // The imported grammar is still being parsed.
+                            Some(None) => {
+                                return Err(Error::new_from_span(
+                                    ErrorVariant::CustomError {
+                                        message: format!("cyclic import of {path:?}"),
+                                    },
+                                    span_path2,
+                                ))
+                            }
                             None => {
+                                cache.insert(key.clone(), None);
                                 dependencies.insert(path.clone());
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
@@ -393,7 +404,7 @@ fn _parse<P: AsRef<Path>>(
                                     Some(_) => err,
                                     None => err.with_path(&path.to_string_lossy()),
                                 })?;
-                                cache.insert(path, module.clone());
+                                cache.insert(key, Some(module.clone()));
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
                             }
-- 
2.43.0


From ab90cff0afd34afffeb02a332a089f9d899a76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 08/35] fix: replace all parameters of a silent meta rule at
 once

---
 generator/src/typed/generator.rs | 13 +++++------
 meta/src/parser.rs               | 37 +++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..21f5a65 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -892,12 +892,13 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                 {
                                     assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
                                     let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
-                                    {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
-                                    }
+                                    let args = silent_rule
+                                        .args
+                                        .iter()
+                                        .zip(args)
+                                        .map(|(name, arg)| (name.as_str(), &arg.expr))
+                                        .collect::<Vec<_>>();
+                                    replaced = new_expr.replace_all(&args);
                                     if replaced {
                                         replace_expr = Some(new_expr);
                                     }
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 587fbc5..5d55ccf 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -216,10 +216,22 @@ pub enum ParseExpr {
 
 impl ParseExpr {
     pub fn replace(&mut self, arg_name: &str, new_expr: &ParseExpr) -> bool {
+        self.replace_all(&[(arg_name, new_expr)])
+    }
+    /// Replace several arguments at once.
+    ///
+    /// The new expressions are inserted as they are,
+    /// even if they contain a name that is also to be replaced.
+    pub fn replace_all(&mut self, args: &[(&str, &ParseExpr)]) -> bool {
         match self {
-            Self::Path(p, None) if p.len() == 1 && p[0] == arg_name => {
-                *self = new_expr.clone();
-                true
+            Self::Path(p, None) if p.len() == 1 => {
+                match args.iter().find(|(arg_name, _)| p[0] == *arg_name) {
+                    Some((_, new_expr)) => {
+                        *self = (*new_expr).clone();
+                        true
+                    }
+                    None => false,
+                }
             }
             Self::PosPred(inner)
             | Self::NegPred(inner)
@@ -227,20 +239,15 @@ impl ParseExpr {
             | Self::Rep(inner)
             | Self::RepOnce(inner)
             | Self::RepRange(inner, _)
-            | Self::Separated(inner, _) => inner.expr.replace(arg_name, new_expr),
-            Self::Seq(lhs, rhs, _) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
-                replaced_lhs || replaced_rhs
-            }
-            Self::Choice(lhs, rhs) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
+            | Self::Separated(inner, _) => inner.expr.replace_all(args),
+            Self::Seq(lhs, rhs, _) | Self::Choice(lhs, rhs) => {
+                let replaced_lhs = lhs.expr.replace_all(args);
+                let replaced_rhs = rhs.expr.replace_all(args);
                 replaced_lhs || replaced_rhs
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => {
-                args.iter_mut().fold(false, |replaced, arg| {
-                    arg.expr.replace(arg_name, new_expr) || replaced
+            Self::Path(_, Some(PathArgs::Call(call_args))) => {
+                call_args.iter_mut().fold(false, |replaced, arg| {
+                    arg.expr.replace_all(args) || replaced
                 })
             }
             _ => false,
-- 
2.43.0


From 619bf9f4bd26b6de574807929f9cbe1edf9a1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 09/35] fix: inline silent meta rules inside arguments of other
 rules

---
 generator/src/typed/generator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 21f5a65..9a0fb8c 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -936,6 +936,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                 ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
                     nodes.push(inner);
                 }
+                ParseExpr::Path(_, Some(PathArgs::Call(args))) => {
+                    nodes.extend(args);
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 5bd5f517b8becd9d449235e828a0061e10a80977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 10/35] fix: look silent meta rules up by path, also in
 imported modules

---
 generator/src/typed/generator.rs | 100 ++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 35 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 9a0fb8c..d414c87 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -846,32 +846,67 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
-fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
-    module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
-    let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
-    );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
+/// Prepend `prefix` to the paths of rules in an expression from an imported module.
+fn prepend_prefix(expr: &mut ParseExpr, args: &[String], prefix: &[String]) {
+    match expr {
+        ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) => (),
+        ParseExpr::Path(path, path_args) => {
+            let is_arg = path.len() == 1 && args.contains(&path[0]);
+            if !is_arg && path[0] != "pest" {
+                path.splice(0..0, prefix.iter().cloned());
+            }
+            if let Some(PathArgs::Call(path_args)) = path_args {
+                for arg in path_args {
+                    prepend_prefix(&mut arg.expr, args, prefix);
+                }
+            }
+        }
+        ParseExpr::Seq(left, right, _) | ParseExpr::Choice(left, right) => {
+            prepend_prefix(&mut left.expr, args, prefix);
+            prepend_prefix(&mut right.expr, args, prefix);
         }
-    });
+        ParseExpr::PosPred(inner)
+        | ParseExpr::NegPred(inner)
+        | ParseExpr::Opt(inner)
+        | ParseExpr::Rep(inner)
+        | ParseExpr::RepOnce(inner)
+        | ParseExpr::RepRange(inner, _)
+        | ParseExpr::Separated(inner, _) => prepend_prefix(&mut inner.expr, args, prefix),
+    }
+}
 
+/// Collect silent rules with arguments from a module imported as `prefix`.
+///
+/// Keys, and paths in the rules, are how they are referred to from the importing module.
+fn collect_silent_rules_with_args(
+    prefix: &[String],
+    module: &GrammarModule,
+) -> BTreeMap<Vec<String>, ParseRule> {
+    let mut result = BTreeMap::new();
+    let join = |name: &String| prefix.iter().chain([name]).cloned().collect::<Vec<_>>();
+    for rule in module.rules.iter() {
+        if rule.silent && !rule.args.is_empty() {
+            let mut rule = rule.clone();
+            prepend_prefix(&mut rule.node.expr, &rule.args, prefix);
+            result.insert(join(&rule.name), rule);
+        }
+    }
+    for import in module.imports.iter() {
+        if let Import::File(name, module) = import {
+            result.extend(collect_silent_rules_with_args(&join(name), module));
+        }
+    }
     result
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
+    let silent_rules = collect_silent_rules_with_args(&[], &module);
     let mut new_module = module.clone();
+    for import in new_module.imports.iter_mut() {
+        if let Import::File(_, module) = import {
+            *module = inline_silent_rules_with_args(module.as_ref().clone()).into();
+        }
+    }
     new_module
         .rules
         .retain(|rule| !rule.silent || rule.args.is_empty());
@@ -885,23 +920,18 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                     let mut replace_expr = None;
                     if let ParseExpr::Path(path, args) = &node.expr {
                         if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
+                            if let Some(silent_rule) = silent_rules.get(path) {
+                                assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
+                                let mut new_expr = silent_rule.node.expr.clone();
+                                let args = silent_rule
+                                    .args
                                     .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
-                                    assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
-                                    let mut new_expr = silent_rule.node.expr.clone();
-                                    let args = silent_rule
-                                        .args
-                                        .iter()
-                                        .zip(args)
-                                        .map(|(name, arg)| (name.as_str(), &arg.expr))
-                                        .collect::<Vec<_>>();
-                                    replaced = new_expr.replace_all(&args);
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
+                                    .zip(args)
+                                    .map(|(name, arg)| (name.as_str(), &arg.expr))
+                                    .collect::<Vec<_>>();
+                                replaced = new_expr.replace_all(&args);
+                                if replaced {
+                                    replace_expr = Some(new_expr);
                                 }
                             }
                         }
-- 
2.43.0


From ddba6a3ff343d654c4d497ede6f414b215c31630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 11/35] fix: reject recursive silent meta rules instead of
 inlining forever

---
 generator/src/typed/generator.rs | 47 ++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index d414c87..55f3967 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -899,8 +899,55 @@ fn collect_silent_rules_with_args(
     result
 }
 
+/// Panics if inlining silent rules with arguments would never end.
+fn check_silent_rules_with_args(silent_rules: &BTreeMap<Vec<String>, ParseRule>) {
+    fn collect_calls<'a>(expr: &'a ParseExpr, calls: &mut Vec<&'a Vec<String>>) {
+        match expr {
+            ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) => (),
+            ParseExpr::Path(path, args) => {
+                calls.push(path);
+                if let Some(PathArgs::Call(args)) = args {
+                    args.iter().for_each(|arg| collect_calls(&arg.expr, calls));
+                }
+            }
+            ParseExpr::Seq(left, right, _) | ParseExpr::Choice(left, right) => {
+                collect_calls(&left.expr, calls);
+                collect_calls(&right.expr, calls);
+            }
+            ParseExpr::PosPred(inner)
+            | ParseExpr::NegPred(inner)
+            | ParseExpr::Opt(inner)
+            | ParseExpr::Rep(inner)
+            | ParseExpr::RepOnce(inner)
+            | ParseExpr::RepRange(inner, _)
+            | ParseExpr::Separated(inner, _) => collect_calls(&inner.expr, calls),
+        }
+    }
+    for (start, rule) in silent_rules.iter() {
+        let mut reached = BTreeSet::new();
+        let mut rules = vec![rule];
+        while let Some(rule) = rules.pop() {
+            let mut calls = vec![];
+            collect_calls(&rule.node.expr, &mut calls);
+            for path in calls {
+                assert!(
+                    path != start,
+                    "Silent rule `{}` with arguments cannot be recursive.",
+                    start.join("::"),
+                );
+                if let Some(rule) = silent_rules.get(path) {
+                    if reached.insert(path) {
+                        rules.push(rule);
+                    }
+                }
+            }
+        }
+    }
+}
+
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     let silent_rules = collect_silent_rules_with_args(&[], &module);
+    check_silent_rules_with_args(&silent_rules);
     let mut new_module = module.clone();
     for import in new_module.imports.iter_mut() {
         if let Import::File(_, module) = import {
-- 
2.43.0


From 5f3060570196433697b175eea07eb632ceb25e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 12/35] fix: refer to an aliased built-in rule by its own name
 in generated code

---
 generator/src/typed/module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..52784af 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of the built-in rule, which may be imported with another name.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -99,11 +101,13 @@ impl RuleGenerics {
                 }
             },
             Self::BuiltIn {
+                name,
                 direct,
                 slice,
                 callable,
             } => match args {
                 None => {
+                    let name = format_ident!("r#{}", name);
                     let (lifetime,) =
                         direct.ok_or_else(|| ModuleError::ExpectedArguments(rule_ref.clone()))?;
                     let typename = match lifetime {
@@ -134,6 +138,7 @@ impl RuleGenerics {
                     if let Some(argc) = argc {
                         ModuleError::check_argc(argc, args.len(), rule_ref)?;
                     }
+                    let name = format_ident!("r#{}", name);
                     let typename = quote! { #root::#generics::#name::< #( #args, )* > };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
@@ -270,6 +275,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From f51beb6f56a9ca336f6d88dd9dfc4e231d6115c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 13/35] fix: follow rules_mod in references to imported modules

---
 generator/src/common.rs          | 8 ++++----
 generator/src/typed/generator.rs | 5 +++--
 generator/src/typed/module.rs    | 8 ++++++--
 generator/src/typed/output.rs    | 2 +-
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..79ebc23 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, types: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#types::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#types::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #types::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 55f3967..58d3acd 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -3,7 +3,7 @@ use super::{
     config::Config,
     getter::GetterByName,
     module::{ModuleNode, ModuleSystem},
-    output::{generics, Output, Tracker},
+    output::{generics, types_mod, Output, Tracker},
 };
 use crate::{
     common::generate_include,
@@ -388,7 +388,8 @@ fn process_expr<'g>(
                 )
             });
             let rule_ref = RuleRef::new(prefix, args);
-            mod_sys.resolve(&rule_ref, root).unwrap()
+            let types = types_mod(config.rules_mod.as_deref());
+            mod_sys.resolve(&rule_ref, root, &types).unwrap()
         }
         ParseExpr::PosPred(node) => {
             let inner = process_expr(
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 52784af..e3abc39 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -63,12 +63,13 @@ impl RuleGenerics {
         rule_ref: &RuleRef<'g>,
         args: Option<&ProcessedPathArgs<'g>>,
         root: &TokenStream,
+        types: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
-            quote! {#sec::rules::}
+            quote! {#sec::#types::}
         });
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
@@ -172,6 +173,7 @@ impl<'g> ModuleNode<'g> {
         node: &'g str,
         rule_ref: &RuleRef<'g>,
         args: &Option<ProcessedPathArgs<'g>>,
+        types: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let res = match self {
             Self::Collection(_map) => Err(ModuleError::CollectionCannotBeCalled(rule_ref.clone()))?,
@@ -186,7 +188,7 @@ impl<'g> ModuleNode<'g> {
                 }
                 f(root)
             }
-            Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root)?,
+            Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root, types)?,
         };
         Ok(res)
     }
@@ -360,6 +362,7 @@ impl<'g> ModuleSystem<'g> {
         &self,
         rule_ref: &'_ RuleRef<'g>,
         root: &TokenStream,
+        types: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let rc = self.resolve_node(&rule_ref.path)?;
         let res = rc.get(
@@ -367,6 +370,7 @@ impl<'g> ModuleSystem<'g> {
             rule_ref.path.last().ok_or(ModuleError::EmptyPath)?,
             rule_ref,
             &rule_ref.args,
+            types,
         )?;
         Ok(res)
     }
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From 5e035a62dddf764b0eb7bc7cf0a682c7147e071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 14/35] fix: keep generated code independent of rules named
 Option or Some

---
 core/src/typed/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..8537c56 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,14 +137,14 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> ::core::option::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
                         let (pos, content) = <$inner as $crate::typed::TypedNode<'i, $Rule>>::try_parse_with_partial(input, stack, tracker)?;
                         let content = content.into();
                         let span = input.span(&pos);
-                        Some((pos, Self { content, span }))
+                        ::core::option::Option::Some((pos, Self { content, span }))
                     },
                     $rule
                 )
@@ -153,12 +153,12 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> ::core::option::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
                         let pos = <$inner>::check_with_partial(input, stack, tracker)?;
-                        Some(pos)
+                        ::core::option::Option::Some(pos)
                     },
                     $rule
                 )
-- 
2.43.0


From 41c8a0164b0e28f5431cbab4951677531201be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 15/35] fix: accept the derive attributes
 box_rules_only_if_needed and no_getter

---
 generator/src/typed/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/attr.rs b/generator/src/typed/attr.rs
index 16ea319..b739dc7 100644
--- a/generator/src/typed/attr.rs
+++ b/generator/src/typed/attr.rs
@@ -21,8 +21,10 @@ pub(crate) fn parse_derive(ast: DeriveInput) -> (Ident, Generics, Vec<GrammarSou
             config.no_span = get_bool(attr, "no_span");
         } else if path.is_ident("no_warnings") {
             config.no_warnings = get_bool(attr, "no_warnings");
-        } else if path.is_ident("box_all_rules") {
-            config.box_rules_only_if_needed = get_bool(attr, "box_all_rules");
+        } else if path.is_ident("box_rules_only_if_needed") {
+            config.box_rules_only_if_needed = get_bool(attr, "box_rules_only_if_needed");
+        } else if path.is_ident("no_getter") {
+            config.no_getter = get_bool(attr, "no_getter");
         } else if path.is_ident("rules_mod") {
             let value = get_string(attr, "rules_mod");
             if value.is_empty() {
-- 
2.43.0


From df9e9a7da7a0a7dd3570a14c00b7af58ab2829ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 16/35] fix: return None from Span::get when a bound overflows

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..dd79d0d 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From 74c5033f50b959a2c3be8c9de127be8d77a3b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 17/35] fix: display spans and positions at line starts and
 input ends, and in empty inputs

---
 core/src/formatter.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..a1bc68f 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -64,6 +64,12 @@ fn visualize_ws_and_cntrl(line: &str) -> String {
         .collect()
 }
 
+/// Lines of the input, at least one.
+fn lines(input: &str) -> impl Iterator<Item = &str> {
+    let empty = input.is_empty().then_some("");
+    input.split_inclusive('\n').chain(empty)
+}
+
 struct Partition2<'i> {
     line: usize,
     former: String,
@@ -338,17 +344,18 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let mut start = None;
         let mut end = None;
         let mut pos = 0usize;
-        let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let input = span.get_input();
+        let mut iter = lines(input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() >= span.start() {
+            let next = pos + line.len();
+            if next > span.start() || next == input.len() {
                 start = Some(Pos {
                     line: *index,
                     col: span.start() - pos,
                 });
                 break;
             }
-            pos += line.len();
+            pos = next;
             iter.next();
         }
         for (index, line) in iter {
@@ -363,8 +370,7 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         }
         let start = start.unwrap();
         let end = end.unwrap();
-        let mut lines = input
-            .lines()
+        let mut lines = lines(input)
             .skip(start.line)
             .take(end.line - start.line + 1)
             .peekable();
@@ -417,19 +423,16 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         NF: FnMut(&str, &mut Writer) -> fmt::Result,
     {
         let mut pos = 0usize;
-        let input = Span::new(position.input, 0, position.input.len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
-        while let Some((index, line)) = iter.peek() {
-            if pos + line.len() > position.pos() {
-                let l = *index;
+        for (l, line) in lines(position.input).enumerate() {
+            let next = pos + line.len();
+            if next > position.pos() || next == position.input.len() {
                 let c = position.pos() - pos;
                 let index_digit = Self::ceil_log10(l + 1);
                 let line = Partition::new(l, line, c);
                 self.display_snippet_single_pos(f, index_digit, line)?;
                 break;
             }
-            pos += line.len();
-            iter.next();
+            pos = next;
         }
         Ok(())
     }
-- 
2.43.0


From bb092fb148d6003d144dd0e584a271f02d5c842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 18/35] fix: report arguments of an imported path as an error
 instead of panicking

---
 meta/src/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5d55ccf..4ee88f8 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -343,7 +343,7 @@ fn _parse<P: AsRef<Path>>(
                     start: span_path2.start(),
                     end: span_path2.end(),
                 };
-                let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
+                let (mod_path, args) = parse_path_raw(path_pair, &span_path, &expression_parser())?;
                 if args.is_some() {
                     return Err(Error::new_from_span(
                         ErrorVariant::CustomError {
@@ -482,6 +482,15 @@ pub fn parse<P: AsRef<Path>>(input: &str, root: &P) -> Result<Arc<GrammarModule>
     _parse(input, root, &mut cache)
 }
 
+/// Operators between terms of an expression by precedence.
+fn expression_parser() -> PrattParser<Rule> {
+    PrattParser::new()
+        .op(Op::infix(Rule::choice_operator, Assoc::Right))
+        .op(Op::infix(Rule::sequence_operator, Assoc::Right)
+            | Op::infix(Rule::tilde_operator, Assoc::Right)
+            | Op::infix(Rule::caret_operator, Assoc::Right))
+}
+
 fn parse_rule(rule: Pair<'_, Rule>, path: PathBuf) -> Result<ParseRule, Error<Rule>> {
     let span = rule.as_span();
     let span = Span {
@@ -535,11 +544,7 @@ fn parse_rule(rule: Pair<'_, Rule>, path: PathBuf) -> Result<ParseRule, Error<Ru
         skip(Rule::opening_brace, &mut pairs);
     }
 
-    let pratt_parser = PrattParser::new()
-        .op(Op::infix(Rule::choice_operator, Assoc::Right))
-        .op(Op::infix(Rule::sequence_operator, Assoc::Right)
-            | Op::infix(Rule::tilde_operator, Assoc::Right)
-            | Op::infix(Rule::caret_operator, Assoc::Right));
+    let pratt_parser = expression_parser();
     let node = parse_node(pairs.next().unwrap(), &span, &pratt_parser)?;
 
     if has_braces {
-- 
2.43.0


From 0a13891206a50579dbf925937a5220b1a2c666a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 19/35] fix: do not take the name of a rule after an import for
 its alias

---
 meta/src/grammar.pest | 5 ++++-
 meta/src/parser.rs    | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 7aa7598..b652250 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -11,7 +11,10 @@ grammar_rules = _{
 	SOI ~ grammar_doc* ~ import* ~ grammar_rule ~ (import | grammar_rule)* ~ EOI
 }
 
-import = { "use " ~ path ~ ("in" ~ string)? ~ ("as" ~ identifier)? }
+import = { "use " ~ path ~ ("in" ~ string)? ~ (as_keyword ~ identifier)? }
+
+// Not the beginning of the name of a rule after the import.
+as_keyword = @{ "as" ~ !("_" | alpha_num) }
 
 grammar_rule = {
     rule_doc* ~
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 4ee88f8..9014b65 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -356,6 +356,7 @@ fn _parse<P: AsRef<Path>>(
                 for pair in pairs {
                     match pair.as_rule() {
                         Rule::string => fs_path = Some(string_content(&pair)?),
+                        Rule::as_keyword => (),
                         Rule::identifier => alias = Some(pair.as_str()),
                         _ => unreachable!(),
                     }
-- 
2.43.0


From e5eb94cd2861173b324206f12694623ba9e25951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 20/35] fix: children pairs of push include the pair of its
 content

---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index 87108fd..b68fb4e 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -960,9 +960,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From c2e9188f909a6a8eab6021be2ead3efa757de898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 21/35] fix: parse nested expressions of grammars in linear
 time

---
 meta/src/grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index b652250..6a4a570 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -40,8 +40,9 @@ arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ c
 silent_modifier     = @{ "_" ~ !identifier }
 
 expression =  {
-    (choice_operator? ~ term ~ choice_operator)? ~
-    term ~ (infix_operator ~ term)*
+    // Match every term once: terms nest.
+    (choice_operator ~ term ~ choice_operator ~ term | term ~ (choice_operator ~ term)?) ~
+    (infix_operator ~ term)*
 }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
 node       = _{ opening_paren ~ expression ~ closing_paren | terminal }
-- 
2.43.0


From 38c4b11934d58c49538bdcee8903684c7c2e3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 22/35] fix: skip unclosed nested block comments of grammars in
 linear time

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 6a4a570..5222aeb 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -110,7 +110,7 @@ pound          = { "#" }
 newline    = _{ "\n" | "\r\n" }
 WHITESPACE = _{ " " | "\t" | newline }
 
-block_comment = _{ "/*" ~ (block_comment | !"*/" ~ ANY)* ~ "*/" }
+block_comment = _{ "/*" ~ (block_comment | !("*/" | "/*" ~ !"/") ~ ANY)* ~ "*/" }
 COMMENT       = _{ block_comment | ("//" ~ !("/" | "!") ~ (!newline ~ ANY)*) ~ &(newline | EOI) }
 doc_content   = ${ (!newline ~ ANY)* }
 rule_doc      = ${ "///" ~ " "? ~ doc_content }
-- 
2.43.0


From 5e95ed210dd2c1059ded50dc14b6885518811ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 23/35] fix: reject a second definition of trivia in a module

---
 generator/src/typed/generator.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 58d3acd..7838cef 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -636,11 +636,9 @@ fn process_rules<'g>(
         .collect();
     let mut output = Output::new(module, modules, config.rules_mod.clone());
     let reachability = collect_reachability(rules);
+    // Trivia are recorded as well: a module defines each of them at most once.
     for rule in rules.iter() {
-        match rule.name.as_str() {
-            "~" | "^" => {}
-            _ => mod_sys.insert_rule(rule).unwrap(),
-        }
+        mod_sys.insert_rule(rule).unwrap();
     }
     for rule in rules.iter() {
         process_rule(
-- 
2.43.0


From 56baa7d435f91516c61fd6aba95d4849b1ca97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 24/35] fix: reject a second import of the same name

---
 generator/src/typed/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 7838cef..cdfbf5f 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -628,7 +628,7 @@ fn process_rules<'g>(
                     ),
                 );
                 let imported = child_mod_sys.take();
-                mod_sys.insert(imported, name);
+                mod_sys.insert(imported, name).unwrap();
                 new_prefix.pop().unwrap();
                 Some(module)
             }
-- 
2.43.0


From 01c7927e04ae17225cc5b94fa500734c3449e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 25/35] fix: inline silent rules with arguments that ignore a
 parameter

---
 generator/src/typed/generator.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index cdfbf5f..7c2b5c5 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -975,10 +975,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                     .zip(args)
                                     .map(|(name, arg)| (name.as_str(), &arg.expr))
                                     .collect::<Vec<_>>();
-                                replaced = new_expr.replace_all(&args);
-                                if replaced {
-                                    replace_expr = Some(new_expr);
-                                }
+                                new_expr.replace_all(&args);
+                                replaced = true;
+                                replace_expr = Some(new_expr);
                             }
                         }
                     }
-- 
2.43.0


From 3873a2cfd4d56c492adea3f41363f242fd7c0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 26/35] fix: resolve imports of grammar files with any name or
 directory

---
 generator/src/typed/generator.rs | 7 ++++---
 meta/src/parser.rs               | 3 ---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 7c2b5c5..277b7a0 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -1075,10 +1075,11 @@ pub fn derive_typed_parser(
     let module = data
         .iter()
         .map(|(input, root)| {
-            let mut root = root.clone().unwrap_or_else(|| {
-                PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap_or(".".to_owned()))
+            // Imports are relative to the directory of this file.
+            let root = root.clone().unwrap_or_else(|| {
+                let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap_or(".".to_owned());
+                PathBuf::from(dir).join("_.rs")
             });
-            root.push("_.rs");
             match parser::parse(input, &root) {
                 Ok(pairs) => pairs,
                 Err(error) => panic!("error parsing \n{}", error.renamed_rules(rename_meta_rule)),
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 9014b65..b6194fd 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -295,9 +295,6 @@ fn mod_path_to_fs_path(root: &impl AsRef<Path>, mod_path: &[String]) -> PathBuf
         .parent()
         .expect("Grammar file path cannot be root.")
         .to_owned();
-    if matches!(path.extension().map(|x| x.to_str()), Some(Some("pest"))) {
-        path.pop();
-    }
     for sec in mod_path {
         let sec = match sec.as_str() {
             "super" => "..",
-- 
2.43.0


From d6796c65cb6f750db769ce2b879f1d031a9c431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 27/35] fix: let the body of a rule begin with a name like _0

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 5222aeb..a78fcab 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -37,7 +37,7 @@ closing_brack        = { "]" }
 
 arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ closing_paren }
 
-silent_modifier     = @{ "_" ~ !identifier }
+silent_modifier     = @{ "_" ~ !("_" | alpha_num) }
 
 expression =  {
     // Match every term once: terms nest.
-- 
2.43.0


From 16342db7fc598bc6423c1e48c3883e026dff6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 28/35] fix: refuse arguments of rules that are called or
 sliced

---
 generator/src/typed/generator.rs | 39 ++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 277b7a0..dce0646 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -944,7 +944,46 @@ fn check_silent_rules_with_args(silent_rules: &BTreeMap<Vec<String>, ParseRule>)
     }
 }
 
+/// Panics if an argument of a rule is itself called with arguments or sliced.
+fn check_use_of_args(rule: &ParseRule) {
+    let mut nodes = vec![&rule.node];
+    while let Some(node) = nodes.pop() {
+        match &node.expr {
+            ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) => (),
+            ParseExpr::Path(path, args) => {
+                let is_arg = path.len() == 1 && rule.args.contains(&path[0]);
+                let given = match args {
+                    None => false,
+                    Some(PathArgs::Call(args)) => {
+                        nodes.extend(args);
+                        !args.is_empty()
+                    }
+                    Some(PathArgs::Slice(_)) => true,
+                };
+                assert!(
+                    !(is_arg && given),
+                    "Argument `{}` of rule `{}` cannot be called with arguments or sliced.",
+                    path[0],
+                    rule.name,
+                );
+            }
+            ParseExpr::Seq(left, right, _) | ParseExpr::Choice(left, right) => {
+                nodes.push(left);
+                nodes.push(right);
+            }
+            ParseExpr::PosPred(inner)
+            | ParseExpr::NegPred(inner)
+            | ParseExpr::Opt(inner)
+            | ParseExpr::Rep(inner)
+            | ParseExpr::RepOnce(inner)
+            | ParseExpr::RepRange(inner, _)
+            | ParseExpr::Separated(inner, _) => nodes.push(inner),
+        }
+    }
+}
+
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
+    module.rules.iter().for_each(check_use_of_args);
     let silent_rules = collect_silent_rules_with_args(&[], &module);
     check_silent_rules_with_args(&silent_rules);
     let mut new_module = module.clone();
-- 
2.43.0


From 00859d11ab5c2b9f01dacdca6ad39a1995f982c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 29/35] fix: refuse two arguments of a rule with the same name

---
 generator/src/typed/generator.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index dce0646..d9d3b48 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -944,8 +944,17 @@ fn check_silent_rules_with_args(silent_rules: &BTreeMap<Vec<String>, ParseRule>)
     }
 }
 
-/// Panics if an argument of a rule is itself called with arguments or sliced.
-fn check_use_of_args(rule: &ParseRule) {
+/// Panics if two arguments of a rule have the same name,
+/// or one is itself called with arguments or sliced.
+fn check_args(rule: &ParseRule) {
+    for (i, arg) in rule.args.iter().enumerate() {
+        assert!(
+            !rule.args[..i].contains(arg),
+            "Argument `{}` of rule `{}` is defined twice.",
+            arg,
+            rule.name,
+        );
+    }
     let mut nodes = vec![&rule.node];
     while let Some(node) = nodes.pop() {
         match &node.expr {
@@ -983,7 +992,7 @@ fn check_use_of_args(rule: &ParseRule) {
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    module.rules.iter().for_each(check_use_of_args);
+    module.rules.iter().for_each(check_args);
     let silent_rules = collect_silent_rules_with_args(&[], &module);
     check_silent_rules_with_args(&silent_rules);
     let mut new_module = module.clone();
-- 
2.43.0


From 61448809496e173bab930f25a141e3c272529c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 30/35] fix: name the sequence operator in errors of grammars

It was called `&`, which is the positive predicate, instead of `-`.
---
 meta/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/error.rs b/meta/src/error.rs
index eeba133..b282387 100644
--- a/meta/src/error.rs
+++ b/meta/src/error.rs
@@ -15,7 +15,7 @@ pub fn rename_meta_rule(rule: &Rule) -> String {
         Rule::opening_paren => "`(`".to_owned(),
         Rule::positive_predicate_operator => "`&`".to_owned(),
         Rule::negative_predicate_operator => "`!`".to_owned(),
-        Rule::sequence_operator => "`&`".to_owned(),
+        Rule::sequence_operator => "`-`".to_owned(),
         Rule::choice_operator => "`|`".to_owned(),
         Rule::optional_operator => "`?`".to_owned(),
         Rule::repeat_operator => "`*`".to_owned(),
-- 
2.43.0


From cf6b62e7032a508f2c11355ad486da9a366a8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 31/35] fix: let aliases of imported modules be Rust keywords

`use syntax::type` or `use x as match` generated code that does not compile.
---
 generator/src/typed/generator.rs | 4 ++--
 generator/src/typed/module.rs    | 3 ++-
 generator/src/types.rs           | 8 ++++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index d9d3b48..eb51f3d 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -10,7 +10,7 @@ use crate::{
     config::collect_data,
     expr,
     typed::getter,
-    types::{option_type, pest},
+    types::{module_ident, option_type, pest},
 };
 use pest3_meta::{
     error::rename_meta_rule,
@@ -616,7 +616,7 @@ fn process_rules<'g>(
                 let mut child_mod_sys = ModuleSystem::new(global.clone());
                 new_prefix.push(name.clone());
                 let module = (
-                    format_ident!("{name}"),
+                    module_ident(name),
                     process_rules(
                         module,
                         &mut child_mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index e3abc39..7474129 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -3,6 +3,7 @@ use super::{
     getter::GetterByName,
     output::generics,
 };
+use crate::types::module_ident;
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
 use proc_macro2::TokenStream;
@@ -68,7 +69,7 @@ impl RuleGenerics {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
-            let sec = format_ident!("{}", sec);
+            let sec = module_ident(sec);
             quote! {#sec::#types::}
         });
         let res = match self {
diff --git a/generator/src/types.rs b/generator/src/types.rs
index 3f92720..04a5433 100644
--- a/generator/src/types.rs
+++ b/generator/src/types.rs
@@ -1,5 +1,5 @@
-use proc_macro2::TokenStream;
-use quote::quote;
+use proc_macro2::{Ident, TokenStream};
+use quote::{format_ident, quote};
 
 pub fn pest() -> TokenStream {
     #[cfg(feature = "meta")]
@@ -18,3 +18,7 @@ pub fn option_type() -> TokenStream {
     let this = pest();
     quote! {#this::std::Option}
 }
+/// Identifier of the Rust module for an imported module, raw if it has to be.
+pub fn module_ident(name: &str) -> Ident {
+    syn::parse_str(name).unwrap_or_else(|_| format_ident!("r#{}", name))
+}
-- 
2.43.0


From 154e663bfe052dfd593d31cb30666f7189b94506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:52 +0000
Subject: [PATCH 32/35] fix: read string literals with any number of escapes

inner_str recursed once per escape, so that a literal with some thousand
escapes was refused when the stack ran out. A repetition accepts the same.
---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index a78fcab..cf2c97e 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -96,7 +96,7 @@ insensitive_string = ${ "i" ~ string }
 range              =  { character ~ range_operator ~ character }
 character          = ${ single_quote ~ inner_chr ~ single_quote }
 
-inner_str = @{ (!("\"" | "\\") ~ ANY)* ~ (escape ~ inner_str)? }
+inner_str = @{ (!("\"" | "\\") ~ ANY | escape)* }
 inner_chr = @{ escape | ANY }
 escape    = @{ "\\" ~ ("\"" | "\\" | "r" | "n" | "t" | "0" | "'" | code | unicode) }
 code      = @{ "x" ~ hex_digit{2} }
-- 
2.43.0


From 06d61923a5a924e52b53b63291209b7bdf7980ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 33/35] fix: make errors of grammars only when there is one

The errors of documentation and literals were made, and dropped, for each
of them: as the line they are in is looked up from the start of the text,
reading a grammar took time quadratic in its length.
---
 meta/src/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index b6194fd..d50d766 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -624,7 +624,7 @@ fn parse_path(
 fn parse_grammar_doc(pair: Pair<'_, Rule>) -> Result<String, Error<Rule>> {
     let string = &pair.as_str()[3..];
     let string = string.trim();
-    let content = Some(string).ok_or(Error::new_from_span(
+    let content = Some(string).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "incorrect grammar doc comment".to_string(),
         },
@@ -637,7 +637,7 @@ fn parse_grammar_doc(pair: Pair<'_, Rule>) -> Result<String, Error<Rule>> {
 fn parse_rule_doc(pair: Pair<'_, Rule>) -> Result<String, Error<Rule>> {
     let string = &pair.as_str()[3..];
     let string = string.trim();
-    let content = Some(string).ok_or(Error::new_from_span(
+    let content = Some(string).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "incorrect rule doc comment".to_string(),
         },
@@ -649,7 +649,7 @@ fn parse_rule_doc(pair: Pair<'_, Rule>) -> Result<String, Error<Rule>> {
 
 fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Rule>> {
     let string = pair.as_str();
-    let content = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
+    let content = unescape(&string[1..string.len() - 1]).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "incorrect string literal".to_string(),
         },
@@ -677,7 +677,7 @@ fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
 
 fn parse_insensitive_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Rule>> {
     let string = pair.as_str();
-    let content = unescape(&string[2..string.len() - 1]).ok_or(Error::new_from_span(
+    let content = unescape(&string[2..string.len() - 1]).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "incorrect string literal".to_string(),
         },
@@ -696,7 +696,7 @@ fn parse_char_range(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Erro
 
     let pair = pairs.next().unwrap();
     let string = pair.as_str();
-    let content_start = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
+    let content_start = unescape(&string[1..string.len() - 1]).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "incorrect char literal".to_string(),
         },
@@ -707,7 +707,7 @@ fn parse_char_range(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Erro
 
     let pair = pairs.next().unwrap();
     let string = pair.as_str();
-    let content_end = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
+    let content_end = unescape(&string[1..string.len() - 1]).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "incorrect char literal".to_string(),
         },
@@ -911,7 +911,7 @@ fn parse_node(
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
     let string = pair.as_str();
-    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
+    let string = unescape(&string[1..string.len() - 1]).ok_or_else(|| Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
-- 
2.43.0


From a9c87f4f3c73a49ad6e3a1cc955a2aff435b49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 34/35] fix: end the search for reachable rules when nothing
 more is found

It went over all rules once for each rule, whatever it found: deriving a
parser with a chain of 300 rules took minutes.
---
 generator/src/typed/generator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index eb51f3d..fff655a 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -804,6 +804,7 @@ fn collect_reachability(rules: &[ParseRule]) -> BTreeMap<&str, BTreeSet<&str>> {
     }
     // Length of any path is no more than `rules.len()`.
     for _ in 0..rules.len() {
+        let mut changed = false;
         // Before the `i`-th iteration,
         // `res[a]` contains all nodes that can be reached from `a`
         // in no more than `i+1` steps.
@@ -811,16 +812,24 @@ fn collect_reachability(rules: &[ParseRule]) -> BTreeMap<&str, BTreeSet<&str>> {
             let rule_ref = rule.name.as_str();
             if let Some(cur) = res.remove(&rule_ref) {
                 let mut new = cur.clone();
+                let known = cur.len();
                 for referenced in cur {
                     if let Some(iter) = res.get(&referenced) {
                         new.extend(iter.iter().cloned());
                     }
                 }
+                changed |= new.len() != known;
                 if !new.contains(&rule_ref) {
                     res.insert(rule_ref, new);
+                } else {
+                    changed = true;
                 }
             }
         }
+        // Nothing more can be found.
+        if !changed {
+            break;
+        }
     }
     res
 }
-- 
2.43.0


From beaadfbec10e707a6dd64a7f886a3255a1bc1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 35/35] fix: compare positions of one text without comparing
 the text

---
 core/src/position.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/position.rs b/core/src/position.rs
index 328fd4e..79982f8 100644
--- a/core/src/position.rs
+++ b/core/src/position.rs
@@ -522,10 +522,13 @@ impl<'i> PartialOrd for Position<'i> {
 
 impl<'i> Ord for Position<'i> {
     fn cmp(&self, other: &Position<'i>) -> Ordering {
-        assert_eq!(
-            self.input, other.input,
-            "cannot compare positions from different strs"
-        );
+        // Comparing the texts themselves takes time proportional to them.
+        if !ptr::eq(self.input, other.input) {
+            assert_eq!(
+                self.input, other.input,
+                "cannot compare positions from different strs"
+            );
+        }
         self.pos.cmp(&other.pos)
     }
 }
-- 
2.43.0

