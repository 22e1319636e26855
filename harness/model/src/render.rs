//! Renders the AST as grammar text, optionally with noise (comments, odd whitespace, redundant
//! parentheses, alternative escapes).
use crate::ast::*;
use crate::rng::Rng;

pub struct Style {
    pub rng: Rng,
    /// Percentage chance of noise at each token boundary.
    pub ws: usize,
    /// Percentage chance of redundant parentheses.
    pub parens: usize,
    /// Percentage chance of an alternative literal spelling per character.
    pub esc: usize,
    /// Percentage chance of a raw string.
    pub raw: usize,
}
impl Style {
    pub fn plain() -> Style {
        Style { rng: Rng::new(0), ws: 0, parens: 0, esc: 0, raw: 0 }
    }
    pub fn noisy(seed: u64) -> Style {
        Style { rng: Rng::new(seed), ws: 30, parens: 15, esc: 20, raw: 20 }
    }
    /// Many literals as they are, or escaped.
    pub fn spelt(seed: u64) -> Style {
        Style { rng: Rng::new(seed), ws: 15, parens: 5, esc: 20, raw: 35 }
    }
    /// Whitespace; `min` is what is needed at least.
    pub fn gap(&mut self, min: &str, out: &mut String) {
        if self.ws == 0 || !self.rng.pct(self.ws) {
            out.push_str(min);
            return;
        }
        for _ in 0..self.rng.range(1, 3) {
            match self.rng.below(9) {
                0 | 1 | 2 => out.push(' '),
                3 => out.push('\t'),
                4 => out.push('\n'),
                5 => out.push_str("\r\n"),
                6 => out.push_str("/* c | \" 'x' { = */"),
                7 => out.push_str("/*a/*b**/\n*/"),
                _ => out.push_str("// not ~ a \"rule\" = /*\n"),
            }
        }
        if !min.is_empty() && !out.ends_with(|c: char| c.is_whitespace()) {
            out.push_str(min);
        }
    }
    fn lit_char(&mut self, c: char, quote: char, out: &mut String) {
        let alt = self.esc > 0 && self.rng.pct(self.esc);
        if alt {
            let k = self.rng.below(2);
            if k == 0 && (c as u32) < 0x80 {
                if self.rng.pct(50) {
                    out.push_str(&format!("\\x{:02x}", c as u32));
                } else {
                    out.push_str(&format!("\\x{:02X}", c as u32));
                }
                return;
            }
            let w = self.rng.range(1, 6);
            if self.rng.pct(50) {
                out.push_str(&format!("\\u{{{:0w$x}}}", c as u32, w = w));
            } else {
                out.push_str(&format!("\\u{{{:0w$X}}}", c as u32, w = w));
            }
            return;
        }
        match c {
            '\\' => out.push_str("\\\\"),
            '\r' if self.esc == 0 || self.rng.pct(60) => out.push_str("\\r"),
            '\n' if self.esc == 0 || self.rng.pct(60) => out.push_str("\\n"),
            '\t' if self.esc == 0 || self.rng.pct(60) => out.push_str("\\t"),
            '\0' => out.push_str("\\0"),
            '"' if quote == '"' => out.push_str("\\\""),
            '"' => out.push_str("\\\""),
            '\'' if quote == '\'' || self.rng.pct(self.esc) => out.push_str("\\'"),
            c => out.push(c),
        }
    }
    pub fn string(&mut self, s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            self.lit_char(c, '"', out);
        }
        out.push('"');
    }
    pub fn ch(&mut self, c: char, out: &mut String) {
        out.push('\'');
        self.lit_char(c, '\'', out);
        out.push('\'');
    }
    fn raw_string(&mut self, s: &str, out: &mut String) {
        let mut n = 0;
        while s.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        if self.rng.pct(30) {
            n += self.rng.below(3);
        }
        let h = "#".repeat(n);
        out.push_str(&format!("r{h}\"{s}\"{h}"));
    }
    fn paren(&mut self, e: &E, out: &mut String) {
        out.push('(');
        self.gap("", out);
        self.expr(e, 0, out);
        self.gap("", out);
        out.push(')');
    }
    /// Precedence: 0 choice, 1 sequence, 2 prefix, 3 postfix, 4 node.
    pub fn expr(&mut self, e: &E, prec: u8, out: &mut String) {
        let own = match e {
            E::Choice(..) => 0,
            E::Seq(..) => 1,
            E::Pos(_) | E::Neg(_) => 2,
            E::Opt(_) | E::Rep(_) | E::RepOnce(_) | E::RepRange(..) | E::Sep(..) => 3,
            _ => 4,
        };
        let sep = matches!(e, E::Sep(..));
        if own < prec || (!sep && self.parens > 0 && self.rng.pct(self.parens)) {
            return self.paren(e, out);
        }
        match e {
            E::Str(s) => {
                if self.raw > 0 && self.rng.pct(self.raw) {
                    self.raw_string(s, out)
                } else {
                    self.string(s, out)
                }
            }
            E::Ins(s) => {
                out.push('i');
                self.string(s, out);
            }
            E::Range(a, b) => {
                self.ch(*a, out);
                self.gap("", out);
                out.push_str("..");
                self.gap("", out);
                self.ch(*b, out);
            }
            E::Path(p, a) => {
                for (i, x) in p.iter().enumerate() {
                    if i > 0 {
                        self.gap("", out);
                        out.push_str("::");
                        self.gap("", out);
                    }
                    out.push_str(x);
                }
                match a {
                    Args::None => {}
                    Args::Call(v) => {
                        self.gap("", out);
                        out.push('(');
                        self.gap("", out);
                        for (i, x) in v.iter().enumerate() {
                            if i > 0 {
                                self.gap("", out);
                                out.push(',');
                                self.gap(" ", out);
                            }
                            self.expr(x, 0, out);
                        }
                        if !v.is_empty() && self.parens > 0 && self.rng.pct(20) {
                            out.push(',');
                        }
                        self.gap("", out);
                        out.push(')');
                    }
                    Args::Slice(a, b) => {
                        self.gap("", out);
                        out.push('[');
                        self.gap("", out);
                        if let Some(a) = a {
                            if *a >= 0 && self.esc > 0 && self.rng.pct(20) {
                                out.push('+');
                            }
                            out.push_str(&a.to_string());
                            self.gap("", out);
                        }
                        out.push_str("..");
                        if let Some(b) = b {
                            self.gap("", out);
                            out.push_str(&b.to_string());
                        }
                        self.gap("", out);
                        out.push(']');
                    }
                }
            }
            E::Pos(x) | E::Neg(x) => {
                out.push(if matches!(e, E::Pos(_)) { '&' } else { '!' });
                self.gap("", out);
                self.expr(x, 2, out);
            }
            E::Seq(l, r, t) => {
                self.expr(l, 2, out);
                self.gap(" ", out);
                out.push_str(t.sym());
                self.gap(" ", out);
                self.expr(r, 1, out);
            }
            E::Choice(l, r) => {
                let single = !matches!(**l, E::Seq(..));
                if single && self.parens > 0 && self.rng.pct(20) {
                    out.push_str("| ");
                }
                self.expr(l, 1, out);
                self.gap(" ", out);
                out.push('|');
                self.gap(" ", out);
                // A leading `|` is only valid at the start of an expression.
                self.choice_rest(r, out);
            }
            E::Opt(x) => self.postfix(x, "?", out),
            E::Rep(x) => self.postfix(x, "*", out),
            E::RepOnce(x) => self.postfix(x, "+", out),
            E::RepRange(x, a, b) => {
                let s = match (a, b) {
                    (Some(a), Some(b)) if a == b && (self.parens == 0 || self.rng.pct(70)) => format!("{{{a}}}"),
                    (Some(a), Some(b)) => format!("{{{a}..{b}}}"),
                    (Some(a), None) => format!("{{{a}..}}"),
                    (None, Some(b)) => format!("{{..{b}}}"),
                    (None, None) => "{..}".to_string(),
                };
                self.postfix(x, &s, out)
            }
            E::Sep(x, t) => {
                self.expr(x, 3, out);
                self.gap("", out);
                out.push_str(t.sym());
            }
        }
    }
    fn choice_rest(&mut self, e: &E, out: &mut String) {
        match e {
            E::Choice(l, r) if !(self.parens > 0 && self.rng.pct(self.parens)) => {
                self.expr(l, 1, out);
                self.gap(" ", out);
                out.push('|');
                self.gap(" ", out);
                self.choice_rest(r, out);
            }
            E::Choice(..) => self.paren(e, out),
            e => self.expr(e, 1, out),
        }
    }
    fn postfix(&mut self, x: &E, op: &str, out: &mut String) {
        self.expr(x, 3, out);
        if !matches!(x, E::Sep(..)) {
            self.gap("", out);
        }
        out.push_str(op);
    }
    pub fn rule(&mut self, r: &Rule, out: &mut String) {
        for d in &r.doc {
            out.push_str(&format!("/// {d}\n"));
        }
        out.push_str(&r.name);
        if !r.args.is_empty() {
            self.gap("", out);
            out.push('(');
            for (i, a) in r.args.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(a);
            }
            if self.parens > 0 && self.rng.pct(20) {
                out.push(',');
            }
            out.push(')');
        }
        self.gap(" ", out);
        out.push('=');
        self.gap(" ", out);
        if r.silent {
            out.push('_');
        }
        if r.silent || (self.parens > 0 && self.rng.pct(30)) {
            self.gap("", out);
            out.push_str("{ ");
            self.expr(&r.expr, 0, out);
            out.push_str(" }\n");
        } else {
            self.expr(&r.expr, 0, out);
            out.push('\n');
        }
    }
    pub fn module(&mut self, m: &Module) -> String {
        let mut out = String::new();
        for d in &m.doc {
            out.push_str(&format!("//! {d}\n"));
        }
        for i in &m.imports {
            out.push_str(&i.text);
            out.push('\n');
        }
        for r in &m.rules {
            self.rule(r, &mut out);
        }
        out
    }
}
pub fn plain(e: &E) -> String {
    let mut o = String::new();
    Style::plain().expr(e, 0, &mut o);
    o
}
