//! Positions, spans and their display against definitions on the text.
use model::rng::Rng;
use pest3_core::formatter::FormatOption;
use pest3_core::span::merge_spans;
use pest3_core::{Position, Span};
use std::ops::Bound;
use tools::{chk, h, Ctx};
use unicode_width::UnicodeWidthStr;

/// All strings over `abc` up to `len`, of this shard; then `random` random ones.
fn texts(c: &Ctx, abc: &[char], len: usize, random: u64, wide: &[char], max: u64) -> Vec<String> {
    let mut v = vec![];
    let mut n = 0u64;
    for l in 0..=len {
        let total = (abc.len() as u64).pow(l as u32);
        for mut k in 0..total {
            n += 1;
            if n % c.shards != c.shard {
                continue;
            }
            let mut s = String::new();
            for _ in 0..l {
                s.push(abc[(k % abc.len() as u64) as usize]);
                k /= abc.len() as u64;
            }
            v.push(s);
        }
    }
    for i in c.mine(random) {
        let mut r = Rng::new(c.seed.wrapping_mul(77777).wrapping_add(i));
        let l = r.below(max as usize);
        v.push((0..l).map(|_| if r.pct(30) { '\n' } else { *r.pick(wide) }).collect());
    }
    v
}
/// A text with long lines or many lines, and some of its offsets.
fn far(c: &Ctx, i: u64) -> (String, Vec<usize>) {
    let mut r = Rng::new(c.seed.wrapping_mul(99991).wrapping_add(i));
    let n = *r.pick(&[130usize, 255, 256, 257, 300, 999, 1000, 1001, 1023, 1025, 4095, 4096, 4097, 9_999, 10_000, 65_534, 65_535, 65_536, 65_537, 70_000, 100_001]);
    let mut s = String::new();
    if r.pct(25) {
        s.push('\u{feff}');
    }
    for _ in 0..r.below(4) {
        s.push(*r.pick(WIDE));
    }
    // One unit over and over, or random ones; as one line or as lines.
    let unit: String = (0..r.range(1, 3)).map(|_| *r.pick(WIDE)).filter(|c| *c != '\n').collect();
    let lines = r.pct(60);
    let same = r.pct(50);
    for _ in 0..n {
        if same {
            s.push_str(&unit);
        } else {
            for _ in 0..r.below(3) {
                let k = *r.pick(WIDE);
                if k != '\n' {
                    s.push(k);
                }
            }
        }
        if lines {
            s.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\n\r"]));
        }
    }
    for _ in 0..r.below(4) {
        s.push(*r.pick(WIDE));
    }
    let mut at = vec![0, s.len()];
    for _ in 0..10 {
        let mut p = match r.below(3) {
            0 => r.below(s.len() + 1),
            1 => s.len() - r.below(s.len().min(9) + 1),
            _ => r.below(s.len().min(9) + 1),
        };
        while !s.is_char_boundary(p) {
            p -= 1;
        }
        at.push(p);
        at.push(line(&s, p).0);
    }
    at.sort();
    at.dedup();
    (s, at)
}
const WIDE: &[char] = &['\u{feff}', '\u{200d}', 'a', 'b', ' ', '\t', '\r', '\n', '\0', '\u{1b}', '\u{7f}', '\u{85}', 'ß', 'é', '\u{301}', '\u{200b}', '\u{2028}', '∆', '中', 'ｱ', '😀', '\u{10ffff}', '1', '|', '^', '§', '①', '\u{fe0f}', '\u{ad}'];

/// Bounds of the line that holds offset `p`, with its line feed.
fn line(s: &str, p: usize) -> (usize, usize) {
    let b = s.as_bytes();
    let mut a = p;
    while a > 0 && b[a - 1] != b'\n' {
        a -= 1;
    }
    let mut e = p;
    while e < b.len() {
        e += 1;
        if b[e - 1] == b'\n' {
            break;
        }
    }
    (a, e)
}
fn line_col(s: &str, p: usize) -> (usize, usize) {
    let mut l = 1;
    let mut col = 1;
    for ch in s[..p].chars() {
        if ch == '\n' {
            l += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (l, col)
}
fn boundary(s: &str, p: usize) -> bool {
    p == s.len() || (p < s.len() && (s.as_bytes()[p] & 0xc0) != 0x80)
}
fn one_position(c: &mut Ctx, s: &str, twin: &str) {
    let n = s.len();
    let mut all: Vec<Position<'_>> = vec![];
    for p in (0..=n + 2).chain([usize::MAX, usize::MAX / 2, n.wrapping_add(1 << 40)]) {
        let got = Position::new(s, p);
        let want = boundary(s, p);
        chk!(c, got.is_some() == want, "position-new", "Position::new accepts exactly the character boundaries", "text" => s, "offset" => p, "got" => got);
        let Some(g) = got else { continue };
        c.rep.count("positions", 1);
        chk!(c, g.pos() == p, "position-pos", "pos() is the offset", "text" => s, "offset" => p, "got" => g.pos());
        let lc = g.line_col();
        chk!(c, lc == line_col(s, p), "line-col", "line_col() counts line feeds and characters", "text" => s, "offset" => p, "got" => lc, "want" => line_col(s, p));
        let lo = g.line_of();
        let (a, e) = line(s, p);
        chk!(c, lo == &s[a..e] && std::ptr::eq(lo.as_ptr(), s[a..e].as_ptr()), "line-of", "line_of() is the line that holds the position", "text" => s, "offset" => p, "got" => lo, "want" => &s[a..e]);
        let p2: pest2::Position<'_> = g.into();
        chk!(c, p2.pos() == p && p2.line_col() == lc && p2.line_of() == lo, "position-into", "conversion to a position of pest 2 keeps it", "text" => s, "offset" => p);
        chk!(c, format!("{g:?}") == format!("Position {{ pos: {p} }}"), "position-debug", "Debug shows the offset", "text" => s, "offset" => p, "got" => format!("{g:?}"));
        if p == 0 {
            chk!(c, g == Position::from_start(s), "position-start", "from_start is offset 0", "text" => s);
        }
        if let Some(t) = Position::new(twin, p) {
            chk!(c, g != t || std::ptr::eq(s, twin), "position-eq-twin", "positions of different strings differ", "text" => s, "offset" => p);
        }
        all.push(g);
    }
    for (i, x) in all.iter().enumerate() {
        for (k, y) in all.iter().enumerate() {
            chk!(c, (x == y) == (i == k) && x.cmp(y) == i.cmp(&k) && x.partial_cmp(y) == Some(i.cmp(&k)), "position-order", "positions of a text are ordered by offset", "text" => s, "a" => x, "b" => y);
            if i == k {
                chk!(c, h(x) == h(y), "position-hash", "equal positions hash alike", "text" => s, "a" => x);
            }
            if i <= k {
                let sp = x.span(y);
                c.rep.count("spans_made", 1);
                chk!(c, sp.start() == x.pos() && sp.end() == y.pos() && sp.as_str() == &s[x.pos()..y.pos()], "position-span", "span() covers the text between", "text" => s, "a" => x, "b" => y, "got" => sp);
            }
        }
    }
    if let (Some(a), Some(b)) = (Position::new(s, 0), Position::new(twin, 0)) {
        // Strings of length 0 may share an address.
        if !std::ptr::eq(s, twin) {
            let r = c.call(|| format!("span over two texts {s:?}"), || a.span(&b).as_str().len());
            chk!(c, r.is_err(), "position-span-other", "span() of positions of different strings is refused", "text" => s);
        }
    }
    // The beginning and the end of a text are other texts.
    for k in (0..=n).filter(|k| boundary(s, *k)) {
        let (front, back) = s.split_at(k);
        for x in &all {
            if let Some(y) = Position::new(front, x.pos()).filter(|_| k < n) {
                c.rep.count("slices_compared", 1);
                chk!(c, *x != y, "position-eq-slice", "positions of a text and of its beginning differ", "text" => s, "of" => front, "offset" => y.pos());
            }
            if let Some(y) = x.pos().checked_sub(k).and_then(|p| Position::new(back, p)).filter(|_| k > 0) {
                c.rep.count("slices_compared", 1);
                chk!(c, *x != y, "position-eq-slice", "positions of a text and of its end differ", "text" => s, "of" => back, "offset" => y.pos());
            }
        }
        if k < n {
            let (x, y) = (Position::new(s, 0).unwrap(), Position::new(front, 0).unwrap());
            let r = c.call(|| format!("span over {s:?} and its beginning"), || x.span(&y).as_str().len());
            chk!(c, r.is_err(), "position-span-other", "span() of positions of a text and of its beginning is refused", "text" => s, "of" => front);
        }
    }
    let distinct = s.contains('\n') && !s.is_ascii();
    if distinct {
        c.nontrivial(s);
    }
}
fn far_position(c: &mut Ctx, s: &str, at: &[usize]) {
    for &p in at {
        c.rep.count("far_positions", 1);
        let Some(g) = Position::new(s, p) else {
            return c.rep.violation("position-new", "Position::new accepts exactly the character boundaries", &[("length", &s.len().to_string()), ("offset", &p.to_string())]);
        };
        let want = line_col(s, p);
        c.rep.max("line", want.0 as u64);
        c.rep.max("column", want.1 as u64);
        chk!(c, g.line_col() == want, "line-col", "line_col() counts line feeds and characters", "length" => s.len(), "text begins" => s.chars().take(40).collect::<String>(), "offset" => p, "got" => g.line_col(), "want" => want);
        let (a, e) = line(s, p);
        let lo = g.line_of();
        chk!(c, std::ptr::eq(lo, &s[a..e]), "line-of", "line_of() is the line that holds the position", "length" => s.len(), "offset" => p, "got" => lo.len(), "want" => e - a);
        let p2: pest2::Position<'_> = g.into();
        chk!(c, p2.pos() == p && p2.line_col() == want && p2.line_of() == lo, "position-into", "conversion to a position of pest 2 keeps it", "offset" => p);
        for &q in at.iter().filter(|q| **q >= p) {
            let sp = g.span(&Position::new(s, q).unwrap());
            chk!(c, sp.start() == p && sp.end() == q && std::ptr::eq(sp.as_str(), &s[p..q]), "position-span", "span() covers the text between", "a" => p, "b" => q);
        }
    }
}
fn far_span(c: &mut Ctx, s: &str, at: &[usize]) {
    let n = s.len();
    let mut lines_left = 6;
    for (i, &a) in at.iter().enumerate() {
        for &b in at[i..].iter().rev().take(6) {
            c.rep.count("far_spans", 1);
            let Some(g) = Span::new(s, a, b) else {
                return c.rep.violation("span-new", "Span::new accepts exactly ordered character boundaries", &[("length", &n.to_string()), ("start", &a.to_string()), ("end", &b.to_string())]);
            };
            chk!(c, g.start() == a && g.end() == b && std::ptr::eq(g.as_str(), &s[a..b]) && std::ptr::eq(g.get_input(), s), "span-str", "start, end, as_str and get_input", "start" => a, "end" => b);
            let mut want = vec![];
            let mut p = a;
            while p < n && p <= b {
                let l = line(s, p);
                want.push(l);
                p = l.1;
            }
            // Each line is searched for from the ends of the text: skip what takes too long.
            if want.len() * n <= 20_000_000 && (want.len() <= 4 || lines_left > 0) {
                if want.len() > 4 {
                    lines_left -= 1;
                }
                c.rep.max("lines_of_a_span", want.len() as u64);
                let spans: Vec<(usize, usize)> = g.lines_span().take(n + 5).map(|x| (x.start(), x.end())).collect();
                chk!(c, spans == want, "span-lines", "lines_span yields the lines from that of the start to that of the end", "length" => n, "start" => a, "end" => b, "got" => spans.len(), "want" => want.len());
                chk!(c, g.lines().take(n + 5).map(|l| l.len()).sum::<usize>() == want.iter().map(|x| x.1 - x.0).sum::<usize>(), "span-lines-str", "lines yields the text of lines_span", "start" => a, "end" => b);
            }
            for (k, &x) in at.iter().enumerate() {
                for &y in at[k..].iter().take(3) {
                    let o = Span::new(s, x, y).unwrap();
                    let want = (!(b < x || y < a)).then(|| (a.min(x), b.max(y)));
                    let got = merge_spans(&g, &o).map(|x| (x.start(), x.end()));
                    chk!(c, got == want, "span-merge", "merge_spans is the union of touching spans and nothing else", "a" => (a, b), "b" => (x, y), "got" => got, "want" => want);
                    if x >= a && y <= b {
                        let got = g.get(x - a..y - a).map(|x| (x.start(), x.end()));
                        chk!(c, got == Some((x, y)), "span-get", "get() is slicing relative to the span", "a" => (a, b), "b" => (x, y), "got" => got);
                    }
                }
            }
        }
    }
}
fn far_format(c: &mut Ctx, s: &str, at: &[usize]) {
    for (i, &a) in at.iter().enumerate() {
        let p = Position::new(s, a).unwrap();
        c.rep.count("far_positions_shown", 1);
        let (got, want) = (p.to_string(), want_position(s, a, Deco::Plain));
        chk!(c, got == want, "display-position", "Display of a position", "length" => s.len(), "offset" => a, "got" => got.chars().take(300).collect::<String>(), "want" => want.chars().take(300).collect::<String>());
        for &b in at[i..].iter().rev().step_by(3).take(3).chain(at[i..].get(1)) {
            let sp = Span::new(s, a, b).unwrap();
            c.rep.count("far_spans_shown", 1);
            let (got, want) = (sp.to_string(), want_span(s, a, b, Deco::Plain));
            chk!(c, got == want, "display-span", "Display of a span", "length" => s.len(), "start" => a, "end" => b, "got" => got.chars().take(300).collect::<String>(), "want" => want.chars().take(300).collect::<String>());
            let mut got = String::new();
            sp.display(&mut got, opt()).unwrap();
            let want = want_span(s, a, b, Deco::Marked);
            chk!(c, got == want, "display-span-with", "display of a span with formatters", "length" => s.len(), "start" => a, "end" => b);
        }
    }
}
fn all_far(c: &mut Ctx, n: u64, f: fn(&mut Ctx, &str, &[usize])) {
    for i in c.mine(n) {
        let (s, at) = far(c, i);
        c.watch.enter(move || format!("far text {i}"));
        let r = model::watch::guard(|| f(c, &s, &at));
        c.watch.leave();
        c.rep.count("far_texts", 1);
        if let Err(m) = r {
            c.rep.violation("panic", "a function of Position or Span panicked", &[("text number", &i.to_string()), ("length", &s.len().to_string()), ("panic", &m)]);
        }
    }
}
pub fn position(c: &mut Ctx) {
    all_far(c, 160, far_position);
    let len = if c.scale > 4 { 7 } else { 6 };
    for s in texts(c, &['a', '\n', '\r', 'é', '中'], len, 30_000 * c.scale, WIDE, 40) {
        let twin = s.clone();
        let case = s.clone();
        c.watch.enter(move || case);
        let r = model::watch::guard(|| one_position(c, &s, &twin));
        c.watch.leave();
        c.rep.count("texts", 1);
        if let Err(m) = r {
            c.rep.violation("panic", "a function of Position panicked", &[("text", &format!("{s:?}")), ("panic", &m)]);
        }
    }
}

fn one_span(c: &mut Ctx, s: &str, twin: &str, rng: &mut Rng, full: bool) {
    let n = s.len();
    for a in 0..=n + 1 {
        for b in 0..=n + 1 {
            let got = Span::new(s, a, b);
            let want = a <= b && boundary(s, a) && boundary(s, b);
            chk!(c, got.is_some() == want, "span-new", "Span::new accepts exactly ordered character boundaries", "text" => s, "start" => a, "end" => b, "got" => got);
            let Some(g) = got else { continue };
            if !full && !rng.pct(20) {
                continue;
            }
            c.rep.count("spans", 1);
            chk!(c, g.start() == a && g.end() == b && g.start_pos().pos() == a && g.end_pos().pos() == b && g.split() == (Position::new(s, a).unwrap(), Position::new(s, b).unwrap()) && g.start_pos() == g.split().0 && g.end_pos() == g.split().1, "span-ends", "start, end, their positions and split agree", "text" => s, "start" => a, "end" => b);
            chk!(c, g.as_str() == &s[a..b] && std::ptr::eq(g.as_str().as_ptr(), s[a..b].as_ptr()) && std::ptr::eq(g.get_input(), s), "span-str", "as_str and get_input are slices of the text", "text" => s, "start" => a, "end" => b, "got" => g.as_str());
            chk!(c, g.start_pos().span(&g.end_pos()) == g, "span-again", "the span between the ends is the span", "text" => s, "start" => a, "end" => b);
            chk!(c, format!("{g:?}") == format!("Span {{ str: {:?}, start: {a}, end: {b} }}", &s[a..b]), "span-debug", "Debug shows text and ends", "got" => format!("{g:?}"));
            // Lines.
            let mut want = vec![];
            let mut p = a;
            while p < n && p <= b {
                let l = line(s, p);
                want.push(l);
                p = l.1;
            }
            let spans: Vec<(usize, usize)> = g.lines_span().take(n + 5).map(|x| (x.start(), x.end())).collect();
            let strs: Vec<&str> = g.lines().take(n + 5).collect();
            chk!(c, spans == want, "span-lines", "lines_span yields the lines from that of the start to that of the end", "text" => s, "start" => a, "end" => b, "got" => spans, "want" => want);
            chk!(c, strs == want.iter().map(|x| &s[x.0..x.1]).collect::<Vec<_>>(), "span-lines-str", "lines yields the text of lines_span", "text" => s, "start" => a, "end" => b, "got" => strs);
            if want.len() > 1 {
                c.rep.count("multi_line", 1);
            }
            // Sub-spans.
            let m = b - a;
            let inner = &s[a..b];
            let sub = |x: usize, y: usize| -> Option<(usize, usize)> { (x <= y && boundary(inner, x) && boundary(inner, y)).then(|| (a + x, a + y)) };
            let cut = |x: Option<Span<'_>>| x.map(|x| (x.start(), x.end()));
            let mut tries = vec![];
            for _ in 0..6 {
                tries.push((rng.below(m + 3), rng.below(m + 3)));
            }
            tries.push((0, usize::MAX));
            tries.push((usize::MAX, usize::MAX));
            for (x, y) in tries {
                c.rep.count("subspans", 1);
                let r = [
                    (cut(g.get(x..y)), sub(x, y)),
                    (cut(g.get(x..)), sub(x, m)),
                    (cut(g.get(..y)), sub(0, y)),
                    (cut(g.get(x..=y)), y.checked_add(1).and_then(|y| sub(x, y))),
                    (cut(g.get(..=y)), y.checked_add(1).and_then(|y| sub(0, y))),
                    (cut(g.get(..)), sub(0, m)),
                    (cut(g.get((Bound::Excluded(x), Bound::Included(y)))), x.checked_add(1).zip(y.checked_add(1)).and_then(|(x, y)| sub(x, y))),
                    (cut(g.get((Bound::Excluded(x), Bound::Excluded(y)))), x.checked_add(1).and_then(|x| sub(x, y))),
                    (cut(g.get((Bound::Excluded(x), Bound::Unbounded))), x.checked_add(1).and_then(|x| sub(x, m))),
                ];
                for (i, (got, want)) in r.iter().enumerate() {
                    chk!(c, got == want, "span-get", "get() is slicing relative to the span", "text" => s, "start" => a, "end" => b, "x" => x, "y" => y, "form" => i, "got" => got, "want" => want);
                }
            }
            for (t, x, y) in [(&s[..b], a, b), (&s[a..], 0, m), (inner, 0, m)] {
                let o = Span::new(t, x, y).unwrap();
                chk!(c, (g == o) == (t.len() == n), "span-eq-slice", "spans of a text and of a part of it differ", "text" => s, "of" => t, "start" => a, "end" => b);
            }
            if let Some(t) = Span::new(twin, a, b) {
                chk!(c, g != t || std::ptr::eq(s, twin), "span-eq-twin", "spans of different strings differ", "text" => s, "start" => a, "end" => b);
            }
            // Against other spans.
            for _ in 0..4 {
                let (x, y) = (rng.below(n + 1), rng.below(n + 1));
                let Some(o) = Span::new(s, x.min(y), x.max(y)) else { continue };
                let (x, y) = (o.start(), o.end());
                c.rep.count("merges", 1);
                let touch = !(b < x || y < a);
                let want = touch.then(|| (a.min(x), b.max(y)));
                let got = cut(merge_spans(&g, &o));
                chk!(c, got == want, "span-merge", "merge_spans is the union of touching spans and nothing else", "text" => s, "a" => g, "b" => o, "got" => got, "want" => want);
                let e = (a, b) == (x, y);
                chk!(c, (g == o) == e && (!e || h(&g) == h(&o)), "span-eq", "spans are equal exactly with equal ends, and then hash alike", "a" => g, "b" => o);
            }
        }
    }
    if s.contains('\n') && !s.is_ascii() {
        c.nontrivial(s);
    }
}
pub fn span(c: &mut Ctx) {
    all_far(c, 120, far_span);
    let len = if c.scale > 4 { 6 } else { 5 };
    for (i, s) in texts(c, &['a', '\n', '\r', 'é', '中'], len, 6_000 * c.scale, WIDE, 24).into_iter().enumerate() {
        let twin = s.clone();
        let case = s.clone();
        let mut rng = Rng::new(c.seed ^ i as u64);
        let full = s.chars().count() <= len;
        c.watch.enter(move || case);
        let r = model::watch::guard(|| one_span(c, &s, &twin, &mut rng, full));
        c.watch.leave();
        c.rep.count("texts", 1);
        if let Err(m) = r {
            c.rep.violation("panic", "a function of Span panicked", &[("text", &format!("{s:?}")), ("panic", &m)]);
        }
    }
}

// ---- display

/// How the display is decorated: span text, markers, numbers.
#[derive(Clone, Copy, PartialEq)]
enum Deco {
    Plain,
    Marked,
}
impl Deco {
    fn span(self, s: &str) -> String {
        if self == Deco::Plain { s.into() } else { format!("{{{s}}}") }
    }
    fn mark(self, s: &str) -> String {
        if self == Deco::Plain { s.into() } else { format!("[{s}]") }
    }
    fn num(self, s: &str) -> String {
        if self == Deco::Plain { s.into() } else { format!("<{s}>") }
    }
}
fn visible(s: &str) -> String {
    s.chars()
        .map(|ch| match ch as u32 {
            x @ 0..=0x1f => char::from_u32(0x2400 + x).unwrap(),
            0x7f => '\u{2421}',
            _ => ch,
        })
        .collect()
}
fn split_lines(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut a = 0;
    for (i, b) in s.bytes().enumerate() {
        if b == b'\n' {
            v.push(&s[a..=i]);
            a = i + 1;
        }
    }
    if a < s.len() || v.is_empty() {
        v.push(&s[a..]);
    }
    v
}
/// Line index and column (in bytes) of an offset; `end`: the end of a line belongs to it.
fn locate(ls: &[&str], p: usize, end: bool) -> (usize, usize) {
    let mut a = 0;
    for (i, l) in ls.iter().enumerate() {
        let e = a + l.len();
        if p < e || (end && p == e) || i + 1 == ls.len() {
            return (i, p - a);
        }
        a = e;
    }
    unreachable!()
}
fn snippet(rows: &[(Option<usize>, String)], w: usize, d: Deco) -> String {
    let mut o = String::new();
    for (n, t) in rows {
        match n {
            Some(n) => o += &d.num(&format!("{n:>w$}")),
            None => o += &" ".repeat(w),
        }
        o += " ";
        o += &d.num("|");
        o += t;
        o += "\n";
    }
    o
}
fn width(s: &str) -> usize {
    UnicodeWidthStr::width_cjk(s)
}
fn want_position(s: &str, p: usize, d: Deco) -> String {
    let ls = split_lines(s);
    let (l, col) = locate(&ls, p, false);
    let former = visible(&ls[l][..col]);
    let w = (l + 1).to_string().len();
    snippet(&[(None, String::new()), (Some(l + 1), format!(" {}{}", former, visible(&ls[l][col..]))), (None, format!(" {}{}", " ".repeat(width(&former)), d.mark("^")))], w, d)
}
fn want_span(s: &str, a: usize, b: usize, d: Deco) -> String {
    let ls = split_lines(s);
    let (l1, c1) = locate(&ls, a, false);
    // The end is in the first line, not before that of the start, that it can end.
    let (mut l2, mut c2) = (l1, b - (a - c1));
    while c2 > ls[l2].len() {
        c2 -= ls[l2].len();
        l2 += 1;
    }
    let w = (l2 + 1).to_string().len();
    let pad = |n: usize| " ".repeat(n);
    let mut rows = vec![];
    if l1 == l2 {
        let (f, m, t) = (visible(&ls[l1][..c1]), visible(&ls[l1][c1..c2]), visible(&ls[l1][c2..]));
        rows.push((None, String::new()));
        rows.push((Some(l1 + 1), format!(" {f}{}{t}", d.span(&m))));
        rows.push((None, format!(" {}{}", pad(width(&f)), d.mark(&"^".repeat(width(&m))))));
    } else {
        let (f, t) = (visible(&ls[l1][..c1]), visible(&ls[l1][c1..]));
        rows.push((None, format!(" {}{}", pad(width(&f)), d.mark("v"))));
        rows.push((Some(l1 + 1), format!(" {f}{}", d.span(&t))));
        let between: Vec<usize> = (l1 + 1..l2).collect();
        for (i, l) in between.iter().enumerate() {
            let k = between.len();
            if k <= 3 || i == 0 || i + 1 == k {
                rows.push((Some(l + 1), format!(" {}", d.span(&visible(ls[*l])))));
            } else if i == 1 {
                rows.push((None, " ...".into()));
            }
        }
        let (f, t) = (visible(&ls[l2][..c2]), visible(&ls[l2][c2..]));
        rows.push((Some(l2 + 1), format!(" {}{t}", d.span(&f))));
        rows.push((None, format!(" {}{}", pad(width(&f).saturating_sub(1)), d.mark("^"))));
    }
    snippet(&rows, w, d)
}
type Out = String;
fn opt() -> FormatOption<impl FnMut(&str, &mut Out) -> std::fmt::Result, impl FnMut(&str, &mut Out) -> std::fmt::Result, impl FnMut(&str, &mut Out) -> std::fmt::Result> {
    use std::fmt::Write;
    FormatOption::new::<Out>(|s: &str, f: &mut Out| write!(f, "{{{s}}}"), |s: &str, f: &mut Out| write!(f, "[{s}]"), |s: &str, f: &mut Out| write!(f, "<{s}>"))
}
/// A writer that has room for some bytes only.
struct Room {
    out: String,
    left: usize,
    failed: bool,
}
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed || s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}
fn room(left: usize) -> Room {
    Room { out: String::new(), left, failed: false }
}
/// Writers and formatters that fail: the failure is returned, and nothing is shown after it.
fn one_fault(c: &mut Ctx, s: &str, a: usize, b: usize, rng: &mut Rng) {
    use std::{cell::Cell, fmt::Write};
    let (p, sp) = (Position::new(s, a).unwrap(), Span::new(s, a, b).unwrap());
    let (calls, bad) = (Cell::new(0usize), Cell::new(usize::MAX));
    let call = |l: &str, t: &str, r: &str, f: &mut Room| {
        calls.set(calls.get() + 1);
        if calls.get() > bad.get() {
            // Something was asked of a formatter after the failure.
            f.out.push_str("!");
        }
        if calls.get() >= bad.get() {
            return Err(std::fmt::Error);
        }
        write!(f, "{l}{t}{r}")
    };
    let show = |f: &mut Room, span: bool| {
        calls.set(0);
        let o = FormatOption::new::<Room>(|t: &str, f: &mut Room| call("{", t, "}", f), |t: &str, f: &mut Room| call("[", t, "]", f), |t: &str, f: &mut Room| call("<", t, ">", f));
        if span { sp.display(f, o) } else { p.display(f, o) }
    };
    for span in [false, true] {
        let plain = if span { sp.to_string() } else { p.to_string() };
        let mut full = room(usize::MAX);
        let r = show(&mut full, span);
        chk!(c, r.is_ok(), "fault", "displaying fails though nothing failed", "text" => s, "start" => a, "end" => b);
        let (full, n) = (full.out, calls.get());
        // A formatter fails.
        bad.set(1 + rng.below(n));
        let mut f = room(usize::MAX);
        let r = show(&mut f, span);
        c.rep.count("formatter_faults", 1);
        chk!(c, r.is_err() && full.starts_with(&f.out), "fault", "a formatter failed, but displaying went on", "text" => s, "start" => a, "end" => b, "call" => bad.get(), "result" => r, "shown" => f.out, "of" => full);
        bad.set(usize::MAX);
        // The writer fails.
        for _ in 0..2 {
            let k = rng.below(full.len());
            let mut f = room(k);
            let r = show(&mut f, span);
            c.rep.count("writer_faults", 1);
            chk!(c, r.is_err() && full.starts_with(&f.out), "fault", "the writer failed, but displaying went on", "text" => s, "start" => a, "end" => b, "room" => k, "result" => r, "shown" => f.out, "of" => full);
            let k = rng.below(plain.len());
            let mut f = room(k);
            let r = if span { write!(f, "{sp}") } else { write!(f, "{p}") };
            c.rep.count("writer_faults", 1);
            chk!(c, r.is_err() && plain.starts_with(&f.out), "fault", "the writer failed, but Display went on", "text" => s, "start" => a, "end" => b, "room" => k, "result" => r, "shown" => f.out, "of" => plain);
        }
    }
}
fn one_format(c: &mut Ctx, s: &str, rng: &mut Rng, full: bool) {
    let n = s.len();
    for a in 0..=n {
        if !boundary(s, a) {
            continue;
        }
        let p = Position::new(s, a).unwrap();
        c.rep.count("positions_shown", 1);
        let (got, want) = (p.to_string(), want_position(s, a, Deco::Plain));
        chk!(c, got == want, "display-position", "Display of a position", "text" => s, "offset" => a, "got" => got, "want" => want);
        let mut got = String::new();
        p.display(&mut got, opt()).unwrap();
        let want = want_position(s, a, Deco::Marked);
        chk!(c, got == want, "display-position-with", "display of a position with formatters", "text" => s, "offset" => a, "got" => got, "want" => want);
        for b in a..=n {
            if !boundary(s, b) || (!full && !rng.pct(15)) {
                continue;
            }
            let sp = Span::new(s, a, b).unwrap();
            c.rep.count("spans_shown", 1);
            let (got, want) = (sp.to_string(), want_span(s, a, b, Deco::Plain));
            let rows = want.matches('\n').count();
            c.rep.count(if want.contains("| ...\n") { "elided" } else if rows > 3 { "multi_line" } else { "single_line" }, 1);
            chk!(c, got == want, "display-span", "Display of a span", "text" => s, "start" => a, "end" => b, "got" => got, "want" => want);
            let mut got = String::new();
            sp.display(&mut got, opt()).unwrap();
            let want = want_span(s, a, b, Deco::Marked);
            chk!(c, got == want, "display-span-with", "display of a span with formatters", "text" => s, "start" => a, "end" => b, "got" => got, "want" => want);
            if rng.pct(5) {
                one_fault(c, s, a, b, rng);
            }
        }
    }
    if s.contains('\n') {
        c.nontrivial(s);
    }
}
pub fn format(c: &mut Ctx) {
    all_far(c, 120, far_format);
    let len = if c.scale > 4 { 6 } else { 5 };
    let mut all = texts(c, &['a', '\n', '\r', '§', '中'], len, 4_000 * c.scale, WIDE, 40);
    // Many lines: numbers of several digits.
    for i in c.mine(64) {
        let mut r = Rng::new(c.seed ^ (i << 20));
        let k = *r.pick(&[8usize, 9, 10, 11, 12, 98, 99, 100, 101, 102]);
        let mut s = String::new();
        for _ in 0..k {
            for _ in 0..r.below(3) {
                s.push(*r.pick(WIDE));
            }
            s.push('\n');
        }
        if r.pct(50) {
            s.push('z');
        }
        all.push(s);
    }
    for (i, s) in all.into_iter().enumerate() {
        let case = s.clone();
        let mut rng = Rng::new(c.seed ^ i as u64);
        let full = s.chars().count() <= len;
        c.watch.enter(move || case);
        let r = model::watch::guard(|| one_format(c, &s, &mut rng, full));
        c.watch.leave();
        c.rep.count("texts", 1);
        if let Err(m) = r {
            c.rep.violation("panic", "displaying panicked", &[("text", &format!("{s:?}")), ("panic", &m)]);
        }
    }
}
