"""Writes zoo.rs (types that are used directly) from zoo_head.rs. Run by hand; the result is committed."""
import os, random
R = random.Random(20261119)
here = os.path.dirname(os.path.abspath(__file__))
WR = {"Sa": "a", "Sb": "b", "Sab": "ab", "Sba": "ba", "SA": "A", "Se": "é", "Sae": "aé", "Scr": "\\r", "Slf": "\\n", "Scrlf": "\\r\\n", "Ssp": " ", "S0": "", "Sk": "k", "Seb": "éb"}
# Literals of their own: long ones, and ASCII that is not letters.
LIT = {"Sp": "@AZ[`az{", "Sq": "^_~ 09@\\0|", "Sl": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789é中", "Sm": "0123456789ABCDEF0123456789abcdef0", "Sn": "éééééééééééééééééééé😀éééééééééééé", "So": "a" * 300}
LEAF = ["any", "newline", "Char<'a'>", "Char<'é'>", "CharRange<'a', 'b'>", "CharRange<'A', 'b'>", "CharRange<'a', 'é'>", "SkipChar<'i, 1>", "SkipChar<'i, 2>", "ascii_alpha", "pest3_core::typed::unicode::UPPERCASE"]


def leaf():
    k = R.random()
    if k < .45:
        return f"Str<{R.choice([w for w in WR if w not in ('S0', 'Sk')])}>"
    if k < .6:
        return f"Insens<'i, {R.choice(['Sa', 'SA', 'Sab', 'Se', 'Sae'])}>"
    return R.choice(LEAF)


def trivia(d):
    return R.choice(["Empty", "Empty", "Rep<Str<Ssp>, Empty>", "RepOnce<Str<Ssp>, Empty>", "Option<Str<Ssp>>", "Rep<Choice2<Str<Ssp>, newline>, Empty>", "push<Rep<Str<Ssp>, Empty>>"] + ([ty(d - 1)[0]] if d > 1 else []))


def ty(d):
    """(type, nullable)"""
    k = R.random()
    if d <= 0 or k < .12:
        j = R.random()
        if j < .72:
            return leaf(), False
        return R.choice(["Empty", "soi", "eoi", "SkipChar<'i, 0>", "Str<S0>", "drop", "peek<'i>", "pop<'i>", "peek_all<'i>", "pop_all<'i>", "PeekSlice1<0>", "PeekSlice1<-1>", "PeekSlice1<-2>", "PeekSlice1<1>", "PeekSlice2<0, 1>", "PeekSlice2<0, -1>", "PeekSlice2<-2, -1>", "PeekSlice2<1, 2>", "PeekSlice2<1, 0>", "NONE"]), True
    if k < .34:
        n = R.choice([2, 2, 2, 3, 3, 4, 5])
        parts, null = [], True
        t = trivia(d) if R.random() < .7 else None
        for _ in range(n):
            a, x = ty(d - 1)
            null = null and x
            parts += [a, t or trivia(d)]
        return f"Sequence{n}<{', '.join(parts)}>", null
    if k < .54:
        n = R.choice([2, 2, 2, 3, 3, 4, 5])
        xs = [ty(d - 1) for _ in range(n)]
        return f"Choice{n}<{', '.join(x[0] for x in xs)}>", any(x[1] for x in xs)
    if k < .62:
        return f"Option<{ty(d - 1)[0]}>", True
    if k < .74:
        a, null = ty(d - 1)
        if null:
            m = R.choice([1, 2, 3])
            return f"RepMinMax<{a}, {trivia(d)}, {R.randint(0, m)}, {m}>", True
        f = R.choice(["Rep<{}, {}>", "RepOnce<{}, {}>", "RepMin<{}, {}, 2>", "RepMax<{}, {}, 2>", "RepMinMax<{}, {}, 1, 2>", "RepMinMax<{}, {}, 2, 2>", "RepMinMax<{}, {}, 0, 0>"])
        return f.format(a, trivia(d)), True
    if k < .80:
        return f"Positive<{ty(d - 1)[0]}>", True
    if k < .86:
        return f"Negative<{ty(d - 1)[0]}>", True
    if k < .93:
        a, n = ty(d - 1)
        return f"push<{a}>", n
    a, n = ty(d - 1)
    return f"{R.choice(['RuleA', 'RuleB', 'RuleC'])}<'i, {a}>", n


N = 40
types = [
    f"own2::Seq40<{', '.join(['Option<any>, Option<Str<Ssp>>'] * N)}>",
    f"own2::Seq40<{', '.join(['Option<any>, Empty'] * N)}>",
    f"own2::Seq40<{', '.join(['any, Option<Str<Ssp>>'] + ['Option<Str<Sa>>, Option<Str<Ssp>>'] * 28 + ['Option<any>, Rep<Str<Ssp>, Empty>'] * 11)}>",
]
# Every arity, with the item that fails in every place.
for n in range(1, 18):
    s, c = ("Sequence%d" % n, "Choice%d" % n) if 2 <= n <= 16 else ("own::Seq%d" % n, "own::Cho%d" % n)
    items = [R.choice(["Option<Str<Sa>>", "Option<Str<Sb>>", "Option<newline>", "Option<RuleA<'i, Str<Se>>>", "Empty", "Option<push<Str<SA>>>"]) for _ in range(n)]
    types.append(f"{s}<{', '.join(x + ', Empty' for x in items)}>")
    types.append(f"{s}<{', '.join(x + ', Rep<Str<Ssp>, Empty>' for x in items)}>")
    alts = ["Str<%s>" % w for w in WR if w != "S0"] + ["RuleA<'i, Str<Sa>>", "RuleB<'i, any>", "push<Str<SA>>", "pop<'i>"]
    for _ in range(2):
        xs = [R.choice(alts) for _ in range(n)]
        types.append(f"{c}<{', '.join(xs)}>")
    # Alternatives that all fail but one, after changing the stack.
    k = R.randrange(n)
    xs = ["Sequence2<push<Option<any>>, Empty, NONE, Empty>"] * n
    xs[k] = "Sequence2<RuleC<'i, any>, Empty, peek_all<'i>, Empty>"
    types.append(f"{c}<{', '.join(xs)}>")
# Choices of which every alternative is met, sequences of which every place is filled and not.
PAIRS = [f"Sequence2<Char<'{a}'>, Empty, Char<'{b}'>, Empty>" for a in ("a", "b", "A", "é", "\\r", "\\n", " ") for b in ("a", "b", "A", "é", "\\r", "\\n", " ")]
for n in [*range(1, 18), N]:
    s, c = ("Sequence%d" % n, "Choice%d" % n) if 2 <= n <= 16 else ("own%s::Seq%d" % ("2" if n == N else "", n), "own%s::Cho%d" % ("2" if n == N else "", n))
    types.append(f"{c}<{', '.join(R.sample(PAIRS, n))}>")
    types.append(f"{s}<{', '.join(['Option<any>, Empty'] * n)}>")
    types.append(f"{s}<{', '.join(['any, Option<Str<Ssp>>'] * n)}>")
for w in WR:
    types += [f"Str<{w}>", f"Insens<'i, {w}>"]
types += LEAF + [f"SkipChar<'i, {n}>" for n in (0, 3, 4, 7)]
types += [f"PeekSlice1<{a}>" for a in range(-4, 5)] + [f"PeekSlice2<{a}, {b}>" for a in range(-3, 4) for b in range(-3, 4)]
types += ["soi", "eoi", "Empty", "NONE", "drop", "peek<'i>", "pop<'i>", "peek_all<'i>", "pop_all<'i>"]
seen = set(types)
while len(types) < 530:
    t = ty(R.choice([2, 3, 3, 4]))[0]
    if t not in seen and len(t) < 700:
        seen.add(t)
        types.append(t)
never = ["Empty"] + [f"RepMax<{a}, {t}, {n}>" for a in ("Empty", "Option<Str<Sa>>", "Option<RuleA<'i, any>>", "RepMax<Option<newline>, Empty, 2>", "Rep<Empty2, Empty>", "Option<Sequence2<Option<push<any>>, Empty, Str<Sb>, Empty>>") for t in ("Empty", "Option<Str<Ssp>>", "RepOnce<Str<Ssp>, Empty>") for n in (0, 1, 3) if "Empty2" not in a]
# Whose last, failing iteration has changed the stack.
PUSHY = "Sequence2<push<any>, Empty, Str<Sb>, Empty>"
never += [f"RepMax<{a}, {t}, {n}>" for a, t in ((f"Must<{PUSHY}>", "Empty"), (f"Must<{PUSHY}>", "push<Option<Str<Ssp>>>"), ("Option<Str<Sa>>", PUSHY), ("Must<push<Str<Sa>>>", PUSHY), ("Must<Choice2<pop<'i>, push<any>>>", "Empty"), ("Must<Sequence2<pop<'i>, Empty, Str<Sb>, Empty>>", "Empty"), ("Must<Sequence2<drop, Empty, Str<Sa>, Empty>>", "Option<Str<Ssp>>")) for n in (1, 2, 4)]
never += [f"Rep<Must<{PUSHY}>, {t}>" for t in ("Empty", "Option<Str<Ssp>>", PUSHY)] + ["Rep<Must<RuleA<'i, any>>, Empty>", "Rep<Must<newline>, Rep<Str<Ssp>, Empty>>"]
head = open(os.path.join(here, "zoo_head.rs.txt")).read()
out = head + "\n"
out += "pub mod own2 {\n    pest3_core::sequence_type!(Seq%d, %s);\n    pest3_core::choice_type!(Cho%d, %s);\n}\n" % (N, ", ".join(f"(f{i}, T{i}, R{i})" for i in range(N)), N, ", ".join(f"(A{i}, T{i}, a{i})" for i in range(N)))
out += "seq!([own2::] Seq%d %s);\ncho!([own2::] Cho%d %s);\n" % (N, " ".join(f"T{i} R{i} f{i}" for i in range(N)), N, " ".join(f"T{i} a{i} {i}" for i in range(N)))
out += "".join(f'wrap!({k} "{v}");\n' for k, v in {**WR, **LIT}.items())
out += "pub const CONTENTS: &[&str] = &[%s];\n" % ", ".join(f'"{v}"' for v in [*LIT.values(), *WR.values()])
chunks = [types[i:i + 60] for i in range(0, len(types), 60)]
for i, ch in enumerate(chunks):
    out += f"fn types_{i}<'i>(v: &mut impl Visitor<'i>) {{\n" + "".join(f"    v.visit::<{t}>(\"{t.replace(chr(34), '')}\");\n" for t in ch) + "}\n"
out += "pub fn types<'i>(v: &mut impl Visitor<'i>) {\n" + "".join(f"    types_{i}(v);\n" for i in range(len(chunks))) + "}\n"
out += "pub fn literals<'i>(v: &mut impl Visitor<'i>) {\n" + "".join(f"    v.visit::<Str<{k}>>(\"Str<{k}>\");\n    v.visit::<Insens<'i, {k}>>(\"Insens<{k}>\");\n" for k in {**WR, **LIT}) + "}\n"
out += "pub fn literal<'i>(k: usize, v: &mut impl Visitor<'i>) {\n    match k {\n" + "".join(f"        {n} => {{\n            v.visit::<Str<{k}>>(\"Str<{k}>\");\n            v.visit::<Insens<'i, {k}>>(\"Insens<{k}>\");\n        }}\n" for n, k in enumerate([*LIT, *WR])) + "        _ => unreachable!(),\n    }\n}\n"
out += "pub fn never<'i>(v: &mut impl NeverVisitor<'i>) {\n" + "".join(f"    v.visit::<{t}>(\"{t}\");\n" for t in never) + "}\n"
open(os.path.join(here, "zoo.rs"), "w").write(out)
print(len(types), len(never))
