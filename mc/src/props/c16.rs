//! C16: regular expressions as grammars, and character maps.
use super::Prop;
use crate::engine::*;
use crate::oracle::*;
use cfg_grammar::Cfg;
use cfg_regexp_logic::{CfgRegexpExt, LexerClasses, LexerMap};
use cfg_symbol::Symbol;
use regex_syntax::hir::{Class, ClassBytes, ClassBytesRange, ClassUnicode, ClassUnicodeRange, Hir, HirKind};
use std::collections::BTreeSet;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        families: vec![
            fam("trees", "every expression tree up to a size, rendered as text", trees),
            fam("repetitions", "repetition ranges up to large bounds, nested", repetitions),
            fam("texts", "every text up to a length over the metacharacters", texts),
            fam("classes", "character classes swept over all of Unicode", classes),
            fam("overlaps", "every set of intervals between four points, in several zones, with symbols numbered either way", overlaps),
            fam("scaled", "shapes of expressions up to 40 parts (and up to 200), over their own words and all words one edit away", scaled),
            fam("wide", "concatenations, classes and alternations of hundreds of parts", wide),
            fam("maps", "every character map of up to 3 ranges over boundary characters", maps),
        ],
        assumptions: vec![
            "no look-around assertions (documented as unimplemented)",
            "regex-syntax defines which texts are expressions and what named classes contain",
        ],
    }
}

// ---- languages ----

pub struct Chars {
    pub al: Alpha,
    pub chars: Vec<char>,
}

impl Chars {
    pub fn new(chars: &[char], max: usize) -> Self {
        Chars { al: Alpha::new(chars.len(), max), chars: chars.to_vec() }
    }
    fn of(&self, f: impl Fn(char) -> bool) -> u128 {
        self.chars.iter().enumerate().filter(|(_, &c)| f(c)).fold(0, |m, (i, _)| m | self.al.letter(i))
    }
    fn repeat(&self, x: u128, min: u32, max: Option<u32>) -> u128 {
        // Powers of x; beyond the longest string, only those that hold the empty
        // string matter, and they only grow.
        let mut power = Alpha::EPS;
        let far = self.al.max as u32 + 1;
        for _ in 0..min.min(far) {
            power = self.al.concat(power, x);
        }
        let mut total = power;
        let more = max.map_or(u32::MAX, |m| m - min);
        for _ in 0..more.min(far + 1) {
            power = self.al.concat(power, x);
            total |= power;
        }
        total
    }

    /// The language of an expression as parsed by regex-syntax.
    pub fn hir(&self, hir: &Hir) -> Option<u128> {
        Some(match hir.kind() {
            HirKind::Empty => Alpha::EPS,
            HirKind::Literal(l) => {
                let mut x = Alpha::EPS;
                for c in std::str::from_utf8(&l.0).ok()?.chars() {
                    x = self.al.concat(x, self.of(|d| c == d));
                }
                x
            }
            HirKind::Class(Class::Unicode(u)) => self.of(|c| u.ranges().iter().any(|r| r.start() <= c && c <= r.end())),
            HirKind::Class(Class::Bytes(u)) => {
                self.of(|c| u.ranges().iter().any(|r| (r.start() as char) <= c && c <= (r.end() as char)))
            }
            HirKind::Look(_) => return None,
            HirKind::Repetition(r) => self.repeat(self.hir(&r.sub)?, r.min, r.max),
            HirKind::Capture(c) => self.hir(&c.sub)?,
            HirKind::Concat(v) => {
                let mut x = Alpha::EPS;
                for h in v {
                    x = self.al.concat(x, self.hir(h)?);
                }
                x
            }
            HirKind::Alternation(v) => {
                let mut x = 0;
                for h in v {
                    x |= self.hir(h)?;
                }
                x
            }
        })
    }

    /// The languages of a grammar's symbols, characters taken through the map.
    pub fn grammar(&self, g: &G, map: &LexerMap) -> Vec<u128> {
        let mut base = vec![0; g.n];
        for (i, &c) in self.chars.iter().enumerate() {
            for s in map.get(c) {
                base[s.usize()] |= self.al.letter(i);
            }
        }
        self.al.langs(g, &base)
    }
    pub fn show(&self, m: u128) -> String {
        format!("{} over {:?}", self.al.show(m), self.chars)
    }
}

fn has_look(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Look(_) => true,
        HirKind::Repetition(r) => has_look(&r.sub),
        HirKind::Capture(c) => has_look(&c.sub),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().any(has_look),
        _ => false,
    }
}

pub fn usable(text: &str) -> Option<Result<Hir, ()>> {
    match regex_syntax::Parser::new().parse(text) {
        Ok(h) if has_look(&h) => None,
        Ok(h) => Some(Ok(h)),
        Err(_) => Some(Err(())),
    }
}

fn load(cx: &mut Cx, text: &str) -> Result<(G, LexerMap), Fail> {
    let what = format!("expression {:?}", text);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let r = guard(&what, || Cfg::from_regexp(text))?;
    cx.op(1);
    match r {
        Ok((cfg, mut map)) => {
            guard(&what, || map.compute())?;
            let g = G::read(&cfg);
            if g.roots.len() != 1 {
                return bad(format!("{}: start symbols {:?}", what, g.roots));
            }
            cx.state(&g);
            Ok((g, map))
        }
        Err(e) => bad(format!("{}: rejected: {}", what, e)),
    }
}

fn compare(text: &str, g: &G, map: &LexerMap, cs: &Chars, want: u128) -> Res {
    let got = cs.grammar(g, map)[g.roots[0]];
    if got != want {
        return bad(format!(
            "expression {:?}: the grammar {} lacks {} and has extra {}",
            text,
            g,
            cs.show(want & !got),
            cs.show(got & !want)
        ));
    }
    Ok(())
}

// ---- words ----

/// Where a match can end, for each place in `from` it may start at.
fn hir_ends(h: &Hir, w: &[char], from: u128) -> Option<u128> {
    let step = |from: u128, f: &dyn Fn(char) -> bool| {
        w.iter().enumerate().filter(|&(i, &c)| from >> i & 1 == 1 && f(c)).fold(0u128, |m, (i, _)| m | 1 << (i + 1))
    };
    Some(match h.kind() {
        HirKind::Empty => from,
        HirKind::Literal(l) => {
            let mut at = from;
            for c in std::str::from_utf8(&l.0).ok()?.chars() {
                at = step(at, &|d| c == d);
            }
            at
        }
        HirKind::Class(Class::Unicode(u)) => step(from, &|c| u.ranges().iter().any(|r| r.start() <= c && c <= r.end())),
        HirKind::Class(Class::Bytes(u)) => step(from, &|c| u.ranges().iter().any(|r| (r.start() as char) <= c && c <= (r.end() as char))),
        HirKind::Look(_) => return None,
        HirKind::Repetition(r) => {
            let mut at = from;
            for _ in 0..r.min {
                at = hir_ends(&r.sub, w, at)?;
            }
            let mut all = at;
            let mut n = r.min;
            while at != 0 && r.max.map_or(true, |m| n < m) {
                let next = all | hir_ends(&r.sub, w, at)?;
                if next == all && r.max.is_none() {
                    break;
                }
                at = hir_ends(&r.sub, w, at)?;
                all = next;
                n += 1;
            }
            all
        }
        HirKind::Capture(c) => hir_ends(&c.sub, w, from)?,
        HirKind::Concat(v) => {
            let mut at = from;
            for h in v {
                at = hir_ends(h, w, at)?;
            }
            at
        }
        HirKind::Alternation(v) => {
            let mut all = 0;
            for h in v {
                all |= hir_ends(h, w, from)?;
            }
            all
        }
    })
}

/// Whether the grammar derives the word from `root`, characters taken through the map.
fn derives(g: &G, root: usize, map: &LexerMap, w: &[char]) -> bool {
    // ends[s][i]: where the symbol can end when it starts at place i.
    let n = w.len() + 1;
    let mut ends = vec![vec![0u128; n]; g.n];
    for (i, &c) in w.iter().enumerate() {
        for s in map.get(c) {
            ends[s.usize()][i] |= 1 << (i + 1);
        }
    }
    loop {
        let mut changed = false;
        for (lhs, rhs) in g.rules.iter().rev() {
            for i in 0..n {
                let mut at = 1u128 << i;
                for &s in rhs {
                    let mut next = 0;
                    let mut left = at;
                    while left != 0 {
                        let k = left.trailing_zeros() as usize;
                        left &= left - 1;
                        next |= ends[s][k];
                    }
                    at = next;
                    if at == 0 {
                        break;
                    }
                }
                if at & !ends[*lhs][i] != 0 {
                    ends[*lhs][i] |= at;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    ends[root][0] >> w.len() & 1 == 1
}

/// The word and every word one edit away from it, the letters being those given.
pub fn one_edit(w: &str, letters: &[char]) -> BTreeSet<Vec<char>> {
    let w: Vec<char> = w.chars().collect();
    let mut out = BTreeSet::new();
    out.insert(w.clone());
    for i in 0..=w.len() {
        if i < w.len() {
            let mut v = w.clone();
            v.remove(i);
            out.insert(v);
            if i + 1 < w.len() {
                let mut v = w.clone();
                v.swap(i, i + 1);
                out.insert(v);
            }
        }
        for &c in letters {
            let mut v = w.clone();
            v.insert(i, c);
            out.insert(v);
            if i < w.len() {
                let mut v = w.clone();
                v[i] = c;
                out.insert(v);
            }
        }
    }
    out
}

/// The expression and the grammar agree on each of the words.
pub fn agree(text: &str, hir: &Hir, g: &G, root: usize, map: &LexerMap, words: &BTreeSet<Vec<char>>) -> Res {
    for w in words {
        if w.len() > 126 {
            continue;
        }
        let Some(e) = hir_ends(hir, w, 1) else { return Err(Fail::Skip) };
        let want = e >> w.len() & 1 == 1;
        if derives(g, root, map, w) != want {
            let s: String = w.iter().collect();
            return bad(format!("expression {:?}: {:?} {} in the language, but not so in the grammar {}", text, s, if want { "is" } else { "is not" }, g));
        }
    }
    Ok(())
}

/// An expression with `n` parts and some words to try around.
pub fn shape(kind: usize, n: usize) -> (String, Vec<String>) {
    // Letters that fold and merge with nothing: a few ASCII ones, then others.
    let l = |i: usize| -> char {
        if i < 26 {
            (b'a' + i as u8) as char
        } else {
            char::from_u32(0x4e00 + i as u32).unwrap()
        }
    };
    let seq = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let alt = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join("|");
    let ends = [0, n / 2, n - 1];
    match kind {
        0 => {
            let w = seq(&|i| l(i).to_string());
            (w.clone(), vec![w])
        }
        1 => (alt(&|i| format!("{}{}", l(i), l(i + 1))), (0..n).map(|i| format!("{}{}", l(i), l(i + 1))).collect()),
        2 => (seq(&|i| format!("[{}{}]", l(2 * i), l(2 * i + 1))), vec![seq(&|i| l(2 * i).to_string()), seq(&|i| l(2 * i + i % 2).to_string())]),
        3 => (
            alt(&|i| format!("[{}{}]{}", l(2 * i), l(2 * i + 1), l(i))),
            (0..n).flat_map(|i| [format!("{}{}", l(2 * i), l(i)), format!("{}{}", l(2 * i + 1), l(i))]).collect(),
        ),
        // Deep nesting.
        4 => (format!("{}a|b{}c", "(".repeat(n), ")".repeat(n)), vec!["ac".into(), "bc".into()]),
        5 => (
            format!("{}z{}", seq(&|i| format!("{}(?:{}|", l(i), l(i + 1).to_ascii_uppercase())), ")".repeat(n)),
            vec![seq(&|i| l(i).to_string()) + "z", "aB".into()],
        ),
        6 => (format!("{}a{}", "(?:".repeat(n), seq(&|i| [")?", ")*", ")+", "){1,2}"][i % 4].to_string())), vec!["a".into(), "aaa".into()]),
        // One class of many ranges.
        7 => (format!("[{}]b", seq(&|i| char::from_u32(0x61 + 3 * i as u32).unwrap().to_string().replace('[', "\\["))), {
            ends.iter().map(|&i| format!("{}b", char::from_u32(0x61 + 3 * i as u32).unwrap())).collect()
        }),
        // Many classes with the same start or end, or nested.
        8 => (alt(&|i| format!("[\\x{{4e00}}-\\x{{{:x}}}]{}", 0x4e01 + i, l(i))), ends.iter().map(|&i| format!("{}{}", char::from_u32(0x4e01 + i as u32).unwrap(), l(i))).collect()),
        9 => (
            alt(&|i| format!("[\\x{{{:x}}}-\\x{{5000}}]{}", 0x4e00 + i, l(i))),
            ends.iter().flat_map(|&i| [format!("\u{5000}{}", l(i)), format!("\u{5001}{}", l(i))]).collect(),
        ),
        10 => (
            alt(&|i| format!("[\\x{{{:x}}}-\\x{{{:x}}}]{}", 0x4e00 + i, 0x5000 - i, l(i))),
            ends.iter().map(|&i| format!("{}{}", char::from_u32(0x5000 - i as u32).unwrap(), l(i))).collect(),
        ),
        // Repetitions.
        11 => (format!("(?:ab){{{}}}", n), vec!["ab".repeat(n)]),
        12 => (format!("a{{{},{}}}b", n, n + 2), vec!["a".repeat(n) + "b", "a".repeat(n + 2) + "b"]),
        13 => (format!("[ab]{{{},}}", n), vec!["a".repeat(n)]),
        14 => (format!("x(?:a|b){{0,{}}}", n), vec!["x".to_string() + &"ab".repeat(n / 2), "x".to_string() + &"a".repeat(n)]),
        15 => (seq(&|i| format!("{}?", l(i))), vec![seq(&|i| l(i).to_string()), "a".into(), l(n - 1).to_string()]),
        16 => (seq(&|i| format!("{}*", l(i))), vec![seq(&|i| l(i).to_string()), format!("a{}", l(n - 1))]),
        17 => (alt(&|i| format!("{}{{{}}}", l(i), i + 2)), ends.iter().map(|&i| l(i).to_string().repeat(i + 2)).collect()),
        18 => (format!("(?:{})+", alt(&|i| format!("{}{}", l(i), l(i)))), ends.iter().map(|&i| format!("{}{}aa", l(i), l(i))).collect()),
        // Long, repeated, and of every length.
        19 => ("a".repeat(n), vec!["a".repeat(n)]),
        20 => (alt(&|i| "ab".repeat(i + 1)), vec!["ab".repeat(n), "ab".repeat(n / 2 + 1)]),
        21 => (format!("(?:{})x", alt(&|i| seq(&|j| l((i + j) % n).to_string()))), ends.iter().map(|&i| seq(&|j| l((i + j) % n).to_string()) + "x").collect()),
        22 => (seq(&|i| format!("(?:{}|{}{})", l(i), l(i), l(i))), vec![seq(&|i| l(i).to_string()), seq(&|i| l(i).to_string().repeat(1 + i % 2))]),
        // Alternations inside groups inside alternations.
        23 => (format!("z|({})|y", alt(&|i| format!("{}{}", l(i), l(i + 1)))), (0..n).map(|i| format!("{}{}", l(i), l(i + 1))).chain(["z".into()]).collect()),
        24 => (format!("z|({})*y|({})", alt(&|i| format!("{}{}", l(i), l(i + 1))), alt(&|i| format!("{}?", l(i)))), ends.iter().map(|&i| format!("{}{}y", l(i), l(i + 1))).collect()),
        // The same class used far inside and outside, before and after.
        25 => (
            format!("[ab]x{}[ab]|[a-c]y|b{}[a-c]x", "(?:z".repeat(n), ")".repeat(n)),
            vec![format!("ax{}b", "z".repeat(n)), format!("bx{}cy", "z".repeat(n)), format!("ax{}bcx", "z".repeat(n))],
        ),
        // The same class and letter at a depth and outside, within groups that stay.
        26..=30 => {
            let (open, close) = [("(z", ")"), ("(z", "|q)"), ("(?:z|(", "))"), ("(z", ")?"), ("(z", "){1,2}")][kind - 26];
            let n = n.min(24);
            let inside = if kind == 28 { String::new() } else { "z".repeat(n) };
            (
                format!("[ab]x{}[ab]d{}[ab]|[a-c]d", open.repeat(n), close.repeat(n)),
                vec![format!("bx{}bda", inside), format!("ax{}ada", inside), "axza".into(), "axqa".into(), "axzqb".into(), "cd".into()],
            )
        }
        _ => (format!("(?i:{})", seq(&|i| l(i % 26).to_string())), vec![seq(&|i| l(i % 26).to_string()), seq(&|i| l(i % 26).to_ascii_uppercase().to_string())]),
    }
}
pub const SHAPES: usize = 32;

fn scaled(cx: &mut Cx) -> Res {
    let kind = cx.choose(SHAPES);
    let n = if cx.flag() { cx.range(1, cx.tier(32, 40)) } else { cx.pick(&[50usize, 60, 64, 65, 100, 124, 200][..cx.tier(5, 7)]) };
    if n > 50 && [4, 5, 18, 21, 25].contains(&kind) || n > 14 && (26..31).contains(&kind) || n > 12 && kind == 6 {
        return cx.skip();
    }
    let (text, words) = shape(kind, n);
    let Some(Ok(hir)) = usable(&text) else { return bad(format!("the check's own expression {:?}", text)) };
    let (g, map) = load(cx, &text)?;
    let mut tries = BTreeSet::new();
    for w in &words {
        let mut letters: Vec<char> = vec!['a', 'Z'];
        letters.extend(w.chars().last());
        letters.extend(w.chars().nth(w.chars().count() / 2));
        letters.dedup();
        if n <= 40 {
            tries.extend(one_edit(w, &letters));
        } else if w.chars().count() < 126 {
            tries.extend(one_edit(w, &letters[..1]).into_iter().filter(|v| v.len() != w.chars().count() + 1).take(30));
            tries.insert(w.chars().collect());
            tries.insert(w.chars().skip(1).collect());
            tries.insert(w.chars().chain(w.chars().last()).collect());
        }
    }
    tries.insert(vec![]);
    cx.op(tries.len() as u64);
    agree(&text, &hir, &g, g.roots[0], &map, &tries)
}

// ---- trees ----

#[derive(Clone, Debug)]
enum T {
    Empty,
    Lit(char),
    Any,
    Set(&'static str, fn(char) -> bool),
    Rep(Box<T>, u32, Option<u32>, &'static str),
    Group(&'static str, Box<T>),
    Fold(Box<T>),
    Cat(Box<T>, Box<T>),
    Alt(Box<T>, Box<T>),
}

impl T {
    /// 0: alternation, 1: concatenation, 2: repeatable
    fn render(&self, out: &mut String, level: u8) {
        let own = match self {
            T::Alt(..) => 0,
            T::Cat(..) => 1,
            T::Rep(..) => 1,
            T::Empty => 0,
            _ => 2,
        };
        // A repetition of a repetition needs a group; a concatenation of them does not.
        if own < level {
            out.push_str("(?:");
            self.render(out, 0);
            out.push(')');
            return;
        }
        match self {
            T::Empty => {}
            T::Lit(c) => out.push(*c),
            T::Any => out.push('.'),
            T::Set(s, _) => out.push_str(s),
            T::Rep(t, _, _, op) => {
                t.render(out, 2);
                out.push_str(op);
            }
            T::Group(open, t) => {
                out.push_str(open);
                t.render(out, 0);
                out.push(')');
            }
            T::Fold(t) => {
                out.push_str("(?i:");
                t.render(out, 0);
                out.push(')');
            }
            T::Cat(a, b) => {
                a.render(out, 1);
                b.render(out, 1);
            }
            T::Alt(a, b) => {
                a.render(out, 0);
                out.push('|');
                b.render(out, 0);
            }
        }
    }
    fn lang(&self, cs: &Chars, fold: bool) -> u128 {
        let one = |f: &dyn Fn(char) -> bool| {
            cs.of(|c| {
                f(c) || fold && {
                    let (u, l): (Vec<char>, Vec<char>) = (c.to_uppercase().collect(), c.to_lowercase().collect());
                    u.len() == 1 && f(u[0]) || l.len() == 1 && f(l[0])
                }
            })
        };
        match self {
            T::Empty => Alpha::EPS,
            T::Lit(x) => one(&|c| c == *x),
            T::Any => cs.of(|c| c != '\n'),
            T::Set(_, f) => one(f),
            T::Rep(t, min, max, _) => cs.repeat(t.lang(cs, fold), *min, *max),
            T::Group(_, t) => t.lang(cs, fold),
            T::Fold(t) => t.lang(cs, true),
            T::Cat(a, b) => cs.al.concat(a.lang(cs, fold), b.lang(cs, fold)),
            T::Alt(a, b) => a.lang(cs, fold) | b.lang(cs, fold),
        }
    }
}

fn tree(cx: &mut Cx, size: usize, rich: bool) -> T {
    let atoms = if rich { 8 } else { 4 };
    if size == 1 {
        return match cx.choose(atoms) {
            0 => T::Lit('a'),
            1 => T::Lit('b'),
            2 => T::Empty,
            3 => T::Set("[ab]", |c| c == 'a' || c == 'b'),
            4 => T::Lit('é'),
            5 => T::Any,
            // (negated sets under (?i) are not used: folding happens before negation)
            6 => T::Set("[é-ñ]", |c| ('é'..='ñ').contains(&c)),
            _ => T::Set("[a-cA]", |c| ('a'..='c').contains(&c) || c == 'A'),
        };
    }
    let unary: &[(u32, Option<u32>, &str)] = &[
        (0, None, "*"),
        (1, None, "+"),
        (0, Some(1), "?"),
        (2, Some(2), "{2}"),
        (1, Some(3), "{1,3}"),
        (2, None, "{2,}"),
        (0, Some(2), "{0,2}"),
        (0, None, "*?"),
        (1, Some(2), "{1,2}?"),
        (0, Some(0), "{0}"),
    ];
    let unary = if rich { unary } else { &unary[..6] };
    let groups = if rich { 3 } else { 0 };
    let k = cx.choose(unary.len() + groups + if size > 2 { 2 } else { 0 });
    if k < unary.len() {
        let (min, max, op) = unary[k];
        return T::Rep(Box::new(tree(cx, size - 1, rich)), min, max, op);
    }
    let k = k - unary.len();
    if k < groups {
        let t = Box::new(tree(cx, size - 1, rich));
        return match k {
            0 => T::Group("(", t),
            1 => T::Group("(?P<n>", t),
            _ => T::Fold(t),
        };
    }
    let left = cx.range(1, size - 2);
    let a = Box::new(tree(cx, left, rich));
    let b = Box::new(tree(cx, size - 1 - left, rich));
    if k == groups {
        T::Cat(a, b)
    } else {
        T::Alt(a, b)
    }
}

fn names(t: &T) -> usize {
    match t {
        T::Group(o, t) => (o.len() > 1) as usize + names(t),
        T::Rep(t, ..) | T::Fold(t) => names(t),
        T::Cat(a, b) | T::Alt(a, b) => names(a) + names(b),
        _ => 0,
    }
}

fn trees(cx: &mut Cx) -> Res {
    let t = match cx.choose(3) {
        0 => {
            let size = cx.range(1, cx.tier(4, 5));
            tree(cx, size, true)
        }
        1 => tree(cx, cx.tier(5, 6), false),
        _ => {
            // Alternations and concatenations of three parts with a tail.
            let a = tree(cx, 2, false);
            let b = tree(cx, 2, false);
            let c = tree(cx, 1, true);
            let ab = if cx.flag() { T::Cat(Box::new(a), Box::new(b)) } else { T::Alt(Box::new(a), Box::new(b)) };
            if cx.flag() {
                T::Cat(Box::new(ab), Box::new(c))
            } else {
                T::Alt(Box::new(c), Box::new(ab))
            }
        }
    };
    if names(&t) > 1 {
        return cx.skip(); // group names must differ
    }
    let mut text = String::new();
    t.render(&mut text, 0);
    let (g, map) = load(cx, &text)?;
    for cs in [Chars::new(&['a', 'b', 'é'], 4), Chars::new(&['a', 'A', '\n', 'É'], 3)] {
        compare(&text, &g, &map, &cs, t.lang(&cs, false))?;
    }
    Ok(())
}

fn repetitions(cx: &mut Cx) -> Res {
    let top = cx.tier(40, 60);
    let (text, want);
    let cs = Chars::new(&['a'], 100);
    let a = cs.al.letter(0);
    // A lazy repetition matches the same texts.
    let lazy = if cx.flag() { "?" } else { "" };
    let range = |min: u32, max: Option<u32>| match max {
        None => format!("{{{},}}{}", min, lazy),
        Some(m) if m == min => format!("{{{}}}{}", m, lazy),
        Some(m) => format!("{{{},{}}}{}", min, m, lazy),
    };
    match cx.choose(3) {
        0 => {
            let min = cx.range(0, top) as u32;
            let max = if cx.flag() { None } else { Some(min + cx.range(0, top - min as usize) as u32) };
            text = format!("a{}", range(min, max));
            want = cs.repeat(a, min, max);
        }
        1 => {
            let n1 = cx.range(0, 4) as u32;
            let x1 = if cx.flag() { None } else { Some(n1 + cx.range(0, 4) as u32) };
            let n2 = cx.range(0, 4) as u32;
            let x2 = if cx.flag() { None } else { Some(n2 + cx.range(0, 4) as u32) };
            let sub = cx.choose(3);
            text = format!("(?:{}{}){}", ["a", "(?:aa)", "(?:a|aaa)"][sub], range(n1, x1), range(n2, x2));
            let a3 = cs.al.concat(a, cs.al.concat(a, a));
            let inner = cs.repeat([a, cs.al.concat(a, a), a | a3][sub], n1, x1);
            want = cs.repeat(inner, n2, x2);
        }
        _ => {
            // Several repetitions in a row.
            let opts: [(u32, Option<u32>); 7] = [(0, None), (1, None), (0, Some(1)), (3, Some(3)), (2, Some(5)), (4, None), (0, Some(7))];
            let n = cx.range(2, 4);
            let mut t = String::new();
            let mut w = Alpha::EPS;
            for _ in 0..n {
                let (min, max) = cx.pick(&opts);
                t.push_str(&format!("a{}", range(min, max)));
                w = cs.al.concat(w, cs.repeat(a, min, max));
            }
            text = t;
            want = w;
        }
    }
    let (g, map) = load(cx, &text)?;
    compare(&text, &g, &map, &cs, want)
}

fn texts(cx: &mut Cx) -> Res {
    let meta = ['a', 'b', '(', ')', '|', '*', '?', '[', ']', '-', '^', '.', '\\', '{', '2', ',', '}', '&', 'é'];
    let n = cx.range(0, cx.tier(5, 6));
    let text: String = if n == 5 && !cx.thorough {
        // The first and last characters vary less.
        let short = ['a', '(', '[', '|'];
        let mut s = String::new();
        s.push(cx.pick(&short));
        for _ in 0..3 {
            s.push(cx.pick(&meta));
        }
        s.push(cx.pick(&['a', ')', ']', '*', '}']));
        s
    } else {
        (0..n).map(|_| cx.pick(&meta)).collect()
    };
    check_text(cx, &text)
}

fn check_text(cx: &mut Cx, text: &str) -> Res {
    match usable(text) {
        None => cx.skip(),
        Some(Err(())) => {
            cx.op(1);
            cx.state(&text);
            match guard(&format!("expression {:?}", text), || Cfg::from_regexp(text))? {
                Ok(_) => bad(format!("expression {:?} was accepted", text)),
                Err(_) => Ok(()),
            }
        }
        Some(Ok(hir)) => {
            let (g, map) = load(cx, text)?;
            for cs in [Chars::new(&['a', 'b', 'é'], 4), Chars::new(&['2', '-', '\n', '\u{2028}'], 3)] {
                let Some(want) = cs.hir(&hir) else { return cx.skip() };
                compare(text, &g, &map, &cs, want)?;
            }
            Ok(())
        }
    }
}

fn all_chars() -> impl Iterator<Item = char> {
    '\0'..=char::MAX
}

fn classes(cx: &mut Cx) -> Res {
    let exprs = [
        ".",
        "(?s:.)",
        "[^a]",
        "[^é]",
        "[^\\x{10FFFF}]",
        "[^\\x00]",
        "\\d",
        "\\D",
        "\\w",
        "\\W",
        "\\s",
        "\\S",
        "\\pL",
        "\\PL",
        "\\p{Greek}",
        "(?i:k)",
        "(?i:[a-z])",
        "(?i:[^k])",
        "(?i:ß)",
        "(?i:é)",
        "(?-u:\\w)",
        "(?-u:\\d)",
        "[[:punct:]]",
        "[a-zà-ÿ]",
        "[\\x7e-\\x81]",
        "[\\x{D7FF}-\\x{E000}]",
        "[\\x{FFFF}-\\x{10000}]",
        "[\\x{10FFFE}-\\x{10FFFF}]",
        "[\\x00-\\x{10FFFF}]",
        "[a&&b]",
        "[\\w--\\d]",
        "[\\w~~\\d]",
        "[a-c-z]",
        "\\x7f",
        "\\x80",
        "ÿ",
        "\u{10FFFF}",
        "\u{D7FF}",
        "\u{E000}",
        "\\xFF",
    ];
    let i = cx.choose(exprs.len());
    // Alone, or together with another class in the same expression.
    let j = cx.choose(exprs.len() + 1);
    let text = if j == 0 { exprs[i].to_string() } else { format!("{}{}", exprs[i], exprs[j - 1]) };
    if j > 0 && !cx.thorough && (i * 7 + j) % 5 != 0 {
        return cx.skip();
    }
    let what = format!("expression {:?}", text);
    let (g, map) = load(cx, &text)?;
    // Each part is one letter; find the symbols of the two parts.
    let parts: Vec<Vec<(char, char)>> = std::iter::once(exprs[i])
        .chain((j > 0).then(|| exprs[j - 1]))
        .map(|e| match regex_syntax::Parser::new().parse(e).unwrap().kind() {
            HirKind::Class(Class::Unicode(u)) => u.ranges().iter().map(|r| (r.start(), r.end())).collect(),
            HirKind::Class(Class::Bytes(u)) => u.ranges().iter().map(|r| (r.start() as char, r.end() as char)).collect(),
            HirKind::Literal(l) => {
                let c = std::str::from_utf8(&l.0).unwrap().chars().next().unwrap();
                vec![(c, c)]
            }
            _ => vec![],
        })
        .collect();
    // The start symbol must derive exactly the pairs (or single characters).
    let fin = Finite::of(&g, &g.terminals());
    let strings: Vec<Vec<usize>> = fin.lang(g.roots[0]).iter().cloned().collect();
    if strings.len() != 1 || strings[0].len() != parts.len() {
        return bad(format!("{}: the grammar {} derives {:?}", what, g, strings));
    }
    let mut member: Vec<Vec<bool>> = vec![];
    for p in &parts {
        let mut v = vec![false; 0x110000];
        for &(a, b) in p {
            for c in a..=b {
                v[c as usize] = true;
            }
        }
        member.push(v);
    }
    let mut n = 0;
    for c in all_chars() {
        let got: BTreeSet<usize> = map.get(c).iter().map(|s| s.usize()).collect();
        let mut want = BTreeSet::new();
        for (k, m) in member.iter().enumerate() {
            if m[c as usize] {
                want.insert(strings[0][k]);
            }
        }
        n += 1;
        if got != want {
            return bad(format!("{}: the map gives {:?} for {:?}, expected {:?}", what, got, c, want));
        }
    }
    cx.op(n);
    Ok(())
}

/// Many classes beginning and ending at the same places.
fn overlaps(cx: &mut Cx) -> Res {
    let zones: [[char; 4]; 7] = [
        ['a', 'b', 'c', 'd'],
        ['\u{7e}', '\u{7f}', '\u{80}', '\u{81}'],
        ['á', 'é', 'í', 'ó'],
        ['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}'],
        ['\0', 'z', '中', '\u{10ffff}'],
        ['\u{fe}', '\u{ff}', '\u{100}', '\u{101}'],
        ['\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}'],
    ];
    let p = cx.pick(&zones);
    let order = cx.choose(3);
    let mut sets: Vec<(char, char)> = vec![];
    for i in 0..4 {
        for j in i..4 {
            if cx.flag() {
                sets.push((p[i], p[j]));
            }
        }
    }
    let mut cfg = Cfg::new();
    let mut syms: Vec<Symbol> = sets.iter().map(|_| cfg.next_sym(None)).collect();
    match order {
        0 => {}
        1 => syms.reverse(),
        _ => {
            let k = syms.len() / 2;
            syms.rotate_left(k);
        }
    }
    let mut map = LexerMap::new();
    for (&(a, b), &s) in sets.iter().zip(&syms) {
        let key = LexerClasses::from(Class::Unicode(ClassUnicode::new(vec![ClassUnicodeRange::new(a, b)])));
        map.classes.insert(key, s);
    }
    guard(&format!("classes {:?}", sets), || map.compute())?;
    if order == 1 {
        // Computing again changes nothing.
        map.compute();
    }
    cx.op(1);
    cx.state(&(&sets, order));
    if cx.want_note {
        cx.note = Some(format!("classes {:?}, numbered {:?}", sets, syms));
    }
    let mut probes: Vec<char> = vec!['\0', '\u{10ffff}', 'm', 'é'];
    for &c in &p {
        probes.push(c);
        probes.extend((c..=char::MAX).nth(1));
        probes.extend((c..=char::MAX).nth(2));
        probes.extend(char::from_u32((c as u32).wrapping_sub(1)));
    }
    for c in probes {
        let mut got: Vec<usize> = map.get(c).iter().map(|s| s.usize()).collect();
        got.sort();
        let mut want: Vec<usize> = sets.iter().zip(&syms).filter(|(r, _)| r.0 <= c && c <= r.1).map(|m| m.1.usize()).collect();
        want.sort();
        if got != want {
            return bad(format!("map of classes {:?} numbered {:?}: {:?} is in {:?}, expected {:?}", sets, syms, c, got, want));
        }
    }
    Ok(())
}

fn maps(cx: &mut Cx) -> Res {
    // Every map of up to 3 classes, each a range or two between boundary points.
    let points: Vec<char> = vec!['\0', 'a', 'b', '\u{7e}', '\u{7f}', '\u{80}', '\u{81}', 'ÿ', 'Ā', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}'];
    let mut ranges: Vec<(char, char)> = vec![];
    for (i, &a) in points.iter().enumerate() {
        for &b in &points[i..] {
            ranges.push((a, b));
        }
    }
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..4).map(|_| cfg.next_sym(None)).collect();
    let mut map = LexerMap::new();
    let mut model: Vec<(Vec<(char, char)>, Symbol)> = vec![];
    let count = cx.range(0, cx.tier(2, 3));
    let stages = cx.choose(2);
    let mut shown = vec![];
    for k in 0..count {
        let kind = if k == 0 { cx.choose(5) } else { cx.choose(2) };
        let (set, key): (Vec<(char, char)>, LexerClasses) = match kind {
            0 => {
                let r = cx.pick(&ranges);
                let rs = vec![ClassUnicodeRange::new(r.0, r.1)];
                (vec![r], LexerClasses::from(Class::Unicode(ClassUnicode::new(rs))))
            }
            1 => {
                let c = cx.pick(&points);
                (vec![(c, c)], LexerClasses::from(c))
            }
            2 => {
                let b = cx.choose(256) as u8;
                (vec![(b as char, b as char)], LexerClasses::from(b))
            }
            3 => {
                // Two ranges.
                let a = cx.choose(ranges.len());
                let b = cx.choose(ranges.len());
                let mut u = ClassUnicode::new(vec![
                    ClassUnicodeRange::new(ranges[a].0, ranges[a].1),
                    ClassUnicodeRange::new(ranges[b].0, ranges[b].1),
                ]);
                if count > 1 && (a + b) % 7 != 0 {
                    return cx.skip();
                }
                if cx.flag() {
                    u.negate();
                }
                (u.ranges().iter().map(|r| (r.start(), r.end())).collect(), LexerClasses::from(Class::Unicode(u)))
            }
            _ => {
                let a = cx.pick(&[0u8, 1, 97, 126, 127, 128, 254, 255]);
                let b = cx.pick(&[0u8, 1, 97, 126, 127, 128, 254, 255]);
                if a > b {
                    return cx.skip();
                }
                (vec![(a as char, b as char)], LexerClasses::from(Class::Bytes(ClassBytes::new(vec![ClassBytesRange::new(a, b)]))))
            }
        };
        // Ranges are listed half-open.
        let listed: Vec<(char, char)> = key.iter().collect();
        let want: Vec<(char, char)> = set.iter().map(|&(a, b)| (a, (b..=char::MAX).nth(1).unwrap_or(b))).collect();
        if listed != want {
            return bad(format!("class {:?} lists {:?}, expected {:?}", set, listed, want));
        }
        shown.push(format!("{:?}", set));
        if map.classes.contains_key(&key) {
            return cx.skip();
        }
        map.classes.insert(key, syms[k + 1]);
        model.push((set, syms[k + 1]));
        if stages == 1 && k == 0 {
            // Computing early must not matter for what is computed later.
            map.compute();
        }
    }
    map.compute();
    if stages == 1 {
        map = map.clone();
    }
    cx.op(1);
    cx.state(&shown);
    let mut probes: Vec<char> = vec![];
    for &p in points.iter().chain(model.iter().flat_map(|m| m.0.iter().flat_map(|r| [&r.0, &r.1]))) {
        probes.push(p);
        probes.extend((p..=char::MAX).nth(1));
        probes.extend(char::from_u32((p as u32).wrapping_sub(1)));
    }
    probes.extend(['c', 'z', 'é', 'β', '中', '\u{d000}', '\u{f000}', '\u{10000}', '😀']);
    for c in probes {
        let mut got: Vec<usize> = map.get(c).iter().map(|s| s.usize()).collect();
        got.sort();
        let want: Vec<usize> = model.iter().filter(|(set, _)| set.iter().any(|r| r.0 <= c && c <= r.1)).map(|m| m.1.usize()).collect();
        if got != want {
            return bad(format!("map of classes {:?}: {:?} is in {:?}, expected {:?}", shown, c, got, want));
        }
    }
    Ok(())
}

/// Long concatenations and wide alternations, at the edges of 8 bits.
fn wide(cx: &mut Cx) -> Res {
    let n = cx.pick(&[254usize, 255, 256, 257, 258, 300]);
    let l = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
    let kind = cx.choose(5);
    // What each of the n places accepts.
    let (text, accepts): (String, Vec<Vec<char>>) = match kind {
        0 => ((0..n).map(l).collect(), (0..n).map(|i| vec![l(i)]).collect()),
        1 => ((0..n).map(|i| format!("[{}{}]", l(i), l(i + 1))).collect(), (0..n).map(|i| vec![l(i), l(i + 1)]).collect()),
        2 => ((0..n).map(|i| format!("(?:{}|{})", l(2 * i), l(2 * i + 2))).collect(), (0..n).map(|i| vec![l(2 * i), l(2 * i + 2)]).collect()),
        3 => ((0..n).map(|i| format!("{}{{1}}[{}{}]", l(i), l(i), l(i + 2))).collect(), (0..2 * n).map(|i| if i % 2 == 0 { vec![l(i / 2)] } else { vec![l(i / 2), l(i / 2 + 2)] }).collect()),
        // One class of many ranges.
        _ => (format!("[{}]", (0..n).map(|i| l(3 * i)).collect::<String>()), vec![(0..n).map(|i| l(3 * i)).collect()]),
    };
    if cx.want_note {
        cx.note = Some(text.chars().take(80).collect());
    }
    let (g, map) = load(cx, &text)?;
    cx.op(1);
    cx.state(&(n, kind));
    // All of the grammar's words, place by place: each symbol derives strings of one length.
    let mut memo: Vec<Option<Vec<BTreeSet<usize>>>> = vec![None; g.n];
    fn places(g: &G, memo: &mut Vec<Option<Vec<BTreeSet<usize>>>>, s: usize, depth: usize) -> Result<Vec<BTreeSet<usize>>, Fail> {
        if let Some(v) = &memo[s] {
            return Ok(v.clone());
        }
        if depth > 2000 {
            return bad("recursive grammar");
        }
        let mut all: Option<Vec<BTreeSet<usize>>> = None;
        for (_, r) in g.rules.iter().filter(|r| r.0 == s) {
            let mut v = vec![];
            for &x in r {
                v.extend(places(g, memo, x, depth + 1)?);
            }
            all = Some(match all {
                None => v,
                Some(a) if a.len() == v.len() && a.len() == 1 => vec![&a[0] | &v[0]],
                Some(a) if a == v => a,
                Some(_) => return bad(format!("symbol {} has alternatives of several places", s)),
            });
        }
        let v = all.unwrap_or_else(|| vec![[s].into()]);
        memo[s] = Some(v.clone());
        Ok(v)
    }
    let got = places(&g, &mut memo, g.roots[0], 0)?;
    if got.len() != accepts.len() {
        return bad(format!("{:?}: words of length {} instead of {}", text.chars().take(60).collect::<String>(), got.len(), accepts.len()));
    }
    for (i, (set, want)) in got.iter().zip(&accepts).enumerate() {
        for c in (0..3 * n + 4).map(l) {
            let have = map.get(c).iter().any(|s| set.contains(&s.usize()));
            if have != want.contains(&c) {
                return bad(format!("{:?}: {:?} at place {} is {} accepted", text.chars().take(60).collect::<String>(), c, i, if have { "wrongly" } else { "not" }));
            }
        }
    }
    Ok(())
}
