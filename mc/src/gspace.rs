//! Spaces of grammars, enumerated through the chooser.

use crate::engine::{Cx, Fail};
use crate::oracle::G;

/// All grammars with a bounded number of rules over `nn` intended nonterminals
/// (`0 .. nn`) and `nt` intended terminals (`nn .. nn + nt`).
#[derive(Clone, Copy)]
pub struct Space {
    pub nn: usize,
    pub nt: usize,
    pub min_rules: usize,
    pub max_rules: usize,
    pub max_len: usize,
    /// All rule orders, duplicates included; otherwise strictly increasing rule
    /// lists, in a few orders (see `orders`).
    pub ordered: bool,
    pub orders: usize,
}

impl Space {
    pub const fn seq(nn: usize, nt: usize, min_rules: usize, max_rules: usize, max_len: usize) -> Space {
        Space { nn, nt, min_rules, max_rules, max_len, ordered: true, orders: 1 }
    }
    pub const fn set(nn: usize, nt: usize, min_rules: usize, max_rules: usize, max_len: usize) -> Space {
        Space { nn, nt, min_rules, max_rules, max_len, ordered: false, orders: 2 }
    }
    pub fn num_rhs(&self) -> usize {
        let k = self.nn + self.nt;
        let mut p = 1;
        let mut t = 0;
        for _ in 0..=self.max_len {
            t += p;
            p *= k;
        }
        t
    }
    pub fn rhs(&self, mut i: usize) -> Vec<usize> {
        let k = self.nn + self.nt;
        let mut len = 0;
        let mut p = 1;
        while i >= p {
            i -= p;
            p *= k;
            len += 1;
        }
        let mut v = vec![0; len];
        for x in v.iter_mut() {
            *x = i % k;
            i /= k;
        }
        v
    }
    pub fn num_rules(&self) -> usize {
        self.nn * self.num_rhs()
    }
    pub fn rule(&self, i: usize) -> (usize, Vec<usize>) {
        (i / self.num_rhs(), self.rhs(i % self.num_rhs()))
    }

    pub fn choose(&self, cx: &mut Cx) -> Result<G, Fail> {
        let count = cx.range(self.min_rules, self.max_rules);
        let total = self.num_rules();
        let mut rules = vec![];
        if self.ordered {
            for _ in 0..count {
                rules.push(self.rule(cx.choose(total)));
            }
        } else {
            let mut lo = 0;
            for j in 0..count {
                let left = count - j - 1;
                if lo + left >= total {
                    return cx.skip();
                }
                let i = lo + cx.choose(total - lo - left);
                rules.push(self.rule(i));
                lo = i + 1;
            }
            match if count > 1 { cx.choose(self.orders) } else { 0 } {
                0 => {}
                1 => rules.reverse(),
                _ => rules.rotate_left(count / 2),
            }
        }
        Ok(G { n: self.nn + self.nt, rules, roots: vec![0], ..G::default() })
    }
}

/// Root sets of a grammar with `nn` nonterminals: none, each single, pairs.
pub fn choose_roots(cx: &mut Cx, g: &mut G, nn: usize, none: bool) {
    let mut opts: Vec<Vec<usize>> = vec![];
    for i in 0..nn {
        opts.push(vec![i]);
    }
    for i in 0..nn {
        for j in i + 1..nn {
            opts.push(vec![i, j]);
            if i == 0 {
                opts.push(vec![j, i]);
            }
        }
    }
    if none {
        opts.push(vec![]);
    }
    if g.n > 250 || g.rules.iter().any(|r| r.1.len() > 250) {
        // Its own, the middle one, and all of them.
        opts = vec![opts[0].clone(), opts[opts.len() / 2].clone(), opts[opts.len() - 1].clone()];
    }
    g.roots = cx.pick(&opts);
}

/// Number of embeddings offered by [`embed`].
pub const EMBEDDINGS: usize = 8;

/// Places the symbols of `g` elsewhere in a larger symbol space, to reach word
/// and block boundaries and other numberings. Embedding 0 is the identity.
pub fn embed(g: &G, which: usize) -> G {
    let n = g.n;
    let (map, total): (Vec<usize>, usize) = match which {
        0 => ((0..n).collect(), n),
        // Reversed numbering (terminals first).
        1 => ((0..n).map(|i| n - 1 - i).collect(), n),
        // Straddling 32, 64, 128.
        2 => ((0..n).map(|i| 31 + i).collect(), 31 + n),
        3 => ((0..n).map(|i| 63 + i).collect(), 64 + n),
        4 => ((0..n).map(|i| 127 + n - 1 - i).collect(), 127 + n),
        // Spread over several words.
        5 => ((0..n).map(|i| i * 33).collect(), n * 33),
        // Spread, reversed, with unused symbols after.
        6 => ((0..n).map(|i| (n - i) * 29).collect(), n * 29 + 40),
        // Ending exactly at 64.
        7 => ((0..n).map(|i| 64 - n + i).collect(), 64),
        _ => unreachable!(),
    };
    g.embed(&map, total)
}

pub fn choose_embedding(cx: &mut Cx, g: &G) -> G {
    let e = cx.choose(EMBEDDINGS);
    embed(g, e)
}

pub const SIZES: &[usize] = &[1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 130];
pub const SIZES_SMALL: &[usize] = &[1, 2, 3, 5, 8, 9, 17, 33, 65];

/// Parametric large shapes. `S` is symbol 0; `x`, `y` the last two symbols.
/// Every shape comes in several numberings and rule orders.
pub fn shapes(cx: &mut Cx, sizes: &[usize]) -> G {
    let m = cx.pick(sizes);
    let kind = cx.choose(9);
    let x = m + 1;
    let y = m + 2;
    let n = m + 3;
    let nt = |i: usize| i; // nonterminals 0 ..= m
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    match kind {
        // Unit chain ending in a terminal, the empty string, or both.
        0 => {
            for i in 0..m {
                rules.push((nt(i), vec![nt(i + 1)]));
            }
            match cx.choose(3) {
                0 => rules.push((nt(m), vec![x])),
                1 => rules.push((nt(m), vec![])),
                _ => {
                    rules.push((nt(m), vec![x, y]));
                    rules.push((nt(m), vec![]));
                }
            }
        }
        // Unit chain closed into a cycle at some place, with one exit.
        1 => {
            for i in 0..m {
                rules.push((nt(i), vec![nt(i + 1)]));
            }
            let back = cx.pick(&[0, m / 2, m.saturating_sub(1), m]);
            rules.push((nt(m), vec![nt(back)]));
            let exit = cx.pick(&[0, m / 2, m]);
            rules.push((nt(exit), vec![x]));
        }
        // One rule with a long right-hand side of nonterminals, each x / y / nullable.
        2 => {
            rules.push((0, (1..=m).map(nt).collect()));
            let pat = cx.choose(4);
            for i in 1..=m {
                match (pat, i % 2) {
                    (0, _) | (2, 0) => rules.push((nt(i), vec![x])),
                    (1, _) | (2, _) => rules.push((nt(i), vec![])),
                    (3, _) if i == m => rules.push((nt(i), vec![x])),
                    (3, _) if i == 1 => rules.push((nt(i), vec![y])),
                    _ => rules.push((nt(i), vec![])),
                }
            }
        }
        // Many alternatives.
        3 => {
            for i in 1..=m {
                rules.push((0, vec![nt(i), x]));
                rules.push((nt(i), if i % 3 == 0 { vec![] } else { vec![y] }));
            }
        }
        // Right-recursive ladder.
        4 => {
            for i in 0..m {
                rules.push((nt(i), vec![x, nt(i + 1)]));
                if i % 7 == 3 {
                    rules.push((nt(i), vec![]));
                }
            }
            rules.push((nt(m), vec![y]));
        }
        // Left-recursive ladder with nullable tails.
        5 => {
            for i in 0..m {
                rules.push((nt(i), vec![nt(i + 1), nt(m)]));
            }
            rules.push((nt(m), vec![]));
            if cx.flag() {
                rules.push((nt(m), vec![y]));
            }
        }
        // Unreachable and unproductive halves.
        6 => {
            for i in 0..m {
                if i % 2 == 0 {
                    rules.push((nt(i), vec![x, nt((i + 2).min(m))]));
                } else {
                    rules.push((nt(i), vec![nt(i), y]));
                }
            }
            rules.push((nt(m), vec![x]));
        }
        // Several disjoint unit cycles of length 2 and 3.
        7 => {
            let mut i = 0;
            let mut len = 2;
            while i + len <= m + 1 {
                for j in 0..len {
                    rules.push((nt(i + j), vec![nt(i + (j + 1) % len)]));
                }
                rules.push((nt(i + len - 1), vec![x]));
                if i > 0 {
                    rules.push((nt(i - 1), vec![nt(i), y]));
                }
                i += len;
                len = 5 - len;
            }
            if rules.is_empty() {
                rules.push((0, vec![x]));
            }
        }
        // The same long string of terminals and self-embedding.
        _ => {
            let mut r = vec![x; m];
            r.push(0);
            r.push(y);
            rules.push((0, r));
            rules.push((0, vec![x; m]));
            rules.push((0, vec![]));
        }
    }
    finish(cx, rules, n)
}

/// Orders and numberings of a parametric grammar.
fn finish(cx: &mut Cx, mut rules: Vec<(usize, Vec<usize>)>, n: usize) -> G {
    let order = cx.choose(3);
    match order {
        0 => {}
        1 => rules.reverse(),
        _ => {
            let h = rules.len() / 2;
            rules.rotate_left(h);
        }
    }
    let g = G { n, rules, roots: vec![0], ..G::default() };
    // The very large ones do not come in every combination.
    let large = n > 250 || g.rules.iter().any(|r| r.1.len() > 250);
    match if large { order } else { cx.choose(3) } {
        0 => g,
        1 => {
            let map: Vec<usize> = (0..n).map(|i| n - 1 - i).collect();
            g.embed(&map, n)
        }
        _ => {
            // Interleave: even symbols first.
            let ev: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
            g.embed(&ev, n + 5)
        }
    }
}

pub const SCALES: &[usize] = &[2, 3, 4, 5, 6, 7, 9, 12, 17, 34, 66];
pub const SCALES_SMALL: &[usize] = &[3, 5, 7, 10, 18, 34];

/// Parametric grammars in which one quantity grows while all terminals stay
/// distinct: symbols in a rule, alternatives, contexts, members of a cycle,
/// depth, and the place of the one symbol that matters.
pub fn scaled(cx: &mut Cx, sizes: &[usize]) -> G {
    let m = cx.pick(sizes);
    let places: Vec<usize> = {
        let mut v = vec![0, 1, m / 2, m - 1];
        v.dedup();
        v
    };
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let t = |i: usize| m + 2 + i; // terminals t(0) .. t(m + 1)
    let a = |i: usize| 1 + i; // nonterminals 0, a(0) .. a(m)
    let n = 2 * m + 4;
    match cx.choose(10) {
        // S ::= A1 ... Am, each with its own terminal, some nullable.
        0 => {
            let pat = cx.choose(5);
            let p = if pat >= 3 { cx.pick(&places) } else { 0 };
            let mut rhs: Vec<usize> = (0..m).map(a).collect();
            if cx.flag() {
                rhs.push(t(m));
            }
            rules.push((0, rhs));
            for i in 0..m {
                rules.push((a(i), vec![t(i)]));
                let null = match pat {
                    0 => false,
                    1 => true,
                    2 => i % 2 == 0,
                    3 => i != p,
                    _ => i == p,
                };
                if null {
                    rules.push((a(i), vec![]));
                }
            }
        }
        // A unit cycle whose members have exits of their own, and are used together.
        1 => {
            for i in 0..m {
                rules.push((a(i), vec![a((i + 1) % m)]));
            }
            if cx.flag() {
                for i in 0..m {
                    rules.push((a(i), vec![t(i)]));
                }
                rules.push((0, vec![a(m - 1), t(m), a(m / 2)]));
            } else {
                let p = cx.pick(&places);
                rules.push((a(p), vec![t(p)]));
                rules.push((a(p), (0..m).map(t).chain([a(0)]).collect()));
                rules.push((0, (0..m).map(a).collect()));
                rules.push((0, (0..m).map(t).chain([a(m - 1)]).collect()));
            }
        }
        // Many alternatives, possibly two that begin alike.
        2 => {
            let (p, q) = (cx.pick(&places), cx.pick(&places));
            for i in 0..m {
                rules.push((0, vec![t(if i == q { p } else { i }), a(0)]));
            }
            rules.push((a(0), vec![]));
            if cx.flag() {
                rules.push((a(0), vec![t(p), 0]));
            }
        }
        // One symbol in many contexts.
        3 => {
            for i in 0..m {
                rules.push((if i % 3 == 2 { a(1) } else { 0 }, vec![a(0), t(i)]));
            }
            rules.push((0, vec![a(1)]));
            rules.push((a(1), vec![t(m)]));
            rules.push((a(0), vec![t(cx.pick(&places))]));
            if cx.flag() {
                rules.push((a(0), vec![]));
            }
        }
        // A long rule with recursion (direct or not) at one place.
        4 => {
            let p = cx.pick(&places);
            let via = cx.flag();
            let rhs: Vec<usize> = (0..m).map(|i| if i == p { if via { a(0) } else { 0 } } else { t(i) }).collect();
            rules.push((0, rhs));
            rules.push((0, vec![t(m)]));
            if via {
                rules.push((a(0), vec![0, t(m), t(m)]));
                rules.push((a(0), vec![t(p)]));
            }
        }
        // A tree of depth log m with all leaves distinct.
        5 => {
            for i in 0..m {
                if 2 * i + 2 < m {
                    rules.push((i, vec![2 * i + 1, 2 * i + 2]));
                } else {
                    rules.push((i, vec![t(i)]));
                }
            }
            if cx.flag() {
                rules.push((m - 1, vec![]));
            }
        }
        // A list of operators, each level below the last; one level is broken.
        6 => {
            let p = cx.pick(&places);
            let how = cx.choose(3);
            for i in 0..m {
                let (l, r) = (if i == 0 { 0 } else { a(i - 1) }, a(i));
                rules.push((l, vec![l, t(i), r]));
                match how {
                    1 if i == p => {}
                    2 if i == p => rules.push((l, vec![])),
                    _ => rules.push((l, vec![r])),
                }
            }
            rules.push((a(m - 1), vec![t(m)]));
            rules.push((a(m - 1), vec![t(m + 1), 0, t(m + 1)]));
        }
        // Alternatives with a common prefix (or suffix) and ends of their own.
        7 => {
            let (suffix, mutual) = (cx.flag(), cx.flag());
            for i in 0..m {
                rules.push((0, if suffix { vec![a(i), t(m)] } else { vec![t(m), a(i)] }));
                rules.push((a(i), vec![t(i)]));
                if mutual && i > 0 {
                    rules.push((a(i), vec![t(m), a(i - 1)]));
                }
            }
        }
        // Long alternatives of one symbol with the same terminals, one of them shorter.
        8 => {
            let p = cx.pick(&places);
            for i in 0..4 {
                let len = if i == p % 4 { m - 1 } else { m + i % 2 };
                rules.push((i % 2, (0..len).map(|j| if j == p { a(1) } else { t(j) }).collect()));
            }
            rules.push((0, vec![1]));
            rules.push((a(1), vec![t(m)]));
            rules.push((a(1), vec![t(p), t(m)]));
        }
        // Many lists with elements and separators of their own.
        _ => {
            for i in 0..m {
                rules.push((0, vec![t(i), a(i)]));
                match i % 3 {
                    0 => {
                        rules.push((a(i), vec![t(i)]));
                        rules.push((a(i), vec![a(i), t(i), t(i)]));
                    }
                    1 => {
                        rules.push((a(i), vec![t(i), a(i)]));
                        rules.push((a(i), vec![]));
                    }
                    _ => rules.push((a(i), vec![a(i - 1), a(i - 2), t(m)])),
                }
            }
        }
    }
    finish(cx, rules, n)
}

/// Both kinds of parametric grammars beyond 256 symbols and rules.
pub fn huge(cx: &mut Cx) -> G {
    if cx.flag() {
        return one_place(cx);
    }
    if cx.flag() {
        shapes(cx, if cx.thorough { &[255, 257, 300, 520] } else { &[257] })
    } else {
        scaled(cx, if cx.thorough { &[129, 258] } else { &[258] })
    }
}

/// One rule of hundreds of symbols, one of which is not like the others.
fn one_place(cx: &mut Cx) -> G {
    let m = cx.pick(if cx.thorough { &[255usize, 257, 300, 520] } else { &[258usize] });
    let mut places = vec![0, 1, m / 2, m - 257.min(m), m - 256.min(m), m - 2, m - 1];
    places.dedup();
    let p = cx.pick(&places);
    // 0: the start symbol; 1: other; 2: nullable; 3: without any word; 4: used elsewhere; 5: x; 6: y
    let (special, other) = (cx.pick(&[0usize, 1, 2, 3]), cx.pick(&[1usize, 2, 6]));
    let mut body = vec![other; m];
    body[p] = special;
    let mut rules = vec![(0, body), (1, vec![6]), (1, vec![5, 1]), (2, vec![]), (3, vec![3]), (4, vec![0, 6])];
    rules.push(match cx.choose(2) {
        0 => (0, vec![5]),
        _ => (0, vec![]),
    });
    if p % 2 == 1 {
        rules.push((2, vec![4]));
    }
    finish(cx, rules, 7)
}

/// Small grammars whose symbol numbers agree in their low 8 bits (or in their low
/// 16 bits, if `far`).
pub fn apart(cx: &mut Cx, far: bool) -> Result<G, Fail> {
    let step = if far && cx.flag() { 65_536 } else { 256 };
    let sp = match cx.choose(2) {
        0 if step > 256 => Space { orders: 1, ..Space::set(2, 1, 2, 2, cx.tier(1, 2)) },
        0 => Space::set(2, 1, 1, cx.tier(2, 3), 2),
        _ if step > 256 => Space { orders: 1, ..Space::set(1, 2, 1, 2, cx.tier(1, 2)) },
        _ => Space::set(1, 2, 1, 2, 2),
    };
    let g = sp.choose(cx)?;
    let n = g.n;
    let map: Vec<usize> = match cx.choose(2) {
        0 => (0..n).map(|i| i * step).collect(),
        _ => (0..n).map(|i| (n - 1 - i) * step + step - 1).collect(),
    };
    Ok(g.embed(&map, n * step))
}

/// One rule of three or four symbols, with up to three rules of at most one symbol.
pub fn one_long(cx: &mut Cx) -> Result<G, Fail> {
    let (nt, len) = match cx.choose(3) {
        0 => (2, 3),
        1 => (1, cx.tier(3, 4)),
        _ => {
            // Two other nonterminals in it.
            let rhs: Vec<usize> = (0..3).map(|_| cx.range(1, 3)).collect();
            let short = Space { nn: 3, nt: 1, min_rules: 3, max_rules: 4, max_len: 1, ordered: false, orders: 1 };
            let mut g = short.choose(cx)?;
            g.rules.push((0, rhs));
            return Ok(g);
        }
    };
    let k = 2 + nt;
    let rhs: Vec<usize> = (0..len).map(|_| cx.choose(k)).collect();
    let short = Space { nn: 2, nt, min_rules: 1, max_rules: if nt == 1 { 4 } else { cx.tier(2, 3) }, max_len: 1, ordered: false, orders: 1 };
    let mut g = short.choose(cx)?;
    let at = cx.choose(2) * g.rules.len();
    g.rules.insert(at, (0, rhs));
    Ok(g)
}

/// Grammars written by people: programming and data languages.
pub const REALISTIC: &[&str] = &[
    include_str!("../data/json.bnf"),
    include_str!("../data/ladder.bnf"),
    include_str!("../data/lambda.bnf"),
    include_str!("../data/xml.bnf"),
    include_str!("../data/c.bnf"),
];

/// `text` with one token changed: dropped, doubled, exchanged with the next, or replaced.
pub fn one_token_changed(cx: &mut Cx, text: &str, others: &[&str]) -> Result<String, Fail> {
    // Tokens with the space before them; strings stay whole.
    let mut toks: Vec<String> = vec![];
    let (mut cur, mut inside, mut escaped) = (String::new(), false, false);
    for c in text.chars() {
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        let last = cur.chars().last();
        let joins = inside
            || last.is_none_or(|l| l.is_whitespace() || (word(l) && word(c)) || (l == ':' && c != ' ') || (l == ':' && c == '='));
        if !joins {
            toks.push(std::mem::take(&mut cur));
        }
        cur.push(c);
        if escaped {
            escaped = false;
        } else if inside && c == '\\' {
            escaped = true;
        } else if c == '"' {
            inside = !inside;
        }
    }
    toks.push(cur);
    let at = cx.choose(toks.len());
    let lead: String = toks[at].chars().take_while(|c| c.is_whitespace()).collect();
    match cx.choose(3 + others.len()) {
        0 => drop(toks.remove(at)),
        1 => {
            let t = toks[at].clone();
            toks.insert(at, t);
        }
        2 => {
            if at + 1 == toks.len() {
                return Err(Fail::Skip);
            }
            toks.swap(at, at + 1);
        }
        k => toks[at] = lead + others[k - 3],
    }
    Ok(toks.concat())
}

/// One of `REALISTIC`, with one change at any one rule.
pub fn realistic(cx: &mut Cx) -> Result<G, Fail> {
    let which = cx.choose(REALISTIC.len());
    let mut names: Vec<&str> = vec![];
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for line in REALISTIC[which].lines() {
        let mut syms = vec![];
        for word in line.split_whitespace() {
            let word = word.trim_end_matches(';');
            if !word.is_empty() && word != "::=" {
                syms.push(names.iter().position(|n| *n == word).unwrap_or_else(|| {
                    names.push(word);
                    names.len() - 1
                }));
            }
        }
        let rest = syms.split_off(1);
        rules.push((syms[0], rest));
    }
    let big = which + 1 == REALISTIC.len();
    let (n, mut g) = (names.len(), G { n: names.len(), rules, roots: vec![0], ..G::default() });
    let at = cx.choose(g.rules.len());
    let (l, r) = g.rules[at].clone();
    match cx.choose(if big && !cx.thorough { 3 } else { 7 }) {
        0 => drop(g.rules.remove(at)),
        1 => g.rules.push((l, vec![])),
        2 => {
            if r.is_empty() {
                return Err(Fail::Skip);
            }
            g.rules[at].1.push(r[0]);
        }
        3 => g.rules.insert(0, (l, r)),
        4 => {
            if r.len() < 2 {
                return Err(Fail::Skip);
            }
            g.rules[at].1.reverse();
        }
        5 => g.rules[at].1.insert(0, l),
        _ => {
            if r.is_empty() {
                return Err(Fail::Skip);
            }
            let j = cx.choose(r.len());
            g.rules[at].1.remove(j);
        }
    }
    if (cx.thorough || !big) && cx.flag() {
        // Numbered the other way, rules from the last.
        for (l, r) in &mut g.rules {
            *l = n - 1 - *l;
            r.iter_mut().for_each(|s| *s = n - 1 - *s);
        }
        g.roots = vec![n - 1];
        g.rules.reverse();
    }
    Ok(g)
}

/// Small grammars that carry more than their rules and roots.
pub fn decorated(cx: &mut Cx) -> Result<G, Fail> {
    let sp = match cx.choose(2) {
        0 => Space::set(2, 1, 1, cx.tier(2, 3), 2),
        _ => Space::set(2, 1, 3, 3, 1),
    };
    let mut g = sp.choose(cx)?;
    match cx.choose(5) {
        0 => wrap(&mut g),
        1 => {
            g.roots = vec![1, 0];
            wrap(&mut g);
            if cx.flag() {
                wrap(&mut g);
            }
        }
        2 => g.extra.named = true,
        3 => g.extra.limit = Some(2),
        _ => g.extra.histories = true,
    }
    Ok(g)
}

/// Wraps the roots as `Cfg::wrap_input` does.
fn wrap(g: &mut G) {
    g.extra.wrapped.clear();
    for inner in std::mem::take(&mut g.roots) {
        let (root, start, end) = (g.n, g.n + 1, g.n + 2);
        g.n += 3;
        g.rules.push((root, vec![start, inner, end]));
        g.extra.wrapped.push([root, start, inner, end]);
        g.roots.push(root);
    }
}

/// Standard grammar spaces for analyses. Each defines a family `fn(&mut Cx)`.
#[macro_export]
macro_rules! grammar_families {
    ($check:path) => {
        $crate::grammar_families!($check, true);
    };
    ($check:path, $far:expr) => {
        fn fam_ordered(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            use $crate::gspace::Space;
            let sp = match cx.choose(4) {
                0 => Space::seq(2, 2, 0, 2, 2),
                1 => Space::seq(2, 1, 1, 2, 3),
                2 => Space::seq(2, 1, 3, 3, 2),
                _ => Space::seq(3, 1, 1, 2, 2),
            };
            let g = sp.choose(cx)?;
            $check(cx, g)
        }
        fn fam_sets(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            use $crate::gspace::Space;
            let sp = match cx.choose(4) {
                0 => Space::set(2, 1, 4, 4, 2),
                1 => Space::set(2, 2, 3, 3, 2),
                2 => Space::set(3, 1, 3, 3, 2),
                _ => Space::set(4, 1, 4, 5, 1),
            };
            let g = sp.choose(cx)?;
            $check(cx, g)
        }
        fn fam_embedded(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            use $crate::gspace::Space;
            let sp = match cx.choose(2) {
                0 => Space::set(2, 1, 2, cx.tier(2, 3), 2),
                _ => Space::set(3, 1, 3, cx.tier(3, 4), 1),
            };
            let g = sp.choose(cx)?;
            let e = cx.range(1, $crate::gspace::EMBEDDINGS - 1);
            let g = $crate::gspace::embed(&g, e);
            $check(cx, g)
        }
        fn fam_shapes(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::shapes(cx, if cx.thorough { $crate::gspace::SIZES } else { $crate::gspace::SIZES_SMALL });
            $check(cx, g)
        }
        fn fam_scaled(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::scaled(cx, if cx.thorough { $crate::gspace::SCALES } else { $crate::gspace::SCALES_SMALL });
            $check(cx, g)
        }
        fn fam_huge(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::huge(cx);
            $check(cx, g)
        }
        fn fam_apart(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::apart(cx, $far)?;
            $check(cx, g)
        }
        fn fam_one_long(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::one_long(cx)?;
            $check(cx, g)
        }
        fn fam_decorated(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::decorated(cx)?;
            $check(cx, g)
        }
        fn fam_realistic(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            let g = $crate::gspace::realistic(cx)?;
            $check(cx, g)
        }
        fn fam_deep(cx: &mut $crate::engine::Cx) -> $crate::engine::Res {
            use $crate::gspace::Space;
            let sp = match cx.choose(4) {
                0 => Space::set(2, 1, 5, 5, 2),
                1 => Space::set(2, 2, 4, 4, 2),
                2 => Space::set(3, 1, 4, 4, 2),
                _ => Space::set(2, 1, 3, 3, 3),
            };
            let g = sp.choose(cx)?;
            $check(cx, g)
        }
        fn grammar_fams() -> Vec<$crate::engine::Family> {
            use $crate::engine::{deep, fam};
            vec![
                fam("ordered", "all rule sequences (duplicates and orders included) of up to 3 rules", fam_ordered),
                fam("sets", "all rule sets of 3-5 rules over 2-4 nonterminals, two orders", fam_sets),
                fam("embedded", "small grammars placed at word boundaries and in other numberings", fam_embedded),
                fam("shapes", "large parametric grammars in several orders and numberings", fam_shapes),
                fam("scaled", "grammars in which one quantity grows while all terminals stay distinct", fam_scaled),
                fam("huge", "parametric grammars of both kinds with hundreds of symbols and rules", fam_huge),
                fam("apart", "small grammars whose symbol numbers agree in their low 8 or 16 bits", fam_apart),
                fam("one-long", "one rule of three or four symbols with up to three rules of at most one", fam_one_long),
                fam("decorated", "small grammars with wrapped roots, names, histories or a length limit", fam_decorated),
                fam("realistic", "grammars of programming and data languages, with each one rule changed in each of several ways", fam_realistic),
                deep("deep", "larger rule sets", fam_deep),
            ]
        }
    };
}

/// Root choices for any grammar: its own, none, or other symbols (by position in
/// the list of left-hand sides), singly and in pairs.
pub fn vary_roots(cx: &mut Cx, g: &mut G, none: bool) {
    let mut l: Vec<usize> = g.rules.iter().map(|r| r.0).collect();
    l.sort();
    l.dedup();
    let mut cand: Vec<usize> = vec![];
    if l.len() <= 3 {
        cand = l.clone();
    } else {
        cand.extend([l[0], l[l.len() / 2], l[l.len() - 1]]);
    }
    // A symbol without rules may be a root, too.
    if let Some(t) = (0..g.n).rev().find(|s| !l.contains(s)) {
        cand.push(t);
    }
    let mut opts: Vec<Vec<usize>> = vec![g.roots.clone()];
    for (i, &a) in cand.iter().enumerate() {
        if !opts.contains(&vec![a]) {
            opts.push(vec![a]);
        }
        for &b in &cand[i + 1..] {
            opts.push(vec![b, a]);
        }
    }
    if none {
        opts.push(vec![]);
    }
    if l.len() > 3 {
        // All left-hand sides, in an order of neither kind.
        opts.push(l.iter().rev().chain(&l[..1]).copied().collect());
        opts.push(l.iter().step_by(2).chain(l.iter().skip(1).step_by(2)).copied().collect());
    }
    if g.n > 250 || g.rules.iter().any(|r| r.1.len() > 250) {
        // Its own, the middle one, and all of them.
        opts = vec![opts[0].clone(), opts[opts.len() / 2].clone(), opts[opts.len() - 1].clone()];
    }
    g.roots = cx.pick(&opts);
}
