//! Definition-level oracles over an abstract grammar representation.

use cfg_grammar::{Cfg, WrappedRoot};
use cfg_history::earley::History;
use cfg_history::RootHistoryNode;
use cfg_symbol::Symbol;
use std::collections::BTreeSet;
use std::fmt;

/// An abstract grammar: symbols are `0 .. n`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct G {
    pub n: usize,
    pub rules: Vec<(usize, Vec<usize>)>,
    pub roots: Vec<usize>,
    pub extra: Extra,
}

/// What a grammar carries besides its rules and roots. Takes no part in comparisons.
#[derive(Clone, Debug, Default)]
pub struct Extra {
    /// Wrapped roots: root, start of input, inner root, end of input.
    pub wrapped: Vec<[usize; 4]>,
    /// Symbols have names.
    pub named: bool,
    /// A limit on the length of right-hand sides is in force.
    pub limit: Option<usize>,
    /// Rules have origins and weights.
    pub histories: bool,
}

impl PartialEq for Extra {
    fn eq(&self, _: &Extra) -> bool {
        true
    }
}

impl Eq for Extra {}

impl std::hash::Hash for Extra {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

impl fmt::Display for G {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "[{} symbols; roots {:?};", self.n, self.roots)?;
        for (i, (l, r)) in self.rules.iter().enumerate() {
            if i >= 24 {
                write!(f, " ...{} rules", self.rules.len())?;
                break;
            }
            write!(f, " {}->", l)?;
            if r.is_empty() {
                write!(f, "e")?;
            }
            for (j, s) in r.iter().enumerate() {
                if j > 0 {
                    write!(f, ".")?;
                }
                write!(f, "{}", s)?;
            }
            write!(f, ";")?;
        }
        write!(f, "]")
    }
}

impl G {
    /// Reads the grammar back from the implementation.
    pub fn read(cfg: &Cfg) -> G {
        G {
            n: cfg.num_syms(),
            rules: cfg.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect())).collect(),
            roots: cfg.roots().iter().map(|s| s.usize()).collect(),
            extra: Extra::default(),
        }
    }

    /// Builds the grammar through the public API.
    pub fn build(&self) -> (Cfg, Vec<Symbol>) {
        let mut cfg = Cfg::new();
        let syms: Vec<Symbol> = (0..self.n)
            .map(|i| if self.extra.named && i % 3 < 2 { cfg.next_sym(Some(format!("n{}", i / 2).into())) } else { cfg.next_sym(None) })
            .collect();
        if self.extra.limit.is_some() {
            // No rule is longer; set first, because limiting may reorder rules.
            cfg.limit_rhs_len(self.extra.limit);
        }
        for (i, (l, r)) in self.rules.iter().enumerate() {
            let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
            if self.extra.histories {
                let mut h: History = RootHistoryNode::Origin { origin: i % 3 }.into();
                h.weight = if i % 2 == 0 { Some(2000 * i as u32) } else { None };
                cfg.rule(syms[*l]).history(h).rhs(rhs);
            } else {
                cfg.rule(syms[*l]).rhs(rhs);
            }
        }
        let roots: Vec<Symbol> = self.roots.iter().map(|&s| syms[s]).collect();
        cfg.set_roots(&roots);
        if !self.extra.wrapped.is_empty() {
            let w: Vec<WrappedRoot> = self
                .extra
                .wrapped
                .iter()
                .map(|w| WrappedRoot { root: syms[w[0]], start_of_input: syms[w[1]], inner_root: syms[w[2]], end_of_input: syms[w[3]] })
                .collect();
            cfg.set_wrapped_roots(&w);
        }
        (cfg, syms)
    }

    pub fn is_lhs(&self) -> Vec<bool> {
        let mut v = vec![false; self.n];
        for (l, _) in &self.rules {
            v[*l] = true;
        }
        v
    }

    /// Symbols that occur in no left-hand side.
    pub fn terminals(&self) -> Vec<bool> {
        self.is_lhs().into_iter().map(|b| !b).collect()
    }

    pub fn used(&self) -> Vec<bool> {
        let mut v = vec![false; self.n];
        for (l, r) in &self.rules {
            v[*l] = true;
            for &s in r {
                v[s] = true;
            }
        }
        v
    }

    /// Least set containing `base` closed under "all of the RHS => LHS".
    pub fn closure_all(&self, base: &[bool], empty_counts: bool) -> Vec<bool> {
        let mut v = base.to_vec();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !v[*l] && (!r.is_empty() || empty_counts) && r.iter().all(|&s| v[s]) {
                    v[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return v;
            }
        }
    }

    pub fn nullable(&self) -> Vec<bool> {
        self.closure_all(&vec![false; self.n], true)
    }

    /// Derives some string of rule-less symbols.
    pub fn productive(&self) -> Vec<bool> {
        self.closure_all(&self.terminals(), true)
    }

    /// Symbols reachable from the given ones (through all rules).
    pub fn reachable(&self, from: &[usize]) -> Vec<bool> {
        let mut v = vec![false; self.n];
        for &s in from {
            v[s] = true;
        }
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if v[*l] {
                    for &s in r {
                        if !v[s] {
                            v[s] = true;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                return v;
            }
        }
    }

    /// Least number of terminals derivable from each symbol.
    pub fn min_len(&self) -> Vec<Option<u64>> {
        self.min_len_over(&self.terminals())
    }
    /// The same, over given terminals (other symbols without rules derive nothing).
    pub fn min_len_over(&self, term: &[bool]) -> Vec<Option<u64>> {
        let mut v: Vec<Option<u64>> = (0..self.n).map(|s| (s < term.len() && term[s]).then_some(1)).collect();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let mut sum = Some(0u64);
                for &s in r {
                    sum = match (sum, v[s]) {
                        (Some(a), Some(b)) => Some(a.saturating_add(b)),
                        _ => None,
                    };
                }
                if let Some(x) = sum {
                    if v[*l].is_none_or(|y| x < y) {
                        v[*l] = Some(x);
                        ch = true;
                    }
                }
            }
            if !ch {
                return v;
            }
        }
    }

    /// Whether no symbol that derives a string can do so through itself (then
    /// all languages are finite).
    pub fn finite(&self) -> bool {
        let mut rules: Vec<(usize, Vec<usize>)> = self.rules.iter().filter(|r| r.1.iter().all(|s| *s != r.0)).cloned().collect();
        if rules.len() != self.rules.len() {
            return false;
        }
        // Take away symbols without remaining rules, bottom up.
        loop {
            let heads: BTreeSet<usize> = rules.iter().map(|r| r.0).collect();
            let n = rules.len();
            rules.retain(|r| r.1.iter().any(|s| heads.contains(s)));
            if rules.is_empty() {
                return true;
            }
            if rules.len() == n {
                return false;
            }
        }
    }
    /// Renames symbols by `map`, with `n` symbols in the result.
    pub fn embed(&self, map: &[usize], n: usize) -> G {
        G {
            n,
            rules: self.rules.iter().map(|(l, r)| (map[*l], r.iter().map(|&s| map[s]).collect())).collect(),
            roots: self.roots.iter().map(|&s| map[s]).collect(),
            extra: Extra { wrapped: self.extra.wrapped.iter().map(|w| w.map(|s| map[s])).collect(), ..self.extra.clone() },
        }
    }

    pub fn sorted_rules(&self) -> Vec<(usize, Vec<usize>)> {
        let mut r = self.rules.clone();
        r.sort();
        r
    }
}

/// Bounded languages as bit masks over all strings of at most `max` letters.
#[derive(Clone, Debug)]
pub struct Alpha {
    pub k: usize,
    pub max: usize,
    off: Vec<u32>,
    pow: Vec<u32>,
    block: Vec<u128>,
}

impl Alpha {
    pub fn new(k: usize, max: usize) -> Self {
        let mut off = vec![];
        let mut pow = vec![];
        let mut o = 0u32;
        let mut p = 1u32;
        let mut block = vec![];
        for _ in 0..=max {
            off.push(o);
            pow.push(p);
            assert!(o + p <= 128, "language table too large");
            let ones = if p == 128 { u128::MAX } else { (1u128 << p) - 1 };
            block.push(ones << o);
            o += p;
            p *= k as u32;
        }
        off.push(o);
        Alpha { k, max, off, pow, block }
    }

    /// The largest table that fits for `k` letters (and is useful).
    pub fn fit(k: usize) -> Option<Self> {
        match k {
            0 | 1 => Some(Self::new(1, 12)),
            2 => Some(Self::new(2, 5)),
            3 => Some(Self::new(3, 4)),
            4 => Some(Self::new(4, 3)),
            5..=10 => Some(Self::new(k, 2)),
            _ => None,
        }
    }

    pub fn letter(&self, i: usize) -> u128 {
        assert!(i < self.k);
        if self.max == 0 {
            return 0;
        }
        1u128 << (self.off[1] + i as u32)
    }

    /// All strings of one length.
    pub fn of_len(&self, len: usize) -> u128 {
        self.block[len]
    }

    pub const EPS: u128 = 1;

    pub fn concat(&self, a: u128, b: u128) -> u128 {
        if a == 0 || b == 0 {
            return 0;
        }
        let mut r = 0u128;
        if a & 1 != 0 {
            r |= b;
        }
        for l1 in 1..=self.max {
            let mut part = (a & self.block[l1]) >> self.off[l1];
            while part != 0 {
                let v1 = part.trailing_zeros();
                part &= part - 1;
                for l2 in 0..=self.max - l1 {
                    let bb = (b & self.block[l2]) >> self.off[l2];
                    if bb != 0 {
                        r |= bb << (self.off[l1 + l2] + v1 * self.pow[l2]);
                    }
                }
            }
        }
        r
    }

    /// The language of every symbol, given the languages of some (usually terminals).
    pub fn langs(&self, g: &G, base: &[u128]) -> Vec<u128> {
        let mut v = base.to_vec();
        v.resize(g.n, 0);
        loop {
            let mut ch = false;
            for (l, r) in &g.rules {
                let mut x = Self::EPS;
                for &s in r {
                    x = self.concat(x, v[s]);
                    if x == 0 {
                        break;
                    }
                }
                if x & !v[*l] != 0 {
                    v[*l] |= x;
                    ch = true;
                }
            }
            if !ch {
                return v;
            }
        }
    }

    pub fn show(&self, m: u128) -> String {
        let mut out = vec![];
        for len in 0..=self.max {
            for v in 0..self.pow[len] {
                if m >> (self.off[len] + v) & 1 == 1 {
                    let mut s = String::new();
                    let mut x = v;
                    let mut cs = vec![];
                    for _ in 0..len {
                        cs.push((b'a' + (x % self.k as u32) as u8) as char);
                        x /= self.k as u32;
                    }
                    for c in cs.iter().rev() {
                        s.push(*c);
                    }
                    if len == 0 {
                        s.push('e');
                    }
                    out.push(s);
                    if out.len() > 12 {
                        out.push("...".into());
                        return out.join(" ");
                    }
                }
            }
        }
        format!("{{{}}}", out.join(" "))
    }
}

/// Letters for the rule-less symbols of `g` that are used: the base languages
/// of `g`'s symbols (empty for everything else), with a table that fits.
pub struct Letters {
    pub alpha: Alpha,
    pub base: Vec<u128>,
}

pub fn letters(g: &G) -> Option<Letters> {
    let t = g.terminals();
    let u = g.used();
    let used: Vec<usize> = (0..g.n).filter(|&s| t[s] && (u[s] || g.roots.contains(&s))).collect();
    let alpha = Alpha::fit(used.len())?;
    let mut base = vec![0; g.n];
    for (i, &s) in used.iter().enumerate() {
        base[s] = alpha.letter(i);
    }
    Some(Letters { alpha, base })
}

/// Compares the languages of the symbols `0 .. before.n` in two grammars over
/// the terminals of `before`.
pub fn same_langs(before: &G, after: &G, drop_eps: bool, syms: &[usize]) -> Result<(), String> {
    let pairs: Vec<(usize, usize)> = syms.iter().map(|&s| (s, s)).collect();
    same_langs_of(before, after, drop_eps, &pairs)
}

/// Compares the language of one symbol before with that of another after, for
/// each pair: all strings of a length that fits a table, and where that is too
/// short to see some symbol's shortest string, all strings of a larger length.
pub fn same_langs_of(before: &G, after: &G, drop_eps: bool, pairs: &[(usize, usize)]) -> Result<(), String> {
    let l = letters(before);
    if let Some(l) = &l {
        let a = l.alpha.langs(before, &l.base);
        let b = l.alpha.langs(after, &l.base);
        for &(s, t) in pairs {
            let mut want = a[s];
            if drop_eps {
                want &= !1;
            }
            let got = b[t];
            if want != got {
                return Err(format!(
                    "language of symbol {} changed: missing {}, extra {}; before {} after {}",
                    s,
                    l.alpha.show(want & !got),
                    l.alpha.show(got & !want),
                    before,
                    after
                ));
            }
        }
    }
    let seen = l.map_or(0, |l| l.alpha.max);
    let longest = before.rules.iter().map(|r| r.1.len()).max().unwrap_or(0);
    if seen > 0 && before.rules.len() <= 5 && longest <= 3 {
        return Ok(());
    }
    let used = before.used();
    let term: Vec<bool> = before.terminals().iter().enumerate().map(|(s, &t)| t && (used[s] || before.roots.contains(&s))).collect();
    let (m0, m1) = (before.min_len_over(&term), after.min_len_over(&term));
    for &(s, t) in pairs {
        let dropped = drop_eps && m0[s] == Some(0);
        if !dropped && m0[s] != m1[t] {
            return Err(format!("shortest string of symbol {} has length {:?} instead of {:?}; before {} after {}", s, m1[t], m0[s], before, after));
        }
    }
    if seen > 0 && longest <= 4 && pairs.iter().all(|p| m0[p.0].map_or(true, |m| m <= seen as u64)) {
        return Ok(());
    }
    for max in [usize::MAX, 70, 40, 20, 12, 9, 7, 6, 5, 4, 3, 2, 1] {
        if max <= seen {
            break;
        }
        if max == usize::MAX && !before.finite() {
            continue;
        }
        let Some(a) = Finite::capped(before, &term, max, 250) else { continue };
        let Some(b) = Finite::capped(after, &term, max, 5000) else { continue };
        for &(s, t) in pairs {
            let mut want = a.lang(s).clone();
            if drop_eps {
                want.remove(&vec![]);
            }
            if &want != b.lang(t) {
                let d: Vec<_> = want.symmetric_difference(b.lang(t)).take(3).collect();
                return Err(format!("language of symbol {} changed at {:?}; before {} after {}", s, d, before, after));
            }
        }
        break;
    }
    Ok(())
}

/// Exact languages of a grammar whose languages are finite and small (bounded
/// by number of strings); strings over the given terminals.
pub struct Finite {
    langs: Vec<BTreeSet<Vec<usize>>>,
}

impl Finite {
    pub fn of(g: &G, term: &[bool]) -> Finite {
        Self::bounded(g, term, usize::MAX)
    }
    /// Languages truncated to strings of at most `max` symbols.
    pub fn bounded(g: &G, term: &[bool], max: usize) -> Finite {
        Self::capped(g, term, max, 100_000).expect("oracle: language too large")
    }
    /// The same, or nothing if there are more than `cap` strings.
    pub fn capped(g: &G, term: &[bool], max: usize, cap: usize) -> Option<Finite> {
        let mut langs: Vec<BTreeSet<Vec<usize>>> = vec![BTreeSet::new(); g.n];
        let mut total = 0;
        for s in 0..g.n {
            if s < term.len() && term[s] {
                langs[s].insert(vec![s]);
            }
        }
        let mut users: Vec<Vec<usize>> = vec![vec![]; g.n];
        for (i, (l, r)) in g.rules.iter().enumerate() {
            if *l < term.len() && term[*l] {
                panic!("oracle: rule for a terminal {} in {}", l, g);
            }
            for &s in r {
                if users[s].last() != Some(&i) {
                    users[s].push(i);
                }
            }
        }
        let mut work: BTreeSet<usize> = (0..g.rules.len()).collect();
        // Rules are taken up in rounds, last first: most rules only need later ones.
        while !work.is_empty() {
            let round: Vec<usize> = std::mem::take(&mut work).into_iter().rev().collect();
            for i in round {
                let (l, r) = &g.rules[i];
                if r.iter().any(|&s| langs[s].is_empty()) {
                    continue;
                }
                let mut acc: Vec<Vec<usize>> = vec![vec![]];
                for &s in r {
                    let mut next = vec![];
                    for a in &acc {
                        for b in &langs[s] {
                            if a.len() + b.len() <= max {
                                let mut c = a.clone();
                                c.extend(b);
                                next.push(c);
                            }
                        }
                        if next.len() > 4 * cap {
                            return None;
                        }
                    }
                    // Different splits may give the same string.
                    next.sort();
                    next.dedup();
                    acc = next;
                    if acc.len() > cap {
                        return None;
                    }
                    if acc.is_empty() {
                        break;
                    }
                }
                let before = langs[*l].len();
                langs[*l].extend(acc);
                let grown = langs[*l].len() - before;
                if grown > 0 {
                    total += grown;
                    if total > cap {
                        return None;
                    }
                    work.extend(users[*l].iter().copied());
                }
            }
        }
        Some(Finite { langs })
    }
    pub fn lang(&self, s: usize) -> &BTreeSet<Vec<usize>> {
        &self.langs[s]
    }
}
