//! C19: chained transformations.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_classify::cyclical::Cycles;
use cfg_classify::CfgClassifyExt;
use cfg_grammar::Cfg;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        families: vec![
            fam("small", "all operation sequences up to a bounded length on all small grammars", small),
            fam("chosen", "longer operation sequences on grammars that combine nullable, cyclic, useless, long and duplicate rules", chosen),
            fam("shapes", "short operation sequences on large parametric grammars", large),
            fam("apart", "small grammars whose symbol numbers agree in their low 8 bits", apart_ones),
            fam("huge", "parametric grammars of both kinds with hundreds of symbols and rules", huge_ones),
            fam("realistic", "grammars of programming and data languages, with each one rule changed in each of several ways", realistic_ones),
            deep("deep", "all operation sequences on larger small grammars", deeper),
        ],
        assumptions: vec!["languages are compared up to a bounded string length (at least 5 letters over two terminals)"],
    }
}

const OPS: &[&str] = &[
    "limit2", "nonulling", "proper", "uncycle", "reverse-numbers", "drop-unused", "wrap", "sort-dedup", "limit3", "reverse-twice", "limit-none", "clone", "rotate-numbers",
];

struct St {
    cfg: Cfg,
    /// Letter of each terminal, by current symbol number.
    base: Vec<u128>,
    /// 1 for start markers, 2 for end markers.
    marker: Vec<u8>,
    alpha: Alpha,
    want: Vec<u128>,
    wraps: usize,
    /// The original terminal that each current symbol is.
    term: Vec<Option<usize>>,
    dropped: bool,
}

impl St {
    fn new(g: &G) -> St {
        // With too many letters for a table, all terminals look alike here.
        let l = letters(g).unwrap_or_else(|| {
            let (t, u) = (g.terminals(), g.used());
            let alpha = Alpha::new(1, 12);
            Letters { base: (0..g.n).map(|s| if t[s] && (u[s] || g.roots.contains(&s)) { alpha.letter(0) } else { 0 }).collect(), alpha }
        });
        let langs = l.alpha.langs(g, &l.base);
        St {
            cfg: g.build().0,
            marker: vec![0; g.n],
            want: g.roots.iter().map(|&r| langs[r]).collect(),
            term: (0..g.n).map(|s| (l.base[s] != 0).then_some(s)).collect(),
            base: l.base,
            alpha: l.alpha,
            wraps: 0,
            dropped: false,
        }
    }

    /// Compares the start symbols' languages over the original terminals.
    fn check_long(&self, g: &G) -> Result<(), String> {
        let now = G::read(&self.cfg);
        let mut all = G { n: g.n + now.n, rules: vec![], roots: vec![], ..G::default() };
        for (l, r) in &now.rules {
            all.rules.push((g.n + l, r.iter().map(|s| g.n + s).collect()));
        }
        for s in 0..now.n {
            match self.term[s] {
                Some(t) => all.rules.push((g.n + s, vec![t])),
                None if self.marker[s] != 0 => all.rules.push((g.n + s, vec![])),
                None => {}
            }
        }
        let pairs: Vec<(usize, usize)> = g.roots.iter().zip(&now.roots).map(|(&a, &b)| (a, g.n + b)).collect();
        same_langs_of(g, &all, self.dropped, &pairs)
    }

    fn renumber(&mut self, m: cfg_symbol::intern::Mapping) -> Res {
        let n = self.cfg.num_syms();
        let (mut base, mut marker, mut term) = (vec![0; n], vec![0; n], vec![None; n]);
        for (old, new) in m.to_internal.iter().enumerate() {
            if let Some(new) = new {
                if new.usize() >= n {
                    return bad(format!("symbol {} renumbered to {} of {}", old, new.usize(), n));
                }
                base[new.usize()] |= self.base.get(old).copied().unwrap_or(0);
                term[new.usize()] = self.term.get(old).copied().flatten().or(term[new.usize()]);
                marker[new.usize()] |= self.marker.get(old).copied().unwrap_or(0);
            }
        }
        self.base = base;
        self.term = term;
        self.marker = marker;
        Ok(())
    }

    fn apply(&mut self, op: usize) -> Res {
        match OPS[op] {
            "limit2" => self.cfg.limit_rhs_len(Some(2)),
            "limit3" => self.cfg.limit_rhs_len(Some(3)),
            "limit-none" => self.cfg.limit_rhs_len(None),
            "nonulling" => {
                self.cfg.binarize_and_eliminate_nulling_rules();
                if self.wraps == 0 {
                    self.want.iter_mut().for_each(|w| *w &= !1);
                    self.dropped = true;
                }
            }
            "proper" => {
                self.cfg.make_proper();
            }
            "uncycle" => Cycles::new(&mut self.cfg).rewrite_cycles(),
            "reverse-numbers" => {
                let mut r = self.cfg.remap();
                r.reorder_symbols(|a, b| b.cmp(&a));
                let m = r.get_mapping();
                self.renumber(m)?;
            }
            "rotate-numbers" => {
                let mut r = self.cfg.remap();
                r.reorder_symbols(|a, b| (a.usize() % 2, a).cmp(&(b.usize() % 2, b)));
                r.remove_unused_symbols();
                let m = r.get_mapping();
                self.renumber(m)?;
            }
            "drop-unused" => {
                let mut r = self.cfg.remap();
                r.remove_unused_symbols();
                let m = r.get_mapping();
                self.renumber(m)?;
            }
            "wrap" => {
                self.cfg.wrap_input();
                self.wraps += 1;
                let n = self.cfg.num_syms();
                self.base.resize(n, 0);
        self.term.resize(n, None);
                self.marker.resize(n, 0);
                for w in self.cfg.wrapped_roots() {
                    self.marker[w.start_of_input.usize()] = 1;
                    self.marker[w.end_of_input.usize()] = 2;
                }
            }
            "sort-dedup" => {
                self.cfg.sort();
                self.cfg.dedup();
            }
            "reverse-twice" => {
                self.cfg.reverse();
                self.cfg.reverse();
            }
            "clone" => {
                let c = self.cfg.clone();
                self.cfg.clear_rules();
                self.cfg = c;
            }
            _ => unreachable!(),
        }
        let n = self.cfg.num_syms();
        self.base.resize(n, 0);
        self.term.resize(n, None);
        self.marker.resize(n, 0);
        Ok(())
    }

    fn check(&self, log: &str, g: &G) -> Res {
        let now = G::read(&self.cfg);
        if now.roots.len() != self.want.len() {
            return bad(format!("{}: {} roots left of {}", log, now.roots.len(), g));
        }
        for (l, r) in &now.rules {
            if self.base[*l] != 0 || self.marker[*l] != 0 {
                return bad(format!("{}: a terminal got the rule {}->{:?}; {} became {}", log, l, r, g, now));
            }
        }
        // Markers erased.
        let base: Vec<u128> = (0..now.n).map(|s| if self.marker[s] != 0 { Alpha::EPS } else { self.base[s] }).collect();
        let langs = self.alpha.langs(&now, &base);
        for (i, &r) in now.roots.iter().enumerate() {
            if langs[r] != self.want[i] {
                return bad(format!(
                    "{}: the language of root {} lost {} and gained {}; {} became {}",
                    log, i, self.alpha.show(self.want[i] & !langs[r]), self.alpha.show(langs[r] & !self.want[i]), g, now
                ));
            }
        }
        if self.wraps > 0 {
            // Where the markers are, with all terminals alike.
            let a = Alpha::new(3, 4);
            let base: Vec<u128> = (0..now.n)
                .map(|s| match self.marker[s] {
                    1 => a.letter(1),
                    2 => a.letter(2),
                    _ if self.base[s] != 0 => a.letter(0),
                    _ => 0,
                })
                .collect();
            let langs = a.langs(&now, &base);
            for (i, &r) in now.roots.iter().enumerate() {
                let mut want = 0;
                // Lengths present in the language.
                let mut word = Alpha::EPS;
                for len in 0..=a.max {
                    if len <= self.alpha.max && self.want[i] & self.alpha.of_len(len) != 0 {
                        let mut w = word;
                        for _ in 0..self.wraps {
                            w = a.concat(a.concat(a.letter(1), w), a.letter(2));
                        }
                        want |= w;
                    }
                    word = a.concat(word, a.letter(0));
                }
                if langs[r] != want {
                    return bad(format!("{}: root {} derives {} (b, c are the markers), expected {}; {} became {}", log, i, a.show(langs[r]), a.show(want), g, now));
                }
            }
            // The record of wrapped roots is current.
            for (w, r) in self.cfg.wrapped_roots().iter().zip(self.cfg.roots()) {
                if w.root != *r || self.marker[w.start_of_input.usize()] != 1 || self.marker[w.end_of_input.usize()] != 2 {
                    return bad(format!("{}: wrapped root {:?} is stale; {} became {}", log, w, g, now));
                }
            }
        }
        Ok(())
    }
}

fn run(cx: &mut Cx, g: &G, depth: usize) -> Res {
    run_full(cx, g, depth, false)
}

fn run_full(cx: &mut Cx, g: &G, depth: usize, long: bool) -> Res {
    let mut st = St::new(g);
    let mut log = String::new();
    for _ in 0..depth {
        let op = cx.choose(OPS.len());
        log += OPS[op];
        log += " ";
        match guard(&log, || st.apply(op)) {
            Ok(r) => r?,
            Err(Fail::Bad(m)) => return bad(format!("{} on {}", m, g)),
            Err(e) => return Err(e),
        }
        cx.op(1);
        let now = G::read(&st.cfg);
        cx.state(&now);
        st.check(&log, g)?;
        if long {
            st.check_long(g).map_err(|e| Fail::from(format!("{}: {}", log, e)))?;
        }
    }
    if cx.want_note {
        cx.note = Some(format!("{}: {} becomes {}", log, g, G::read(&st.cfg)));
    }
    Ok(())
}

fn small(cx: &mut Cx) -> Res {
    let sp = match cx.choose(2) {
        0 => Space { orders: 1, ..Space::set(2, 1, 1, 2, 2) },
        _ => Space { orders: 1, ..Space::set(2, 1, 3, 3, 1) },
    };
    let mut g = sp.choose(cx)?;
    g.roots = cx.pick(&[vec![0], vec![1, 0]]);
    run(cx, &g, 3)
}

fn deeper(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space { orders: 1, ..Space::set(2, 1, 3, 3, 2) },
        1 => Space { orders: 1, ..Space::set(3, 1, 3, 4, 1) },
        _ => Space { orders: 1, ..Space::set(2, 1, 1, 1, 4) },
    };
    let mut g = sp.choose(cx)?;
    g.roots = cx.pick(&[vec![0], vec![1, 0]]);
    run(cx, &g, 3)
}

fn chosen(cx: &mut Cx) -> Res {
    let x = 4;
    let y = 5;
    let rules: Vec<(usize, Vec<usize>)> = match cx.choose(9) {
        // A unit cycle through the root, with a nullable member and a long rule.
        0 => vec![(0, vec![1]), (1, vec![0]), (1, vec![]), (0, vec![x, 1, y, 2]), (2, vec![x])],
        // Nullable everything.
        1 => vec![(0, vec![1, 2]), (1, vec![]), (2, vec![]), (1, vec![x]), (2, vec![1, 1]), (0, vec![0, 2])],
        // Useless rules around a long one.
        2 => vec![(0, vec![x, y, x, y]), (0, vec![3, x]), (3, vec![3]), (1, vec![x]), (2, vec![1, 0])],
        // A cycle arising only from nulling elimination.
        3 => vec![(0, vec![1, 2]), (1, vec![0, 2]), (2, vec![]), (1, vec![x]), (0, vec![y, y])],
        // Duplicates.
        4 => vec![(0, vec![1]), (0, vec![1]), (1, vec![x]), (1, vec![x]), (0, vec![1, 1, 1]), (0, vec![1, 1, 1])],
        // Unproductive root.
        5 => vec![(0, vec![0, x]), (1, vec![0]), (1, vec![])],
        // Two cycles sharing a symbol and a self-loop.
        6 => vec![(0, vec![1]), (1, vec![2]), (2, vec![0]), (2, vec![3]), (3, vec![2]), (3, vec![3]), (3, vec![x]), (1, vec![y, 3])],
        // Palindromes with an empty middle.
        7 => vec![(0, vec![x, 0, x]), (0, vec![y, 0, y]), (0, vec![1]), (1, vec![])],
        // Only the empty string, through a chain.
        _ => vec![(0, vec![1, 1]), (1, vec![2]), (2, vec![])],
    };
    let roots = cx.pick(&[vec![0], vec![1, 0]]);
    let g = G { n: 6, rules, roots, ..G::default() };
    let d = cx.tier(4, 5);
    run(cx, &g, d)
}

fn apart_ones(cx: &mut Cx) -> Res {
    let g = apart(cx, false)?;
    run_full(cx, &g, 1, true)
}

fn huge_ones(cx: &mut Cx) -> Res {
    let g = huge(cx);
    run_full(cx, &g, 1, true)
}

fn realistic_ones(cx: &mut Cx) -> Res {
    let g = realistic(cx)?;
    run_full(cx, &g, if g.rules.len() > 100 { 1 } else { cx.tier(1, 2) }, true)
}

fn large(cx: &mut Cx) -> Res {
    let g = if cx.flag() { shapes(cx, &[2, 5, 9, 33, 65]) } else { scaled(cx, &[3, 6, 10]) };
    let mut g = g;
    if cx.flag() {
        // Several start symbols, declared in another order.
        let mut l: Vec<usize> = g.rules.iter().map(|r| r.0).collect();
        l.sort();
        l.dedup();
        g.roots = l.iter().rev().step_by(2).chain(&l[..1]).copied().collect();
    }
    run_full(cx, &g, 2, true)
}
