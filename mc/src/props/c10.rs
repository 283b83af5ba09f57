//! C10: sequence rules.
use super::Prop;
use crate::engine::*;
use crate::oracle::*;
use cfg_grammar::Cfg;
use cfg_sequence::builder::SequenceRuleBuilder;
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};
use cfg_symbol::Symbol;
use std::ops::Bound;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        families: vec![
            fam("ranges", "every (min, max) up to the bound and unbounded, every separator mode, with and without a length limit", ranges),
            fam("large", "pairs of minima and maxima around all powers of two up to 2^32-1", large),
            fam("forms", "every way of giving the range and of building the sequence", forms),
            fam("successions", "two or three sequences built in a row, sharing items, separators and each other", successions),
            fam("languages", "items and separators that are nonterminals (nullable, shared, recursive)", languages),
            fam("shared-lhs", "several sequences and rules for one left-hand side (bounded ones, or minimum not one)", shared),
            fam("self-reference", "a left-hand side that is its own item or separator, directly or through a rule", self_reference),
            fam("shared-lhs-open", "an open sequence from one next to another alternative", shared_open),
        ],
        assumptions: vec!["ranges are not empty (minimum <= maximum)", "open ranges are compared up to 24 repetitions above the minimum"],
    }
}

type Iv = Vec<(u64, u64)>;
fn norm(mut v: Iv) -> Iv {
    v.sort();
    let mut out: Iv = vec![];
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}

/// Sets of strings over item x and separator s, by shape; each is an exact set.
#[derive(Clone, Default, PartialEq, Debug, Hash)]
struct Sh {
    empty: bool,
    xx: Iv,  // alternating, x..x, by number of x
    xs: Iv,  // x..s
    sx: Iv,  // s..x
    ss: Iv,  // s..s, by number of s
    pow: Iv, // x^n, n >= 2
    /// length of a shortest string of any other shape
    bad: Option<u64>,
}
impl Sh {
    fn min_total(iv: &Iv, f: impl Fn(u64) -> u64) -> Option<u64> {
        iv.first().map(|p| f(p.0))
    }
    fn cut(&mut self, cap: u64) {
        // numbers of items
        for iv in [&mut self.xx, &mut self.xs, &mut self.sx, &mut self.ss, &mut self.pow] {
            iv.retain(|p| p.0 <= cap);
            for p in iv.iter_mut() {
                p.1 = p.1.min(cap);
            }
        }
    }
    fn union(&mut self, o: &Sh) {
        self.empty |= o.empty;
        for (a, b) in [(&mut self.xx, &o.xx), (&mut self.xs, &o.xs), (&mut self.sx, &o.sx), (&mut self.ss, &o.ss), (&mut self.pow, &o.pow)] {
            a.extend(b);
            *a = norm(std::mem::take(a));
        }
        self.bad = [self.bad, o.bad].into_iter().flatten().min();
    }
    fn concat(&self, o: &Sh) -> Sh {
        let mut r = Sh::default();
        r.empty = self.empty && o.empty;
        if self.empty {
            let mut q = o.clone();
            q.empty = false;
            r.union(&q);
        }
        if o.empty {
            let mut q = self.clone();
            q.empty = false;
            r.union(&q);
        }
        let sum = |a: &Iv, b: &Iv, d: u64| -> Iv { norm(a.iter().flat_map(|p| b.iter().map(move |q| (p.0 + q.0 - d, p.1 + q.1 - d))).collect()) };
        let mut add = Sh::default();
        add.xx = norm([sum(&self.xx, &o.sx, 0), sum(&self.xs, &o.xx, 0)].concat());
        add.xs = norm([sum(&self.xx, &o.ss, 1), sum(&self.xs, &o.xs, 0)].concat());
        add.sx = norm([sum(&self.sx, &o.sx, 0), sum(&self.ss, &o.xx, 1)].concat());
        add.ss = norm([sum(&self.sx, &o.ss, 0), sum(&self.ss, &o.xs, 0)].concat());
        // Powers: x.x, x.x^n, x^n.x, x^n.x^m
        let one = |iv: &Iv| iv.iter().any(|p| p.0 <= 1 && 1 <= p.1);
        let more = |iv: &Iv| iv.iter().any(|p| p.1 > 1);
        let unit = |b: bool| if b { vec![(1, 1)] } else { vec![] };
        let pa = norm([self.pow.clone(), unit(one(&self.xx))].concat());
        let pb = norm([o.pow.clone(), unit(one(&o.xx))].concat());
        add.pow = sum(&pa, &pb, 0);
        // Everything else is of no valid shape.
        let t = |s: &Sh| -> [Option<u64>; 7] {
            let min_more = s.xx.iter().filter(|p| p.1 > 1).map(|p| p.0.max(2) * 2 - 1).min();
            [
                if one(&s.xx) { Some(1) } else { None },
                if more(&s.xx) { min_more } else { None },
                Sh::min_total(&s.xs, |n| 2 * n),
                Sh::min_total(&s.sx, |n| 2 * n),
                Sh::min_total(&s.ss, |n| 2 * n - 1),
                Sh::min_total(&s.pow, |n| n),
                s.bad,
            ]
        };
        let (ta, tb) = (t(self), t(o));
        // indices: 0 x, 1 xx, 2 xs, 3 sx, 4 ss, 5 pow, 6 bad
        for (i, a) in ta.iter().enumerate() {
            for (j, b) in tb.iter().enumerate() {
                let ok = match (i, j) {
                    (6, _) | (_, 6) => false,
                    (0, 0) | (0, 5) | (5, 0) | (5, 5) => true,
                    (5, _) | (_, 5) => false,
                    (0 | 1 | 3, 3 | 4) => true,
                    (2 | 4, 0 | 1 | 2) => true,
                    _ => false,
                };
                if let (Some(a), Some(b), false) = (a, b, ok) {
                    add.bad = [add.bad, Some(a + b)].into_iter().flatten().min();
                }
            }
        }
        r.union(&add);
        r
    }
}

fn solve(g: &G, x: usize, s: Option<usize>, cap: u64) -> Vec<Sh> {
    let mut v = vec![Sh::default(); g.n];
    v[x].xx = vec![(1, 1)];
    if let Some(s) = s {
        v[s].ss = vec![(1, 1)];
    }
    // Symbols after those they use (where there is no recursion), so that sets
    // are complete when they are used.
    let mut order: Vec<usize> = vec![];
    let mut seen = vec![false; g.n];
    fn visit(g: &G, s: usize, seen: &mut Vec<bool>, order: &mut Vec<usize>) {
        if seen[s] {
            return;
        }
        seen[s] = true;
        for (l, r) in &g.rules {
            if *l == s {
                for &t in r {
                    visit(g, t, seen, order);
                }
            }
        }
        order.push(s);
    }
    for s in 0..g.n {
        visit(g, s, &mut seen, &mut order);
    }
    let mut rules: Vec<&(usize, Vec<usize>)> = vec![];
    for s in order {
        rules.extend(g.rules.iter().filter(|r| r.0 == s));
    }
    loop {
        let mut ch = false;
        for (l, r) in &rules {
            let mut acc = Sh { empty: true, ..Default::default() };
            for &t in r {
                acc = acc.concat(&v[t]);
                acc.cut(cap);
            }
            let mut n = v[*l].clone();
            n.union(&acc);
            if n != v[*l] {
                v[*l] = n;
                ch = true;
            }
        }
        if !ch {
            return v;
        }
    }
}

fn expect(mode: usize, min: u64, max: u64) -> Sh {
    let mut e = Sh { empty: min == 0, ..Default::default() };
    let lo = min.max(1);
    if max >= lo {
        match mode {
            0 => {
                if lo == 1 {
                    e.xx = vec![(1, 1)];
                }
                if max >= 2 {
                    e.pow = vec![(lo.max(2), max)];
                }
            }
            1 => e.xx = vec![(lo, max)],
            2 => e.xs = vec![(lo, max)],
            _ => {
                e.xx = vec![(lo, max)];
                e.xs = vec![(lo, max)];
            }
        }
    }
    e
}

fn sep(mode: usize, s: Symbol) -> Separator {
    match mode {
        0 => Separator::Null,
        1 => Separator::Proper(s),
        2 => Separator::Trailing(s),
        _ => Separator::Liberal(s),
    }
}

const MODES: [&str; 4] = ["none", "proper", "trailing", "liberal"];

fn limited(cx: &mut Cx, cfg: &mut Cfg) -> usize {
    match cx.choose(3) {
        0 => 0,
        1 => {
            cfg.limit_rhs_len(Some(2));
            2
        }
        _ => {
            cfg.limit_rhs_len(Some(3));
            3
        }
    }
}

/// Every rule added after `n` symbols existed belongs to `lhs` or to new symbols.
fn only_own(g: &G, n: usize, before: &[(usize, Vec<usize>)], own: &[usize], limit: usize) -> Res {
    if g.rules.len() < before.len() || g.rules[..before.len()] != *before {
        return bad(format!("building a sequence changed earlier rules: {}", g));
    }
    for (l, r) in &g.rules[before.len()..] {
        if *l < n && !own.contains(l) {
            return bad(format!("building a sequence added a rule for symbol {} in {}", l, g));
        }
        if limit > 0 && r.len() > limit {
            return bad(format!("rule longer than the limit {} in {}", limit, g));
        }
    }
    Ok(())
}

fn one(cx: &mut Cx, min: u64, max: Option<u64>, mode: usize, form: usize) -> Res {
    let mut cfg = Cfg::new();
    let [lhs, x, s] = cfg.sym();
    let limit = limited(cx, &mut cfg);
    let (a, b) = (min as u32, max.map(|m| m as u32));
    if cx.want_note {
        cx.note = Some(format!("{}..={:?} {} form {} limit {}", a, b, MODES[mode], form, limit));
    }
    let what = format!("sequence {}..={:?} separator {} (form {}, limit {})", a, b, MODES[mode], form, limit);
    guard(&what, || match form {
        0 => {
            cfg.sequence(lhs).separator(sep(mode, s)).inclusive(a, b).rhs(x);
        }
        1 => {
            let sq = cfg.sequence(lhs).separator(sep(mode, s));
            match b {
                Some(b) => sq.range(a..=b).rhs(x),
                None => sq.range(a..).rhs(x),
            };
        }
        2 => {
            let sq = cfg.sequence(lhs).separator(sep(mode, s));
            match b {
                Some(b) => sq.range(a..b + 1).rhs(x),
                None if a == 0 => sq.range(..).rhs(x),
                None => sq.range((Bound::Excluded(a - 1), Bound::Unbounded)).rhs(x),
            };
        }
        3 => {
            let sq = cfg.sequence(lhs);
            let sq = if mode == 1 { sq.intersperse(s) } else { sq.separator(sep(mode, s)) };
            match b {
                Some(b) if a == 0 => sq.rhs_with_range(x, ..=b),
                Some(b) => sq.rhs_with_range(x, (Bound::Excluded(a - 1), Bound::Included(b))),
                None => sq.rhs_with_range(x, a..),
            };
        }
        4 => {
            let sq = Sequence { lhs, rhs: x, start: 5, end: Some(7), separator: Separator::Null, history: None };
            let sq = match b {
                Some(b) => sq.range(a..=b),
                None => sq.range(a..),
            };
            SequencesToProductions::new(&mut cfg).rewrite(sq.separator(sep(mode, s)));
        }
        5 => {
            let sq = Sequence { lhs, rhs: x, start: 5, end: Some(7), separator: sep(mode, s), history: None };
            let sq = match b {
                Some(b) if a == 0 => sq.range(..b + 1),
                Some(b) => sq.range((Bound::Excluded(a - 1), Bound::Excluded(b + 1))),
                None => sq.inclusive(a, None),
            };
            let mut d = SequencesToProductions::new(&mut cfg);
            d.add_sequence(sq);
        }
        6 => {
            let mut v: Vec<Sequence> = vec![];
            SequenceDestination::sequence(&mut v, lhs).separator(sep(mode, s)).inclusive(a, b).rhs(x);
            let mut d = SequencesToProductions::new(&mut cfg);
            for q in v {
                d.rewrite(q);
            }
        }
        _ => {
            // Range, then separator; history passed explicitly.
            SequenceRuleBuilder::new(SequencesToProductions::new(&mut cfg))
                .sequence(x)
                .inclusive(9, Some(9))
                .sequence(lhs)
                .inclusive(a, b)
                .separator(sep(mode, s))
                .rhs_with_history(x, None);
        }
    })?;
    cx.op(1);
    let g = G::read(&cfg);
    cx.state(&(min, max, mode, limit, &g));
    only_own(&g, 3, &[], &[0], limit)?;
    // Also beyond the maximum, where nothing may be derived.
    let cap = max.unwrap_or(min) + 24;
    let got = &solve(&g, 1, Some(2), cap)[0];
    let mut want = expect(mode, min, max.unwrap_or(cap));
    want.cut(cap);
    if *got != want {
        return bad(format!("{}: derives {:?}, expected {:?}; {}", what, got, want, g));
    }
    Ok(())
}

fn choose_range(cx: &mut Cx, bound: u64) -> (u64, Option<u64>) {
    let min = cx.range(0, bound as usize) as u64;
    let k = cx.range(0, (bound - min) as usize + 1) as u64;
    (min, if k == 0 { None } else { Some(min + k - 1) })
}

fn ranges(cx: &mut Cx) -> Res {
    let (min, max) = choose_range(cx, cx.tier(70, 300));
    let mode = cx.choose(4);
    one(cx, min, max, mode, 0)
}

fn large(cx: &mut Cx) -> Res {
    let mut vals = vec![0u64, 1, 2, 3, 100, 1000, 1_000_000, 3_000_000_000];
    for k in 2..32 {
        let p = 1u64 << k;
        vals.extend([p - 1, p, p + 1]);
    }
    vals.extend([u32::MAX as u64 - 1, u32::MAX as u64]);
    vals.sort();
    vals.dedup();
    let i = cx.choose(vals.len());
    let j = cx.choose(vals.len() - i + 1);
    let min = vals[i];
    let max = if j == 0 { None } else { Some(vals[i + j - 1]) };
    if max.is_none() && min > 1100 {
        // The oracle counts up to the minimum one by one.
        return cx.skip();
    }
    let mode = cx.choose(4);
    one(cx, min, max, mode, 0)
}

fn forms(cx: &mut Cx) -> Res {
    let (min, max) = choose_range(cx, cx.tier(6, 20));
    let mode = cx.choose(4);
    let form = cx.choose(8);
    one(cx, min, max, mode, form)
}

/// (lhs, item, separator, mode, min, max) as expressions over the bounded table.
type Seq = (usize, usize, usize, usize, u64, Option<u64>);

/// The language of a sequence, from the languages of item and separator.
fn seq_lang(al: &Alpha, x: u128, s: u128, mode: usize, min: u64, max: Option<u64>) -> u128 {
    // Repetition beyond the string bound matters only with nullable items; the
    // sets of n-fold repetitions are then increasing, so they settle.
    let max = max.unwrap_or(min + 40);
    let mut out = 0;
    let mut proper = 0u128;
    for n in 0..=max {
        if n == 0 {
            if min == 0 {
                out |= 1;
            }
            continue;
        }
        proper = match (n, mode) {
            (1, _) => x,
            (_, 0) => al.concat(proper, x),
            _ => al.concat(proper, al.concat(s, x)),
        };
        if n < min {
            continue;
        }
        match mode {
            0 | 1 => out |= proper,
            2 => out |= al.concat(proper, s),
            _ => out |= proper | al.concat(proper, s),
        }
    }
    out
}

fn build(cfg: &mut Cfg, y: &[Symbol], seqs: &[Seq], style: usize) {
    match style {
        // Separate builders.
        0 => {
            for q in seqs {
                cfg.sequence(y[q.0]).separator(sep(q.3, y[q.2])).inclusive(q.4 as u32, q.5.map(|m| m as u32)).rhs(y[q.1]);
            }
        }
        // One builder, chained.
        1 => {
            let mut b = SequenceRuleBuilder::new(SequencesToProductions::new(cfg));
            for q in seqs {
                b = b.sequence(y[q.0]).inclusive(q.4 as u32, q.5.map(|m| m as u32));
                if q.3 != 0 {
                    b = b.separator(sep(q.3, y[q.2]));
                }
                b = b.rhs(y[q.1]);
            }
        }
        // One rewriter.
        _ => {
            let mut d = SequencesToProductions::new(cfg);
            for q in seqs {
                d.rewrite(Sequence { lhs: y[q.0], rhs: y[q.1], start: q.4 as u32, end: q.5.map(|m| m as u32), separator: sep(q.3, y[q.2]), history: None });
            }
        }
    }
}

fn run_seqs(cx: &mut Cx, g0: &G, seqs: &[Seq], style: usize) -> Res {
    let (mut cfg, y) = g0.build();
    let limit = limited(cx, &mut cfg);
    let g1 = G::read(&cfg);
    if cx.want_note {
        cx.note = Some(format!("{:?} style {} limit {} on {}", seqs, style, limit, g0));
    }
    guard(&format!("sequences {:?} on {}", seqs, g0), || build(&mut cfg, &y, seqs, style))?;
    cx.op(seqs.len() as u64);
    let g = G::read(&cfg);
    cx.state(&(seqs, &g));
    let own: Vec<usize> = seqs.iter().map(|q| q.0).collect();
    only_own(&g, g1.n, &g1.rules, &own, limit)?;
    // Oracle: iterate the definitions to a fixpoint.
    let t: Vec<usize> = (0..g0.n).filter(|s| !own.contains(s) && !g0.is_lhs()[*s]).collect();
    let al = Alpha::fit(t.len()).unwrap();
    let mut base = vec![0u128; g0.n];
    for (i, &s) in t.iter().enumerate() {
        base[s] = al.letter(i);
    }
    let mut want = base.clone();
    loop {
        let prev = want.clone();
        want = al.langs(g0, &want);
        for q in seqs {
            want[q.0] |= seq_lang(&al, want[q.1], want[q.2], q.3, q.4, q.5);
        }
        if want == prev {
            break;
        }
    }
    let got = al.langs(&g, &base);
    for s in 0..g0.n {
        if got[s] != want[s] {
            return bad(format!(
                "sequences {:?} (style {}, limit {}) on {}: symbol {} misses {}, has extra {}; {}",
                seqs,
                style,
                limit,
                g0,
                s,
                al.show(want[s] & !got[s]),
                al.show(got[s] & !want[s]),
                g
            ));
        }
    }
    Ok(())
}

const RS: [(u64, Option<u64>); 10] =
    [(0, None), (1, None), (2, None), (0, Some(0)), (0, Some(1)), (1, Some(1)), (1, Some(2)), (1, Some(3)), (2, Some(2)), (2, Some(4))];
const RS_MORE: [(u64, Option<u64>); 20] = [
    (0, None), (1, None), (2, None), (3, None), (4, None), (0, Some(0)), (0, Some(1)), (0, Some(2)), (0, Some(3)), (1, Some(1)), (1, Some(2)),
    (1, Some(3)), (1, Some(4)), (2, Some(2)), (2, Some(3)), (2, Some(4)), (3, Some(3)), (3, Some(4)), (4, Some(4)), (5, Some(5)),
];

fn successions(cx: &mut Cx) -> Res {
    // 0, 1, 2: left-hand sides; 3: item, 4: separator.
    let count = cx.range(2, cx.tier(2, 3));
    let mut seqs: Vec<Seq> = vec![];
    for i in 0..count {
        let (min, max) = if count == 3 { cx.pick(&RS) } else { cx.pick(&RS_MORE) };
        let mode = cx.choose(4);
        let item = if i > 0 { cx.pick(&[3, 0, 4]) } else { 3 };
        let sepr = if mode == 0 { 4 } else if i > 0 { cx.pick(&[4, 0, 3]) } else { 4 };
        seqs.push((i, item, sepr, mode, min, max));
    }
    let style = cx.choose(3);
    let g0 = G { n: 5, rules: vec![(2, vec![0, 3])], roots: vec![0], ..G::default() };
    run_seqs(cx, &g0, &seqs, style)
}

fn languages(cx: &mut Cx) -> Res {
    // 0: sequence; 1: item; 2: separator; 3, 4: terminals
    let item = cx.choose(7);
    let mut rules = match item {
        0 => vec![],
        1 => vec![(1, vec![3])],
        2 => vec![(1, vec![]), (1, vec![3])],
        3 => vec![(1, vec![])],
        4 => vec![(1, vec![3, 4]), (1, vec![3])],
        5 => vec![(1, vec![3]), (1, vec![4, 0])],
        _ => vec![(1, vec![1])],
    };
    let s = cx.choose(5);
    match s {
        0 => {}
        1 => rules.push((2, vec![4])),
        2 => rules.extend([(2, vec![]), (2, vec![4])]),
        3 => rules.push((2, vec![])),
        _ => rules.extend([(2, vec![3]), (2, vec![4, 4])]),
    }
    let (min, max) = cx.pick(&RS_MORE);
    let mode = cx.choose(4);
    let sepr = cx.pick(&[2, 1, 3]);
    // The letters must be few enough for the table.
    let g0 = G { n: 5, rules, roots: vec![0], ..G::default() };
    run_seqs(cx, &g0, &[(0, 1, sepr, mode, min, max)], 0)
}

/// The left-hand side is its own item or separator.
fn self_reference(cx: &mut Cx) -> Res {
    let (min, max) = cx.pick(&RS_MORE);
    let mode = cx.choose(4);
    let (item, sepr) = cx.pick(&[(0, 2), (1, 0), (0, 0), (3, 0), (0, 3)]);
    let mut rules = match cx.choose(3) {
        0 => vec![],
        1 if (min, max) == (1, None) && mode < 2 && item == 3 => return cx.skip(),
        1 => vec![(0, vec![1])],
        _ => vec![(3, vec![0, 1]), (3, vec![1])],
    };
    if item != 3 && sepr != 3 {
        rules.retain(|r| r.0 != 3);
    }
    let g0 = G { n: 4, rules, roots: vec![0], ..G::default() };
    let style = cx.choose(3);
    run_seqs(cx, &g0, &[(0, item, sepr, mode, min, max)], style)
}

fn shared(cx: &mut Cx) -> Res {
    let mut seqs: Vec<Seq> = vec![];
    for i in 0..2 {
        let (min, max) = cx.pick(&RS_MORE);
        let mode = cx.choose(4);
        if (min, max) == (1, None) && mode < 2 {
            // covered by the next family
            return cx.skip();
        }
        let item = if i == 1 { cx.pick(&[1, 2]) } else { 1 };
        let sepr = if item == 2 { 1 } else { 2 };
        seqs.push((0, item, sepr, mode, min, max));
    }
    let style = cx.choose(3);
    let rules = if cx.flag() { vec![(0, vec![2])] } else { vec![] };
    let g0 = G { n: 3, rules, roots: vec![0], ..G::default() };
    run_seqs(cx, &g0, &seqs, style)
}

/// A single case, recorded as a known finding.
fn shared_open(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::new();
    let [lhs, x, y] = cfg.sym();
    cfg.rule(lhs).rhs([y]);
    cfg.sequence(lhs).inclusive(1, None).rhs(x);
    cx.op(1);
    let g = G::read(&cfg);
    let al = Alpha::fit(2).unwrap();
    let l = al.langs(&g, &[0, al.letter(0), al.letter(1)])[0];
    let want = seq_lang(&al, al.letter(0), 0, 0, 1, None) | al.letter(1);
    if l != want {
        return bad(format!("sequence(a) 1.. of x next to the rule a ::= y derives extra strings {}", al.show(l & !want)));
    }
    Ok(())
}
