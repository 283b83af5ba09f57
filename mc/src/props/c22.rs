//! C22: symbol sets and closures.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::{Cfg, RhsPropertyMode, SymbolBitSet};
use cfg_symbol::{Symbol, SymbolSource};

crate::grammar_families!(check);

pub fn prop() -> Prop {
    let mut f = vec![
        fam("set-ops", "all sequences of set operations of a bounded length, for numbers of symbols around word boundaries", set_ops),
        fam("costs", "all cost assignments from a small set of values, on all small grammars", costs),
        fam("wide", "sets of more symbols than 8 and 16 bits can number", wide_sets),
        fam("cost-shapes", "cost assignments on large parametric grammars", cost_shapes),
    ];
    f.extend(grammar_fams());
    Prop {
        id: "C22",
        families: f,
        assumptions: vec!["sets are combined only with sets of the same space, and grammar-derived additions only to sets with enough space (documented preconditions of bit vectors)"],
    }
}

fn compare(what: &str, set: &SymbolBitSet, model: &[bool], syms: &[Symbol]) -> Res {
    if set.space() != model.len() {
        return bad(format!("{}: space {} instead of {}", what, set.space(), model.len()));
    }
    for (i, &m) in model.iter().enumerate() {
        if set[syms[i]] != m {
            return bad(format!("{}: membership of symbol {} is {}", what, i, !m));
        }
    }
    let it: Vec<usize> = set.iter().map(|s| s.usize()).collect();
    let want: Vec<usize> = (0..model.len()).filter(|&i| model[i]).collect();
    if it != want {
        return bad(format!("{}: iterates over {:?} instead of {:?}", what, it, want));
    }
    if set.is_empty() != want.is_empty() {
        return bad(format!("{}: is_empty() is {} for {:?}", what, set.is_empty(), want));
    }
    if set.all() != (want.len() == model.len()) {
        return bad(format!("{}: all() is {} for {:?} of {}", what, set.all(), want, model.len()));
    }
    let bv: Vec<bool> = set.bit_vec().iter().collect();
    if bv != model || set.clone().into_bit_vec().iter().collect::<Vec<_>>() != model {
        return bad(format!("{}: bit vector differs", what));
    }
    Ok(())
}

fn set_ops(cx: &mut Cx) -> Res {
    let n = cx.pick(&[0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 96]);
    let depth = cx.range(1, cx.tier(3, 4));
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(200).collect();
    let mut places: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    places.sort();
    places.dedup();
    places.retain(|&p| p < n);
    // A grammar over the same symbols.
    let mut g = G { n, rules: vec![], roots: vec![], ..G::default() };
    if n >= 2 {
        g.rules.push((n - 1, vec![0]));
        g.rules.push((n / 2, vec![]));
        g.rules.push((n - 1, vec![]));
        g.rules.push((n - 1, vec![n - 2, n - 2]));
    } else if n == 1 {
        g.rules.push((0, vec![]));
    }
    let (cfg, _) = g.build();
    let lhs = g.is_lhs();
    let used = g.used();
    let nulling: Vec<bool> = (0..n).map(|s| g.rules.iter().any(|r| r.0 == s && r.1.is_empty())).collect();
    let mut log = format!("{} symbols:", n);
    let (mut set, mut model) = match cx.choose(4) {
        0 => (SymbolBitSet::new(), vec![]),
        1 => (SymbolBitSet::default(), vec![]),
        2 => (SymbolBitSet::from_elem(&cfg, false), vec![false; n]),
        _ => {
            log += " full";
            (SymbolBitSet::from_elem(&cfg, true), vec![true; n])
        }
    };
    compare(&log, &set, &model, &syms)?;
    for _ in 0..depth {
        let k = cx.choose(16);
        match k {
            0 => {
                log += " reset";
                set.reset(cfg.sym_source());
                model = vec![false; n];
            }
            1 => {
                log += " set_all";
                set.set_all(cfg.sym_source());
                model = vec![true; n];
            }
            2 => {
                log += " used";
                set.used(&cfg);
                model = used.clone();
            }
            3 => {
                log += " unused";
                set.unused(&cfg);
                model = used.iter().map(|x| !x).collect();
            }
            4 => {
                log += " negate";
                set.negate();
                model.iter_mut().for_each(|x| *x = !*x);
            }
            5 => {
                log += " terminal";
                set.terminal(&cfg);
                model = lhs.iter().map(|x| !x).collect();
            }
            6 | 7 | 8 => {
                if model.len() != 0 && model.len() < n {
                    return cx.skip();
                }
                if model.is_empty() {
                    model = vec![k == 8; n];
                }
                match k {
                    6 => {
                        log += " nulling";
                        set.nulling(&cfg);
                        (0..n).for_each(|i| model[i] |= nulling[i]);
                    }
                    7 => {
                        log += " productive";
                        set.productive(&cfg);
                        (0..n).for_each(|i| model[i] |= lhs[i]);
                    }
                    _ => {
                        log += " subtract_productive";
                        set.subtract_productive(&cfg);
                        (0..n).for_each(|i| model[i] &= !lhs[i]);
                    }
                }
            }
            9 | 10 => {
                if places.is_empty() {
                    return cx.skip();
                }
                let p = cx.pick(&places);
                if p >= model.len() {
                    return cx.skip();
                }
                log += &format!(" set({},{})", p, k == 9);
                set.set(syms[p], k == 9);
                model[p] = k == 9;
            }
            11 | 12 => {
                // Union with a set of the same space.
                let mut other = SymbolBitSet::new();
                other.reserve(model.len());
                let pat = cx.choose(3);
                log += &format!(" union(pattern {})", pat);
                let mut om = vec![false; model.len()];
                for i in 0..model.len() {
                    om[i] = match pat {
                        0 => i % 2 == 1,
                        1 => i + 1 == model.len() || i == 0,
                        _ => false,
                    };
                    other.set(syms[i], om[i]);
                }
                if k == 11 {
                    set.union(&other);
                    compare(&format!("argument of {}", log), &other, &om, &syms)?;
                } else {
                    other.union(&set);
                    set = other;
                    log += "'";
                }
                (0..model.len()).for_each(|i| model[i] |= om[i]);
            }
            13 | 14 => {
                let to = cx.pick(&[0, 1, n, n + 1, n + 40]);
                log += &format!(" reserve({})", to);
                set.reserve(to);
                while model.len() < to {
                    model.push(false);
                }
                if k == 14 && !model.is_empty() {
                    // Reserved space is usable.
                    let last = model.len() - 1;
                    log += "+set-last";
                    set.set(syms[last], true);
                    model[last] = true;
                }
            }
            _ => {
                log += " json";
                let text = miniserde::json::to_string(&set);
                match miniserde::json::from_str::<SymbolBitSet>(&text) {
                    Ok(s) => set = s,
                    Err(_) => return bad(format!("{}: {} cannot be read back", log, text)),
                }
            }
        }
        cx.op(1);
        cx.state(&(n, &model));
        compare(&log, &set, &model, &syms)?;
    }
    if cx.want_note {
        cx.note = Some(log);
    }
    Ok(())
}

fn least_set(g: &G, init: &[bool], all: bool) -> Vec<bool> {
    let mut v = init.to_vec();
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            let yes = !r.is_empty() && if all { r.iter().all(|&s| v[s]) } else { r.iter().any(|&s| v[s]) };
            if yes && !v[*l] {
                v[*l] = true;
                ch = true;
            }
        }
        if !ch {
            return v;
        }
    }
}

fn closed(cx: &mut Cx, what: &str, g: &G, cfg: &Cfg, syms: &[Symbol], init: &[bool], all: bool) -> Res {
    let mut set = SymbolBitSet::from_elem(cfg, false);
    for s in 0..g.n {
        set.set(syms[s], init[s]);
    }
    match (all, what.len() % 2) {
        (true, 0) => cfg.rhs_closure_for_all(&mut set),
        (false, 0) => cfg.rhs_closure_for_any(&mut set),
        (true, _) => cfg.rhs_closure(&mut set, RhsPropertyMode::All),
        (false, _) => cfg.rhs_closure(&mut set, RhsPropertyMode::Any),
    }
    cx.op(1);
    let want = least_set(g, init, all);
    cx.state(&(g, init, all, &want));
    let got: Vec<usize> = set.iter().map(|s| s.usize()).collect();
    let w: Vec<usize> = (0..g.n).filter(|&s| want[s]).collect();
    if got != w {
        let i: Vec<usize> = (0..g.n).filter(|&s| init[s]).collect();
        return bad(format!("{} closure ({}) of {:?} is {:?}, expected {:?} in {}", what, if all { "all" } else { "any" }, i, got, w, g));
    }
    Ok(())
}

fn check(cx: &mut Cx, g: G) -> Res {
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    let (cfg, syms) = g.build();
    let t = g.terminals();
    let lhs = g.is_lhs();
    let used = g.used();
    // Derived sets.
    compare("terminal_symbols", &cfg.terminal_symbols(), &t, &syms)?;
    let nulling: Vec<bool> = (0..g.n).map(|s| g.rules.iter().any(|r| r.0 == s && r.1.is_empty())).collect();
    compare(&format!("nulling_symbols of {}", g), &cfg.nulling_symbols(), &nulling, &syms)?;
    compare(&format!("unused_symbols of {}", g), &cfg.unused_symbols(), &used.iter().map(|x| !x).collect::<Vec<_>>(), &syms)?;
    let mut s = SymbolBitSet::new();
    s.used(&cfg);
    compare(&format!("used symbols of {}", g), &s, &used, &syms)?;
    let mut s = SymbolBitSet::new();
    s.productive(&cfg);
    compare(&format!("left-hand sides of {}", g), &s, &lhs, &syms)?;
    let mut s = SymbolBitSet::new();
    s.subtract_productive(&cfg);
    compare(&format!("all but left-hand sides of {}", g), &s, &t, &syms)?;
    cx.op(6);
    // Closures of all subsets of the symbols used (a few, for large grammars).
    let us: Vec<usize> = (0..g.n).filter(|&s| used[s]).collect();
    let mut inits: Vec<Vec<bool>> = vec![];
    if us.len() <= 5 {
        for m in 0..1usize << us.len() {
            let mut v = vec![false; g.n];
            for (i, &s) in us.iter().enumerate() {
                v[s] = m >> i & 1 == 1;
            }
            inits.push(v);
        }
    } else {
        inits.push(t.clone());
        inits.push(nulling.clone());
        for &s in us.iter().take(4).chain(us.iter().rev().take(4)) {
            let mut v = vec![false; g.n];
            v[s] = true;
            inits.push(v.clone());
            inits.push(v.iter().map(|x| !x).collect());
        }
        inits.push(lhs.clone());
    }
    for i in &inits {
        closed(cx, "one", &g, &cfg, &syms, i, true)?;
        closed(cx, "two2", &g, &cfg, &syms, i, false)?;
    }
    let i = &inits[inits.len() / 2];
    closed(cx, "four", &g, &cfg, &syms, i, true)?;
    closed(cx, "three", &g, &cfg, &syms, i, false)
}

fn least_costs(g: &G, init: &[Option<u32>]) -> Vec<Option<u32>> {
    let mut v = init.to_vec();
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            if r.is_empty() {
                continue;
            }
            let sum = r.iter().try_fold(0u32, |a, &s| v[s].map(|x| a.saturating_add(x)));
            if let Some(x) = sum {
                if v[*l].is_none_or(|y| x < y) {
                    v[*l] = Some(x);
                    ch = true;
                }
            }
        }
        if !ch {
            return v;
        }
    }
}

fn cost_check(cx: &mut Cx, g: &G, init: Vec<Option<u32>>) -> Res {
    let (mut cfg, _) = g.build();
    let mut v = init.clone();
    cfg.rhs_closure_with_values(&mut v);
    cx.op(1);
    let want = least_costs(g, &init);
    if cx.want_note {
        cx.note = Some(format!("{} {:?} -> {:?}", g, init, v));
    }
    cx.state(&(g, &v));
    if v != want {
        return bad(format!("costs {:?} closed to {:?}, expected {:?} in {}", init, v, want, g));
    }
    let mut again = v.clone();
    cfg.rhs_closure_with_values(&mut again);
    if again != v {
        return bad(format!("closing costs {:?} again changed them to {:?} in {}", v, again, g));
    }
    Ok(())
}

fn costs(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::set(2, 1, 1, cx.tier(3, 4), 2),
        1 => Space::set(2, 2, 1, cx.tier(2, 3), 2),
        _ => Space::set(3, 1, 2, cx.tier(3, 4), cx.tier(1, 2)),
    };
    let g = sp.choose(cx)?;
    let init = (0..g.n).map(|s| if s < sp.nn { cx.pick(&[None, Some(2), Some(0)]) } else { cx.pick(&[Some(1), Some(0), None, Some(5)]) }).collect();
    cost_check(cx, &g, init)
}

fn cost_shapes(cx: &mut Cx) -> Res {
    let g = if cx.flag() { scaled(cx, SCALES_SMALL) } else { shapes(cx, SIZES_SMALL) };
    let pat = cx.choose(8);
    let t = g.terminals();
    let null: Vec<bool> = (0..g.n).map(|s| g.rules.iter().any(|r| r.0 == s && r.1.is_empty())).collect();
    let init = (0..g.n)
        .map(|s| match pat {
            0 if t[s] => Some(1),
            1 | 2 if t[s] => Some((s % 7) as u32),
            0 | 1 if null[s] => Some(0),
            // Around powers of two, up to sums near the end of the range.
            4 if t[s] => Some([254, 255, 256, 32767, 65535, 65536, 16777215][s % 7]),
            5 if t[s] => Some(if s % 5 == 0 { 1 << 20 } else { (1 << 20) - 1 - (s % 3) as u32 }),
            // Sums beyond the range.
            6 if t[s] => Some(u32::MAX - (s % 4) as u32),
            7 if t[s] => Some((1 << 31) - 1 + (s % 2) as u32),
            4..=7 if null[s] => Some(1),
            3 => (s % 3 != 0).then_some((g.n - s) as u32),
            _ => None,
        })
        .collect();
    cost_check(cx, &g, init)
}

/// Sets of more symbols than 16 bits can number.
fn wide_sets(cx: &mut Cx) -> Res {
    let n = cx.pick(&[255usize, 256, 257, 65_535, 65_536, 65_537, 70_000]);
    let a = cx.pick(&[0usize, 255, 256, 65_535, 65_536]);
    let b = cx.pick(&[0usize, 254, 255, 256, 511, 65_534, 65_535, 65_536, 69_999]);
    if a >= n || b >= n {
        return cx.skip();
    }
    if cx.want_note {
        cx.note = Some(format!("{} symbols, members {} and {}", n, a, b));
    }
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = cfg.sym_source_mut().generate().take(n).collect();
    let mut model = vec![false; n];
    let mut set = SymbolBitSet::from_elem(&cfg, false);
    set.set(syms[a], true);
    model[a] = true;
    cx.op(6);
    cx.state(&(n, a, b));
    compare("one symbol", &set, &model, &syms)?;
    set.set(syms[b], true);
    model[b] = true;
    compare("two symbols", &set, &model, &syms)?;
    // One rule from the one to the other, one from a third to both.
    let c = (a + n / 2 + 1) % n;
    let g = G { n, rules: vec![(a, vec![b]), (c, vec![b, a])], roots: vec![a], ..G::default() };
    let (cfg, syms) = g.build();
    compare("terminals", &cfg.terminal_symbols(), &g.terminals(), &syms)?;
    let used = g.used();
    compare("unused symbols", &cfg.unused_symbols(), &used.iter().map(|x| !x).collect::<Vec<_>>(), &syms)?;
    let mut init = vec![false; n];
    init[b] = true;
    closed(cx, "one", &g, &cfg, &syms, &init, true)?;
    closed(cx, "two2", &g, &cfg, &syms, &init, false)?;
    let mut full = SymbolBitSet::from_elem(&cfg, true);
    compare("all symbols", &full, &vec![true; n], &syms)?;
    full.set(syms[b], false);
    let all: Vec<bool> = (0..n).map(|i| i != b).collect();
    compare("all but one", &full, &all, &syms)?;
    let values = (0..n).map(|i| (i == b).then_some(70_001)).collect();
    cost_check(cx, &g, values)
}
