//! C23: the grammar as a container of rules.
use super::Prop;
use crate::engine::*;
use cfg_grammar::{named_cfg_rule, Cfg, CfgRule, NamedCfgRule};
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::earley::History;
use cfg_history::{LinkedHistoryNode, RootHistoryNode};
use cfg_symbol::{Symbol, SymbolSource};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        families: vec![
            fam("operations", "all sequences of container operations up to a bounded length, with no limit on rule lengths or one that no rule exceeds", operations),
            fam("equivalent", "all pairs of rule lists over a pool of rules", equivalent),
            fam("far-apart", "long rule lists and long rules that differ in one place, compared; long lists sorted, deduplicated and filtered", far_apart),
            fam("wide", "lists of tens of thousands of rules and rules of tens of thousands of symbols", wide),
            fam("order", "sorting, custom sorting and deduplication of all rule lists over a pool", order),
            fam("columns", "dot columns of all rules up to a bounded length, with histories", columns),
            fam("wrap", "wrapping of all root lists, with rules before and after", wrap),
            fam("listing", "textual listings of all short rule lists, named and unnamed", listing),
            fam("named", "named rules compared pairwise and displayed, over all namings of three symbols", named),
        ],
        assumptions: vec!["emptiness after wrapping is judged after the first wrapping and before other transformations"],
    }
}

type R = (usize, Vec<usize>, History);

fn read(cfg: &Cfg) -> Vec<R> {
    cfg.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect(), r.history)).collect()
}

fn show(m: &[R]) -> String {
    m.iter().map(|r| format!("{}->{:?}#{}", r.0, r.1, r.2.origin.id as i32)).collect::<Vec<_>>().join(" ")
}

fn same(what: &str, cfg: &Cfg, model: &[R]) -> Res {
    let got = read(cfg);
    if got != model {
        return bad(format!("{}: rules are {} instead of {}", what, show(&got), show(model)));
    }
    Ok(())
}

/// Pool of rules over symbols 0, 1, 2.
fn pool() -> Vec<(usize, Vec<usize>)> {
    vec![(0, vec![1, 2]), (1, vec![]), (0, vec![1]), (2, vec![2, 1, 0]), (1, vec![0, 0])]
}

fn operations(cx: &mut Cx) -> Res {
    let depth = cx.range(1, cx.tier(5, 6));
    let form = cx.choose(4);
    let mut cfg = if form == 1 { Cfg::default() } else { Cfg::new() };
    if form > 1 {
        // A limit that no rule exceeds changes nothing.
        cfg.limit_rhs_len(Some(form + 1));
    }
    let syms: [Symbol; 3] = cfg.sym();
    let mut model: Vec<R> = vec![];
    let mut log = String::new();
    let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
    other.rule(syms[1]).history(History::new(77)).rhs([syms[0]]).rhs([]);
    let other_model: Vec<R> = vec![(1, vec![0], History::new(77)), (1, vec![], History::new(0))];
    let mut frozen: Option<(Cfg, Vec<R>)> = None;
    for step in 0..depth {
        let k = cx.choose(15);
        let id = 10 + step as u32;
        match k {
            0..=4 => {
                let (l, r) = pool()[k].clone();
                log += &format!(" add{}", k);
                let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
                match (k + step) % 4 {
                    0 => {
                        cfg.rule(syms[l]).rhs(rhs);
                        model.push((l, r, History::new(0)));
                    }
                    1 => {
                        cfg.rule(syms[l]).history(History::new(id)).rhs(rhs);
                        model.push((l, r, History::new(id)));
                    }
                    2 => {
                        let n = cfg.add_rule(CfgRule::new(syms[l], rhs, History::new(id)));
                        if n != 1 {
                            return bad(format!("{}: add_rule reports {} parts", log, n));
                        }
                        model.push((l, r, History::new(id)));
                    }
                    _ => {
                        cfg.rule(syms[l]).rhs_with_history(rhs, RootHistoryNode::Origin { origin: id as usize }.into());
                        model.push((l, r, History::new(id)));
                    }
                }
            }
            5 => {
                log += " chain";
                // A builder used for several alternatives of several symbols.
                cfg.rule(syms[2])
                    .history(History::new(id))
                    .rhs([syms[0]])
                    .rhs([syms[1]])
                    .rule(syms[0])
                    .rhs_with_history([], History::new(id + 40))
                    .rhs_with_linked_history([syms[0]], LinkedHistoryNode::Weight { weight: 2.5 });
                model.push((2, vec![0], History::new(id)));
                model.push((2, vec![1], History::new(0)));
                model.push((0, vec![], History::new(id + 40)));
                model.push((0, vec![0], History { weight: Some(2500), ..History::new(0) }));
            }
            6 => {
                log += " sort";
                cfg.sort();
                model.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
            }
            7 => {
                log += " sort_by(len desc)";
                cfg.sort_by(|a, b| b.rhs.len().cmp(&a.rhs.len()));
                model.sort_by(|a, b| b.1.len().cmp(&a.1.len()));
            }
            8 => {
                log += " dedup";
                cfg.dedup();
                model.dedup_by(|a, b| (a.0, &a.1) == (b.0, &b.1));
            }
            9 => {
                log += " retain";
                let which = step % 2;
                let mut seen = vec![];
                cfg.retain(|r| {
                    seen.push((r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect::<Vec<_>>(), r.history));
                    if which == 0 {
                        !r.rhs.is_empty()
                    } else {
                        r.lhs == syms[0]
                    }
                });
                if seen != model {
                    return bad(format!("{}: retain visited {}", log, show(&seen)));
                }
                model.retain(|r| if which == 0 { !r.1.is_empty() } else { r.0 == 0 });
            }
            10 => {
                log += " reverse";
                cfg.reverse();
                model.iter_mut().for_each(|r| r.1.reverse());
            }
            11 => {
                log += " extend";
                cfg.extend(&other);
                model.extend(other_model.iter().cloned());
                same(&format!("the argument after{}", log), &other, &other_model)?;
            }
            12 => {
                log += " clone";
                frozen = Some((cfg.clone(), model.clone()));
            }
            13 => {
                log += " swap-clone";
                let Some((c, m)) = frozen.take() else { return cx.skip() };
                let old = (std::mem::replace(&mut cfg, c), std::mem::replace(&mut model, m));
                frozen = Some(old);
            }
            _ => {
                log += " clear";
                cfg.clear_rules();
                model.clear();
            }
        }
        cx.op(1);
        cx.state(&model.iter().map(|r| (r.0, r.1.clone(), r.2.origin.id)).collect::<Vec<_>>());
        same(&log, &cfg, &model)?;
        if cfg.is_empty() != model.is_empty() {
            return bad(format!("{}: is_empty() is {} with {} rules", log, cfg.is_empty(), model.len()));
        }
        if cfg.num_syms() != 3 {
            return bad(format!("{}: {} symbols", log, cfg.num_syms()));
        }
    }
    if let Some((c, m)) = &frozen {
        same(&format!("the other copy after{}", log), c, m)?;
        let eq = m.len() == model.len() && m.iter().zip(&model).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
        if cfg.equivalent(c) != eq || c.equivalent(&cfg) != eq {
            return bad(format!("{}: equivalent() is {} for {} and {}", log, !eq, show(m), show(&model)));
        }
    }
    if cx.want_note {
        cx.note = Some(format!("{} -> {}", log, show(&model)));
    }
    Ok(())
}

fn list(cx: &mut Cx, pool: &[(usize, Vec<usize>)], max: usize) -> Vec<(usize, Vec<usize>)> {
    let n = cx.range(0, max);
    (0..n).map(|_| cx.pick(pool)).collect()
}

fn make(rules: &[(usize, Vec<usize>)], base: u32) -> (Cfg, Vec<R>) {
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = cfg.sym_source_mut().generate().take(5).collect();
    let mut m = vec![];
    for (i, (l, r)) in rules.iter().enumerate() {
        // Histories that differ in more than their origins.
        let h = match i % 4 {
            1 => History { weight: Some(i as u32), ..History::new(base + i as u32) },
            2 => History { dots: [RuleDot::new(3, i as u32), RuleDot::none(), RuleDot::new(7, 0)], ..History::new(base + i as u32) },
            3 => History { nullable: Some((syms[i % 5], i % 8 < 4)), ..History::new(base + i as u32) },
            _ => History::new(base + i as u32),
        };
        cfg.rule(syms[*l]).rhs_with_history(r.iter().map(|&s| syms[s]).collect::<Vec<_>>(), h);
        m.push((*l, r.clone(), h));
    }
    (cfg, m)
}

fn equivalent(cx: &mut Cx) -> Res {
    let pool = [(0, vec![1]), (0, vec![1, 2]), (0, vec![2, 1]), (1, vec![]), (1, vec![1]), (0, vec![])];
    let a = list(cx, &pool, cx.tier(3, 4));
    let b = list(cx, &pool, cx.tier(3, 4));
    let (mut ca, _) = make(&a, 5);
    let (cb, _) = make(&b, 9);
    // What else the grammars hold does not matter.
    match cx.choose(4) {
        0 => {}
        1 => drop(ca.next_sym(Some("more".into()))),
        2 => {
            let s = ca.next_sym(None);
            ca.set_roots([s]);
        }
        _ => ca.limit_rhs_len(Some(5)),
    }
    cx.op(2);
    cx.state(&(&a, &b));
    if cx.want_note {
        cx.note = Some(format!("{:?} and {:?}: {}", a, b, ca.equivalent(&cb)));
    }
    if ca.equivalent(&cb) != (a == b) || cb.equivalent(&ca) != (a == b) {
        return bad(format!("equivalent() is {} for {:?} and {:?}", ca.equivalent(&cb), a, b));
    }
    Ok(())
}

fn far_apart(cx: &mut Cx) -> Res {
    let n = if cx.flag() { cx.range(1, cx.tier(24, 40)) } else { cx.pick(&[33usize, 64, 65, 100, 130, 257]) };
    let rule = |i: usize| ((i * 3 + i / 4) % 5, (0..(i * 7) % 5).map(|j| (i + j * j) % 5).collect::<Vec<usize>>());
    let (a, mut b): (Vec<(usize, Vec<usize>)>, Vec<(usize, Vec<usize>)>);
    match cx.choose(3) {
        0 => {
            // Many rules.
            a = (0..n).map(rule).collect();
            b = a.clone();
            let at = if n <= 40 { cx.choose(n) } else { cx.pick(&[0, n / 2, n - 1]) };
            match cx.choose(6) {
                0 => {}
                1 => b[at].0 = (b[at].0 + 1) % 5,
                2 => b[at].1.push(3),
                3 => {
                    b.remove(at);
                }
                4 => b.insert(at, (4, vec![4, 4, 4])),
                _ => {
                    let r = &mut b[at].1;
                    if r.is_empty() {
                        return cx.skip();
                    }
                    let last = r.len() - 1;
                    r[last] = (r[last] + 1) % 5;
                }
            }
        }
        1 => {
            // A long rule.
            let long: Vec<usize> = (0..n).map(|i| i * i % 5).collect();
            a = vec![(1, vec![2]), (0, long.clone()), (1, vec![])];
            b = a.clone();
            let at = if n <= 40 { cx.choose(n) } else { cx.pick(&[0, n / 2, n - 1]) };
            match cx.choose(4) {
                0 => {}
                1 => b[1].1[at] = (b[1].1[at] + 1) % 5,
                2 => {
                    b[1].1.remove(at);
                }
                _ => b[1].1.insert(at, 4),
            }
        }
        _ => {
            // Sorted, deduplicated, filtered.
            let pat = cx.choose(5);
            let list: Vec<(usize, Vec<usize>)> = (0..n)
                .map(|i| match pat {
                    4 => (1, (0..n).map(|j| if j + 1 == n { i / 2 % 2 } else { 3 }).collect()),
                    0 => rule(i),
                    1 => rule(i / 3),
                    2 => rule(n - i),
                    _ => (i % 5, (0..n).map(|j| (j == i) as usize).collect()),
                })
                .collect();
            let (mut c, mut m) = make(&list, 5);
            match cx.choose(6) {
                4 => {
                    // Rules that compare equal stay in order.
                    c.sort_by(|a, b| b.lhs.cmp(&a.lhs));
                    m.sort_by(|a, b| b.0.cmp(&a.0));
                }
                5 => {
                    c.sort_by(|_, _| std::cmp::Ordering::Equal);
                }
                0 => {
                    c.sort();
                    m.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
                }
                1 => {
                    c.dedup();
                    m.dedup_by(|a, b| (a.0, &a.1) == (b.0, &b.1));
                }
                2 => {
                    c.sort_by(|a, b| b.history.origin.id.cmp(&a.history.origin.id));
                    m.reverse();
                }
                _ => {
                    c.retain(|r| r.history.origin.id % 3 != 0);
                    m.retain(|r| r.2.origin.id % 3 != 0);
                }
            }
            cx.op(1);
            cx.state(&(n, pat, m.len()));
            return same(&format!("{:?} changed", list), &c, &m);
        }
    }
    let (ca, _) = make(&a, 5);
    let (cb, _) = make(&b, 9);
    cx.op(2);
    cx.state(&(&a, &b));
    if ca.equivalent(&cb) != (a == b) || cb.equivalent(&ca) != (a == b) {
        return bad(format!("equivalent() is {} for {:?} and {:?}", ca.equivalent(&cb), a, b));
    }
    Ok(())
}

/// Rule lists and rules whose lengths are at the edges of 8 and 16 bits.
fn wide(cx: &mut Cx) -> Res {
    let n = cx.pick(&[254usize, 255, 256, 257, 65_535, 65_536, 65_537, 70_000]);
    let kind = cx.choose(7);
    let what = format!("{} rules or symbols, operation {}", n, kind);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    cx.op(1);
    cx.state(&(n, kind));
    let rule = |i: usize| ((i * 3 + i / 4) % 5, (0..(i * 7) % 5).map(|j| (i + j * j) % 5).collect::<Vec<usize>>());
    let list: Vec<(usize, Vec<usize>)> = (0..n).map(|i| rule(i / 2)).collect();
    let (mut c, mut m) = make(&list, 5);
    let differs = |c: &Cfg, m: &[R]| -> Res {
        let got = read(c);
        match (0..got.len().max(m.len())).find(|&i| got.get(i) != m.get(i)) {
            Some(i) => bad(format!("{}: {} rules instead of {}; rule {} is {:?} instead of {:?}", what, got.len(), m.len(), i, got.get(i), m.get(i))),
            None => Ok(()),
        }
    };
    match kind {
        0 => {
            c.sort();
            m.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
        }
        1 => {
            c.dedup();
            m.dedup_by(|a, b| (a.0, &a.1) == (b.0, &b.1));
        }
        2 => {
            c.retain(|r| r.history.origin.id % 3 != 0);
            m.retain(|r| r.2.origin.id % 3 != 0);
        }
        3 => {
            c.reverse();
            m.iter_mut().for_each(|r| r.1.reverse());
        }
        4 => {
            let (d, x) = make(&list[..n / 2], 9);
            c.extend(&d);
            m.extend(x);
        }
        5 => {
            // One long rule: reversed, compared, and its dot columns.
            let long: Vec<usize> = (0..n).map(|i| (i * i / 3) % 5).collect();
            (c, m) = make(&[(1, vec![]), (0, long.clone())], 7);
            c.reverse();
            m.iter_mut().for_each(|r| r.1.reverse());
            differs(&c, &m)?;
            for at in 0..=n {
                let got: Vec<(usize, Option<usize>, Option<usize>)> =
                    c.column(at).map(|d| (d.lhs.usize(), d.predot.map(|s| s.usize()), d.postdot.map(|s| s.usize()))).collect();
                let want: Vec<(usize, Option<usize>, Option<usize>)> =
                    m.iter().map(|r| (r.0, at.checked_sub(1).and_then(|i| r.1.get(i).copied()), r.1.get(at).copied())).collect();
                if got != want {
                    return bad(format!("{}: column {} is {:?} instead of {:?}", what, at, got, want));
                }
            }
        }
        _ => {
            // A rule list ending otherwise.
            let (d, _) = make(&list, 9);
            let mut other = list.clone();
            other[n - 1].1.push(1);
            let (e, _) = make(&other, 5);
            if !c.equivalent(&d) || c.equivalent(&e) || e.equivalent(&c) {
                return bad(format!("{}: wrongly judged equivalent or not", what));
            }
        }
    }
    differs(&c, &m)
}

fn order(cx: &mut Cx) -> Res {
    let pool = [(0, vec![1]), (0, vec![1, 2]), (1, vec![]), (0, vec![2]), (1, vec![0])];
    let a = list(cx, &pool, cx.tier(6, 7));
    let (mut c, mut m) = make(&a, 5);
    let k = cx.choose(5);
    match k {
        0 => {
            c.sort();
            m.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
        }
        1 => {
            c.dedup();
            m.dedup_by(|a, b| (a.0, &a.1) == (b.0, &b.1));
        }
        2 => {
            c.sort();
            c.dedup();
            m.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
            m.dedup_by(|a, b| (a.0, &a.1) == (b.0, &b.1));
        }
        3 => {
            c.sort_by(|a, b| b.history.origin.id.cmp(&a.history.origin.id));
            m.reverse();
        }
        _ => {
            c.retain(|r| r.history.origin.id % 2 == 0);
            m.retain(|r| r.2.origin.id % 2 == 0);
        }
    }
    cx.op(1);
    cx.state(&(k, &a));
    if cx.want_note {
        cx.note = Some(format!("operation {} on {:?}", k, a));
    }
    same(&format!("operation {} on {:?}", k, a), &c, &m)
}

fn columns(cx: &mut Cx) -> Res {
    let long = cx.flag();
    let rules: Vec<(usize, Vec<usize>)> = if long {
        // One long rule, all of whose neighbouring symbols differ.
        let n = cx.range(1, cx.tier(70, 300));
        vec![(0, (0..n).map(|i| (i + i / 5) % 5).collect()), (1, vec![2])]
    } else {
        (0..cx.range(1, 2))
        .map(|_| {
            let l = cx.choose(2);
            let n = cx.range(0, cx.tier(4, 5));
            (l, (0..n).map(|_| cx.choose(3)).collect())
        })
        .collect()
    };
    let limit = if !long && cx.flag() { Some(2) } else { None };
    let (mut cfg, _) = make(&rules, 5);
    cfg.limit_rhs_len(limit);
    let now = read(&cfg);
    if cx.want_note {
        cx.note = Some(show(&now));
    }
    cx.state(&(&rules, limit));
    let top = rules.iter().map(|r| r.1.len()).max().unwrap() + 2;
    for col in (0..top).chain([usize::MAX]) {
        let c: Vec<_> = cfg.column(col).collect();
        cx.op(1);
        if c.len() != now.len() {
            return bad(format!("column {} has {} rows for {} rules", col, c.len(), now.len()));
        }
        for (d, r) in c.iter().zip(&now) {
            let pre = if col == 0 { None } else { r.1.get(col - 1).copied() };
            let post = r.1.get(col).copied();
            let dot = if col < 3 { r.2.dots[col] } else { RuleDot::none() };
            if d.lhs.usize() != r.0 || d.predot.map(|s| s.usize()) != pre || d.postdot.map(|s| s.usize()) != post || d.earley != Some(dot) || r.2.dot(col) != dot {
                return bad(format!("column {} is {:?} for rule {}->{:?}", col, d, r.0, r.1));
            }
        }
    }
    Ok(())
}

fn wrap(cx: &mut Cx) -> Res {
    let pool = pool();
    let rules = list(cx, &pool, 2);
    let (mut cfg, mut model) = make(&rules, 5);
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(40).collect();
    let nroots = cx.range(0, 3);
    let roots: Vec<usize> = (0..nroots).map(|_| cx.choose(5)).collect();
    let rs: Vec<Symbol> = roots.iter().map(|&r| syms[r]).collect();
    cfg.set_roots(&rs);
    if cfg.has_roots() != (nroots > 0) || cfg.roots() != &rs[..] || !cfg.wrapped_roots().is_empty() {
        return bad("roots not kept");
    }
    let mut inner: Vec<usize> = roots.clone();
    let mut log = format!("{} roots {:?}", show(&model), roots);
    let times = cx.range(1, 2);
    for t in 0..times {
        let before = cfg.num_syms();
        cfg.wrap_input();
        cx.op(1);
        log += " wrap";
        let w = cfg.wrapped_roots().to_vec();
        if w.len() != nroots || cfg.roots().len() != nroots || cfg.num_syms() != before + 3 * nroots {
            return bad(format!("{}: {} wrapped roots, {} roots, {} new symbols", log, w.len(), cfg.roots().len(), cfg.num_syms() - before));
        }
        let mut fresh = vec![];
        for (i, w) in w.iter().enumerate() {
            if w.inner_root.usize() != inner[i] || cfg.roots()[i] != w.root {
                return bad(format!("{}: wrapped root {:?} at {}", log, w, i));
            }
            fresh.extend([w.root.usize(), w.start_of_input.usize(), w.end_of_input.usize()]);
            model.push((w.root.usize(), vec![w.start_of_input.usize(), inner[i], w.end_of_input.usize()], History::new(0)));
            for (s, name) in [(w.root, "root"), (w.start_of_input, "start_of_input"), (w.end_of_input, "end_of_input")] {
                if &*cfg.sym_source().name_of(s) != name {
                    return bad(format!("{}: marker named {}", log, cfg.sym_source().name_of(s)));
                }
            }
        }
        let mut f = fresh.clone();
        f.sort();
        f.dedup();
        if f.len() != fresh.len() || f.iter().any(|&x| x < before) {
            return bad(format!("{}: markers are not fresh: {:?}", log, fresh));
        }
        inner = w.iter().map(|w| w.root.usize()).collect();
        same(&log, &cfg, &model)?;
        let empty = if nroots == 0 { model.is_empty() } else { rules.is_empty() };
        // The container operations see every rule, those of the wrapping too.
        {
            let (mut c, mut m) = (cfg.clone(), model.clone());
            c.reverse();
            m.iter_mut().for_each(|r| r.1.reverse());
            same(&format!("{} reverse", log), &c, &m)?;
            c.sort();
            m.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
            same(&format!("{} reverse sort", log), &c, &m)?;
            c.extend(&cfg);
            m.extend(model.iter().cloned());
            same(&format!("{} reverse sort extend", log), &c, &m)?;
            c.sort_by(|a, b| (b.rhs.len(), &b.lhs).cmp(&(a.rhs.len(), &a.lhs)));
            m.sort_by(|a, b| (b.1.len(), b.0).cmp(&(a.1.len(), a.0)));
            same(&format!("{} reverse sort extend sort_by", log), &c, &m)?;
            c.dedup();
            m.dedup_by(|a, b| (a.0, &a.1) == (b.0, &b.1));
            same(&format!("{} reverse sort extend sort_by dedup", log), &c, &m)?;
            let eq = m.len() == model.len() && m.iter().zip(&model).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
            if c.equivalent(&cfg) != eq {
                return bad(format!("{}: equivalent() is {} for {} and {}", log, !eq, show(&m), show(&model)));
            }
            c.retain(|r| r.rhs.len() != 3);
            m.retain(|r| r.1.len() != 3);
            same(&format!("{} reverse sort extend sort_by dedup retain", log), &c, &m)?;
            cx.op(7);
        }
        if t == 0 {
            if cfg.is_empty() != empty {
                return bad(format!("{}: is_empty() is {}", log, cfg.is_empty()));
            }
            // Roots in another order.
            let back = cfg.roots().to_vec();
            let mut rev = back.clone();
            rev.reverse();
            cfg.set_roots(&rev);
            if cfg.is_empty() != empty {
                return bad(format!("{} roots reversed: is_empty() is {}", log, cfg.is_empty()));
            }
            // Other roots later, or none: the rules that wrap stay the same ones.
            for others in [&syms[4..5], &syms[..2], &[]] {
                cfg.set_roots(others);
                if cfg.is_empty() != empty {
                    return bad(format!("{} roots then set to {:?}: is_empty() is {}", log, others, cfg.is_empty()));
                }
            }
            cfg.set_roots(&back);
            if nroots > 0 {
                // With a length limit in force, in which case the wrapping may be split.
                for limit in [2, 3, 4] {
                    let (mut c, _) = make(&rules, 5);
                    c.set_roots(&rs);
                    c.limit_rhs_len(Some(limit));
                    c.wrap_input();
                    if c.is_empty() != empty {
                        return bad(format!("{} with limit {}: is_empty() is {}", log, limit, c.is_empty()));
                    }
                    c.rule(syms[4]).rhs([syms[0]]);
                    if c.is_empty() {
                        return bad(format!("{} with limit {} and a rule: is_empty()", log, limit));
                    }
                }
                // More rules; only one left; none left.
                let mut c = cfg.clone();
                c.rule(syms[4]).rhs([]);
                if c.is_empty() {
                    return bad(format!("{} and a rule: is_empty()", log));
                }
                c.retain(|r| cfg.roots().contains(&r.lhs));
                if !c.is_empty() {
                    return bad(format!("{} with only wrapping rules: not is_empty()", log));
                }
                c.clear_rules();
                if !c.is_empty() {
                    return bad(format!("{} cleared: not is_empty()", log));
                }
            }
        }
    }
    cx.state(&(&roots, &rules, times));
    if cx.want_note {
        cx.note = Some(log);
    }
    // set_wrapped_roots replaces the list.
    let w = cfg.wrapped_roots().to_vec();
    cfg.set_wrapped_roots(&[]);
    if !cfg.wrapped_roots().is_empty() {
        return bad("set_wrapped_roots(&[]) kept some");
    }
    cfg.set_wrapped_roots(&w);
    if cfg.wrapped_roots().len() != w.len() || cfg.wrapped_roots().iter().zip(&w).any(|(a, b)| (a.root, a.inner_root, a.start_of_input, a.end_of_input) != (b.root, b.inner_root, b.start_of_input, b.end_of_input)) {
        return bad("set_wrapped_roots changed the list");
    }
    Ok(())
}

fn listing(cx: &mut Cx) -> Res {
    let pool = [(0, vec![1]), (0, vec![1, 2]), (1, vec![]), (2, vec![2, 1, 0])];
    let far = cx.choose(4);
    let rules = if far == 0 { list(cx, &pool, cx.tier(3, 4)) } else { vec![(0, vec![1, 2]), (2, vec![]), (1, (0..far * 7).map(|i| i % 3).collect())] };
    // Symbols between, and the named ones anywhere among them.
    let n = if far == 0 { 3 } else { cx.pick(&[4, 9, 17, 34, 66, 130]) };
    let named: Vec<bool> = if far == 0 {
        (0..3).map(|_| cx.flag()).collect()
    } else {
        let only = cx.choose(n);
        (0..n).map(|i| i == only).collect()
    };
    let names = ["A", "b", "A"];
    let names: Vec<&str> = (0..n).map(|i| names[i % 3]).collect();
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..n).map(|i| cfg.next_sym(if named[i] { Some(names[i].into()) } else { None })).collect();
    for (l, r) in &rules {
        cfg.rule(syms[*l]).rhs(r.iter().map(|&s| syms[s]).collect::<Vec<_>>());
    }
    let one = |s: usize| {
        if !named.contains(&true) {
            s.to_string()
        } else {
            format!("{}({})", cfg.sym_source().name_of(syms[s]), s)
        }
    };
    let mut want = String::new();
    for (l, r) in &rules {
        want += &format!("{} ::= {};\n", one(*l), if r.is_empty() { "()".into() } else { r.iter().map(|&s| one(s)).collect::<Vec<_>>().join(" ~ ") });
    }
    let got = cfg.stringify_to_bnf();
    cx.op(1);
    cx.state(&want);
    if cx.want_note {
        cx.note = Some(got.clone());
    }
    if got != want {
        return bad(format!("listing of {:?} is {:?} instead of {:?}", rules, got, want));
    }
    Ok(())
}

/// Rules with names: compared by names and by known histories.
fn named(cx: &mut Cx) -> Res {
    let pool: Vec<(usize, Vec<usize>)> = vec![(0, vec![1]), (0, vec![1, 2]), (1, vec![]), (2, vec![2, 1, 0]), (0, vec![2, 2])];
    let names: [Option<&'static str>; 3] = [None, Some("a"), Some("B")];
    let hs = [None, Some(History::new(0)), Some(History::new(3)), Some(History { weight: Some(1), ..History::new(3) })];
    let mut made: Vec<(NamedCfgRule, Vec<Option<&str>>, Option<History>)> = vec![];
    for _ in 0..2 {
        let how = cx.choose(3);
        if how == 0 {
            // Built through a grammar.
            let (l, r) = cx.pick(&pool);
            let nm: Vec<Option<&str>> = (0..3).map(|_| cx.pick(&names)).collect();
            let h = hs[cx.range(1, 3)].unwrap();
            let mut src = SymbolSource::new();
            let syms: Vec<Symbol> = nm.iter().map(|n| src.next_sym(n.map(|n| n.into()))).collect();
            let rule = CfgRule::new(syms[l], r.iter().map(|&s| syms[s]).collect::<Vec<_>>(), h);
            let got = rule.named(&src);
            if got.lhs != rule.lhs || got.rhs != rule.rhs || got.history != Some(h) {
                return bad(format!("named() changed the rule {:?}", rule));
            }
            let shown = [l].iter().chain(&r).map(|&s| nm[s]).collect();
            made.push((got, shown, Some(h)));
        } else {
            let n = cx.range(1, 3);
            let mut nm: Vec<Option<&str>> = (0..n).map(|_| cx.pick(&names)).collect();
            // Long rules, differing at their ends.
            let front = cx.pick(&[0usize, 4, 9, 40]);
            nm.splice(0..0, (0..front).map(|i| if i % 3 == 0 { None } else { Some("a") }));
            let v = nm.iter().map(|n| n.map(|n| n.into())).collect();
            if how == 1 {
                made.push((NamedCfgRule::new(v), nm, None));
            } else {
                let h = hs[cx.range(1, 3)].unwrap();
                made.push((NamedCfgRule::with_history(v, h), nm, Some(h)));
            }
        }
    }
    cx.op(2);
    for (r, nm, h) in &made {
        if r.rhs.len() + 1 != nm.len() || r.history != *h {
            return bad(format!("{:?} made from the names {:?}", r, nm));
        }
        let text = format!("{:?}", r);
        let one = |n: Option<&str>| format!("{:?}", n.unwrap_or("gensym"));
        let list = nm[1..].iter().map(|&n| one(n)).collect::<Vec<_>>().join(", ");
        if !text.contains(&format!("lhs: {}, rhs: [{}]", one(nm[0]), list)) {
            return bad(format!("names {:?} displayed as {}", nm, text));
        }
    }
    let (a, b) = (&made[0], &made[1]);
    let eq = a.1 == b.1 && (a.2.is_none() || b.2.is_none() || a.2 == b.2);
    cx.state(&(&a.1, &b.1, eq));
    if cx.want_note {
        cx.note = Some(format!("{:?} and {:?}: {}", a.1, b.1, eq));
    }
    if (a.0 == b.0) != eq || (b.0 == a.0) != eq || a.0 != a.0.clone() {
        return bad(format!("named rules {:?} {:?} and {:?} {:?}: equal is {}", a.1, a.2, b.1, b.2, a.0 == b.0));
    }
    let m = named_cfg_rule!(a ::= B x B);
    if m != NamedCfgRule::new(vec![Some("a".into()), Some("B".into()), Some("x".into()), Some("B".into())]) || m == named_cfg_rule!(a ::= B x) {
        return bad(format!("named_cfg_rule! made {:?}", m));
    }
    Ok(())
}
