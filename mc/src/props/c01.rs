//! C01: limiting the right-hand-side length.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::RootHistoryNode;
use cfg_symbol::Symbol;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        families: vec![
            fam("grammars", "all small grammars x limits 2..4: lengths, languages, freshness, idempotence", grammars),
            fam("lengths", "every rule length x limit: exact split", lengths),
            fam("histories", "all sequences of limit / add / extend / wrap-input calls", histories),
            fam("shapes", "large parametric grammars x limits", shaped),
            fam("scaled", "grammars in which one quantity grows while all terminals stay distinct", scaled_limits),
            fam("apart", "small grammars whose symbol numbers agree in their low 8 or 16 bits", apart_ones),
            fam("huge", "parametric grammars of both kinds with hundreds of symbols and rules", huge_ones),
            fam("realistic", "grammars of programming and data languages, with each one rule changed in each of several ways", realistic_limits),
            fam("wide", "one rule, with lengths, limits and symbol numbers at the edges of 8 and 16 bits", wide),
            deep("grammars-deep", "larger grammar space", grammars_deep),
        ],
        assumptions: vec!["limits of 0 and 1 are outside the domain", "languages are compared up to a string length that fits a 128-bit table (5 for two letters)"],
    }
}

fn check_limited(before: &G, cfg: &Cfg, limit: usize) -> Res {
    let after = G::read(cfg);
    for (l, r) in &after.rules {
        if r.len() > limit {
            return bad(format!("rule {} -> {:?} longer than limit {} after limiting {}", l, r, limit, before));
        }
        if *l >= after.n || r.iter().any(|&s| s >= after.n) {
            return bad(format!("rule {} -> {:?} uses a symbol outside the source ({} symbols)", l, r, after.n));
        }
    }
    if after.n < before.n {
        return bad("symbols disappeared");
    }
    // Every symbol keeps its kind: no terminal gains a rule, helpers are new symbols.
    let t0 = before.terminals();
    let t1 = after.terminals();
    for s in 0..before.n {
        if t0[s] != t1[s] {
            return bad(format!("symbol {} changed between terminal and nonterminal; {} -> {}", s, before, after));
        }
    }
    let syms: Vec<usize> = (0..before.n).collect();
    same_langs(before, &after, false, &syms)?;
    if after.roots != before.roots {
        return bad("roots changed");
    }
    Ok(())
}

fn limit_case(cx: &mut Cx, g: &G, limit: usize) -> Res {
    if cx.want_note {
        cx.note = Some(format!("limit {} on {}", limit, g));
    }
    let (mut cfg, _) = g.build();
    cfg.limit_rhs_len(Some(limit));
    cx.op(1);
    check_limited(g, &cfg, limit)?;
    let once = G::read(&cfg);
    cx.state(&(limit, &once));
    cfg.limit_rhs_len(Some(limit));
    cx.op(1);
    let twice = G::read(&cfg);
    // The order of the rules is free.
    let sorted = |g: &G| {
        let mut g = g.clone();
        g.rules.sort();
        g
    };
    if sorted(&once) != sorted(&twice) {
        return bad(format!("limiting twice changed the grammar: {} then {}", once, twice));
    }
    Ok(())
}

fn grammars(cx: &mut Cx) -> Res {
    let sp = if cx.flag() { Space::seq(1, 2, 1, 2, 4) } else { Space::seq(2, 1, 1, 2, 4) };
    let g = sp.choose(cx)?;
    let limit = cx.range(2, 4);
    limit_case(cx, &g, limit)
}

fn grammars_deep(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::seq(2, 2, 1, 2, 4),
        1 => Space::set(2, 1, 3, 3, 3),
        _ => Space::seq(1, 1, 1, 2, 8),
    };
    let g = sp.choose(cx)?;
    let limit = cx.range(2, 5);
    limit_case(cx, &g, limit)
}

fn scaled_limits(cx: &mut Cx) -> Res {
    let g = scaled(cx, if cx.thorough { SCALES } else { SCALES_SMALL });
    let limit = cx.pick(&[2, 3, 5, 9]);
    limit_case(cx, &g, limit)
}

fn apart_ones(cx: &mut Cx) -> Res {
    let g = apart(cx, true)?;
    let limit = cx.pick(&[2, 3]);
    limit_case(cx, &g, limit)
}

fn huge_ones(cx: &mut Cx) -> Res {
    let g = huge(cx);
    let limit = cx.pick(&[2, 3, 100, 256]);
    limit_case(cx, &g, limit)
}

fn realistic_limits(cx: &mut Cx) -> Res {
    let g = realistic(cx)?;
    let limit = cx.pick(&[2, 3, 4, 6]);
    limit_case(cx, &g, limit)
}

fn shaped(cx: &mut Cx) -> Res {
    let sizes: &[usize] = if cx.thorough { SIZES } else { SIZES_SMALL };
    let g = shapes(cx, sizes);
    let limit = cx.pick(&[2, 3, 4, 8, 9, 64]);
    if cx.want_note {
        cx.note = Some(format!("limit {} on {}", limit, g));
    }
    limit_case(cx, &g, limit)
}

/// One rule with distinct terminals (or a repeated one), added before or after
/// the limit was set.
fn lengths(cx: &mut Cx) -> Res {
    let max_len = cx.tier(70, 300);
    let len = cx.choose(max_len + 1);
    let limit = cx.range(2, cx.tier(12, 40));
    let how = cx.choose(5);
    let repeated = cx.flag();
    let pad = cx.pick(&[0usize, 60]);
    if cx.want_note {
        cx.note = Some(format!("length {} limit {} how {} repeated {}", len, limit, how, repeated));
    }
    let n = pad + 1 + if repeated { 1 } else { len };
    let lhs = pad;
    let rhs: Vec<usize> = (0..len).map(|i| if repeated { pad + 1 } else { pad + 1 + i }).collect();
    let n = n.max(pad + 2);
    let g = G { n, rules: vec![(lhs, rhs.clone())], roots: vec![lhs], ..G::default() };
    let (mut cfg, syms) = G { n, rules: vec![], roots: vec![lhs], ..G::default() }.build();
    let r: Vec<Symbol> = rhs.iter().map(|&s| syms[s]).collect();
    let mut parts = None;
    match how {
        0 => {
            cfg.rule(syms[lhs]).rhs(&r[..]);
            cfg.limit_rhs_len(Some(limit));
        }
        1 => {
            cfg.limit_rhs_len(Some(limit));
            parts = Some(cfg.add_rule(CfgRule::new(syms[lhs], &r[..], RootHistoryNode::NoOp.into())));
        }
        2 => {
            // Limit first loosely, then tightly.
            cfg.rule(syms[lhs]).rhs(&r[..]);
            cfg.limit_rhs_len(Some(limit + 3));
            cfg.limit_rhs_len(Some(limit));
        }
        3 => {
            cfg.limit_rhs_len(Some(limit));
            let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
            other.rule(syms[lhs]).rhs(&r[..]);
            cfg.extend(&other);
        }
        _ => {
            // Lifting the limit and setting it again.
            cfg.limit_rhs_len(Some(limit));
            cfg.limit_rhs_len(None);
            cfg.rule(syms[lhs]).rhs(&r[..]);
            if len > 0 && cfg.rules().count() != 1 {
                return bad("a rule was split although no limit is in force");
            }
            cfg.limit_rhs_len(Some(limit));
        }
    }
    cx.op(2);
    let after = G::read(&cfg);
    cx.state(&(limit, how, &after));
    if let Some(p) = parts {
        if p as usize != after.rules.len() {
            return bad(format!("add_rule reported {} parts but {} rules are stored", p, after.rules.len()));
        }
    }
    if after.rules.iter().any(|(_, r)| r.len() > limit) {
        return bad(format!("rule longer than {}: {}", limit, after));
    }
    // Exact derivation: a single string.
    let fin = Finite::of(&after, &g.terminals());
    let l = fin.lang(lhs);
    if l.len() != 1 || l.iter().next() != Some(&rhs) {
        return bad(format!("length {} limit {} how {}: derives {:?}", len, limit, how, l));
    }
    let used_lhs: Vec<usize> = after.rules.iter().map(|r| r.0).filter(|&l| l != lhs).collect();
    if used_lhs.iter().any(|&l| l < n) {
        return bad("helper symbol is not fresh");
    }
    Ok(())
}

/// Model: the flat list of rules; the implementation must keep its languages.
fn histories(cx: &mut Cx) -> Res {
    let depth = cx.tier(4, 5);
    let start = G { n: 4, rules: vec![(0, vec![1, 2, 1, 3]), (1, vec![2])], roots: vec![0], ..G::default() };
    let (mut cfg, syms) = start.build();
    let mut model = start.clone();
    let mut limit: Option<usize> = None;
    let mut trace = vec![];
    let mut wraps = 0;
    let menu: &[(usize, &[usize])] = &[
        (0, &[]),
        (1, &[3, 0]),
        (1, &[2, 1, 3]),
        (0, &[1, 0, 1, 2]),
        (0, &[2, 3, 2, 3, 1]),
        (1, &[1]),
    ];
    for step in 0..depth {
        let op = cx.choose(2 + menu.len() + 3);
        cx.op(1);
        let before_count = cfg.rules().count();
        match op {
            0 | 1 => {
                let l = 2 + op;
                cfg.limit_rhs_len(Some(l));
                limit = Some(l);
                trace.push(format!("limit {}", l));
            }
            _ if op < 2 + menu.len() => {
                let (l, r) = menu[op - 2];
                let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
                if step % 2 == 0 {
                    let p = cfg.add_rule(CfgRule::new(syms[l], &rhs[..], RootHistoryNode::Origin { origin: step }.into()));
                    if before_count + p as usize != cfg.rules().count() {
                        return bad(format!("add_rule reported {} parts after {:?}", p, trace));
                    }
                } else {
                    cfg.rule(syms[l]).rhs(&rhs[..]);
                }
                model.rules.push((l, r.to_vec()));
                trace.push(format!("add {} -> {:?}", l, r));
            }
            _ => {
                let k = op - 2 - menu.len();
                if k < 2 {
                    let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
                    let add: Vec<(usize, Vec<usize>)> =
                        if k == 0 { vec![(1, vec![2, 3, 2]), (0, vec![1, 1])] } else { vec![(1, vec![0, 2, 3, 1, 2]), (1, vec![])] };
                    for (l, r) in &add {
                        let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
                        other.rule(syms[*l]).rhs(&rhs[..]);
                    }
                    cfg.extend(&other);
                    model.rules.extend(add);
                    trace.push(format!("extend {}", k));
                } else {
                    if wraps == 2 {
                        return cx.skip();
                    }
                    wraps += 1;
                    cfg.wrap_input();
                    trace.push("wrap".into());
                    let w = cfg.wrapped_roots().to_vec();
                    if w.len() != model.roots.len() {
                        return bad(format!("{} wrapped roots for {} roots", w.len(), model.roots.len()));
                    }
                    let mut roots = vec![];
                    for (w, &inner) in w.iter().zip(&model.roots) {
                        if w.inner_root.usize() != inner {
                            return bad("wrapped the wrong root");
                        }
                        let new = [w.root.usize(), w.start_of_input.usize(), w.end_of_input.usize()];
                        if new.iter().any(|&s| s < model.n) {
                            return bad("wrap_input reused a symbol");
                        }
                        model.rules.push((new[0], vec![new[1], inner, new[2]]));
                        roots.push(new[0]);
                    }
                    model.roots = roots;
                }
            }
        }
        if cx.want_note {
            cx.note = Some(format!("{:?}", trace));
        }
        let after = G::read(&cfg);
        let old_n = model.n;
        model.n = after.n;
        cx.state(&(limit, &after));
        if let Some(l) = limit {
            if let Some((a, r)) = after.rules.iter().find(|r| r.1.len() > l) {
                return bad(format!("rule {} -> {:?} exceeds limit {} after {:?}", a, r, l, trace));
            }
        }
        let _ = old_n;
        // Symbols known to the model: everything that occurs in its rules.
        let used = model.used();
        let syms_used: Vec<usize> = (0..model.n).filter(|&s| used[s]).collect();
        if let Err(e) = same_langs(&model, &after, false, &syms_used) {
            return bad(format!("after {:?}: {}", trace, e));
        }
        if after.roots != model.roots {
            return bad(format!("roots changed after {:?}", trace));
        }
    }
    Ok(())
}

/// Sizes at the edges of the narrow integer types.
fn wide(cx: &mut Cx) -> Res {
    let len = cx.pick(&[254usize, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 65538, 70_000, 131_073]);
    let limit = cx.pick(&[2usize, 3, 16, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 131_072]);
    let how = cx.choose(3);
    let pad = cx.pick(&[0usize, 70_000]);
    let what = format!("length {} limit {} how {} pad {}", len, limit, how, pad);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let n = pad + 8;
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = cfg.sym_source_mut().generate().take(n).collect();
    // Aperiodic, so that no two places look alike.
    let body: Vec<usize> = (0..len).map(|i| pad + 1 + (i * i / 7 + i / 5) % 7).collect();
    let rhs: Vec<Symbol> = body.iter().map(|&s| syms[s]).collect();
    let mut parts = None;
    match how {
        0 => {
            cfg.rule(syms[pad]).rhs(&rhs[..]);
            cfg.limit_rhs_len(Some(limit));
        }
        1 => {
            cfg.limit_rhs_len(Some(limit));
            parts = Some(cfg.add_rule(CfgRule::new(syms[pad], &rhs[..], RootHistoryNode::NoOp.into())) as usize);
        }
        _ => {
            let mut other = cfg.clone();
            other.rule(syms[pad]).rhs(&rhs[..]);
            cfg.limit_rhs_len(Some(limit));
            cfg.extend(&other);
        }
    }
    cx.op(2);
    cx.state(&(len, limit, how, pad));
    let mut of: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    let mut count = 0;
    for r in cfg.rules() {
        count += 1;
        if r.rhs.len() > limit {
            return bad(format!("{}: a rule of length {} is left", what, r.rhs.len()));
        }
        let l = r.lhs.usize();
        if l != pad && l < n {
            return bad(format!("{}: symbol {} got a rule", what, l));
        }
        if of.insert(l, r.rhs.iter().map(|s| s.usize()).collect()).is_some() {
            return bad(format!("{}: symbol {} has two rules", what, l));
        }
    }
    if let Some(p) = parts {
        if p != count {
            return bad(format!("{}: add_rule reported {} parts but {} rules are stored", what, p, count));
        }
    }
    // The only derivation, unfolded left to right.
    let mut at = 0;
    let mut work = vec![pad];
    let mut seen = 0;
    while let Some(s) = work.pop() {
        if let Some(r) = of.get(&s) {
            seen += 1;
            if seen > count {
                return bad(format!("{}: recursive or repeated helper symbol {}", what, s));
            }
            work.extend(r.iter().rev());
        } else {
            if body.get(at) != Some(&s) {
                return bad(format!("{}: symbol {} of the only word is {} instead of {:?}", what, at, s, body.get(at)));
            }
            at += 1;
        }
    }
    if at != len || seen != count {
        return bad(format!("{}: the only word has length {}; {} of {} rules take part", what, at, seen, count));
    }
    Ok(())
}
