//! C02: binarization with elimination of nulling rules.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::Cfg;
use cfg_symbol::Symbol;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        families: vec![
            fam("ordered", "all rule sequences over S,A,x / S,x,y", ordered),
            fam("sets", "all rule sets over two or three nonterminals", sets),
            fam("embedded", "small grammars at word boundaries and other numberings, optionally limited before", embedded),
            fam("shapes", "large parametric grammars", shaped),
            fam("patterns", "one long rule with every nullable / non-nullable position pattern", patterns),
            fam("scaled", "grammars in which one quantity grows while all terminals stay distinct", scaled_up),
            fam("apart", "small grammars whose symbol numbers agree in their low 8 or 16 bits", apart_ones),
            fam("huge", "parametric grammars of both kinds with hundreds of symbols and rules", huge_ones),
            fam("realistic", "grammars of programming and data languages, with each one rule changed in each of several ways", realistic_ones),
            fam("again", "a grammar wrapped or not, eliminated, extended by one or two rules (wrapped again or not) and eliminated again", again),
            deep("sets-deep", "larger rule sets", sets_deep),
        ],
        assumptions: vec!["languages are compared up to a string length that fits a 128-bit table"],
    }
}

pub fn check(cx: &mut Cx, g: &G, pre: Option<usize>) -> Res {
    if cx.want_note {
        cx.note = Some(format!("pre-limit {:?} {}", pre, g));
    }
    let (mut cfg, _) = g.build();
    if let Some(l) = pre {
        cfg.limit_rhs_len(Some(l));
        cx.op(1);
    }
    check_cfg(cx, g, cfg, pre)
}

/// `cfg` has the rules of `g`, or those limited to `pre`.
fn check_cfg(cx: &mut Cx, g: &G, mut cfg: Cfg, pre: Option<usize>) -> Res {
    let original = cfg.clone();
    let nulling = cfg.binarize_and_eliminate_nulling_rules();
    cx.op(1);
    let after = G::read(&cfg);
    let nul = G::read(&nulling);
    cx.state(&(&after, &nul));
    let has_empty = g.rules.iter().any(|r| r.1.is_empty());
    let syms: Vec<usize> = (0..g.n).collect();
    if !has_empty {
        if !nul.rules.is_empty() {
            return bad(format!("nulling grammar {} of a grammar without empty rules {}", nul, g));
        }
        let mut lim = original;
        lim.limit_rhs_len(Some(2));
        if lim.rules().count() != after.rules.len() {
            return bad(format!("grammar without empty rules was not merely limited: {} -> {}", g, after));
        }
        if after.rules.iter().any(|r| r.1.len() > 2) {
            return bad(format!("rule longer than 2 in {}", after));
        }
        same_langs(g, &after, false, &syms)?;
        return Ok(());
    }
    if let Some(r) = after.rules.iter().find(|r| r.1.is_empty() || r.1.len() > 2) {
        return bad(format!("rule {:?} left by nulling elimination of {}", r, g));
    }
    same_langs(g, &after, true, &syms)?;
    let n0 = g.nullable();
    let n1 = nul.nullable();
    for s in 0..g.n {
        if n0[s] != n1.get(s).copied().unwrap_or(false) {
            return bad(format!("symbol {} nullable={} but the nulling grammar says otherwise: {} / {}", s, n0[s], g, nul));
        }
    }
    if after.roots != g.roots {
        return bad("roots changed");
    }
    // Terminals stay terminals.
    let t0 = g.terminals();
    let t1 = after.terminals();
    for s in 0..g.n {
        if t0[s] && !t1[s] {
            return bad(format!("terminal {} got a rule", s));
        }
    }
    // Symbols that derive no non-empty string keep no rules.
    let mut base = t0.clone();
    base.resize(after.n, false);
    let productive = after.closure_all(&base, false);
    if let Some(r) = after.rules.iter().find(|r| !productive[r.0]) {
        return bad(format!("symbol {} derives no non-empty string but keeps a rule in {} made from {}", r.0, after, g));
    }
    // A second elimination finds nothing to do.
    let again = cfg.binarize_and_eliminate_nulling_rules();
    cx.op(1);
    if again.rules().count() != 0 {
        return bad(format!("second elimination of {} found nulling rules {}", g, G::read(&again)));
    }
    let after2 = G::read(&cfg);
    same_langs(g, &after2, true, &syms)?;
    Ok(())
}

fn ordered(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::seq(2, 1, 1, 2, 3),
        1 => Space::seq(2, 1, 3, 3, 2),
        _ => Space::seq(1, 2, 1, 2, 4),
    };
    let g = sp.choose(cx)?;
    check(cx, &g, None)
}

fn sets(cx: &mut Cx) -> Res {
    let mut sp = match cx.choose(3) {
        0 => Space::set(2, 1, 3, 4, 2),
        1 => Space::set(2, 1, 3, 3, 3),
        _ => Space::set(3, 1, 2, 3, 2),
    };
    sp.orders = 2;
    let g = sp.choose(cx)?;
    check(cx, &g, None)
}

fn sets_deep(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::set(2, 1, 5, 5, 2),
        1 => Space::set(2, 2, 4, 4, 2),
        _ => Space::set(3, 1, 4, 4, 2),
    };
    let g = sp.choose(cx)?;
    check(cx, &g, None)
}

fn embedded(cx: &mut Cx) -> Res {
    let sp = if cx.thorough { Space::set(2, 1, 1, 3, 2) } else { Space::set(2, 1, 1, 2, 3) };
    let g = sp.choose(cx)?;
    let g = choose_embedding(cx, &g);
    let pre = cx.pick(&[None, Some(2), Some(3)]);
    check(cx, &g, pre)
}

fn scaled_up(cx: &mut Cx) -> Res {
    let g = scaled(cx, if cx.thorough { SCALES } else { SCALES_SMALL });
    let pre = cx.pick(&[None, Some(3)]);
    check(cx, &g, pre)
}

fn apart_ones(cx: &mut Cx) -> Res {
    let g = apart(cx, true)?;
    let pre = cx.pick(&[None, Some(3)]);
    check(cx, &g, pre)
}

fn huge_ones(cx: &mut Cx) -> Res {
    let g = huge(cx);
    let pre = cx.pick(&[None, Some(3)]);
    check(cx, &g, pre)
}

fn realistic_ones(cx: &mut Cx) -> Res {
    let g = realistic(cx)?;
    let pre = cx.pick(&[None, Some(3)]);
    check(cx, &g, pre)
}

fn shaped(cx: &mut Cx) -> Res {
    let g = shapes(cx, if cx.thorough { SIZES } else { SIZES_SMALL });
    let pre = cx.pick(&[None, Some(3)]);
    check(cx, &g, pre)
}

/// `S ::= A1 .. An`, each position: terminal, nulling, nullable with a terminal,
/// unproductive, or S itself.
fn patterns(cx: &mut Cx) -> Res {
    let max = cx.tier(5, 6);
    let len = cx.range(1, max);
    let n = len + 1 + 2;
    let (x, y) = (len + 1, len + 2);
    let mut rhs = vec![];
    let mut rules = vec![];
    for i in 1..=len {
        match cx.choose(6) {
            0 => rhs.push(x),
            1 => {
                rhs.push(i);
                rules.push((i, vec![]));
            }
            2 => {
                rhs.push(i);
                rules.push((i, vec![]));
                rules.push((i, vec![y]));
            }
            3 => {
                rhs.push(i);
                rules.push((i, vec![i]));
            }
            4 => rhs.push(0),
            _ => {
                rhs.push(i);
                rules.push((i, vec![y]));
            }
        }
    }
    match cx.choose(3) {
        0 => rules.push((0, rhs)),
        1 => rules.insert(0, (0, rhs)),
        _ => {
            rules.push((0, rhs));
            rules.push((0, vec![]));
        }
    }
    let g = G { n, rules, roots: vec![0], ..G::default() };
    check(cx, &g, None)
}

/// Elimination of a grammar that was eliminated before and extended since.
fn again(cx: &mut Cx) -> Res {
    let sp = match cx.choose(2) {
        0 => Space::set(2, 1, 0, cx.tier(1, 2), 2),
        _ => Space::set(2, 1, 2, cx.tier(2, 3), 1),
    };
    let mut g = sp.choose(cx)?;
    g.roots = cx.pick(&[vec![0], vec![1, 0]]);
    let (mut cfg, syms) = g.build();
    if cx.flag() {
        cfg.wrap_input();
    }
    let first = cfg.binarize_and_eliminate_nulling_rules();
    cx.op(1);
    let pool: [(usize, &[usize]); 7] = [(0, &[]), (1, &[]), (2, &[]), (0, &[1, 2, 1]), (1, &[0, 1]), (0, &[2]), (1, &[2, 1, 0, 1])];
    let count = cx.range(0, 2);
    let added: Vec<usize> = (0..count).map(|_| cx.choose(pool.len())).collect();
    for &i in &added {
        let rhs: Vec<Symbol> = pool[i].1.iter().map(|&s| syms[s]).collect();
        cfg.rule(syms[pool[i].0]).rhs(rhs);
    }
    let mut pre = Some(2);
    match cx.choose(4) {
        0 => {}
        1 => cfg.wrap_input(),
        2 => {
            // The nulling part is put back.
            cfg.extend(&first);
        }
        _ => {
            cfg.limit_rhs_len(Some(3));
            pre = Some(3);
        }
    }
    let now = G::read(&cfg);
    if cx.want_note {
        cx.note = Some(format!("{} eliminated, with rules {:?} added: {}", g, added, now));
    }
    check_cfg(cx, &now, cfg, pre)
}
