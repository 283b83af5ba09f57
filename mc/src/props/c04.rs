//! C04: unit cycles.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_classify::cyclical::Cycles;
use std::collections::BTreeSet;

crate::grammar_families!(check, false);

pub fn prop() -> Prop {
    let mut families = grammar_fams();
    families.push(fam("unit-graphs", "all unit-rule graphs over 3 and 4 (thorough: 5) nonterminals with exits", unit_graphs));
    Prop { id: "C04", families, assumptions: vec!["a self-loop A ::= A alone is not a cycle", "languages are compared up to a bounded string length", "symbols merged into another by rewriting are compared only where they are start symbols"] }
}

/// Every directed graph on 3 nonterminals (with self-loops), on 4 (without), and in
/// the thorough tier on 5, as unit rules, with several kinds of other rules.
fn unit_graphs(cx: &mut Cx) -> Res {
    let n = cx.range(3, cx.tier(4, 5));
    let mut rules = vec![];
    let order = if n < 5 { cx.choose(2) } else { 0 };
    for a in 0..n {
        for b in 0..n {
            if a == b && n >= 4 {
                continue;
            }
            if cx.flag() {
                rules.push((a, vec![b]));
            }
        }
    }
    match if n < 5 { cx.choose(5) } else { 3 } {
        0 => rules.push((n - 1, vec![n])),
        1 => rules.push((0, vec![n + 1, 1])),
        2 => {
            rules.push((n - 1, vec![n]));
            rules.push((0, vec![n + 1, 1]));
        }
        3 => {
            // Every nonterminal has a terminal of its own.
            for a in 0..n {
                rules.push((a, vec![n + a]));
            }
        }
        _ => {
            rules.push((1, vec![2, 0]));
            rules.push((2, vec![]));
            rules.push((n - 1, vec![n]));
        }
    }
    if order == 1 {
        rules.reverse();
    }
    let g = G { n: 2 * n, rules, roots: vec![0], ..G::default() };
    check(cx, g)
}

fn check(cx: &mut Cx, mut g: G) -> Res {
    vary_roots(cx, &mut g, false);
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    // Unit derivation without self-loops, at least one step.
    let mut row: Vec<Vec<bool>> = vec![vec![]; g.n];
    let steps: Vec<(usize, usize)> = g.rules.iter().filter(|r| r.1.len() == 1 && r.1[0] != r.0).map(|r| (r.0, r.1[0])).collect();
    let mut next: Vec<Vec<usize>> = vec![vec![]; g.n];
    steps.iter().for_each(|&(a, b)| next[a].push(b));
    for a in 0..g.n {
        if next[a].is_empty() {
            continue;
        }
        row[a] = vec![false; g.n];
        let mut todo = next[a].clone();
        while let Some(b) = todo.pop() {
            if !row[a][b] {
                row[a][b] = true;
                todo.extend(&next[b]);
            }
        }
    }
    let derives = |a: usize, b: usize| row[a].get(b) == Some(&true);
    let free = (0..g.n).all(|s| !derives(s, s));
    let participates: Vec<bool> = g.rules.iter().map(|r| r.1.len() == 1 && derives(r.1[0], r.0)).collect();
    let (cfg, _) = g.build();
    {
        let mut c = Cycles::new(&cfg);
        cx.op(2);
        if c.cycle_free() != free {
            return bad(format!("cycle_free() = {} on {}", !free, g));
        }
        let cl: Vec<bool> = c.classify().map(|x| x.1).collect();
        if cl != participates {
            return bad(format!("classify() = {:?}, expected {:?} on {}", cl, participates, g));
        }
        for (r, x) in c.classify().map(|x| x.0).zip(cfg.rules()) {
            if r != x {
                return bad("classify() lists other rules");
            }
        }
        for which in [false, true] {
            let got = c.cycle_participants(which).count();
            let want = participates.iter().filter(|&&p| p == which).count();
            if got != want {
                return bad(format!("cycle_participants({}) gives {} rules, expected {} on {}", which, got, want, g));
            }
            for (r, i) in c.cycle_participants(which).zip((0..g.rules.len()).filter(|&i| participates[i] == which)) {
                if r.lhs.usize() != g.rules[i].0 || r.rhs.iter().map(|s| s.usize()).collect::<Vec<_>>() != g.rules[i].1 {
                    return bad(format!("cycle_participants({}) gives the wrong rules on {}", which, g));
                }
            }
        }
    }
    // Removal.
    let mut c2 = cfg.clone();
    Cycles::new(&mut c2).remove_cycles();
    cx.op(1);
    let g2 = G::read(&c2);
    let want: Vec<_> = g.rules.iter().zip(&participates).filter(|x| !x.1).map(|x| x.0.clone()).collect();
    let (mut a, mut b) = (g2.rules.clone(), want);
    a.sort();
    b.sort();
    if a != b || g2.roots != g.roots {
        return bad(format!("remove_cycles of {} gave {}", g, g2));
    }
    // Rewrite.
    let mut c3 = cfg.clone();
    Cycles::new(&mut c3).rewrite_cycles();
    cx.op(1);
    let g3 = G::read(&c3);
    cx.state(&(&g, &g3));
    if free && g3.sorted_rules() != g.sorted_rules() {
        return bad(format!("rewrite_cycles changed the cycle-free grammar {} to {}", g, g3));
    }
    if !Cycles::new(&c3).cycle_free() {
        return bad(format!("rewrite_cycles left cycles: {} -> {}", g, g3));
    }
    // Independent test of cycle-freedom.
    {
        let mut und: Vec<(usize, usize)> = g3.rules.iter().filter(|r| r.1.len() == 1 && r.1[0] != r.0).map(|r| (r.0, r.1[0])).collect();
        und.sort();
        und.dedup();
        // Topological elimination.
        let mut alive: Vec<(usize, usize)> = und;
        loop {
            let heads: BTreeSet<usize> = alive.iter().map(|e| e.0).collect();
            let before = alive.len();
            alive.retain(|e| heads.contains(&e.1));
            if alive.len() == before {
                break;
            }
        }
        if !alive.is_empty() {
            return bad(format!("rewrite_cycles left a unit cycle: {} -> {}", g, g3));
        }
    }
    if g3.roots.len() != g.roots.len() {
        return bad("number of roots changed");
    }
    let pairs: Vec<(usize, usize)> = g.roots.iter().copied().zip(g3.roots.iter().copied()).collect();
    same_langs_of(&g, &g3, false, &pairs)?;
    // The same with wrapped start symbols: their description must follow.
    let mut c4 = cfg.clone();
    c4.wrap_input();
    let w0 = c4.wrapped_roots().to_vec();
    Cycles::new(&mut c4).rewrite_cycles();
    cx.op(1);
    let w1 = c4.wrapped_roots().to_vec();
    if w1.len() != w0.len() || c4.roots().len() != w0.len() {
        return bad(format!("number of wrapped roots changed in {}", g));
    }
    let mut pairs = vec![];
    for ((a, b), r) in w0.iter().zip(&w1).zip(c4.roots()) {
        if (b.root, b.start_of_input, b.end_of_input) != (a.root, a.start_of_input, a.end_of_input) || *r != b.root {
            return bad(format!("wrapped root {:?} became {:?} in {}", a, b, g));
        }
        // (Split in two when a limit is in force.)
        if g.extra.limit.is_none() && !c4.rules().any(|x| x.lhs == b.root && x.rhs[..] == [b.start_of_input, b.inner_root, b.end_of_input]) {
            return bad(format!("no rule for the wrapped root {:?} after rewriting cycles of {}", b, g));
        }
        pairs.push((a.inner_root.usize(), b.inner_root.usize()));
    }
    same_langs_of(&g, &G::read(&c4), false, &pairs)
        .map_err(|e| Fail::from(format!("wrapped: {}", e)))?;
    Ok(())
}
