//! C21: LR(0) items and machine.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_classify::lr::{Lr0Item, Lr0Items, Lr0Node};
use cfg_classify::CfgClassifyExt;
use cfg_symbol::Symbol;
use std::collections::{BTreeMap, BTreeSet};

crate::grammar_families!(machine);

pub fn prop() -> Prop {
    let mut f = grammar_fams();
    f.push(fam("closure", "closures and advances of all sets of up to two items of all small grammars", items));
    f.push(fam("known", "the smallest grammar outside the class the item representation can express", known));
    Prop {
        id: "C21",
        families: f,
        assumptions: vec!["grammars with a textbook state holding two items of one rule are outside the claim (see the known finding)"],
    }
}

type Items = BTreeSet<(usize, usize)>; // rule, dot

fn closure(g: &G, kernel: &Items) -> Items {
    let mut s = kernel.clone();
    loop {
        let mut add = vec![];
        for &(r, d) in &s {
            if let Some(&p) = g.rules[r].1.get(d) {
                for (i, (l, _)) in g.rules.iter().enumerate() {
                    if *l == p && !s.contains(&(i, 0)) {
                        add.push((i, 0));
                    }
                }
            }
        }
        if add.is_empty() {
            return s;
        }
        s.extend(add);
    }
}

fn advance(g: &G, s: &Items, x: usize) -> Option<Items> {
    let k: Items = s.iter().filter(|&&(r, d)| g.rules[r].1.get(d) == Some(&x)).map(|&(r, d)| (r, d + 1)).collect();
    if k.is_empty() {
        None
    } else {
        Some(closure(g, &k))
    }
}

fn expressible(s: &Items) -> bool {
    let mut rules: Vec<usize> = s.iter().map(|i| i.0).collect();
    rules.dedup();
    rules.len() == s.len()
}

/// The implementation's items, checked to carry the right right-hand sides.
fn read_items(g: &G, items: &Lr0Items) -> Result<Items, Fail> {
    let mut s = Items::new();
    for (&r, it) in &items.map {
        let Some((_, rhs)) = g.rules.get(r as usize) else { return bad(format!("item of rule {} of {}", r, g.rules.len())) };
        if it.rhs.iter().map(|s| s.usize()).ne(rhs.iter().copied()) {
            return bad(format!("item of rule {} has right-hand side {:?} in {}", r, it.rhs, g));
        }
        s.insert((r as usize, it.dot as usize));
    }
    Ok(s)
}

fn check_machine(g: &G, what: &str, nodes: &[Lr0Node], states: &[Items]) -> Res {
    let terms = g.terminals();
    let got: Vec<Items> = nodes.iter().map(|n| read_items(g, &n.items)).collect::<Result<_, _>>()?;
    if got.first() != states.first() {
        return bad(format!("{}: the initial state is {:?} instead of {:?} in {}", what, got.first(), states[0], g));
    }
    let mut sorted = got.clone();
    sorted.sort();
    let mut want = states.to_vec();
    want.sort();
    if sorted != want {
        return bad(format!("{}: states {:?} instead of {:?} in {}", what, sorted, want, g));
    }
    for (i, n) in nodes.iter().enumerate() {
        let mut link: BTreeMap<usize, Items> = BTreeMap::new();
        for t in (0..g.n).filter(|&t| terms[t]) {
            if let Some(s) = advance(g, &got[i], t) {
                link.insert(t, s);
            }
        }
        let mut real: BTreeMap<usize, Items> = BTreeMap::new();
        for (t, &to) in &n.link {
            let Some(s) = got.get(to as usize) else { return bad(format!("{}: link to state {} of {} in {}", what, to, got.len(), g)) };
            real.insert(t.usize(), s.clone());
        }
        if link != real {
            return bad(format!("{}: links of state {:?} are {:?} instead of {:?} in {}", what, got[i], real, link, g));
        }
    }
    Ok(())
}

fn textbook(g: &G, start_rule: usize) -> Vec<Items> {
    let terms = g.terminals();
    let mut states = vec![closure(g, &Items::from([(start_rule, 0)]))];
    let mut i = 0;
    while i < states.len() {
        for t in (0..g.n).filter(|&t| terms[t]) {
            if let Some(s) = advance(g, &states[i], t) {
                if !states.contains(&s) {
                    states.push(s);
                }
            }
        }
        i += 1;
    }
    states
}

fn machine(cx: &mut Cx, g: G) -> Res {
    // Start symbols: the first two symbols with rules and one without.
    let mut starts: Vec<usize> = vec![];
    let lhs = g.is_lhs();
    starts.extend((0..g.n).filter(|&s| lhs[s]).take(2));
    starts.extend((0..g.n).rev().find(|&s| !lhs[s]));
    if starts.is_empty() {
        return cx.skip();
    }
    let start = cx.pick(&starts);
    let twice = starts.len() > 1 && g.n < 8 && cx.flag();
    let mut g1 = g.clone();
    g1.n += 1;
    g1.rules.push((g.n, vec![start]));
    let states = textbook(&g1, g.rules.len());
    if !states.iter().all(expressible) {
        return cx.skip();
    }
    let (mut cfg, syms) = g.build();
    let mut b = cfg.lr0_fsm_builder();
    let nodes = b.make_lr0_fsm(syms[start]);
    cx.op(1);
    cx.state(&(&g, start, &states));
    if cx.want_note {
        cx.note = Some(format!("start {}: {} states; {}", start, states.len(), g));
    }
    check_machine(&g1, "machine", &nodes, &states)?;
    let mut last = g1.clone();
    if twice {
        let other = starts[(starts.iter().position(|&s| s == start).unwrap() + 1) % starts.len()];
        let mut g2 = g1.clone();
        g2.n += 1;
        g2.rules.push((g1.n, vec![other]));
        let states = textbook(&g2, g1.rules.len());
        if states.iter().all(expressible) {
            let nodes = b.make_lr0_fsm(syms[other]);
            cx.op(1);
            check_machine(&g2, "second machine", &nodes, &states)?;
            last = g2;
        }
    }
    drop(b);
    let after = G::read(&cfg);
    if after.n != last.n || after.rules != last.rules {
        return bad(format!("the grammar {} became {} instead of {}", g, after, last));
    }
    Ok(())
}

fn items(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space { orders: 1, ..Space::set(2, 1, 1, 3, 2) },
        1 => Space { orders: 1, ..Space::set(2, 2, 1, 2, 3) },
        _ => Space { orders: 1, ..Space::set(3, 1, 2, 3, 2) },
    };
    let g = sp.choose(cx)?;
    let mut kernel = Items::new();
    let r = cx.choose(g.rules.len());
    kernel.insert((r, cx.choose(g.rules[r].1.len() + 1)));
    if r + 1 < g.rules.len() && cx.flag() {
        let q = cx.range(r + 1, g.rules.len() - 1);
        kernel.insert((q, cx.choose(g.rules[q].1.len() + 1)));
    }
    let want = closure(&g, &kernel);
    if !expressible(&want) {
        return cx.skip();
    }
    let (mut cfg, syms) = g.build();
    let rhs_of = |r: usize| g.rules[r].1.iter().map(|&s| syms[s]).collect::<Vec<Symbol>>();
    let mut it = Lr0Items { map: kernel.iter().map(|&(r, d)| (r as u32, Lr0Item { rhs: rhs_of(r), dot: d as u32 })).collect() };
    let mut b = cfg.lr0_closure_builder();
    b.closure(&mut it);
    cx.op(1);
    cx.state(&(&g, &kernel));
    if cx.want_note {
        cx.note = Some(format!("closure of {:?} is {:?} in {}", kernel, want, g));
    }
    let got = read_items(&g, &it)?;
    if got != want {
        return bad(format!("closure of {:?} is {:?} instead of {:?} in {}", kernel, got, want, g));
    }
    for x in 0..g.n {
        let w = advance(&g, &want, x);
        if w.as_ref().is_some_and(|w| !expressible(w)) {
            continue;
        }
        let a = b.advance(&it, syms[x]);
        cx.op(1);
        let a = match a {
            None => None,
            Some(a) => Some(read_items(&g, &a)?),
        };
        if a != w {
            return bad(format!("advancing {:?} over {} gives {:?} instead of {:?} in {}", want, x, a, w, g));
        }
    }
    if read_items(&g, &it)? != want {
        return bad("advancing changed the items");
    }
    Ok(())
}

fn known(cx: &mut Cx) -> Res {
    // S ::= x S | y
    let g = G { n: 3, rules: vec![(0, vec![1, 0]), (0, vec![2])], roots: vec![0], ..G::default() };
    let mut g1 = g.clone();
    g1.n += 1;
    g1.rules.push((3, vec![0]));
    let states = textbook(&g1, 2);
    let (mut cfg, syms) = g.build();
    let nodes = cfg.lr0_fsm_builder().make_lr0_fsm(syms[0]);
    cx.op(1);
    cx.state(&nodes.len());
    if check_machine(&g1, "machine", &nodes, &states).is_err() {
        return bad("S ::= x S | y: the state after x keeps only one of the items S ::= x . S and S ::= . x S");
    }
    Ok(())
}
