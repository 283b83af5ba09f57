//! C06: FOLLOW sets.
use super::c05::{first, first_of};
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_predict_sets::{CfgSetsExt, PredictSets};
use std::collections::BTreeSet;

crate::grammar_families!(check);

pub fn prop() -> Prop {
    Prop { id: "C06", families: grammar_fams(), assumptions: vec![] }
}

/// FOLLOW by explicit graph search: from every nonterminal occurrence.
pub fn follow(g: &G) -> (Vec<BTreeSet<usize>>, Vec<bool>) {
    let nul = g.nullable();
    let f = first(g);
    // direct[B]: terminals that directly follow; up[B]: left-hand sides whose FOLLOW is included.
    let mut direct: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); g.n];
    let mut up: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); g.n];
    for (l, r) in &g.rules {
        for (i, &b) in r.iter().enumerate() {
            let (fi, n) = first_of(g, &f, &nul, &r[i + 1..]);
            direct[b].extend(fi);
            if n {
                up[b].insert(*l);
            }
        }
    }
    let mut sets = vec![];
    let mut none = vec![];
    for b in 0..g.n {
        let mut seen = BTreeSet::new();
        let mut stack = vec![b];
        let mut out = BTreeSet::new();
        let mut end = false;
        while let Some(x) = stack.pop() {
            if seen.insert(x) {
                out.extend(direct[x].iter().copied());
                end |= g.roots.contains(&x);
                stack.extend(up[x].iter().copied());
            }
        }
        sets.push(out);
        none.push(end);
    }
    (sets, none)
}

fn check(cx: &mut Cx, mut g: G) -> Res {
    vary_roots(cx, &mut g, true);
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    let (cfg, _) = g.build();
    let (w, end) = follow(&g);
    let which = cx.flag();
    let fo = if which { cfg.follow_sets() } else { cfg.follow_sets_with_first(&cfg.first_sets()) };
    cx.op(1);
    let lhs = g.is_lhs();
    let got = fo.predict_sets();
    for k in got.keys() {
        if !lhs[k.usize()] {
            return bad(format!("FOLLOW set for terminal {} in {}", k.usize(), g));
        }
    }
    let by: std::collections::BTreeMap<usize, _> = got.iter().map(|(k, v)| (k.usize(), v)).collect();
    for s in (0..g.n).filter(|&s| lhs[s]) {
        let Some(v) = by.get(&s) else { return bad(format!("no FOLLOW set for {} in {}", s, g)) };
        let list: Vec<usize> = v.iter().map(|x| x.usize()).collect();
        let want: Vec<usize> = w[s].iter().copied().collect();
        if list != want || v.has_none() != end[s] {
            return bad(format!("FOLLOW({}) = {:?} end={}, expected {:?} end={} in {}", s, list, v.has_none(), want, end[s], g));
        }
    }
    cx.state(&(&g, &w, &end));
    Ok(())
}
