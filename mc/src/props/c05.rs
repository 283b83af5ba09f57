//! C05: FIRST / LAST sets. Also hosts the textbook set oracles used by C06, C07.
use super::Prop;
use crate::engine::*;
use crate::oracle::*;
use cfg_predict_sets::{CfgSetsExt, LastSets, PerSymbolSets, PredictSets};
use cfg_symbol::Symbol;
use std::collections::BTreeSet;

crate::grammar_families!(check);

pub fn prop() -> Prop {
    Prop { id: "C05", families: grammar_fams(), assumptions: vec!["strings over small grammars up to length 3; over large ones their right-hand sides and selected concatenations"] }
}

/// FIRST sets over terminals by closing the relation "X can come first in A".
pub fn first(g: &G) -> Vec<BTreeSet<usize>> {
    let nul = g.nullable();
    let t = g.terminals();
    let mut rel: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); g.n];
    for (l, r) in &g.rules {
        for &s in r {
            rel[*l].insert(s);
            if !nul[s] {
                break;
            }
        }
    }
    (0..g.n)
        .map(|a| {
            let mut seen = BTreeSet::new();
            let mut stack = vec![a];
            while let Some(x) = stack.pop() {
                if seen.insert(x) {
                    stack.extend(rel[x].iter().copied());
                }
            }
            seen.into_iter().filter(|&s| t[s]).collect()
        })
        .collect()
}

pub fn first_of(g: &G, f: &[BTreeSet<usize>], nul: &[bool], string: &[usize]) -> (BTreeSet<usize>, bool) {
    let _ = g;
    let mut out = BTreeSet::new();
    for &s in string {
        out.extend(f[s].iter().copied());
        if !nul[s] {
            return (out, false);
        }
    }
    (out, true)
}

pub fn reversed(g: &G) -> G {
    let mut r = g.clone();
    for x in &mut r.rules {
        x.1.reverse();
    }
    r
}

fn compare(what: &str, g: &G, got: &PerSymbolSets, want: &[BTreeSet<usize>], none: &[bool]) -> Res {
    let lhs = g.is_lhs();
    for (k, _) in got {
        if !lhs[k.usize()] {
            return bad(format!("{} set for symbol {} that has no rules in {}", what, k.usize(), g));
        }
    }
    let by: std::collections::BTreeMap<usize, _> = got.iter().map(|(k, v)| (k.usize(), v)).collect();
    for s in 0..g.n {
        if !lhs[s] {
            continue;
        }
        let Some(v) = by.get(&s) else { return bad(format!("no {} set for {} in {}", what, s, g)) };
        let list: Vec<usize> = v.iter().map(|x| x.usize()).collect();
        let w: Vec<usize> = want[s].iter().copied().collect();
        if list != w || v.has_none() != none[s] || v.has_none != none[s] || v.list.len() != list.len() {
            return bad(format!("{}({}) = {:?} none={}, expected {:?} none={} in {}", what, s, list, v.has_none(), w, none[s], g));
        }
    }
    Ok(())
}

fn check(cx: &mut Cx, g: G) -> Res {
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    let (cfg, syms) = g.build();
    let nul = g.nullable();
    let f = first(&g);
    let fs = cfg.first_sets();
    cx.op(2);
    compare("FIRST", &g, fs.predict_sets(), &f, &nul)?;
    let l = first(&reversed(&g));
    let ls = LastSets::new(&cfg);
    compare("LAST", &g, ls.predict_sets(), &l, &nul)?;
    cx.state(&(&g, &f, &l));
    if G::read(&cfg) != g {
        return bad("computing the sets changed the grammar");
    }
    // Strings.
    let mut strings: Vec<Vec<usize>> = vec![vec![]];
    let small: Vec<usize> = if g.n <= 5 { (0..g.n).collect() } else { vec![] };
    for &a in &small {
        strings.push(vec![a]);
        for &b in &small {
            strings.push(vec![a, b]);
            for &c in &small {
                strings.push(vec![a, b, c]);
            }
        }
    }
    if g.n > 5 {
        for (l, r) in g.rules.iter().take(40) {
            strings.push(r.clone());
            strings.push(vec![*l]);
            if let (Some(&a), Some((l2, r2))) = (r.first(), g.rules.last()) {
                strings.push(vec![*l, *l2, a]);
                let mut x = r.clone();
                x.extend(r2);
                strings.push(x);
            }
        }
    }
    for s in &strings {
        let v: Vec<Symbol> = s.iter().map(|&x| syms[x]).collect();
        let got = fs.first_set_for_string(&v);
        let (w, n) = first_of(&g, &f, &nul, s);
        let list: BTreeSet<usize> = got.iter().map(|x| x.usize()).collect();
        if list != w || got.has_none() != n || got.len() != w.len() {
            return bad(format!("FIRST of string {:?} = {:?} none={}, expected {:?} none={} in {}", s, got.list.iter().map(|x| x.usize()).collect::<Vec<_>>(), got.has_none(), w, n, g));
        }
    }
    cx.op(strings.len() as u64);
    Ok(())
}
