//! C07: LL(1) classification.
use super::c05::{first, first_of};
use super::c06::follow;
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_classify::ll::LlNonterminalClass;
use cfg_classify::CfgClassifyExt;
use std::collections::{BTreeMap, BTreeSet};

crate::grammar_families!(check);

pub fn prop() -> Prop {
    Prop { id: "C07", families: grammar_fams(), assumptions: vec![] }
}

fn check(cx: &mut Cx, mut g: G) -> Res {
    vary_roots(cx, &mut g, true);
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    let nul = g.nullable();
    let f = first(&g);
    let (fo, end) = follow(&g);
    // lookahead: Some(t) or None for end of input
    let mut table: BTreeMap<(usize, Option<usize>), BTreeSet<usize>> = BTreeMap::new();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let (fi, n) = first_of(&g, &f, &nul, r);
        for t in fi {
            table.entry((*l, Some(t))).or_default().insert(i);
        }
        if n {
            for &t in &fo[*l] {
                table.entry((*l, Some(t))).or_default().insert(i);
            }
            if end[*l] {
                table.entry((*l, None)).or_default().insert(i);
            }
        }
    }
    let conflict: BTreeSet<usize> = table.iter().filter(|x| x.1.len() > 1).map(|x| x.0 .0).collect();
    let rows: BTreeSet<usize> = table.keys().map(|x| x.0).collect();
    let (cfg, _) = g.build();
    let got = cfg.ll_parse_table().classify();
    cx.op(2);
    let classes: BTreeMap<usize, bool> = got.classes().iter().map(|(k, v)| (k.usize(), *v == LlNonterminalClass::ContextFree)).collect();
    let mut want = BTreeMap::new();
    for &a in &rows {
        let reach = g.reachable(&[a]);
        want.insert(a, conflict.iter().any(|&c| reach[c]));
    }
    cx.state(&(&g, &want));
    if classes != want {
        return bad(format!("classes (symbol: context-free?) {:?}, expected {:?} in {}", classes, want, g));
    }
    Ok(())
}
