//! C03: usefulness and make_proper.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_classify::useful::Usefulness;
use cfg_classify::CfgClassifyExt;
use cfg_symbol::Symbol;

crate::grammar_families!(check, false);

pub fn prop() -> Prop {
    Prop { id: "C03", families: grammar_fams(), assumptions: vec!["languages of start symbols are compared up to a bounded string length"] }
}

fn check(cx: &mut Cx, mut g: G) -> Res {
    let huge = g.rules.len() > 200 && !cx.thorough;
    if !huge {
        vary_roots(cx, &mut g, true);
    }
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    let how = match g.rules.len() {
        0..=3 => cx.choose(5),
        4..=12 => cx.choose(3),
        n if !cx.thorough => n % 3,
        _ => cx.choose(3),
    };
    let (mut cfg, mut syms) = g.build();
    if how == 4 {
        // Wrapped start symbols that are no longer the declared ones.
        let declared: Vec<Symbol> = g.roots.iter().map(|&r| syms[r]).collect();
        cfg.wrap_input();
        cfg.set_roots(&declared);
        g = G::read(&cfg);
        syms = cfg_symbol::SymbolSource::generate_fresh().take(g.n).collect();
    }
    let roots: Vec<Symbol> = g.roots.iter().map(|&r| syms[r]).collect();
    let u = match how {
        0 | 4 => cfg.usefulness(),
        3 => {
            // Explicit roots besides declared ones.
            let others: Vec<Symbol> = (0..g.n).filter(|s| !g.roots.contains(s)).map(|s| syms[s]).collect();
            cfg.set_roots(&others);
            let u = cfg.usefulness_with_roots(&roots);
            cfg.set_roots(&roots);
            u
        }
        1 => {
            // Explicit roots instead of declared ones.
            cfg.set_roots([]);
            let u = cfg.usefulness_with_roots(&roots);
            cfg.set_roots(&roots);
            u
        }
        _ => {
            let mut u = Usefulness::new(&cfg);
            for r in &roots {
                u.reachable([*r]);
            }
            u
        }
    };
    cx.op(1);
    let used = g.used();
    let prod = g.productive();
    let reach = g.reachable(&g.roots);
    let lhs = g.is_lhs();
    for s in 0..g.n {
        let want = prod[s] || !used[s];
        if u.productivity(syms[s]) != want {
            return bad(format!("productivity of symbol {} reported {} in {}", s, !want, g));
        }
    }
    let rule_ok = |r: &(usize, Vec<usize>)| (reach[r.0], r.1.iter().all(|&s| prod[s]));
    for (r, m) in cfg.rules().zip(&g.rules) {
        let (reachable, productive) = rule_ok(m);
        let x = u.usefulness(r);
        if x.rule() != r {
            return bad("usefulness reports another rule");
        }
        if x.usefulness().reachable != reachable || x.usefulness().productive != productive {
            return bad(format!(
                "rule {:?}: reported reachable={} productive={}, is {} {} in {}",
                m, x.usefulness().reachable, x.usefulness().productive, reachable, productive, g
            ));
        }
    }
    let want_all_prod = (0..g.n).all(|s| prod[s] || !used[s]);
    let want_all_reach = (0..g.n).all(|s| reach[s] || !used[s]);
    if u.all_productive() != want_all_prod || u.all_reachable() != want_all_reach || u.all_useful() != (want_all_prod && want_all_reach) {
        return bad(format!("all_productive/all_reachable/all_useful wrong in {}", g));
    }
    let useless: Vec<(usize, Vec<usize>)> = u
        .useless_rules(&cfg)
        .map(|x| (x.rule().lhs.usize(), x.rule().rhs.iter().map(|s| s.usize()).collect()))
        .collect();
    let want_useless: Vec<(usize, Vec<usize>)> = g.rules.iter().filter(|r| rule_ok(r) != (true, true)).cloned().collect();
    let (mut a, mut b) = (useless.clone(), want_useless.clone());
    a.sort();
    b.sort();
    if a != b {
        return bad(format!("useless rules {:?}, expected {:?} in {}", useless, want_useless, g));
    }
    // Removal with this analysis.
    let mut cfg2 = cfg.clone();
    u.remove_useless_rules(&mut cfg2);
    cx.op(1);
    let g2 = G::read(&cfg2);
    let (mut a, mut b) = (g2.rules.clone(), g.rules.iter().filter(|r| rule_ok(r) == (true, true)).cloned().collect::<Vec<_>>());
    a.sort();
    b.sort();
    if a != b {
        return bad(format!("remove_useless_rules left {} of {}", g2, g));
    }
    same_langs(&g, &g2, false, &g.roots)?;
    // make_proper
    let nothing = cfg.make_proper();
    cx.op(1);
    let g3 = G::read(&cfg);
    cx.state(&(&g.roots, &g, &g3));
    if nothing != want_useless.is_empty() {
        return bad(format!("make_proper returned {} with useless rules {:?} in {}", nothing, want_useless, g));
    }
    if nothing && g3.rules.len() != g.rules.len() {
        return bad(format!("make_proper returned true but removed rules of {}", g));
    }
    if g3.roots != g.roots {
        return bad("make_proper changed the roots");
    }
    let _ = lhs;
    // Rules left are productive and reachable (in the result), and none that is useful was removed.
    let prod3 = g3.productive();
    let reach3 = g3.reachable(&g3.roots);
    let t0 = g.terminals();
    let prod0 = &prod;
    for r in &g3.rules {
        if !reach3[r.0] || !r.1.iter().all(|&s| prod3[s] && (prod0[s] || t0[s])) {
            return bad(format!("make_proper left useless rule {:?}: {} -> {}", r, g, g3));
        }
    }
    // Useful rules: reachable through productive rules only.
    let mut gp = g.clone();
    gp.rules.retain(|r| r.1.iter().all(|&s| prod[s]));
    let reachp = gp.reachable(&g.roots);
    let mut want: Vec<_> = gp.rules.iter().filter(|r| reachp[r.0]).cloned().collect();
    let mut got = g3.rules.clone();
    want.sort();
    got.sort();
    if want != got {
        return bad(format!("make_proper of {} gave {}", g, g3));
    }
    same_langs(&g, &g3, false, &g.roots)?;
    let again = cfg.make_proper();
    cx.op(1);
    if !again || G::read(&cfg) != g3 {
        return bad(format!("make_proper is not idempotent on {}", g));
    }
    Ok(())
}
