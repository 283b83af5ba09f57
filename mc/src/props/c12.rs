//! C12: renumbering symbols.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::earley::History;
use cfg_symbol::intern::Mapping;
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::remap_symbols::Remap;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use std::cmp::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        families: vec![
            fam("sequences", "every sequence of up to 3 reorder / remove-unused / remap operations on every grammar of the small space", sequences),
            fam("longer", "sequences of up to 4 operations on selected grammars with wrapped roots", longer),
            fam("grammars", "one or two operations on every grammar of the larger spaces", grammars),
            fam("shapes", "large parametric grammars in several numberings", shaped),
            fam("many-roots", "up to 9 start symbols (also wrapped), with and without rules, in several orders", many_roots),
            fam("apart", "small grammars whose symbol numbers agree in their low 8 bits", apart_ones),
            fam("wide", "tens of thousands of symbols, more than 16 bits can number, reordered and most of them removed", wide),
            fam("huge", "parametric grammars of both kinds with hundreds of symbols and rules", huge_ones),
            fam("realistic", "grammars of programming and data languages, with each one rule changed in each of several ways", realistic_ones),
            fam("mapping", "composition of all small mappings", mappings),
        ],
        assumptions: vec!["explicitly given symbol maps are permutations"],
    }
}

/// Everything observable of a grammar that symbols take part in.
#[derive(Clone, Debug, PartialEq)]
struct View {
    n: usize,
    rules: Vec<(usize, Vec<usize>, String)>,
    roots: Vec<usize>,
    wrapped: Vec<[usize; 4]>,
    names: Vec<Option<String>>,
}

/// A short text that differs for different histories.
fn hist(h: &History) -> String {
    let full = format!("{:?}", h);
    let mut x = 0xcbf29ce484222325u64;
    for b in full.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("h{}#{:x}", h.origin().id, x >> 48)
}

fn view(cfg: &Cfg) -> View {
    let n = cfg.num_syms();
    let mut names: Vec<Option<String>> = cfg.sym_source().names().iter().map(|x| x.as_ref().map(|s| s.to_string())).collect();
    // Trailing unnamed entries say nothing.
    names.resize(names.len().max(n), None);
    View {
        n,
        rules: cfg.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect(), hist(&r.history))).collect(),
        roots: cfg.roots().iter().map(|s| s.usize()).collect(),
        wrapped: cfg.wrapped_roots().iter().map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()]).collect(),
        names,
    }
}

impl View {
    /// The renaming of this grammar; `map[s] = None` for removed symbols.
    fn renamed(&self, map: &[Option<usize>], n: usize) -> View {
        let m = |s: usize| map[s].expect("removed symbol in use");
        let mut names = vec![None; n];
        for (s, x) in self.names.iter().enumerate() {
            if let Some(t) = map[s] {
                names[t] = x.clone();
            }
        }
        View {
            n,
            rules: self.rules.iter().map(|(l, r, h)| (m(*l), r.iter().map(|&s| m(s)).collect(), h.clone())).collect(),
            roots: self.roots.iter().map(|&s| m(s)).collect(),
            wrapped: self.wrapped.iter().map(|w| w.map(m)).collect(),
            names,
        }
    }
    fn sorted(mut self) -> View {
        self.rules.sort();
        self
    }
    fn kept(&self) -> Vec<bool> {
        let mut k = vec![false; self.n];
        for (l, r, _) in &self.rules {
            k[*l] = true;
            for &s in r {
                k[s] = true;
            }
        }
        for &s in &self.roots {
            k[s] = true;
        }
        for w in &self.wrapped {
            for &s in w {
                k[s] = true;
            }
        }
        k
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// Sort by these keys (indexed by current symbol, modulo length).
    Keys(Vec<usize>),
    RemoveUnused,
    /// Explicit permutation through `remap_symbols`.
    Direct(usize),
    /// Take the mapping and start again.
    Restart,
}

fn keys_for(kind: usize, n: usize) -> Vec<usize> {
    match kind {
        0 => (0..n).map(|i| n - i).collect(),
        1 => (0..n).map(|i| (i + 1) % n.max(1)).collect(),
        2 => (0..n).map(|i| i % 2).collect(),
        3 => (0..n).map(|i| (i * 7 + 3) % (n + 1)).collect(),
        4 => vec![0; n],
        _ => (0..n).map(|i| if i == 0 { 1 } else if i == 1 { 0 } else { i }).collect(),
    }
}

fn check_mapping(what: &str, map: &Mapping, ext: &[usize], orig_n: usize, now: &View) -> Res {
    let to_ext: Vec<usize> = map.to_external.iter().map(|s| s.usize()).collect();
    if to_ext != ext {
        return bad(format!("{}: to_external is {:?}, expected {:?}", what, to_ext, ext));
    }
    let mut want = vec![None; orig_n];
    for (i, &e) in ext.iter().enumerate() {
        want[e] = Some(i);
    }
    let got: Vec<Option<usize>> = map.to_internal.iter().map(|s| s.map(|x| x.usize())).collect();
    if got != want {
        return bad(format!("{}: to_internal is {:?}, expected {:?} in {:?}", what, got, want, now));
    }
    Ok(())
}

fn by_key(k: Vec<usize>) -> impl Fn(Symbol, Symbol) -> Ordering {
    move |a, b| k[a.usize() % k.len()].cmp(&k[b.usize() % k.len()])
}

fn direct(k: usize, n: usize) -> impl FnMut(Symbol) -> Symbol {
    let syms: Vec<Symbol> = cfg_symbol::SymbolSource::generate_fresh().take(n).collect();
    move |s| syms[if k == 0 { n - 1 - s.usize() } else { (s.usize() + 1) % n }]
}

/// The order symbols with equal keys were put in, which is free.
fn tied(what: &str, cfg: &mut Cfg, k: &[usize], stable: Vec<usize>) -> Result<Vec<usize>, Fail> {
    let m = guard(what, || {
        let mut r = Remap::new(cfg);
        r.reorder_symbols(by_key(k.to_vec()));
        r.get_mapping()
    })?;
    let order: Vec<usize> = m.to_external.iter().map(|s| s.usize()).collect();
    let mut sorted = order.clone();
    sorted.sort();
    if sorted != (0..stable.len()).collect::<Vec<_>>() || (0..stable.len()).any(|i| k[order[i] % k.len()] != k[stable[i] % k.len()]) {
        return bad(format!("{}: {:?} sorted by {:?} gave the order {:?}", what, (0..stable.len()), k, order));
    }
    Ok(order)
}

fn run(cx: &mut Cx, cfg: &mut Cfg, ops: &[Op]) -> Res {
    let what = format!("{:?} on {:?}", ops, view(cfg));
    let mut orig_n = cfg.num_syms();
    // ext[current symbol] = symbol at the beginning of this session
    let mut ext: Vec<usize> = (0..orig_n).collect();
    let mut cur = view(cfg);
    let mut i = 0;
    while i < ops.len() || i == 0 {
        // One session until a restart.
        let mut tracked = true;
        let mut session: Vec<(Op, View)> = vec![];
        let first = cur.clone();
        {
            let mut j = i;
            while j < ops.len() && !matches!(ops[j], Op::Restart) {
                session.push((ops[j].clone(), View { n: 0, rules: vec![], roots: vec![], wrapped: vec![], names: vec![] }));
                j += 1;
            }
            i = j + 1;
        }
        // Expected views, step by step.
        let mut exp = cur.clone();
        let mut probe = cfg.clone();
        for (op, v) in &mut session {
            let n = exp.n;
            match op {
                Op::Keys(k) => {
                    // The order among equal keys is free: it is taken from the implementation.
                    let mut order: Vec<usize> = (0..n).collect();
                    order.sort_by_key(|&s| k[s % k.len()]);
                    if (1..n).any(|i| k[order[i] % k.len()] == k[order[i - 1] % k.len()]) {
                        order = tied(&what, &mut probe, k, order)?;
                    } else {
                        guard(&what, || Remap::new(&mut probe).reorder_symbols(by_key(k.clone())))?;
                    }
                    let mut map = vec![None; n];
                    for (new, &old) in order.iter().enumerate() {
                        map[old] = Some(new);
                    }
                    exp = exp.renamed(&map, n);
                    ext = order.iter().map(|&o| ext[o]).collect();
                }
                Op::RemoveUnused => {
                    let kept = exp.kept();
                    let order: Vec<usize> = (0..n).filter(|&s| kept[s]).collect();
                    guard(&what, || Remap::new(&mut probe).remove_unused_symbols())?;
                    let mut map = vec![None; n];
                    for (new, &old) in order.iter().enumerate() {
                        map[old] = Some(new);
                    }
                    exp = exp.renamed(&map, order.len());
                    ext = order.iter().map(|&o| ext[o]).collect();
                }
                Op::Direct(k) => {
                    let map: Vec<Option<usize>> = (0..n).map(|s| Some(if *k == 0 { n - 1 - s } else { (s + 1) % n })).collect();
                    exp = exp.renamed(&map, n);
                    tracked = false;
                    guard(&what, || Remap::new(&mut probe).remap_symbols(direct(*k, n)))?;
                }
                Op::Restart => unreachable!(),
            }
            *v = exp.clone();
        }
        // The implementation.
        let mapping = guard(&what, || {
            let mut r = Remap::new(cfg);
            for (op, before) in session.iter().map(|x| &x.0).zip(std::iter::once(&first).chain(session.iter().map(|x| &x.1))) {
                match op {
                    Op::Keys(k) => r.reorder_symbols(by_key(k.clone())),
                    Op::RemoveUnused => r.remove_unused_symbols(),
                    Op::Direct(k) => r.remap_symbols(direct(*k, before.n)),
                    Op::Restart => unreachable!(),
                }
            }
            r.get_mapping()
        })?;
        cx.op(session.len() as u64 + 1);
        let got = view(cfg);
        if got.clone().sorted() != exp.clone().sorted() {
            return bad(format!("{}: got {:?}, expected {:?}", what, got, exp));
        }
        // Nothing else is handed out afterwards.
        let next = cfg.clone().next_sym(None);
        if next.usize() != exp.n {
            return bad(format!("{}: the next symbol is {} instead of {}", what, next.usize(), exp.n));
        }
        // Symbols handed out later get their own names.
        let mut more = cfg.clone();
        let later = guard(&what, || (more.next_sym(None), more.next_sym(Some("later".into())), more.next_sym(None), more.next_sym(Some("last".into()))))?;
        let mut want = got.names.clone();
        want.extend([None, Some("later".to_string()), None, Some("last".to_string())]);
        let mut have = view(&more).names;
        have.truncate(want.len().max(more.num_syms()));
        if have != want || [later.0, later.1, later.2, later.3].iter().enumerate().any(|(i, s)| s.usize() != exp.n + i) {
            return bad(format!("{}: after adding symbols the names are {:?}, expected {:?}", what, have, want));
        }
        if tracked {
            check_mapping(&what, &mapping, &ext, orig_n, &got)?;
        }
        // Names by symbol agree with the name map.
        let names = cfg.sym_source().name_map();
        for (s, x) in got.names.iter().enumerate() {
            if let Some(x) = x {
                let back = names.iter().find(|(k, _)| ***k == **x).map(|(_, v)| v.usize());
                // Names may be shared; the map then gives one of the symbols.
                if back.is_none_or(|b| got.names[b].as_ref() != Some(x)) {
                    return bad(format!("{}: name {} maps to {:?}, expected {}", what, x, back, s));
                }
            }
        }
        cx.state(&format!("{:?}", got));
        cur = got;
        orig_n = cur.n;
        ext = (0..orig_n).collect();
    }
    Ok(())
}

/// Builds with distinct names (some unnamed) and distinct histories.
fn build(g: &G, named: usize, wrap: usize, limit: Option<usize>) -> Cfg {
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..g.n)
        .map(|i| {
            let name = match named {
                0 => None,
                1 => Some(format!("s{}", i)),
                _ if i % 2 == 1 => Some(format!("s{}", i)),
                _ => None,
            };
            cfg.next_sym(name.map(|n| n.into()))
        })
        .collect();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        // With names, repeated rules are the same in every respect.
        let of = if named == 1 { g.rules.iter().position(|q| q == &g.rules[i]).unwrap() } else { i };
        cfg.add_rule(CfgRule { lhs: syms[*l], rhs: r.iter().map(|&s| syms[s]).collect(), history: History::new(of as u32) });
    }
    let roots: Vec<Symbol> = g.roots.iter().map(|&s| syms[s]).collect();
    cfg.set_roots(&roots);
    if limit.is_some() {
        cfg.limit_rhs_len(limit);
    }
    for _ in 0..wrap {
        cfg.wrap_input();
    }
    cfg
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn choose_op(cx: &mut Cx, n: usize, all: bool) -> Op {
    if all {
        let ps = perms(n);
        let k = cx.choose(ps.len() + 6);
        if k < ps.len() {
            return Op::Keys(ps[k].clone());
        }
        match k - ps.len() {
            0 => Op::RemoveUnused,
            1 => Op::Direct(0),
            2 => Op::Direct(1),
            3 => Op::Restart,
            4 => Op::Keys(keys_for(2, n)),
            _ => Op::Keys(keys_for(4, n)),
        }
    } else {
        match cx.choose(9) {
            0 => Op::RemoveUnused,
            1 => Op::Direct(0),
            2 => Op::Restart,
            k => Op::Keys(keys_for(k - 3, n)),
        }
    }
}

fn sequences(cx: &mut Cx) -> Res {
    let sp = Space::set(2, 2, 1, 2, if cx.thorough { 2 } else { 1 });
    let mut g = sp.choose(cx)?;
    vary_roots(cx, &mut g, true);
    let wrap = cx.choose(2);
    let named = cx.choose(3);
    let count = cx.range(1, cx.tier(2, 3));
    let n = g.n + 3 * g.roots.len() * wrap;
    let ops: Vec<Op> = (0..count).map(|_| choose_op(cx, n, n <= 4 && count <= 2)).collect();
    if cx.want_note {
        cx.note = Some(format!("{:?} on {} wrap {} named {}", ops, g, wrap, named));
    }
    let mut cfg = build(&g, named, wrap, None);
    run(cx, &mut cfg, &ops)
}

fn longer(cx: &mut Cx) -> Res {
    let rules: Vec<(usize, Vec<usize>)> = match cx.choose(4) {
        0 => vec![(1, vec![3, 1]), (1, vec![])],
        1 => vec![(4, vec![2, 2, 0]), (2, vec![4])],
        2 => vec![(0, vec![1]), (1, vec![2]), (2, vec![0]), (2, vec![4])],
        _ => vec![(3, vec![0, 4, 0, 4])],
    };
    let roots = cx.pick(&[vec![], vec![1], vec![4, 0], vec![2]]);
    let g = G { n: 5, rules, roots, ..G::default() };
    let wrap = cx.choose(3);
    let limit = cx.pick(&[None, Some(2)]);
    let count = cx.range(3, cx.tier(3, 4));
    let n = g.n + 3 * g.roots.len() * wrap;
    let ops: Vec<Op> = (0..count).map(|_| choose_op(cx, n, false)).collect();
    if cx.want_note {
        cx.note = Some(format!("{:?} on {} wrap {}", ops, g, wrap));
    }
    let mut cfg = build(&g, 1, wrap, limit);
    run(cx, &mut cfg, &ops)
}

fn grammars(cx: &mut Cx) -> Res {
    let which = cx.choose(3);
    let sp = match which {
        0 => Space::seq(2, 2, 0, 2, 2),
        1 => Space::set(3, 2, 2, 2, 2),
        _ => Space::set(3, 1, 3, 3, 1),
    };
    let mut g = sp.choose(cx)?;
    if g.rules.len() < 3 {
        vary_roots(cx, &mut g, true);
    }
    let n = g.n;
    let first = choose_op(cx, n, false);
    let ops = if cx.flag() { vec![first, Op::RemoveUnused] } else { vec![first] };
    if cx.want_note {
        cx.note = Some(format!("{:?} on {}", ops, g));
    }
    // Ordered lists hold repeated rules, with the same history too.
    let mut cfg = build(&g, if which == 0 { 1 } else { 2 }, 0, None);
    run(cx, &mut cfg, &ops)
}

fn shaped(cx: &mut Cx) -> Res {
    let mut g = if cx.flag() {
        let mut g = scaled(cx, if cx.thorough { SCALES } else { &[3, 10] });
        vary_roots(cx, &mut g, false);
        g
    } else {
        shapes(cx, if cx.thorough { SIZES } else { SIZES_SMALL })
    };
    g.n += cx.pick(&[0, 1, 40]);
    let wrap = cx.choose(2);
    let n = g.n + 3 * wrap;
    let ops = match cx.choose(4) {
        0 => vec![Op::RemoveUnused],
        1 => vec![Op::Keys(keys_for(0, n)), Op::RemoveUnused],
        2 => vec![Op::Keys(keys_for(3, n)), Op::Restart, Op::RemoveUnused, Op::Keys(keys_for(1, n))],
        _ => vec![Op::RemoveUnused, Op::Keys(keys_for(2, n))],
    };
    if cx.want_note {
        cx.note = Some(format!("{} wrap {}", g, wrap));
    }
    let mut cfg = build(&g, 1, wrap, None);
    // Also through the extension trait.
    let _ = cfg.remap().get_mapping();
    run(cx, &mut cfg, &ops)
}

fn apart_ones(cx: &mut Cx) -> Res {
    let mut g = apart(cx, false)?;
    let wrap = cx.choose(2);
    let step = cx.pick(&[0usize, 1]);
    g.n += step;
    let n = g.n + 3 * wrap;
    let ops = match cx.choose(3) {
        0 => vec![Op::RemoveUnused],
        1 => vec![Op::Keys(keys_for(0, n))],
        _ => vec![Op::Keys(keys_for(3, n)), Op::Restart, Op::RemoveUnused],
    };
    let mut cfg = build(&g, cx.choose(2), wrap, None);
    run(cx, &mut cfg, &ops)
}

/// More symbols than 16 bits can number: reversed, rotated, most of them removed.
fn wide(cx: &mut Cx) -> Res {
    let n = cx.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_074]);
    let used = cx.pick(&[1usize, 2, 3, 7, 1000]);
    let first = cx.choose(3);
    let last = cx.flag();
    let what = format!("{} symbols, every {}th used, operation {}, then another {}", n, used, first, last);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..n).map(|i| cfg.next_sym((i % 5 == 0).then(|| format!("s{}", i).into()))).collect();
    // Model: the original symbol of each current one.
    let mut rules: Vec<(usize, [usize; 2])> = vec![];
    let pick = |i: usize| i * used % n;
    for i in 0..n / used - 1 {
        let r = (pick(i), [pick(i + 1), pick(i * 3 + 1) / used * used % n]);
        cfg.rule(syms[r.0]).history(cfg_history::RootHistoryNode::Origin { origin: i }.into()).rhs([syms[r.1[0]], syms[r.1[1]]]);
        rules.push(r);
    }
    let roots = [pick(n / used - 1), pick(1)];
    cfg.set_roots([syms[roots[0]], syms[roots[1]]]);
    let mut keep = vec![false; n];
    for (l, r) in &rules {
        for s in [*l, r[0], r[1]] {
            keep[s] = true;
        }
    }
    roots.iter().for_each(|&s| keep[s] = true);
    let mut ext: Vec<usize> = (0..n).collect();
    let mapping = guard(&what, || {
        let mut r = Remap::new(&mut cfg);
        match first {
            0 => {}
            1 => r.reorder_symbols(|a, b| b.cmp(&a)),
            _ => r.reorder_symbols(|a, b| ((a.usize() + 1) % n).cmp(&((b.usize() + 1) % n))),
        }
        r.remove_unused_symbols();
        if last {
            r.reorder_symbols(|a, b| (a.usize() % 2, a).cmp(&(b.usize() % 2, b)));
        }
        r.get_mapping()
    })?;
    cx.op(4);
    cx.state(&(n, used, first));
    match first {
        0 => {}
        1 => ext.reverse(),
        _ => ext.rotate_right(1),
    }
    ext.retain(|&s| keep[s]);
    if last {
        ext = ext.iter().step_by(2).chain(ext.iter().skip(1).step_by(2)).copied().collect();
    }
    let mut int = vec![None; n];
    ext.iter().enumerate().for_each(|(i, &e)| int[e] = Some(i));
    let got_ext: Vec<usize> = mapping.to_external.iter().map(|s| s.usize()).collect();
    let got_int: Vec<Option<usize>> = mapping.to_internal.iter().map(|s| s.map(|x| x.usize())).collect();
    if let Some(i) = (0..ext.len().max(got_ext.len())).find(|&i| ext.get(i) != got_ext.get(i)) {
        return bad(format!("{}: to_external has {:?} for {} instead of {:?}", what, got_ext.get(i), i, ext.get(i)));
    }
    if let Some(i) = (0..n.max(got_int.len())).find(|&i| int.get(i) != got_int.get(i)) {
        return bad(format!("{}: to_internal has {:?} for {} instead of {:?}", what, got_int.get(i), i, int.get(i)));
    }
    let of = |s: usize| int[s].unwrap();
    let mut want: Vec<(usize, (usize, Vec<usize>))> = rules.iter().map(|(l, r)| (of(*l), vec![of(r[0]), of(r[1])])).enumerate().collect();
    let mut got: Vec<(usize, (usize, Vec<usize>))> = cfg.rules().map(|r| (r.history.origin.id as usize, (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect()))).collect();
    want.sort();
    got.sort();
    if let Some(i) = (0..want.len().max(got.len())).find(|&i| want.get(i) != got.get(i)) {
        return bad(format!("{}: rule {} is {:?} instead of {:?}", what, i, got.get(i), want.get(i)));
    }
    if cfg.roots().iter().map(|s| s.usize()).collect::<Vec<_>>() != [of(roots[0]), of(roots[1])] {
        return bad(format!("{}: roots are {:?}", what, cfg.roots()));
    }
    if cfg.num_syms() != ext.len() {
        return bad(format!("{}: {} symbols are left instead of {}", what, cfg.num_syms(), ext.len()));
    }
    let names = cfg.sym_source().names();
    for (i, &e) in ext.iter().enumerate() {
        let want = (e % 5 == 0).then(|| format!("s{}", e));
        let got = names.get(i).and_then(|x| x.as_ref().map(|s| s.to_string()));
        if got != want {
            return bad(format!("{}: the name of {} is {:?} instead of {:?}", what, i, got, want));
        }
    }
    Ok(())
}

fn huge_ones(cx: &mut Cx) -> Res {
    let mut g = huge(cx);
    g.n += cx.pick(&[0, 1]);
    let n = g.n + 3;
    let ops = match cx.choose(2) {
        0 => vec![Op::Keys(keys_for(0, n)), Op::RemoveUnused],
        _ => vec![Op::Keys(keys_for(3, n)), Op::Restart, Op::RemoveUnused, Op::Keys(keys_for(1, n))],
    };
    let mut cfg = build(&g, 1, 1, None);
    run(cx, &mut cfg, &ops)
}

fn realistic_ones(cx: &mut Cx) -> Res {
    let mut g = realistic(cx)?;
    let big = g.rules.len() > 100;
    if !big {
        vary_roots(cx, &mut g, false);
    }
    g.n += 2;
    let wrap = if big { 1 } else { cx.choose(2) };
    let n = g.n + 3 * wrap * g.roots.len();
    let ops = match cx.choose(3) {
        0 => vec![Op::RemoveUnused],
        1 => vec![Op::Keys(keys_for(0, n)), Op::RemoveUnused],
        _ => vec![Op::Keys(keys_for(3, n)), Op::Restart, Op::RemoveUnused, Op::Keys(keys_for(1, n))],
    };
    if cx.want_note {
        cx.note = Some(format!("{} wrap {}", g, wrap));
    }
    let mut cfg = build(&g, 1, wrap, None);
    run(cx, &mut cfg, &ops)
}

/// Many start symbols; most of them in no rule.
fn many_roots(cx: &mut Cx) -> Res {
    let m = cx.range(2, cx.tier(7, 9));
    let with_rules = cx.choose(4);
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..m {
        match with_rules {
            1 if i == 0 => rules.push((i, vec![m])),
            2 if i + 1 == m => rules.push((i, vec![m + 2, i])),
            3 if i % 2 == 0 => rules.push((i, vec![(i + 1) % m])),
            _ => {}
        }
    }
    let mut roots: Vec<usize> = (0..m).collect();
    match cx.choose(4) {
        0 => {}
        1 => roots.reverse(),
        2 => roots.rotate_left(m / 2),
        _ => drop(roots.remove(m / 2 - 1)),
    }
    let g = G { n: m + 4, rules, roots, ..G::default() };
    let wrap = cx.choose(3);
    let n = g.n + 3 * g.roots.len() * wrap;
    let count = cx.range(1, 2);
    let mut ops: Vec<Op> = (0..count).map(|_| choose_op(cx, n, false)).collect();
    if cx.flag() {
        ops.push(Op::RemoveUnused);
    }
    if cx.want_note {
        cx.note = Some(format!("{:?} on {} wrap {}", ops, g, wrap));
    }
    let mut cfg = build(&g, 2, wrap, None);
    if wrap > 0 {
        // The rules that wrapped the input are taken away; the roots are exchanged.
        let how = cx.choose(4);
        if how > 0 {
            cfg.retain(|r| r.rhs.len() < 3);
        }
        if how == 2 {
            cfg.set_roots([]);
        } else if how == 3 {
            let inner: Vec<Symbol> = cfg.wrapped_roots().iter().map(|w| w.inner_root).collect();
            cfg.set_roots(&inner[1..]);
        }
    }
    run(cx, &mut cfg, &ops)
}

/// Mapping::translate composes.
fn mappings(cx: &mut Cx) -> Res {
    let n = cx.range(1, cx.tier(3, 4));
    let syms: Vec<Symbol> = cfg_symbol::SymbolSource::generate_fresh().take(n).collect();
    // An injective partial map from n symbols onto 0..k.
    let make = |cx: &mut Cx, n: usize| -> Vec<usize> {
        let ps = perms(n);
        let p = cx.pick(&ps);
        let k = cx.range(0, n);
        p[..k].to_vec()
    };
    let a = make(cx, n);
    let b = make(cx, a.len());
    let to_map = |v: &[usize], n: usize| -> Mapping {
        let mut m = Mapping::new(n);
        for (i, &e) in v.iter().enumerate() {
            m.to_internal[e] = Some(syms[i]);
            m.to_external.push(syms[e]);
        }
        m
    };
    if cx.want_note {
        cx.note = Some(format!("{:?} then {:?}", a, b));
    }
    let mut m = to_map(&a, n);
    let o = to_map(&b, a.len());
    guard(&format!("translate {:?} {:?}", a, b), || m.translate(&o))?;
    cx.op(1);
    let want: Vec<usize> = b.iter().map(|&i| a[i]).collect();
    let w = to_map(&want, n);
    cx.state(&(&a, &b, n));
    if m.to_internal != w.to_internal || m.to_external != w.to_external {
        return bad(format!("translate of {:?} by {:?} gave {:?}", a, b, m));
    }
    Ok(())
}
