//! C09: minimal distances.
use super::c05::reversed;
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_classify::CfgClassifyExt;
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        families: vec![
            fam("ordered", "all small grammars, every single marked position and every pair, all directions", ordered),
            fam("sets", "all rule sets of 3-4 rules, every single mark", sets),
            fam("all-marks", "all subsets of positions of grammars with 1-2 rules", all_marks),
            fam("again", "every two computations in a row (mark and direction each) with one analysis object, then none, on small and middle-sized grammars", again),
            fam("embedded", "other numberings", embedded),
            fam("shapes", "large parametric grammars with selected marks", shaped),
            fam("scaled", "grammars in which one quantity grows while all terminals stay distinct", scaled_up),
            fam("apart", "small grammars whose symbol numbers agree in their low 8 bits", apart_ones),
            fam("huge", "parametric grammars of both kinds with hundreds of symbols and rules", huge_ones),
            fam("realistic", "grammars of programming and data languages, with each one rule changed in each of several ways", realistic_ones),
            fam("lengths", "three nonterminals with up to two alternatives each of very different lengths, three orders", lengths),
            fam("far", "distances and sentence lengths beyond any small number, along one rule, a chain of rules or a growing sentence", far),
            fam("doubling", "sentence lengths around powers of two up to and beyond the range of distances", doubling),
            deep("deep", "larger rule sets", deep_sets),
        ],
        assumptions: vec!["an analysis object is used for up to four computations in a row"],
    }
}

type Dist = Vec<Vec<Option<u64>>>;

/// Shortest distances in the explicit graph of tree positions.
/// A path first moves ahead and may leave finished rules ("up" phase); once it
/// enters the rules of a symbol it has to find the mark inside ("down" phase).
pub fn forward(g: &G, marks: &[(usize, usize)]) -> Dist {
    let ml = g.min_len();
    // node ids
    let mut id: BTreeMap<(usize, usize, bool), usize> = BTreeMap::new();
    for (i, (_, r)) in g.rules.iter().enumerate() {
        for d in 0..=r.len() {
            for down in [false, true] {
                let k = id.len();
                id.insert((i, d, down), k);
            }
        }
    }
    let mut edges: Vec<(usize, usize, u64)> = vec![];
    for (i, (l, r)) in g.rules.iter().enumerate() {
        for d in 0..=r.len() {
            for down in [false, true] {
                let from = id[&(i, d, down)];
                if d < r.len() {
                    if let Some(m) = ml[r[d]] {
                        edges.push((from, id[&(i, d + 1, down)], m));
                    }
                    for (j, (l2, _)) in g.rules.iter().enumerate() {
                        if *l2 == r[d] {
                            edges.push((from, id[&(j, 0, true)], 0));
                        }
                    }
                } else if !down {
                    for (j, (_, r2)) in g.rules.iter().enumerate() {
                        for (e, &s) in r2.iter().enumerate() {
                            if s == *l {
                                edges.push((from, id[&(j, e + 1, false)], 0));
                            }
                        }
                    }
                }
            }
        }
    }
    let mut incoming: Vec<Vec<(usize, u64)>> = vec![vec![]; id.len()];
    for (a, b, w) in edges {
        incoming[b].push((a, w));
    }
    // Dijkstra from the marks, backwards.
    let mut dist: Vec<Option<u64>> = vec![None; id.len()];
    let mut heap = std::collections::BinaryHeap::new();
    for &(i, d) in marks {
        for down in [false, true] {
            heap.push((std::cmp::Reverse(0u64), id[&(i, d, down)]));
        }
    }
    while let Some((std::cmp::Reverse(w), x)) = heap.pop() {
        if dist[x].is_some() {
            continue;
        }
        dist[x] = Some(w);
        for &(y, v) in &incoming[x] {
            if dist[y].is_none() {
                heap.push((std::cmp::Reverse(w.saturating_add(v)), y));
            }
        }
    }
    g.rules.iter().enumerate().map(|(i, (_, r))| (0..=r.len()).map(|d| dist[id[&(i, d, false)]].map(|w| w.min(u32::MAX as u64))).collect()).collect()
}

fn expected(g: &G, marks: &[(usize, usize)]) -> [Dist; 3] {
    let f = forward(g, marks);
    let rg = reversed(g);
    let rmarks: Vec<(usize, usize)> = marks.iter().map(|&(i, d)| (i, g.rules[i].1.len() - d)).collect();
    let mut b = forward(&rg, &rmarks);
    for v in &mut b {
        v.reverse();
    }
    let s = f
        .iter()
        .zip(&b)
        .map(|(x, y)| {
            x.iter()
                .zip(y)
                .map(|(p, q)| match (p, q) {
                    (Some(p), Some(q)) => Some(*p.min(q)),
                    (p, q) => p.or(*q),
                })
                .collect()
        })
        .collect();
    [f, b, s]
}

fn check_marks(cx: &mut Cx, g: &G, marks: &[(usize, usize)]) -> Res {
    let (cfg, _) = g.build();
    let want = expected(g, marks);
    for (k, dir) in [DistanceDirection::Forward, DistanceDirection::Backward, DistanceDirection::Symmetric].into_iter().enumerate() {
        let mut md = MinimalDistance::new(&cfg);
        let got: Dist = guard(&format!("minimal_distances({:?}) on {}", marks, g), || {
            md.minimal_distances(marks, dir).iter().map(|v| v.iter().map(|x| x.map(|y| y as u64)).collect()).collect()
        })?;
        cx.op(1);
        if got != want[k] {
            return bad(format!("{} distances to {:?}: {:?}, expected {:?} in {}", ["forward", "backward", "symmetric"][k], marks, got, want[k], g));
        }
        let stored: Dist = md.distances().iter().map(|v| v.iter().map(|x| x.map(|y| y as u64)).collect()).collect();
        if stored != got {
            return bad("distances() differs from the result");
        }
        cx.state(&(g, marks, k, &got));
    }
    Ok(())
}

/// Several computations with one analysis object.
fn check_again(cx: &mut Cx, g: &G, queries: &[(Vec<(usize, usize)>, usize)], want: &[&[Dist; 3]]) -> Res {
    let (cfg, _) = g.build();
    let mut md = MinimalDistance::new(&cfg);
    let dirs = [DistanceDirection::Forward, DistanceDirection::Backward, DistanceDirection::Symmetric];
    for (i, (marks, k)) in queries.iter().enumerate() {
        let got: Dist = md.minimal_distances(marks, dirs[*k]).iter().map(|v| v.iter().map(|x| x.map(|y| y as u64)).collect()).collect();
        cx.op(1);
        if got != want[i][*k] {
            return bad(format!("computations (marks, direction) {:?}, the last of them: {:?}, expected {:?} in {}", &queries[..=i], got, want[i][*k], g));
        }
    }
    Ok(())
}

fn again(cx: &mut Cx) -> Res {
    let g = match cx.choose(5) {
        0 => Space::seq(2, 1, 1, 2, 2).choose(cx)?,
        1 => if cx.thorough { Space::set(2, 1, 3, 3, 2) } else { Space::set(2, 1, 2, 2, 2) }.choose(cx)?,
        2 => Space::set(3, 1, 3, 3, 1).choose(cx)?,
        3 => shapes(cx, &[2, 5]),
        _ => realistic(cx)?,
    };
    let mut ps = positions(&g);
    if ps.len() > 8 {
        ps = vec![ps[0], ps[1], ps[ps.len() / 2], ps[ps.len() - 1]];
    }
    if cx.want_note {
        cx.note = Some(format!("two computations in a row on {}", g));
    }
    let want: Vec<[Dist; 3]> = ps.iter().map(|&p| expected(&g, &[p])).collect();
    let none = expected(&g, &[]);
    for (a, &p) in ps.iter().enumerate() {
        for (b, &q) in ps.iter().enumerate() {
            for k in 0..9 {
                let queries = [(vec![p], k / 3), (vec![q], k % 3), (vec![], 2), (vec![p], k % 3)];
                check_again(cx, &g, &queries, &[&want[a], &want[b], &none, &want[a]])?;
            }
        }
    }
    cx.state(&(&g, &want));
    Ok(())
}

/// The recursion module reports the distances to the recursive positions.
fn check_recursion(cx: &mut Cx, g: &G) -> Res {
    let (cfg, _) = g.build();
    let mut marks = vec![];
    let mut rec = vec![];
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let mut any = false;
        for (d, &s) in r.iter().enumerate() {
            if g.reachable(&[s])[*l] {
                marks.push((i, d));
                any = true;
            }
        }
        if any {
            rec.push(i);
        }
    }
    let want = &expected(g, &marks)[2];
    let want: Vec<(usize, usize)> = rec
        .iter()
        .map(|&i| {
            let v = &want[i];
            let f = |x: Option<u64>| x.map(|y| y as usize).unwrap_or(u32::MAX as usize);
            (f(v[0]), f(v[v.len() - 1]))
        })
        .collect();
    let r = cfg.recursion();
    let got: Vec<(usize, usize)> = guard("Recursion::minimal_distances", || r.minimal_distances().map(|x| x.distances.unwrap_or((usize::MAX, usize::MAX))).collect())?;
    cx.op(1);
    if got != want {
        return bad(format!("recursion distances {:?}, expected {:?} in {}", got, want, g));
    }
    Ok(())
}

fn positions(g: &G) -> Vec<(usize, usize)> {
    g.rules.iter().enumerate().flat_map(|(i, (_, r))| (0..=r.len()).map(move |d| (i, d))).collect()
}

fn singles(cx: &mut Cx, g: &G, pairs: bool) -> Res {
    if cx.want_note {
        cx.note = Some(format!("every marked position of {}", g));
    }
    let ps = positions(g);
    for (a, &p) in ps.iter().enumerate() {
        check_marks(cx, g, &[p])?;
        if pairs {
            for &q in &ps[..a] {
                check_marks(cx, g, &[p, q])?;
            }
        }
    }
    check_marks(cx, g, &[])?;
    check_recursion(cx, g)
}

fn ordered(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::seq(2, 1, 1, 2, 3),
        1 => Space::seq(1, 2, 1, 2, 2),
        _ => Space::seq(2, 1, 3, 3, 1),
    };
    let g = sp.choose(cx)?;
    singles(cx, &g, true)
}
fn sets(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::set(2, 1, 3, 3, 2),
        1 => Space::set(3, 1, 4, 4, 1),
        _ => Space::set(3, 1, 3, 3, 2),
    };
    let g = sp.choose(cx)?;
    singles(cx, &g, false)
}
fn deep_sets(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::set(2, 1, 4, 4, 2),
        1 => Space::set(2, 2, 3, 3, 2),
        _ => Space::set(4, 1, 4, 4, 1),
    };
    let g = sp.choose(cx)?;
    singles(cx, &g, false)
}
fn all_marks(cx: &mut Cx) -> Res {
    let sp = if cx.thorough { Space::set(2, 1, 2, 3, 2) } else { Space::set(2, 1, 2, 2, 2) };
    let g = sp.choose(cx)?;
    let ps = positions(&g);
    let mut marks = vec![];
    for &p in ps.iter().rev() {
        if cx.flag() {
            marks.push(p);
        }
    }
    if cx.want_note {
        cx.note = Some(format!("marks {:?} of {}", marks, g));
    }
    check_marks(cx, &g, &marks)
}
fn embedded(cx: &mut Cx) -> Res {
    let g = Space::set(2, 1, 2, 2, 2).choose(cx)?;
    let g = choose_embedding(cx, &g);
    singles(cx, &g, false)
}
fn scaled_up(cx: &mut Cx) -> Res {
    let g = scaled(cx, if cx.thorough { &[2, 3, 4, 5, 6, 7, 9, 12, 17, 34] } else { &[3, 5, 7, 10, 18] });
    marked(cx, g)
}
fn shaped(cx: &mut Cx) -> Res {
    let g = shapes(cx, if cx.thorough { &[1, 2, 3, 5, 8, 9, 17, 33, 65] } else { &[1, 2, 3, 5, 9, 17] });
    marked(cx, g)
}
fn apart_ones(cx: &mut Cx) -> Res {
    let g = apart(cx, false)?;
    let ps = positions(&g);
    if ps.is_empty() {
        return cx.skip();
    }
    marked(cx, g)
}

fn huge_ones(cx: &mut Cx) -> Res {
    let g = huge(cx);
    marked(cx, g)
}

fn realistic_ones(cx: &mut Cx) -> Res {
    let g = realistic(cx)?;
    marked(cx, g)
}
fn marked(cx: &mut Cx, g: G) -> Res {
    let ps = positions(&g);
    let k = cx.choose(8);
    let p = ps[(ps.len() - 1) * k / 7];
    if cx.want_note {
        cx.note = Some(format!("mark {:?} of {}", p, g));
    }
    check_marks(cx, &g, &[p])?;
    if k == 0 {
        check_recursion(cx, &g)?;
    }
    Ok(())
}

/// Lengths that are first found by a long alternative and improved later.
fn lengths(cx: &mut Cx) -> Res {
    let x = 3;
    let mut rules = vec![];
    for s in 0..3 {
        let (b, c) = ((s + 1) % 3, (s + 2) % 3);
        let menu = [vec![x], vec![x; 4], vec![b], vec![b, b], vec![c, c], vec![c, x, x], vec![x, b, x, c]];
        let i = cx.choose(menu.len());
        rules.push((s, menu[i].clone()));
        let j = cx.choose(menu.len());
        if j != i {
            rules.push((s, menu[j].clone()));
        }
    }
    let g = {
        let mut r = rules.clone();
        match cx.choose(3) {
            0 => {}
            1 => r.reverse(),
            _ => r.rotate_left(rules.len() / 2),
        }
        G { n: 4, rules: r, roots: vec![0], ..G::default() }
    };
    if cx.want_note {
        cx.note = Some(format!("end of the first rule of {}", g));
    }
    check_marks(cx, &g, &[(0, g.rules[0].1.len())])
}

/// Long rules and chains.
/// Lengths that multiply with every level, with a shorter way at one level.
fn doubling(cx: &mut Cx) -> Res {
    let m = cx.range(6, cx.tier(36, 66));
    let x = m + 1;
    let kind = cx.choose(4);
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..m {
        rules.push((
            i,
            match kind {
                0 => vec![i + 1, i + 1],
                1 => vec![i + 1, x, i + 1],
                2 if i % 3 == 0 => vec![i + 1; 3],
                2 => vec![i + 1, i + 1],
                _ if i == 0 => vec![1, x, 1],
                _ => vec![i + 1, i + 1],
            },
        ));
    }
    rules.push((m, vec![x]));
    match cx.choose(4) {
        0 => {}
        1 => rules.push((m / 2, vec![m; 3])),
        2 => rules.push((2, vec![])),
        _ => rules.push((m, vec![x, 0])),
    }
    if cx.flag() {
        rules.reverse();
    }
    let g = G { n: m + 2, rules, roots: vec![0], ..G::default() };
    let ps = positions(&g);
    let p = cx.pick(&[ps[0], ps[1], ps[2], ps[ps.len() / 2], ps[ps.len() - 3], ps[ps.len() - 1]]);
    if cx.want_note {
        cx.note = Some(format!("mark {:?} in {}", p, g));
    }
    check_marks(cx, &g, &[p])?;
    check_recursion(cx, &g)
}

fn far(cx: &mut Cx) -> Res {
    let m = cx.pick(&[100usize, 127, 130, 254, 255, 256, 257, 300, 600]);
    let x = m + 3;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    match cx.choose(4) {
        0 => {
            rules.push((0, vec![x; m]));
            rules.push((1, vec![0, x, 0]));
        }
        1 => {
            // Each symbol is one longer than the one before.
            for i in 0..m {
                rules.push((i, vec![x, i + 1]));
            }
            rules.push((m, vec![]));
        }
        2 => {
            for i in 0..m {
                rules.push((i, vec![i + 1, x]));
            }
            rules.push((m, vec![x, 0]));
            rules.push((m, vec![x]));
        }
        _ => {
            rules.push((0, vec![1; m]));
            rules.push((1, vec![2, 2, 2]));
            rules.push((2, vec![x; 70]));
            rules.push((2, vec![x, 0, x]));
        }
    }
    if cx.flag() {
        rules.reverse();
    }
    let g = G { n: m + 4, rules, roots: vec![0], ..G::default() };
    let ps = positions(&g);
    let p = cx.pick(&[ps[0], ps[1], ps[ps.len() / 2], ps[ps.len() - 2], ps[ps.len() - 1]]);
    if cx.want_note {
        cx.note = Some(format!("mark {:?} with {} symbols", p, m));
    }
    check_marks(cx, &g, &[p])
}
