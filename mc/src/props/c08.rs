//! C08: derivation relations and recursion kinds.
use super::Prop;
use crate::engine::*;
use crate::oracle::*;
use cfg_classify::CfgClassifyExt;
use bit_matrix::BitMatrix;
use cfg_symbol::{Symbol, SymbolSource};
use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, SymbolBitMatrix};

crate::grammar_families!(check, false);

pub fn prop() -> Prop {
    let mut families = grammar_fams();
    families.push(fam("edges", "single edges and two-edge paths between any two of many symbols", edges));
    families.push(fam("conversions", "all relations over up to three symbols taken out of and put back into the matrix types", conversions));
    Prop { id: "C08", families, assumptions: vec!["up to 261 symbols"] }
}

type Rel = Vec<Vec<bool>>;

fn closure(mut d: Rel) -> Rel {
    let n = d.len();
    for k in 0..n {
        for i in 0..n {
            if d[i][k] {
                for j in 0..n {
                    if d[k][j] {
                        d[i][j] = true;
                    }
                }
            }
        }
    }
    d
}

/// Grammars with one or two edges in a large symbol space.
fn edges(cx: &mut Cx) -> Res {
    let n = cx.pick(if cx.thorough { &[31usize, 32, 33, 64, 65, 128, 129, 261][..] } else { &[32usize, 33, 65, 129, 261][..] });
    let pts: Vec<usize> = [0usize, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 126, 127, 128, 255, 256, 260].iter().copied().filter(|&p| p < n).collect();
    let a = cx.pick(&pts);
    let b = cx.pick(&pts);
    let c = cx.pick(&pts);
    let unit = cx.flag();
    let mut rules = vec![(a, vec![b])];
    if unit {
        rules.push((b, vec![c]));
    } else {
        rules.push((b, vec![0, c, n - 1]));
    }
    let g = G { n, rules, roots: vec![a], ..G::default() };
    check(cx, g)
}

/// Matrices handed over between the wrapper types and plain bit matrices.
fn conversions(cx: &mut Cx) -> Res {
    let rows = cx.pick(&[1usize, 2, 3, 31, 33, 64, 65, 0]);
    let cols = cx.pick(&[1usize, 2, 3, 31, 33, 64, 65, 0]);
    if rows + cols == 0 || BitMatrix::new(rows, cols).size() != (rows, cols) {
        return cx.skip();
    }
    let mut plain = BitMatrix::new(rows, cols);
    let mut want = vec![];
    let (top_r, top_c) = (rows.min(3), cols.min(3));
    for r in 0..top_r {
        for c in 0..top_c {
            // The corner that the choices decide lies at the far end.
            if cx.flag() {
                plain.set(rows - 1 - r, cols - 1 - c, true);
                want.push((rows - 1 - r, cols - 1 - c));
            }
        }
    }
    cx.state(&(rows, cols, &want));
    if cx.want_note {
        cx.note = Some(format!("{}x{} {:?}", rows, cols, want));
    }
    cx.op(1);
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(rows.max(cols)).collect();
    let m = match SymbolBitMatrix::try_from(plain) {
        Ok(m) if rows == cols => m,
        Err(()) if rows != cols => return Ok(()),
        r => return bad(format!("a {}x{} bit matrix converts to {:?}", rows, cols, r.is_ok())),
    };
    let mut mirror = G { n: rows, rules: vec![], roots: vec![0], ..G::default() };
    for i in 0..rows {
        let row: Vec<usize> = m.iter_row_syms(syms[i]).map(|s| s.usize()).collect();
        let wanted: Vec<usize> = (0..rows).filter(|&j| want.contains(&(i, j))).collect();
        if row != wanted || (0..rows).any(|j| m[(syms[i], syms[j])] != wanted.contains(&j)) {
            return bad(format!("{}x{} {:?}: row {} is {:?}", rows, cols, want, i, row));
        }
        if !wanted.is_empty() {
            mirror.rules.extend(wanted.iter().map(|&j| (i, vec![j])));
        }
    }
    let back: BitMatrix = m.into();
    if back.size() != (rows, cols) || (0..rows).any(|i| (0..cols).any(|j| back[(i, j)] != want.contains(&(i, j)))) {
        return bad(format!("{}x{} {:?}: differs after conversion", rows, cols, want));
    }
    // The same relation as a grammar's.
    let (cfg, syms) = mirror.build();
    let d: SymbolBitMatrix = cfg.direct_derivation_matrix().into();
    let r: SymbolBitMatrix = cfg.reachability_matrix().into();
    let u: SymbolBitMatrix = cfg.unit_derivation_matrix().into();
    let (r0, u0) = (cfg.reachability_matrix(), cfg.unit_derivation_matrix());
    cx.op(3);
    for &i in &syms {
        for &j in &syms {
            if d[(i, j)] != want.contains(&(i.usize(), j.usize())) || r[(i, j)] != r0[(i, j)] || u[(i, j)] != u0[(i, j)] {
                return bad(format!("{}x{} {:?}: a converted relation differs at ({:?}, {:?})", rows, cols, want, i, j));
            }
        }
    }
    Ok(())
}

fn check(cx: &mut Cx, g: G) -> Res {
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    let (cfg, syms) = g.build();
    let n = g.n;
    let mut direct: Rel = vec![vec![false; n]; n];
    let mut unit: Rel = vec![vec![false; n]; n];
    for (l, r) in &g.rules {
        for &s in r {
            direct[*l][s] = true;
        }
        if r.len() == 1 && r[0] != *l {
            unit[*l][r[0]] = true;
        }
    }
    let reach = closure(direct.clone());
    let unit = closure(unit);
    let d = cfg.direct_derivation_matrix();
    let r = cfg.reachability_matrix();
    let rr = cfg.reachability_matrix().reflexive();
    let u = cfg.unit_derivation_matrix();
    let e = cfg.empty_matrix();
    cx.op(6);
    if d.size() != (n, n) || r.size() != (n, n) || u.size() != (n, n) || e.size() != (n, n) {
        return bad("matrix of the wrong size");
    }
    for i in 0..n {
        for j in 0..n {
            let k = (syms[i], syms[j]);
            if d[k] != direct[i][j] {
                return bad(format!("direct derivation ({}, {}) = {} in {}", i, j, d[k], g));
            }
            if r[k] != reach[i][j] {
                return bad(format!("reachability ({}, {}) = {} in {}", i, j, r[k], g));
            }
            if rr[k] != (reach[i][j] || i == j) {
                return bad(format!("reflexive reachability ({}, {}) = {} in {}", i, j, rr[k], g));
            }
            if u[k] != unit[i][j] {
                return bad(format!("unit derivation ({}, {}) = {} in {}", i, j, u[k], g));
            }
            if e[k] {
                return bad("empty matrix is not empty");
            }
        }
        if n < 40 || i % 16 == 0 || i + 1 == n {
            let row: Vec<usize> = rr.iter_row_syms(syms[i]).map(|s| s.usize()).collect();
            let want: Vec<usize> = (0..n).filter(|&j| reach[i][j] || i == j).collect();
            if row != want {
                return bad(format!("row {} lists {:?}, expected {:?} in {}", i, row, want, g));
            }
        }
    }
    // Direct derivation -> reachability conversion.
    let via = cfg.direct_derivation_matrix().reachability();
    if (0..n).any(|i| via[(syms[i], syms[(i * 7 + 3) % n])] != reach[i][(i * 7 + 3) % n]) {
        return bad("reachability() of the direct derivation differs");
    }
    // Recursion.
    let rec = cfg.recursion();
    let got: Vec<(usize, Vec<usize>, (bool, bool, bool))> = rec
        .recursive_rules()
        .map(|x| (x.rule.lhs.usize(), x.rule.rhs.iter().map(|s| s.usize()).collect(), (x.recursion.left, x.recursion.middle, x.recursion.right)))
        .collect();
    cx.op(1);
    let mut want = vec![];
    for (l, rhs) in &g.rules {
        let rec: Vec<bool> = rhs.iter().map(|&s| reach[s][*l] || s == *l).collect();
        if rec.iter().any(|&b| b) {
            let m = rhs.len();
            want.push((*l, rhs.clone(), (rec[0], m > 2 && rec[1..m - 1].iter().any(|&b| b), rec[m - 1])));
        }
    }
    if got != want {
        return bad(format!("recursive rules {:?}, expected {:?} in {}", got, want, g));
    }
    cx.state(&(&g, &want));
    Ok(())
}
