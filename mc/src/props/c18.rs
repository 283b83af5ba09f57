//! C18: weighted picks.
use super::Prop;
use crate::engine::*;
use cfg_generate::weighted::random::{ByteSource, GenRange};
use cfg_generate::weighted::{Random, Weight, WeightedRhsByLhs};
use cfg_grammar::Cfg;
use cfg_history::{HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use cfg_symbol::{Symbol, SymbolSource};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        families: vec![
            fam("shares", "all weight vectors over a set of weights, all five weight types, values at, just below and just above every share boundary and inside every share", shares),
            fam("grammar", "the same through rules of a grammar and generation, with unweighted rules, several symbols and split rules", grammar),
            fam("grammar-scaled", "long lists of weighted rules, large and mixed weights", grammar_scaled),
            fam("wide", "more alternatives than 8 and 16 bits can number", wide),
            fam("bytes", "all 256 bytes of the byte-driven source on all short weight vectors: the number of bytes for each alternative", bytes),
            fam("rng", "scripted generators of the rand crate: all short tapes of raw values, all short weight vectors", rng),
            fam("many", "long lists of alternatives", many),
        ],
        assumptions: vec!["values are drawn below the total weight", "the total weight of two or more alternatives is positive; a sole alternative is taken without drawing"],
    }
}

/// A generator of the rand crate that plays back a tape of raw values.
#[derive(Clone)]
struct Tape(Vec<u64>, usize);

impl rand::RngCore for Tape {
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        // After the tape, values that differ from one another.
        *self.0.get(self.1 - 1).unwrap_or(&((self.1 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)))
    }
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
}

/// Three picks in a row, driven by a generator of the rand crate.
fn rng(cx: &mut Cx) -> Res {
    let ws: Vec<u32> = (0..cx.range(2, cx.tier(3, 4))).map(|_| cx.pick(&[1000u32, 0, 250, 7000, 2500])).collect();
    let total = ws.iter().sum::<u32>() as f64 / 1000.0;
    if total == 0.0 {
        return cx.skip();
    }
    let tape: Vec<u64> = (0..3).map(|_| cx.pick(&[0u64, 1 << 61, 1 << 62, (1 << 63) - 1, 1 << 63, 3 << 62, u64::MAX])).collect();
    let mut cfg = Cfg::new();
    let [start, pick] = cfg.sym();
    let ts: Vec<Symbol> = cfg.sym_source_mut().generate().take(ws.len()).collect();
    cfg.rule(start).rhs([pick, pick, pick]);
    for (i, &w) in ws.iter().enumerate() {
        cfg.rule(pick).rhs_with_linked_history([ts[i]], LinkedHistoryNode::Weight { weight: w as f64 / 1000.0 });
    }
    // Shares as the stored weights give them.
    let mut cum = vec![0.0];
    for r in cfg.rules().skip(1) {
        cum.push(cum.last().unwrap() + r.history.weight.unwrap() as f64 / 1000.0);
    }
    let wanted = |drawn: &mut Tape| -> Vec<Symbol> { (0..3).map(|_| ts[picked(&cum, rand::Rng::random_range(drawn, 0.0..*cum.last().unwrap()))]).collect() };
    let want = wanted(&mut Tape(tape.clone(), 0));
    // Whether a value is drawn for the start symbol's only rule is left open.
    let mut skipped = Tape(tape.clone(), 0);
    let _: f64 = rand::Rng::random_range(&mut skipped, 0.0..1.0);
    let other = wanted(&mut skipped);
    let got = guard(&format!("weights {:?} tape {:?}", ws, tape), || cfg.random(start, None, &mut Tape(tape.clone(), 0), &[], |_, _| None))?;
    cx.op(1);
    cx.state(&(&ws, &want));
    if cx.want_note {
        cx.note = Some(format!("weights {:?} tape {:x?}: {:?}", ws, tape, got));
    }
    match got {
        Ok((s, c)) if (s == want || s == other) && c.is_empty() => Ok(()),
        r => bad(format!("weights {:?}, raw values {:x?}: {:?} instead of {:?}", ws, tape, r, want)),
    }
}

#[derive(Clone)]
struct Fixed {
    value: f64,
    total: Option<f64>,
    calls: usize,
}

impl GenRange for Fixed {
    fn generate(&mut self, limit: f64) -> f64 {
        self.calls += 1;
        self.total = Some(limit);
        self.value
    }
    fn mutate_start(&mut self, _: u64) {}
}

fn up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
fn down(x: f64) -> f64 {
    if x > 0.0 {
        f64::from_bits(x.to_bits() - 1)
    } else {
        x
    }
}

/// Values to try for cumulative sums `cum` (from 0 to the total).
fn values(cum: &[f64]) -> Vec<f64> {
    let total = *cum.last().unwrap();
    let mut v = vec![];
    for w in cum.windows(2) {
        v.extend([w[0], up(w[0]), (w[0] + w[1]) / 2.0, down(w[1])]);
    }
    for i in 0..24 {
        v.push(total * i as f64 / 24.0);
    }
    v.retain(|&x| x >= 0.0 && x < total);
    v
}

fn picked(cum: &[f64], v: f64) -> usize {
    (0..cum.len() - 1).find(|&i| cum[i] <= v && v < cum[i + 1]).expect("in some share")
}

/// `w[i]` in thousandths, exactly representable.
fn table<W: Weight>(cx: &mut Cx, ws: &[f64], conv: impl Fn(f64) -> W, with_others: bool, form: usize) -> Res {
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(ws.len() + 3).collect();
    // Alternatives: all different; in equal pairs; all but the middle one equal; of lengths 0, 1, ...
    let alternatives: Vec<Vec<Symbol>> = (0..ws.len())
        .map(|i| match form {
            0 => vec![syms[i]],
            1 => vec![syms[i / 2]],
            2 => vec![syms[(i == ws.len() / 2) as usize]],
            _ => syms[..i % 7].to_vec(),
        })
        .collect();
    let lhs = syms[ws.len()];
    let other = syms[ws.len() + 1];
    let absent = syms[ws.len() + 2];
    let mut t: WeightedRhsByLhs<W> = WeightedRhsByLhs::new();
    let mut cum = vec![0.0];
    for (i, &w) in ws.iter().enumerate() {
        if with_others {
            t.add_weight(conv(3.0), other, &[syms[i], syms[i]]);
        }
        t.add_weight(conv(w), lhs, &alternatives[i]);
        cum.push(cum[i] + w);
    }
    cx.op(ws.len() as u64);
    let total = *cum.last().unwrap();
    if ws.len() == 1 {
        let mut r = Fixed { value: 0.0, total: None, calls: 0 };
        if t.pick_rhs(lhs, &mut r) != &alternatives[0][..] {
            return bad("a sole alternative is not picked");
        }
        return Ok(());
    }
    if total == 0.0 {
        return cx.skip();
    }
    for v in values(&cum) {
        let mut r = Fixed { value: v, total: None, calls: 0 };
        let got = guard(&format!("weights {:?} value {}", ws, v), || t.pick_rhs(lhs, &mut r).to_vec())?;
        cx.op(1);
        let want = picked(&cum, v);
        if got != alternatives[want] {
            return bad(format!("weights {:?}, value {:?}: picked {:?} instead of alternative {}", ws, v, got, want));
        }
        if r.calls != 1 || r.total != Some(total) {
            return bad(format!("weights {:?}: {} values drawn, below {:?}", ws, r.calls, r.total));
        }
    }
    let mut r = Fixed { value: 0.0, total: None, calls: 0 };
    if !t.pick_rhs(absent, &mut r).is_empty() {
        return bad("something is picked for a symbol without rules");
    }
    Ok(())
}

fn shares(cx: &mut Cx) -> Res {
    let kind = cx.choose(5);
    let n = cx.range(1, cx.tier(4, 5));
    let pool: &[f64] = if kind < 3 { &[1.0, 0.0, 2.0, 7.0, 3.0] } else { &[1.0, 0.0, 0.25, 7.0, 2.5] };
    let ws: Vec<f64> = (0..n).map(|_| cx.pick(pool)).collect();
    let others = cx.flag();
    let form = cx.choose(4);
    cx.state(&(form, kind, ws.iter().map(|w| w.to_bits()).collect::<Vec<_>>(), others));
    if cx.want_note {
        cx.note = Some(format!("type {} weights {:?} form {}", kind, ws, form));
    }
    match kind {
        0 => table(cx, &ws, |w| w as u8, others, form),
        1 => table(cx, &ws, |w| w as u16, others, form),
        2 => table(cx, &ws, |w| w as u32, others, form),
        3 => table(cx, &ws, |w| w as f32, others, form),
        _ => table(cx, &ws, |w| w, others, form),
    }
}

fn many(cx: &mut Cx) -> Res {
    let n = cx.pick(&[5, 8, 9, 16, 31, 32, 33, 64, 100, 255]);
    let pat = cx.choose(5);
    let ws: Vec<f64> = (0..n)
        .map(|i| match pat {
            0 => 1.0,
            1 => (i % 2) as f64,
            2 => ((i + 1) % 2) as f64,
            3 => (i == n / 2) as u8 as f64,
            _ => (i % 4) as f64,
        })
        .collect();
    let form = cx.choose(4);
    cx.state(&(n, pat, form));
    if cx.want_note {
        cx.note = Some(format!("{} alternatives, pattern {}", n, pat));
    }
    table(cx, &ws, |w| w as u32, false, form)?;
    table(cx, &ws, |w| w, true, form)
}

fn grammar(cx: &mut Cx) -> Res {
    let n = cx.range(2, cx.tier(4, 5));
    let pool: &[Option<f64>] = &[None, Some(0.5), Some(3.0), Some(0.0), Some(0.125), Some(1.001)];
    let ws: Vec<Option<f64>> = (0..n).map(|_| cx.pick(pool)).collect();
    grammar_of(cx, &ws)
}

/// Many rules, and weights from the smallest to the largest.
fn grammar_scaled(cx: &mut Cx) -> Res {
    let n = if cx.flag() { cx.range(2, cx.tier(40, 70)) } else { cx.pick(&[64usize, 100, 129, 257]) };
    let pat = cx.choose(7);
    let big = cx.pick(&[1.0, 65.0, 66.0, 70_000.0, 4_000_000.0]);
    let ws: Vec<Option<f64>> = (0..n)
        .map(|i| match pat {
            0 => None,
            1 => Some(if i == n / 2 { big } else { 0.125 }),
            2 => Some(if i + 1 == n { big } else { 0.0 }),
            3 => Some(if i == 0 { big } else { 2.0 }),
            // Thousandths that are not exact in binary.
            6 => Some((1001 + 2 * i) as f64 / 1000.0),
            4 => (i % 3 > 0).then_some(big * (i % 3) as f64 / 2.0),
            _ => (i % 4 != 2).then_some((i % 7) as f64),
        })
        .collect();
    if ws.iter().any(|w| w.unwrap_or(1.0) * 1000.0 > u32::MAX as f64) {
        return cx.skip();
    }
    grammar_of(cx, &ws)
}

fn grammar_of(cx: &mut Cx, ws: &[Option<f64>]) -> Res {
    let n = ws.len();
    let how = cx.choose(4);
    let mut cum = vec![0.0];
    for (i, w) in ws.iter().enumerate() {
        let w = w.unwrap_or(1.0);
        cum.push(cum[i] + (w * 1000.0).round() / 1000.0);
    }
    if *cum.last().unwrap() == 0.0 {
        return cx.skip();
    }
    cx.state(&(ws.iter().map(|w| w.map(f64::to_bits)).collect::<Vec<_>>(), how));
    if cx.want_note {
        cx.note = Some(format!("weights {:?}, way {}", ws, how));
    }
    let mut cfg = Cfg::new();
    let s = cfg.next_sym(None);
    let other = cfg.next_sym(None);
    let t: Vec<Symbol> = (0..n).map(|_| cfg.next_sym(None)).collect();
    let pad = cfg.next_sym(None);
    for i in 0..n {
        // Long rules get split.
        let rhs: Vec<Symbol> = if how == 2 { vec![t[i], pad, pad] } else { vec![t[i]] };
        match ws[i] {
            None => {
                cfg.rule(s).rhs(rhs);
            }
            Some(w) if i % 2 == 0 => {
                cfg.rule(s).rhs_with_linked_history(rhs, LinkedHistoryNode::Weight { weight: w });
            }
            Some(w) => {
                cfg.rule(s).history(HistoryNodeWeight { prev: RootHistoryNode::Origin { origin: i }.into(), weight: w }.into()).rhs(rhs);
            }
        }
        if how == 1 {
            cfg.rule(other).rhs([pad]);
        }
    }
    if how == 2 {
        cfg.limit_rhs_len(Some(2));
    }
    if how == 3 {
        cfg = cfg.clone();
    }
    for v in values(&cum) {
        let mut r = Fixed { value: v, total: None, calls: 0 };
        let got = guard("generation", || cfg.random(s, None, &mut r, &[], |_, _| None))?;
        cx.op(1);
        let want = t[picked(&cum, v)];
        match got {
            Ok((g, _)) if g.first() == Some(&want) && r.calls == 1 => {}
            g => return bad(format!("weights {:?}, value {}: generated {:?} ({} draws) instead of alternative {}", ws, v, g, r.calls, want.usize() - 2)),
        }
        if (r.total.unwrap() - cum.last().unwrap()).abs() > 1e-12 * cum.last().unwrap().max(1.0) {
            return bad(format!("weights {:?}: drawn below {:?}", ws, r.total));
        }
    }
    Ok(())
}

fn bytes(cx: &mut Cx) -> Res {
    let n = cx.range(2, cx.tier(4, 5));
    let ws: Vec<f64> = (0..n).map(|_| cx.pick(&[1.0, 0.0, 2.5, 0.25, 60.0])).collect();
    let mut cum = vec![0.0];
    for (i, &w) in ws.iter().enumerate() {
        cum.push(cum[i] + w);
    }
    let total = *cum.last().unwrap();
    if total == 0.0 {
        return cx.skip();
    }
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(n + 1).collect();
    let mut t = WeightedRhsByLhs::<f64>::new();
    for i in 0..n {
        t.add_weight(ws[i], syms[n], &syms[i..=i]);
    }
    cx.state(&ws.iter().map(|w| w.to_bits()).collect::<Vec<_>>());
    let mut counts = vec![0u32; n];
    for b in 0..=255u8 {
        let mut src = ByteSource::new(std::iter::once(b));
        let got = guard(&format!("byte {} weights {:?}", b, ws), || t.pick_rhs(syms[n], &mut src).to_vec())?;
        cx.op(1);
        match syms[..n].iter().position(|&s| got == [s]) {
            Some(i) if ws[i] == 0.0 => return bad(format!("byte {} weights {:?}: picked {:?}, which has no weight", b, ws, got)),
            Some(i) => counts[i] += 1,
            None => return bad(format!("byte {} weights {:?}: picked {:?}", b, ws, got)),
        }
    }
    // Every alternative gets its share of the bytes, up to rounding at its two ends.
    for i in 0..n {
        let share = 256.0 * ws[i] / total;
        if (counts[i] as f64 - share).abs() > 1.0 + 1e-9 {
            return bad(format!("weights {:?}: alternative {} is picked for {} of 256 bytes, its share is {:.2}", ws, i, counts[i], share));
        }
    }
    Ok(())
}

/// More alternatives than 8 and 16 bits can number.
fn wide(cx: &mut Cx) -> Res {
    let n = cx.pick(&[255usize, 256, 257, 65_535, 65_536, 65_537, 70_000]);
    let at = cx.pick(&[0usize, 1, 254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 69_999]);
    let pat = cx.choose(3);
    if at >= n {
        return cx.skip();
    }
    if cx.want_note {
        cx.note = Some(format!("{} alternatives, the one at {}, pattern {}", n, at, pat));
    }
    let w = |i: usize| -> u32 {
        match pat {
            0 => 1,
            1 => (i == at) as u32 * 70_000,
            _ => (i % 3) as u32,
        }
    };
    let mut t: WeightedRhsByLhs<u32> = WeightedRhsByLhs::new();
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(n + 1).collect();
    for i in 0..n {
        t.add_weight(w(i), syms[n], &[syms[i]]);
    }
    cx.op(n as u64);
    cx.state(&(n, at, pat));
    let before: f64 = (0..at).map(|i| w(i) as f64).sum();
    let total: f64 = (0..n).map(|i| w(i) as f64).sum();
    let mine = w(at) as f64;
    for v in [before, before + mine / 2.0, down(before + mine), before + mine] {
        if v >= total {
            continue;
        }
        let mut r = Fixed { value: v, total: None, calls: 0 };
        let got = guard("picking", || t.pick_rhs(syms[n], &mut r).to_vec())?;
        cx.op(1);
        let mut sum = 0.0;
        let want = (0..n).find(|&i| {
            sum += w(i) as f64;
            v < sum
        });
        if got != [syms[want.unwrap()]] || r.total != Some(total) {
            return bad(format!("{} alternatives of pattern {}, value {} of {:?}: picked {:?} instead of alternative {:?}", n, pat, v, r.total, got, want));
        }
    }
    Ok(())
}
