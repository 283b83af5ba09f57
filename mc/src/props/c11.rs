//! C11: precedenced rules.
use super::Prop;
use crate::engine::*;
use crate::oracle::*;
use cfg_grammar::precedenced_rule::{Associativity, PrecedencedRuleBuilder};
use cfg_grammar::Cfg;
use cfg_history::RootHistoryNode;
use cfg_symbol::Symbol;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        families: vec![
            fam("scripts", "every builder script of up to 3 alternatives over 16 operand shapes, 3 associativities and level changes", scripts),
            fam("scripts4", "every builder script of up to 4 alternatives over a reduced set of shapes", scripts4),
            fam("long-operands", "single levels with every shape of up to 5 symbols", long_operands),
            fam("long-bodies", "one operator of up to 10 symbols (thorough: 18) with every placement of up to three operands, next to a short one", long_bodies),
            fam("successions", "two precedenced rules and plain rules in a row, referring to each other, with length limits", successions),
            fam("many-levels", "up to 9 levels (33 in the thorough tier)", many_levels),
            fam("with-empty", "alternatives that are empty or a lone operand (languages only)", with_empty),
            fam("tokens", "every sequence of up to 6 (thorough: 7) builder calls over level changes and 7 kinds of alternatives, with an atom first or last", tokens),
            deep("scripts5", "every builder script of up to 5 alternatives over a reduced set of shapes", scripts5),
        ],
        assumptions: vec!["parse trees are counted for all strings up to a length (5 to 7 symbols)"],
    }
}

/// One alternative: level, associativity, right-hand side.
type Alt = (usize, usize, Vec<usize>);

#[derive(Clone, Debug, Hash)]
struct PRule {
    lhs: usize,
    alts: Vec<Alt>,
    levels: usize,
}

/// The defining grammar: `T(rule, m)` are the trees of level at most `m`.
/// Result: grammar, and for each precedenced rule the symbol of its loosest level.
fn flat(n: usize, prs: &[PRule], plain: &[(usize, Vec<usize>)]) -> (G, Vec<usize>) {
    let mut g = G { n, rules: vec![], roots: vec![], ..G::default() };
    let mut base = vec![];
    for p in prs {
        base.push(g.n);
        g.n += p.levels;
    }
    // A symbol with several precedenced rules has the trees of each of them.
    let mut union: BTreeMap<usize, usize> = BTreeMap::new();
    for p in prs {
        let same: Vec<usize> = (0..prs.len()).filter(|&j| prs[j].lhs == p.lhs).collect();
        if same.len() > 1 && !union.contains_key(&p.lhs) {
            union.insert(p.lhs, g.n);
            for j in same {
                g.rules.push((g.n, vec![base[j] + prs[j].levels - 1]));
            }
            g.n += 1;
        }
    }
    let top = |s: usize| -> usize {
        match (union.get(&s), prs.iter().position(|p| p.lhs == s)) {
            (Some(&u), _) => u,
            (None, Some(i)) => base[i] + prs[i].levels - 1,
            (None, None) => s,
        }
    };
    for (i, p) in prs.iter().enumerate() {
        for m in 0..p.levels {
            for (k, assoc, rhs) in &p.alts {
                if *k > m {
                    continue;
                }
                let ops: Vec<usize> = (0..rhs.len()).filter(|&j| rhs[j] == p.lhs).collect();
                let mut r: Vec<usize> = rhs.iter().map(|&s| if s == p.lhs { base[i] + p.levels - 1 } else { top(s) }).collect();
                for (x, &j) in ops.iter().enumerate() {
                    let same = match assoc {
                        0 => x == 0,
                        1 => x == ops.len() - 1,
                        _ => continue,
                    };
                    r[j] = base[i] + if same { *k } else { k.saturating_sub(1) };
                }
                g.rules.push((base[i] + m, r));
            }
        }
    }
    for (l, r) in plain {
        g.rules.push((*l, r.iter().map(|&s| top(s)).collect()));
    }
    let tops = prs.iter().map(|p| top(p.lhs)).collect();
    (g, tops)
}

/// Numbers of parse trees of every string up to length `max`, per symbol.
/// `None` when some symbol has infinitely many trees or derives the empty string.
fn counts(g: &G, term: &[bool], max: usize) -> Option<Vec<Vec<BTreeMap<u128, u64>>>> {
    if g.rules.iter().any(|r| r.1.is_empty()) {
        return None;
    }
    let k = g.n as u128 + 1;
    // Order of symbols along unit rules.
    let mut order = vec![];
    let mut mark = vec![0u8; g.n];
    fn visit(g: &G, s: usize, mark: &mut Vec<u8>, order: &mut Vec<usize>) -> bool {
        match mark[s] {
            1 => return false,
            2 => return true,
            _ => {}
        }
        mark[s] = 1;
        for (l, r) in &g.rules {
            if *l == s && r.len() == 1 && !visit(g, r[0], mark, order) {
                return false;
            }
        }
        mark[s] = 2;
        order.push(s);
        true
    }
    for s in 0..g.n {
        if !visit(g, s, &mut mark, &mut order) {
            return None;
        }
    }
    let mut by: Vec<Vec<&Vec<usize>>> = vec![vec![]; g.n];
    for (l, r) in &g.rules {
        by[*l].push(r);
    }
    let mut c: Vec<Vec<BTreeMap<u128, u64>>> = vec![vec![BTreeMap::new(); max + 1]; g.n];
    for n in 1..=max {
        for &s in &order {
            if s < term.len() && term[s] {
                if n == 1 {
                    c[s][1].insert(s as u128 + 1, 1);
                }
                continue;
            }
            let mut m: BTreeMap<u128, u64> = BTreeMap::new();
            for r in &by[s] {
                conv(&c, r, n, 0, 1, k, &mut m);
            }
            c[s][n] = m;
        }
    }
    Some(c)
}

fn conv(c: &[Vec<BTreeMap<u128, u64>>], r: &[usize], n: usize, prefix: u128, mult: u64, k: u128, out: &mut BTreeMap<u128, u64>) {
    if r.len() > n {
        return;
    }
    if r.len() == 1 {
        let p = k.pow(n as u32);
        for (w, m) in &c[r[0]][n] {
            *out.entry(prefix * p + w).or_default() += mult * m;
        }
        return;
    }
    for a in 1..=n - (r.len() - 1) {
        let p = k.pow(a as u32);
        for (w, m) in &c[r[0]][a] {
            conv(c, &r[1..], n - a, prefix * p + w, mult * m, k, out);
        }
    }
}

fn decode(mut w: u128, k: u128) -> String {
    let mut v = vec![];
    while w > 0 {
        v.push((w % k - 1).to_string());
        w /= k;
    }
    v.reverse();
    v.join(" ")
}

/// Steps of a script.
#[derive(Clone, Debug, Hash)]
enum Step {
    Lower,
    Assoc(usize),
    Rhs(Vec<usize>),
}

fn interpret(lhs: usize, steps: &[Step]) -> PRule {
    let mut alts = vec![];
    let (mut level, mut assoc) = (0, 0);
    for s in steps {
        match s {
            Step::Lower => level += 1,
            Step::Assoc(a) => assoc = *a,
            Step::Rhs(r) => {
                alts.push((level, assoc, r.clone()));
                assoc = 0;
            }
        }
    }
    PRule { lhs, alts, levels: level + 1 }
}

fn assoc(a: usize) -> Associativity {
    [Associativity::Left, Associativity::Right, Associativity::Group][a]
}

fn apply<'a>(mut b: PrecedencedRuleBuilder<'a>, y: &[Symbol], lhs: usize, steps: &[Step], style: usize) -> PrecedencedRuleBuilder<'a> {
    for s in steps {
        b = match s {
            Step::Lower => b.lower_precedence(),
            Step::Assoc(a) => b.associativity(assoc(*a)),
            Step::Rhs(r) => {
                let rhs: Vec<Symbol> = r.iter().map(|&i| y[i]).collect();
                let h = RootHistoryNode::Rule { lhs: y[lhs] }.into();
                match style {
                    0 => b.rhs(rhs),
                    1 => b.rhs_with_history(rhs, h),
                    _ => b.history(h).rhs(rhs),
                }
            }
        };
    }
    b
}

fn compare(cx: &mut Cx, what: &str, n: usize, got: &G, prs: &[PRule], plain: &[(usize, Vec<usize>)], max: usize) -> Res {
    let (want, tops) = flat(n, prs, plain);
    let mut term = vec![true; n];
    for p in prs {
        term[p.lhs] = false;
    }
    for (l, _) in plain {
        term[*l] = false;
    }
    cx.state(&(prs, plain, got));
    match counts(&want, &term, max) {
        Some(a) => {
            let Some(b) = counts(got, &term, max) else {
                return bad(format!("{}: infinitely ambiguous or empty: {}", what, got));
            };
            let plain_syms: Vec<usize> = (0..n).filter(|&s| !term[s] && !prs.iter().any(|p| p.lhs == s)).collect();
            let pairs = prs.iter().zip(&tops).map(|(p, &t)| (p.lhs, t)).chain(plain_syms.into_iter().map(|s| (s, s)));
            for (s, t) in pairs {
                for len in 1..=max {
                    // Encodings use different bases; translate through letters.
                    let dec = |m: &BTreeMap<u128, u64>, k: u128| -> BTreeMap<String, u64> { m.iter().map(|(w, c)| (decode(*w, k), *c)).collect() };
                    let (ka, kb) = (want.n as u128 + 1, got.n as u128 + 1);
                    if a[t][len].len() == b[s][len].len() && ka == kb && a[t][len] == b[s][len] {
                        continue;
                    }
                    let (x, y) = (dec(&a[t][len], ka), dec(&b[s][len], kb));
                    if x != y {
                        let w = x.keys().chain(y.keys()).find(|w| x.get(*w) != y.get(*w)).unwrap();
                        return bad(format!(
                            "{}: string [{}] has {} trees from symbol {}, expected {}; {}",
                            what,
                            w,
                            y.get(w).copied().unwrap_or(0),
                            s,
                            x.get(w).copied().unwrap_or(0),
                            got
                        ));
                    }
                }
            }
            Ok(())
        }
        None => {
            let t: Vec<usize> = (0..n).filter(|&s| term[s]).collect();
            let Some(al) = Alpha::fit(t.len()) else { return cx.skip() };
            let mut base = vec![0; n];
            for (i, &s) in t.iter().enumerate() {
                base[s] = al.letter(i);
            }
            let a = al.langs(&want, &base);
            let b = al.langs(got, &base);
            for (p, &t) in prs.iter().zip(&tops) {
                if a[t] != b[p.lhs] {
                    return bad(format!(
                        "{}: symbol {} misses {}, has extra {}; {}",
                        what,
                        p.lhs,
                        al.show(a[t] & !b[p.lhs]),
                        al.show(b[p.lhs] & !a[t]),
                        got
                    ));
                }
            }
            Ok(())
        }
    }
}

/// Symbols: 0 = E, 1 = a, 2 = o, 3 = p.
fn single(cx: &mut Cx, steps: Vec<Step>, max: usize, style: usize, limit: Option<usize>) -> Res {
    let mut cfg = Cfg::new();
    let y: Vec<Symbol> = cfg.sym::<4>().to_vec();
    cfg.limit_rhs_len(limit);
    if cx.want_note {
        cx.note = Some(format!("{:?} limit {:?}", steps, limit));
    }
    let what = format!("precedenced rule {:?} (style {}, limit {:?})", steps, style, limit);
    guard(&what, || {
        let _ = apply(cfg.precedenced_rule(y[0]), &y, 0, &steps, style % 3).finalize();
    })?;
    cx.op(steps.len() as u64 + 1);
    let g = G::read(&cfg);
    let p = interpret(0, &steps);
    compare(cx, &what, 4, &g, &[p], &[], max)
}

fn shapes(full: bool) -> Vec<Vec<usize>> {
    let mut v = vec![vec![1], vec![0, 2, 0], vec![2, 0], vec![0, 3], vec![0, 2, 0, 3, 0], vec![3, 0, 3]];
    if full {
        v.extend([
            vec![0, 0],
            vec![0, 0, 0],
            vec![0, 1, 0],
            vec![2],
            vec![0, 2, 0, 0],
            vec![2, 0, 3, 0],
            vec![0, 2, 3],
            vec![2, 0, 0, 3],
            vec![0, 3, 0, 3],
            vec![3, 0, 3, 0],
        ]);
    }
    v
}

fn choose_script(cx: &mut Cx, alts: usize, full: bool) -> Vec<Step> {
    let sh = shapes(full);
    let n = cx.range(1, alts);
    let mut steps = vec![];
    for i in 0..n {
        let r = cx.pick(&sh);
        let operand = r.contains(&0);
        if i > 0 {
            match cx.choose(if n < 3 || !full { 3 } else { 2 }) {
                0 => {}
                1 => steps.push(Step::Lower),
                _ => steps.extend([Step::Lower, Step::Lower]),
            }
        }
        if operand {
            match cx.choose(3) {
                0 => {}
                a => steps.push(Step::Assoc(a)),
            }
        }
        steps.push(Step::Rhs(r));
    }
    if (n < 3 || !full) && cx.flag() {
        steps.push(Step::Lower);
    }
    steps
}

fn scripts(cx: &mut Cx) -> Res {
    let steps = choose_script(cx, 3, true);
    // Without any atom nothing is derived: keep only scripts with one.
    if !steps.iter().any(|s| matches!(s, Step::Rhs(r) if !r.contains(&0))) {
        return cx.skip();
    }
    single(cx, steps, cx.tier(6, 7), 0, None)
}
fn scripts4(cx: &mut Cx) -> Res {
    let mut steps = choose_script(cx, 3, false);
    // An atom at the tightest or the loosest level.
    if cx.flag() {
        steps.insert(0, Step::Rhs(vec![1]));
    } else {
        steps.push(Step::Rhs(vec![1]));
    }
    let (style, limit) = cx.pick(&[(0, None), (1, Some(2)), (2, Some(3))]);
    single(cx, steps, cx.tier(6, 7), style, limit)
}
fn scripts5(cx: &mut Cx) -> Res {
    let mut steps = choose_script(cx, 4, false);
    steps.insert(0, Step::Rhs(vec![1]));
    if cx.flag() {
        steps.insert(1, Step::Lower);
    }
    single(cx, steps, 7, 0, None)
}

/// Every sequence of builder calls.
fn tokens(cx: &mut Cx) -> Res {
    let kinds: [(usize, Vec<usize>); 7] = [
        (0, vec![0, 2, 0]),
        (1, vec![0, 3, 0]),
        (2, vec![3, 0, 3]),
        (2, vec![0, 2, 0]),
        (0, vec![2, 0]),
        (0, vec![0, 3]),
        (0, vec![2]),
    ];
    let n = cx.range(1, cx.tier(6, 7));
    let mut steps = vec![];
    let first = cx.flag();
    if first {
        steps.push(Step::Rhs(vec![1]));
    }
    for _ in 0..n {
        match cx.choose(kinds.len() + 1) {
            0 => steps.push(Step::Lower),
            k => {
                let (a, r) = kinds[k - 1].clone();
                if a > 0 {
                    steps.push(Step::Assoc(a));
                }
                steps.push(Step::Rhs(r));
            }
        }
    }
    if !first {
        steps.push(Step::Rhs(vec![1]));
    }
    single(cx, steps, cx.tier(5, 6), 0, None)
}

fn long_operands(cx: &mut Cx) -> Res {
    let len = cx.range(2, 5);
    let mut r = vec![];
    for _ in 0..len {
        r.push(cx.pick(&[0, 2]));
    }
    let mut r2 = vec![];
    let second = cx.flag();
    if second {
        for _ in 0..cx.range(2, 3) {
            r2.push(cx.pick(&[0, 3]));
        }
    }
    let mut steps = vec![];
    let mut emit = |cx: &mut Cx, r: Vec<usize>| {
        // Associativity given before or after the level, several times, or not at all.
        match cx.choose(6) {
            0 => {}
            1 => steps.push(Step::Lower),
            2 => steps.extend([Step::Assoc(1), Step::Lower]),
            3 => steps.extend([Step::Lower, Step::Assoc(2), Step::Assoc(1)]),
            4 => steps.extend([Step::Assoc(2)]),
            _ => steps.extend([Step::Assoc(1), Step::Assoc(0), Step::Lower, Step::Lower]),
        }
        steps.push(Step::Rhs(r));
    };
    emit(cx, r);
    if second {
        emit(cx, r2);
    }
    let at = if cx.flag() { 0 } else { steps.len() };
    steps.insert(at, Step::Rhs(vec![1]));
    let (style, limit) = cx.pick(&[(0, None), (0, Some(2))]);
    single(cx, steps, cx.tier(6, 7), style, limit)
}

fn long_bodies(cx: &mut Cx) -> Res {
    let len = if cx.thorough { cx.range(6, 18) } else { cx.range(6, 10) };
    let ops = cx.range(1, 3);
    let mut r = vec![2; len];
    let mut at = 0;
    for _ in 0..ops {
        if at == len {
            return cx.skip();
        }
        at += cx.choose(len - at);
        r[at] = 0;
        at += 1;
    }
    let a = cx.choose(3);
    let big = vec![Step::Assoc(a), Step::Rhs(r)];
    let small = match cx.choose(3) {
        0 => vec![],
        1 => vec![Step::Rhs(vec![3, 0])],
        _ => vec![Step::Rhs(vec![0, 3, 0])],
    };
    let mut steps = vec![Step::Rhs(vec![1])];
    let (x, y) = if cx.flag() { (big, small) } else { (small, big) };
    steps.push(Step::Lower);
    steps.extend(x);
    steps.push(Step::Lower);
    steps.extend(y);
    single(cx, steps, len + cx.tier(2, 3), 0, None)
}

fn with_empty(cx: &mut Cx) -> Res {
    let sh = [vec![], vec![0], vec![1], vec![0, 2, 0], vec![2, 0], vec![0, 0]];
    let n = cx.range(1, 3);
    let mut steps = vec![];
    for _ in 0..n {
        let r = cx.pick(&sh);
        if cx.flag() {
            steps.push(Step::Lower);
        }
        match cx.choose(3) {
            0 => {}
            a => steps.push(Step::Assoc(a)),
        }
        steps.push(Step::Rhs(r));
    }
    single(cx, steps, 5, 0, None)
}

fn many_levels(cx: &mut Cx) -> Res {
    let levels = if cx.thorough { cx.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33]) } else { cx.range(1, 9) };
    let kinds: [(usize, Vec<usize>); 6] =
        [(0, vec![0, 2, 0]), (1, vec![0, 2, 0]), (0, vec![3, 0]), (2, vec![3, 0, 3]), (0, vec![0, 3]), (1, vec![0, 2, 0, 3, 0])];
    // At most three levels have operators; their positions vary.
    let l1 = cx.choose(levels);
    let l2 = l1 + cx.choose(levels - l1);
    let k1 = cx.choose(kinds.len());
    let k2 = cx.choose(kinds.len());
    let k3 = cx.choose(kinds.len());
    let mut steps = vec![];
    for l in 0..levels {
        if l > 0 {
            steps.push(Step::Lower);
        }
        let mut put = |k: usize| {
            if kinds[k].0 > 0 {
                steps.push(Step::Assoc(kinds[k].0));
            }
            steps.push(Step::Rhs(kinds[k].1.clone()));
        };
        if l == l1 {
            put(k1);
        }
        if l == l2 {
            put(k2);
        }
        if l == levels - 1 {
            put(k3);
        }
        if l == (l1 + l2) / 2 {
            steps.push(Step::Rhs(vec![1]));
        }
    }
    single(cx, steps, 5, 0, None)
}

/// Symbols: 0 = E, 1 = F, 2 = K, 3 = a, 4 = o, 5 = p.
fn successions(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::new();
    let y: Vec<Symbol> = cfg.sym::<6>().to_vec();
    let limit = cx.pick(&[None, Some(2)]);
    cfg.limit_rhs_len(limit);
    let script = |cx: &mut Cx, me: usize, other: usize| -> Vec<Step> {
        let tail = match cx.choose(5) {
            0 => vec![Step::Lower, Step::Rhs(vec![me, 4, me])],
            1 => vec![Step::Lower, Step::Assoc(1), Step::Rhs(vec![me, 4, other])],
            2 => vec![Step::Assoc(2), Step::Rhs(vec![5, me, 5]), Step::Lower, Step::Assoc(1), Step::Rhs(vec![me, 4, me])],
            3 => vec![Step::Lower, Step::Rhs(vec![4, me]), Step::Lower, Step::Rhs(vec![2, 5, me])],
            _ => vec![Step::Assoc(2), Step::Rhs(vec![5, other, me]), Step::Lower, Step::Rhs(vec![me, 5])],
        };
        // The first alternative may mention its own symbol.
        let mut v = match cx.choose(4) {
            3 => vec![Step::Rhs(vec![me, 4, me]), Step::Rhs(vec![3])],
            0 => vec![Step::Rhs(vec![3])],
            1 => vec![Step::Rhs(vec![3]), Step::Rhs(vec![5, other])],
            _ => vec![Step::Rhs(vec![4, me]), Step::Rhs(vec![3])],
        };
        v.extend(tail);
        v
    };
    let se = script(cx, 0, 1);
    let plan = cx.choose(8);
    // The second rule may belong to the same symbol.
    let f = if plan >= 6 { 0 } else { 1 };
    let sf = script(cx, f, 1 - f);
    let dangling = cx.flag();
    let what = format!("precedenced rules {:?} {:?} plan {} dangling associativity {} limit {:?}", se, sf, plan, dangling, limit);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let mut plain: Vec<(usize, Vec<usize>)> = vec![];
    guard(&what, || {
        let mut b = apply(cfg.precedenced_rule(y[0]), &y, 0, &se, 0);
        if dangling {
            // An unused associativity must not leak into the next rule.
            b = b.associativity(Associativity::Group);
        }
        let last = match plan {
            0 => {
                let b = apply(b.precedenced_rule(y[1]), &y, 1, &sf, 0);
                b.rule(y[2]).rhs([y[0], y[4], y[1]]);
                plain.push((2, vec![0, 4, 1]));
                None
            }
            1 => {
                let r = b.rule(y[2]).rhs([y[0], y[4]]).rhs([y[3]]);
                plain.push((2, vec![0, 4]));
                plain.push((2, vec![3]));
                let b = apply(r.precedenced_rule(y[1]), &y, 1, &sf, 0);
                Some(b)
            }
            2 => {
                let r = b.finalize();
                let b = apply(r.precedenced_rule(y[1]), &y, 1, &sf, 0);
                b.rule(y[2]).rhs([y[3], y[1]]);
                plain.push((2, vec![3, 1]));
                None
            }
            3 => {
                let _ = b.finalize();
                cfg.rule(y[2]).rhs([y[1], y[0]]);
                plain.push((2, vec![1, 0]));
                Some(apply(cfg.precedenced_rule(y[1]), &y, 1, &sf, 0))
            }
            4 => {
                let r = b.rule(y[2]).rhs([y[5]]).rule(y[2]).rhs([y[0], y[1]]);
                plain.push((2, vec![5]));
                plain.push((2, vec![0, 1]));
                Some(apply(PrecedencedRuleBuilder::new(
                    {
                        drop(r);
                        &mut cfg
                    },
                    y[1],
                ), &y, 1, &sf, 0))
            }
            6 => Some(apply(b.precedenced_rule(y[0]), &y, 0, &sf, 0)),
            7 => {
                let r = b.rule(y[1]).rhs([y[3]]);
                plain.push((1, vec![3]));
                Some(apply(r.precedenced_rule(y[0]), &y, 0, &sf, 0))
            }
            _ => {
                let b = b.precedenced_rule(y[1]);
                let b = apply(b, &y, 1, &sf, 1);
                let r = b.rule(y[2]);
                r.rhs([y[4]]).rhs([y[4], y[0]]);
                plain.push((2, vec![4]));
                plain.push((2, vec![4, 0]));
                None
            }
        };
        if let Some(b) = last {
            let _ = b.finalize();
        }
    })?;
    cx.op((se.len() + sf.len() + 3) as u64);
    let g = G::read(&cfg);
    compare(cx, &what, 6, &g, &[interpret(0, &se), interpret(f, &sf)], &plain, cx.tier(6, 7))
}
