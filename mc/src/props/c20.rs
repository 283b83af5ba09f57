//! C20: rule histories.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::precedenced_rule::{Associativity, PrecedencedRuleBuilder};
use cfg_grammar::rule_builder::RuleBuilder;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::earley::{process_linked, History};
use cfg_history::*;
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};
use cfg_symbol::{Symbol, SymbolSource};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        families: vec![
            fam("split", "rules of all lengths up to a bound (and some long ones), split before or after they are added", split),
            fam("split-wide", "rule lengths and origins at the edges of 8 and 16 bits, split", split_wide),
            fam("nulling", "nulling elimination on all small grammars with distinct origins and weights", nulling),
            fam("nulling-long", "split rules with every pattern of nullable symbols", nulling_long),
            fam("nulling-realistic", "nulling elimination on grammars of programming and data languages, with each one rule changed in each of several ways", nulling_realistic),
            fam("nulling-huge", "nulling elimination on parametric grammars with hundreds of symbols and rules", nulling_huge),
            fam("updates", "all sequences of history updates up to a bounded length", updates),
            fam("precedence", "origins of all small precedenced rules", precedence),
            fam("builders", "every sequence of calls of the rule builders up to a bounded length, given histories and not", builders),
            fam("sequences", "pairs of sequences over all small ranges, separators and ways of giving a history", sequences),
        ],
        assumptions: vec!["origin numbers below 2^32 - 1 (the value standing for no origin)", "event and distance entries of dots are not produced by these transformations and are compared as none"],
    }
}

fn show(r: &CfgRule) -> String {
    format!("{}->{:?} #{}", r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect::<Vec<_>>(), r.history.origin.id as i32)
}

/// Checks that `after` consists of exactly the two-symbol splits of `rules`.
fn check_split(what: &str, n: usize, rules: &[(usize, Vec<usize>, History)], after: &[CfgRule]) -> Res {
    let mut fresh: std::collections::BTreeMap<usize, Vec<&CfgRule>> = Default::default();
    for r in after {
        if r.lhs.usize() >= n {
            fresh.entry(r.lhs.usize()).or_default().push(r);
        }
    }
    fn expand(n: usize, fresh: &std::collections::BTreeMap<usize, Vec<&CfgRule>>, s: usize, depth: usize) -> Result<Vec<usize>, Fail> {
        if s < n {
            return Ok(vec![s]);
        }
        if depth > 400 {
            return bad("recursive split");
        }
        let Some(rs) = fresh.get(&s) else { return bad(format!("split symbol {} has no rule", s)) };
        if rs.len() != 1 {
            return bad(format!("split symbol {} has {} rules", s, rs.len()));
        }
        let mut v = vec![];
        for x in rs[0].rhs.iter() {
            v.extend(expand(n, fresh, x.usize(), depth + 1)?);
        }
        Ok(v)
    }
    let mut used = vec![false; after.len()];
    for (l, rhs, h) in rules {
        // Its top part: the rule for the same symbol with the same origin (origins are distinct).
        let tops: Vec<usize> = (0..after.len()).filter(|&i| after[i].history.origin == h.origin).collect();
        if tops.len() != 1 {
            return bad(format!("{}: origin {} is carried by {} parts", what, h.origin.id, tops.len()));
        }
        let top = &after[tops[0]];
        if top.lhs.usize() != *l {
            return bad(format!("{}: origin {} is on {}", what, h.origin.id, show(top)));
        }
        let mut all = vec![];
        for x in top.rhs.iter() {
            all.extend(expand(n, &fresh, x.usize(), 0)?);
        }
        if &all != rhs {
            return bad(format!("{}: origin {} is on a rule deriving {:?}", what, h.origin.id, all));
        }
        let len = rhs.len();
        if len <= 2 {
            if top.history != *h {
                return bad(format!("{}: history of the short rule {} changed", what, show(top)));
            }
        } else {
            let id = h.origin.id;
            let dots = [RuleDot::new(id, 0), RuleDot::new(id, len as u32 - 1), RuleDot::new(id, len as u32)];
            let want = History { dots, ..*h };
            if top.history != want {
                return bad(format!("{}: history of the top part of rule {} is {:?} instead of {:?}", what, id, top.history, want));
            }
        }
        // All the parts, with what they span.
        let mut work = vec![(tops[0], 0usize)];
        while let Some((i, at)) = work.pop() {
            if used[i] {
                return bad(format!("{}: part {} used twice", what, show(&after[i])));
            }
            used[i] = true;
            let part = &after[i];
            if part.rhs.len() > 2 {
                return bad(format!("{}: part {} is too long", what, show(part)));
            }
            if i != tops[0] {
                let first = expand(n, &fresh, part.rhs[0].usize(), 0)?.len();
                let want = History {
                    origin: cfg_history::earley::ExternalOrigin::null(),
                    dots: [RuleDot::none(), RuleDot::new(h.origin.id, (at + first) as u32), RuleDot::none()],
                    ..*h
                };
                if part.history != want || !part.history.origin().is_null() {
                    return bad(format!("{}: history of part {} is {:?} instead of {:?}", what, show(part), part.history, want));
                }
            }
            let mut at = at;
            for x in part.rhs.iter() {
                if x.usize() >= n {
                    work.push((after.iter().position(|r| r.lhs == *x).unwrap(), at));
                }
                at += expand(n, &fresh, x.usize(), 0)?.len();
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return bad(format!("{}: part {} belongs to no rule", what, show(&after[i])));
    }
    Ok(())
}

fn history(cx: &mut Cx, id: u32) -> History {
    let h: History = RootHistoryNode::Origin { origin: id as usize }.into();
    match cx.choose(3) {
        0 => h,
        1 => HistoryNodeWeight { prev: h, weight: 0.25 * id as f64 }.into(),
        _ => HistoryNodeWeight { prev: HistoryNodeAssignPrecedence { prev: h, looseness: 3 }.into(), weight: 0.0 }.into(),
    }
}

fn split(cx: &mut Cx) -> Res {
    let count = cx.range(1, 2);
    let n = 4;
    let mut rules = vec![];
    for i in 0..count {
        let len = match cx.tier(7, 9) {
            m => {
                let k = cx.choose(m + 4);
                if k < m {
                    k
                } else {
                    [17, 33, 64, 130][k - m]
                }
            }
        };
        let pat = if len > 1 && i == 0 { cx.choose(2) } else { 0 };
        let rhs: Vec<usize> = (0..len).map(|j| if pat == 0 { j % n } else { (j / 2 + 1) % n }).collect();
        let id = if i == 0 { cx.pick(&[1u32, 70_000, u32::MAX - 1]) } else { 2 };
        let h = history(cx, id);
        rules.push((cx.choose(2), rhs, h));
    }
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = cfg.sym_source_mut().generate().take(n).collect();
    let how = cx.choose(6);
    if cx.want_note {
        cx.note = Some(format!("lengths {:?}, way {}", rules.iter().map(|r| r.1.len()).collect::<Vec<_>>(), how));
    }
    let what = format!("way {} lengths {:?}", how, rules.iter().map(|r| r.1.len()).collect::<Vec<_>>());
    if how == 1 {
        cfg.limit_rhs_len(Some(2));
    }
    let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
    for (i, (l, r, h)) in rules.iter().enumerate() {
        let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
        if how == 3 {
            other.rule(syms[*l]).rhs_with_history(rhs, *h);
        } else if i % 2 == 0 {
            let parts = cfg.add_rule(CfgRule::new(syms[*l], rhs, *h));
            cx.op(1);
            let want = if how == 1 && r.len() > 2 { r.len() - 1 } else { 1 };
            // An empty rule under a limit counts as well.
            if parts as usize != want {
                return bad(format!("{}: {} parts reported for length {}", what, parts, r.len()));
            }
        } else {
            cfg.rule(syms[*l]).history(*h).rhs(rhs);
        }
    }
    match how {
        0 | 1 => {}
        2 => {
            cfg.limit_rhs_len(Some(2));
        }
        3 => {
            cfg.limit_rhs_len(Some(2));
            cfg.extend(&other);
        }
        4 => {
            cfg.limit_rhs_len(Some(2));
            cfg = cfg.clone();
            cfg.sort();
            cfg.limit_rhs_len(Some(2));
        }
        _ => {
            cfg.limit_rhs_len(Some(1000));
            cfg.limit_rhs_len(None);
            let none = cfg.binarize_and_eliminate_nulling_rules();
            if rules.iter().any(|r| r.1.is_empty()) {
                return cx.skip();
            }
            if none.rules().count() != 0 {
                return bad(format!("{}: nulling rules appeared", what));
            }
        }
    }
    cx.op(2);
    let after: Vec<CfgRule> = cfg.rules().cloned().collect();
    cx.state(&(how, rules.iter().map(|r| (r.0, r.1.len(), r.2.origin.id, r.2.weight)).collect::<Vec<_>>()));
    if how == 0 {
        for (r, m) in after.iter().zip(&rules) {
            if r.history != m.2 {
                return bad(format!("{}: history changed by adding", what));
            }
        }
        return Ok(());
    }
    check_split(&what, n, &rules, &after)
}

#[derive(Clone, Debug)]
struct Expect {
    lhs: Symbol,
    rhs: Vec<Symbol>,
    history: History,
    origin_only: bool,
}

fn nulling_check(cx: &mut Cx, g: &G, cfg: &mut Cfg) -> Res {
    let mut bin = cfg.clone();
    bin.limit_rhs_len(Some(2));
    let gb = G::read(&bin);
    let nullable = gb.nullable();
    let null_cfg = cfg.binarize_and_eliminate_nulling_rules();
    cx.op(2);
    let after = G::read(cfg);
    cx.state(&(g, &after));
    if !nullable.contains(&true) {
        // The order of the rules is free.
        let sorted = |c: &Cfg| {
            let mut v: Vec<CfgRule> = c.rules().cloned().collect();
            v.sort_by(|a, b| (a.lhs, &a.rhs, a.history.origin.id).cmp(&(b.lhs, &b.rhs, b.history.origin.id)));
            v
        };
        return if sorted(cfg) == sorted(&bin) && null_cfg.rules().count() == 0 {
            Ok(())
        } else {
            bad(format!("histories changed although nothing is nullable in {}", g))
        };
    }
    let mut expect: Vec<Expect> = vec![];
    let mut expect_null: Vec<Expect> = vec![];
    for r in bin.rules() {
        let h = r.history;
        let e = |rhs: &[Symbol], history: History, origin_only: bool| Expect { lhs: r.lhs, rhs: rhs.to_vec(), history, origin_only };
        if !r.rhs.is_empty() {
            expect.push(e(&r.rhs, h, false));
        }
        let nu: Vec<bool> = r.rhs.iter().map(|s| nullable[s.usize()]).collect();
        match &nu[..] {
            [true, false] => expect.push(e(&r.rhs[1..], History { nullable: Some((r.rhs[0], false)), ..h }, false)),
            [false, true] => expect.push(e(&r.rhs[..1], History { nullable: Some((r.rhs[1], true)), ..h }, false)),
            [true, true] => {
                expect.push(e(&r.rhs[..1], h, true));
                expect.push(e(&r.rhs[1..], h, true));
                expect_null.push(e(&r.rhs, h, true));
            }
            [true] | [] => expect_null.push(e(&r.rhs, h, true)),
            _ => {}
        }
    }
    let take = |r: &CfgRule, ex: &mut Vec<Expect>| {
        let same = |e: &Expect| e.lhs == r.lhs && e.rhs[..] == r.rhs[..] && e.history.origin == r.history.origin;
        let i = ex.iter().position(|e| same(e) && e.history == r.history && !e.origin_only).or_else(|| ex.iter().position(|e| same(e) && e.origin_only));
        i.map(|i| ex.remove(i))
    };
    for r in cfg.rules() {
        if take(r, &mut expect).is_none() {
            return bad(format!("rule {} with history {:?} is not accounted for; before {}", show(r), r.history, gb));
        }
    }
    // What is missing is unproductive without the empty string.
    let mut nonempty = gb.terminals();
    loop {
        let mut ch = false;
        for (l, r) in &gb.rules {
            if !nonempty[*l] && r.iter().all(|&s| nonempty[s] || nullable[s]) && r.iter().any(|&s| nonempty[s]) {
                nonempty[*l] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for e in &expect {
        if e.rhs.iter().all(|s| nonempty[s.usize()]) {
            return bad(format!("no rule {}->{:?} with origin {} and its history after elimination of {}", e.lhs.usize(), e.rhs, e.history.origin.id as i32, gb));
        }
    }
    for r in null_cfg.rules() {
        if take(r, &mut expect_null).is_none() {
            return bad(format!("nulling rule {} is not accounted for; before {}", show(r), gb));
        }
    }
    if let Some(e) = expect_null.first() {
        return bad(format!("no nulling rule {}->{:?} with origin {}; before {}", e.lhs.usize(), e.rhs, e.history.origin.id as i32, gb));
    }
    Ok(())
}

fn with_origins(cx: &mut Cx, g: &G) -> Cfg {
    let weights = cx.flag();
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..g.n).map(|_| cfg.next_sym(None)).collect();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let mut h = History::new(i as u32 + 5);
        if weights {
            h = HistoryNodeWeight { prev: h, weight: i as f64 + 0.5 }.into();
        }
        let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
        cfg.rule(syms[*l]).rhs_with_history(rhs, h);
    }
    cfg
}

fn nulling(cx: &mut Cx) -> Res {
    let sp = match cx.choose(4) {
        0 => Space::seq(2, 2, 1, 2, 2),
        1 => Space::seq(2, 1, 2, 2, 3),
        2 => Space::set(2, 1, 3, cx.tier(4, 5), 2),
        _ => Space::set(3, 1, 3, cx.tier(3, 4), 2),
    };
    let g = sp.choose(cx)?;
    let mut cfg = with_origins(cx, &g);
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    nulling_check(cx, &g, &mut cfg)
}

fn nulling_realistic(cx: &mut Cx) -> Res {
    let g = realistic(cx)?;
    let mut cfg = with_origins(cx, &g);
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    nulling_check(cx, &g, &mut cfg)
}

fn nulling_huge(cx: &mut Cx) -> Res {
    let g = huge(cx);
    let mut cfg = with_origins(cx, &g);
    nulling_check(cx, &g, &mut cfg)
}

fn nulling_long(cx: &mut Cx) -> Res {
    let len = cx.range(1, cx.tier(6, 8));
    // Each position: terminal, nulling only, nullable.
    let rhs: Vec<usize> = (0..len).map(|_| cx.range(1, 3)).collect();
    let mut rules = vec![(0, rhs), (2, vec![]), (3, vec![]), (3, vec![1])];
    if cx.flag() {
        rules.push((0, vec![]));
    }
    let g = G { n: 4, rules, roots: vec![0], ..G::default() };
    let mut cfg = with_origins(cx, &g);
    if cx.want_note {
        cx.note = Some(g.to_string());
    }
    nulling_check(cx, &g, &mut cfg)
}

fn updates(cx: &mut Cx) -> Res {
    let depth = cx.range(0, cx.tier(4, 5));
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().take(4).collect();
    let null = cfg_history::earley::ExternalOrigin::null();
    let (mut h, id): (History, u32) = match cx.choose(4) {
        0 => (RootHistoryNode::NoOp.into(), u32::MAX),
        1 => (RootHistoryNode::Rule { lhs: syms[2] }.into(), 0),
        2 => (RootHistoryNode::Origin { origin: 9 }.into(), 9),
        _ => (History::new(70_000), 70_000),
    };
    if h.origin.id != id || h.origin() != h.origin || h.origin.is_null() != (id == u32::MAX) || h.nullable().is_some() || h.weight.is_some() {
        return bad(format!("new history {:?} for origin {}", h, id));
    }
    let mut m = h; // the model: only its public parts are used
    let mut log = format!("{}", id as i32);
    for _ in 0..depth {
        let k = cx.choose(14);
        let none = RuleDot::none();
        let at = |m: &History, n: u32| RuleDot::new(m.origin.id, n);
        let linked = cx.flag();
        match k {
            0..=2 => {
                let w = [0.0, 1.25, 4000.0][k];
                log += &format!(" weight({})", w);
                h = if linked { process_linked(&LinkedHistoryNode::Weight { weight: w }, h) } else { HistoryNodeWeight { prev: h, weight: w }.into() };
                m.weight = Some([0, 1250, 4_000_000][k]);
            }
            3..=5 => {
                let full_len = [3, 5, 2][k - 3];
                log += &format!(" top({})", full_len);
                let height = full_len as u32 - 2;
                h = if linked {
                    process_linked(&LinkedHistoryNode::Binarize { height, full_len, is_top: true }, h)
                } else {
                    HistoryNodeBinarize { prev: h, height, full_len, is_top: true }.into()
                };
                m.dots = [at(&m, 0), at(&m, full_len as u32 - 1), at(&m, full_len as u32)];
            }
            6..=8 => {
                let height = [0u32, 1, 70][k - 6];
                log += &format!(" part({})", height);
                let full_len = height as usize + 3;
                h = if linked {
                    process_linked(&LinkedHistoryNode::Binarize { height, full_len, is_top: false }, h)
                } else {
                    HistoryNodeBinarize { prev: h, height, full_len, is_top: false }.into()
                };
                m.dots = [none, at(&m, height + 1), none];
                m.origin = null;
            }
            9 | 10 => {
                let which = if k == 9 { BinarizedRhsRange::Left } else { BinarizedRhsRange::Right };
                log += &format!(" nulling({:?})", which);
                let (rhs0, rhs1) = (Some(syms[0]), Some(syms[1]));
                h = if linked {
                    process_linked(&LinkedHistoryNode::EliminateNulling { rhs0, rhs1, which }, h)
                } else {
                    HistoryNodeEliminateNulling { prev: h, rhs0, rhs1, which }.into()
                };
                m.nullable = Some((syms[k - 9], k == 10));
            }
            11 => {
                log += " precedence";
                h = if linked {
                    process_linked(&LinkedHistoryNode::AssignPrecedence { looseness: 2 }, h)
                } else {
                    HistoryNodeAssignPrecedence { prev: h, looseness: 2 }.into()
                };
            }
            12 => {
                log += " sequence";
                h = if linked {
                    process_linked(&LinkedHistoryNode::RewriteSequence { top: true, rhs: syms[3], sep: None }, h)
                } else {
                    HistoryNodeRewriteSequence { prev: h, top: true, rhs: syms[3], sep: None }.into()
                };
                if h.sequence.is_none() {
                    return bad(format!("{}: no sequence details", log));
                }
            }
            _ => {
                log += " all-nulling";
                let n = 2 - linked as usize;
                h = HistoryNodeEliminateNulling {
                    prev: h,
                    rhs0: Some(syms[0]),
                    rhs1: (n == 2).then_some(syms[1]),
                    which: BinarizedRhsRange::All(n),
                }
                .into();
                if h.origin != m.origin {
                    return bad(format!("{}: origin became {}", log, h.origin.id as i32));
                }
                m = h;
            }
        }
        cx.op(1);
        cx.state(&log);
        if h.origin != m.origin || h.dots != m.dots || h.nullable != m.nullable || h.weight != m.weight || h.nullable() != m.nullable {
            return bad(format!("{}: history is {:?}, expected {:?}", log, h, m));
        }
        for i in 0..5 {
            if h.dot(i) != m.dots.get(i).copied().unwrap_or(none) {
                return bad(format!("{}: dot {} is {:?}", log, i, h.dot(i)));
            }
        }
    }
    if cx.want_note {
        cx.note = Some(log);
    }
    let ranges = [(BinarizedRhsRange::Left, 0..1), (BinarizedRhsRange::Right, 1..2), (BinarizedRhsRange::All(0), 0..0), (BinarizedRhsRange::All(1), 0..1), (BinarizedRhsRange::All(2), 0..2)];
    for (r, w) in ranges {
        if r.as_range() != w {
            return bad(format!("{:?} covers {:?}", r, r.as_range()));
        }
    }
    if BinarizedRhsRange::Left.negate() != BinarizedRhsRange::Right || BinarizedRhsRange::Right.negate() != BinarizedRhsRange::Left {
        return bad("the other side of a side is itself");
    }
    Ok(())
}

fn precedence(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::new();
    let [e, op, x]: [Symbol; 3] = cfg.sym();
    let levels = cx.range(1, cx.tier(3, 4));
    let mut id = 10;
    let mut given: Vec<(u32, usize, usize)> = vec![];
    let mut b = cfg.precedenced_rule(e);
    let mut log = String::new();
    for l in 0..levels {
        if l > 0 {
            b = b.lower_precedence();
            log += " |";
        }
        for _ in 0..cx.range(1, 2) {
            let rhs: Vec<Symbol> = match cx.choose(3) {
                0 => vec![x],
                1 => vec![e, op, e],
                _ => vec![op, e],
            };
            let a = cx.choose(3);
            log += &format!(" {}{}", rhs.len(), ["l", "r", "g"][a]);
            let assoc = [Associativity::Left, Associativity::Right, Associativity::Group][a];
            given.push((id, rhs.len(), l));
            let h = if id % 3 == 0 { History::new(id) } else { History { weight: Some(id * 7), ..History::new(id) } };
            b = if id % 2 == 0 {
                b.associativity(assoc).history(h).rhs(rhs)
            } else {
                b.history(History::new(1)).associativity(assoc).rhs_with_history(rhs, h)
            };
            id += 1;
        }
    }
    b.finalize();
    cx.op(given.len() as u64);
    cx.state(&log);
    if cx.want_note {
        cx.note = Some(log.clone());
    }
    let rules: Vec<&CfgRule> = cfg.rules().collect();
    for &(id, len, _) in &given {
        let r: Vec<_> = rules.iter().filter(|r| r.history.origin.id == id).collect();
        if r.len() != 1 || r[0].rhs.len() != len || r[0].history != (if id % 3 == 0 { History::new(id) } else { History { weight: Some(id * 7), ..History::new(id) } }) {
            return bad(format!("{}: origin {} is on {:?}", log, id, r));
        }
    }
    if let Some(r) = rules.iter().find(|r| !r.history.origin.is_null() && !given.iter().any(|g| g.0 == r.history.origin.id)) {
        return bad(format!("{}: rule {} has an origin nobody gave", log, show(r)));
    }
    Ok(())
}

enum Builder<'a> {
    Plain(RuleBuilder<'a>),
    Prec(PrecedencedRuleBuilder<'a>),
}

/// A history given to a builder is that of the next alternative, and of no other.
fn builders(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::new();
    let [a, b, x, z]: [Symbol; 4] = cfg.sym();
    cfg.limit_rhs_len(None);
    let depth = cx.range(2, cx.tier(5, 6));
    let mut log = String::new();
    // (length of the rule, origins it may have; none stands for one that nobody gave)
    let mut want: Vec<(usize, Vec<Option<u32>>, Option<u32>)> = vec![];
    let mut pending: Vec<Option<u32>> = vec![None];
    let mut id = 20;
    let first = cx.flag();
    let mut w = Builder::Plain(cfg.rule(a));
    if first {
        log += "precedenced";
        w = Builder::Prec(match w {
            Builder::Plain(r) => r.precedenced_rule(b),
            Builder::Prec(p) => p,
        });
    }
    for _ in 0..depth {
        let rhs = vec![x; want.len() + 1];
        let k = cx.choose(8);
        id += 1;
        let h = History::new(id);
        match k {
            0 | 1 => {
                let lhs = if k == 0 { a } else { z };
                log += &format!(" rule({})", k);
                w = Builder::Plain(match w {
                    Builder::Plain(r) => r.rule(lhs),
                    Builder::Prec(p) => p.rule(lhs),
                });
                pending = vec![None];
            }
            2 => {
                log += &format!(" history({})", id);
                w = match w {
                    Builder::Plain(r) => Builder::Plain(r.history(h)),
                    Builder::Prec(p) => Builder::Prec(p.history(h)),
                };
                pending = vec![Some(id)];
            }
            3 => {
                log += " rhs";
                want.push((rhs.len(), pending, None));
                w = match w {
                    Builder::Plain(r) => Builder::Plain(r.rhs(rhs)),
                    Builder::Prec(p) => Builder::Prec(p.rhs(rhs)),
                };
                pending = vec![None];
            }
            4 => {
                log += &format!(" rhs_with_history({})", id);
                want.push((rhs.len(), vec![Some(id)], None));
                w = match w {
                    Builder::Plain(r) => {
                        // Whether this uses up an earlier history is free.
                        if !pending.contains(&None) {
                            pending.push(None);
                        }
                        Builder::Plain(r.rhs_with_history(rhs, h))
                    }
                    Builder::Prec(p) => {
                        // This overwrites an earlier history.
                        pending = vec![None];
                        Builder::Prec(p.rhs_with_history(rhs, h))
                    }
                };
            }
            5 => match w {
                Builder::Plain(r) => {
                    log += " linked";
                    want.push((rhs.len(), vec![None], Some(2500)));
                    w = Builder::Plain(r.rhs_with_linked_history(rhs, LinkedHistoryNode::Weight { weight: 2.5 }));
                    if !pending.contains(&None) {
                        pending.push(None);
                    }
                }
                Builder::Prec(p) => {
                    log += " lower";
                    w = Builder::Prec(p.lower_precedence());
                }
            },
            6 => {
                log += " precedenced";
                w = Builder::Prec(match w {
                    Builder::Plain(r) => r.precedenced_rule(b),
                    Builder::Prec(p) => p.precedenced_rule(z),
                });
                pending = vec![None];
            }
            _ => match w {
                Builder::Plain(_) => return cx.skip(),
                Builder::Prec(p) => {
                    log += " assoc";
                    w = Builder::Prec(p.associativity(if cx.flag() { Associativity::Group } else { Associativity::Right }));
                }
            },
        }
    }
    if let Builder::Prec(p) = w {
        p.finalize();
    }
    cx.op(depth as u64);
    cx.state(&log);
    if cx.want_note {
        cx.note = Some(log.clone());
    }
    let rules: Vec<&CfgRule> = cfg.rules().filter(|r| r.rhs.iter().all(|&s| s == x)).collect();
    if rules.len() != want.len() {
        return bad(format!("{}: {} rules instead of {}", log, rules.len(), want.len()));
    }
    for (len, origins, weight) in &want {
        let r: Vec<_> = rules.iter().filter(|r| r.rhs.len() == *len).collect();
        let given = |r: &CfgRule| (r.history.origin.id >= 20 && !r.history.origin.is_null()).then_some(r.history.origin.id);
        if r.len() != 1 || !origins.contains(&given(r[0])) || r[0].history.weight != *weight {
            return bad(format!("{}: alternative {} has {:?}, expected {:?}", log, len, r, origins));
        }
    }
    if let Some(r) = cfg.rules().find(|r| r.rhs.iter().any(|&s| s != x) && r.history.origin.id >= 20 && !r.history.origin.is_null()) {
        return bad(format!("{}: rule {} has an origin nobody gave it", log, show(r)));
    }
    Ok(())
}

/// Rules made for a sequence's own left-hand side.
fn sequences(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::new();
    let [a, b, x, sep, y] = cfg.sym();
    let limit = if cx.flag() { Some(2) } else { None };
    cfg.limit_rhs_len(limit);
    cfg.rule(y).history(History { weight: Some(7), ..History::new(90) }).rhs([x, x]);
    let ranges: Vec<(u32, Option<u32>)> = (0..=4u32).flat_map(|s| (s.max(1)..=5).map(move |e| (s, Some(e))).chain([(s, None)])).collect();
    let count = cx.range(1, 2);
    let mut log = String::new();
    for k in 0..count {
        let lhs = if k == 0 { a } else { b };
        let (start, end) = if k == 0 { cx.pick(&ranges) } else { cx.pick(&[(1u32, None), (0, Some(3))]) };
        let separator = cx.pick(&[Separator::Null, Separator::Proper(sep), Separator::Trailing(sep), Separator::Liberal(sep)]);
        let h = History { weight: if cx.flag() { Some(40 + k as u32) } else { None }, ..History::new(if cx.flag() { 0 } else { 11 + k as u32 }) };
        let how = cx.choose(5);
        log += &format!(" {:?} {:?} {:?} #{}:{:?} how {}", start, end, separator, h.origin.id, h.weight, how);
        let before = cfg.rules().count();
        let seq = Sequence { lhs, rhs: x, start, end, separator, history: Some(h) };
        match how {
            0 => drop(cfg.sequence(lhs).separator(separator).inclusive(start, end).history(h).rhs(x)),
            1 => drop(cfg.sequence(lhs).separator(separator).inclusive(start, end).rhs_with_history(x, Some(h))),
            2 => SequencesToProductions::new(&mut cfg).rewrite(seq),
            3 => {
                // Stored first, rewritten later.
                let mut store: Vec<Sequence> = vec![];
                (&mut store).sequence(lhs).separator(separator).inclusive(start, end).history(h).rhs(x);
                if store != [seq] {
                    return bad(format!("{}: stored as {:?}", log, store));
                }
                SequencesToProductions::new(&mut cfg).add_sequence(store[0]);
            }
            _ => {
                // Two sequences from one builder; the second has no history of its own.
                drop(cfg.sequence(lhs).separator(separator).history(h).inclusive(start, end).rhs(x).sequence(y).inclusive(2, Some(2)).rhs(x));
                let last: Vec<CfgRule> = cfg.rules().skip(before).filter(|r| r.lhs == y).cloned().collect();
                if last.len() != 1 || last[0].history.origin.id != 0 || last[0].history.weight.is_some() {
                    return bad(format!("{}: a sequence without a history got {:?}", log, last));
                }
            }
        }
        cx.op(1);
        let rules: Vec<CfgRule> = cfg.rules().cloned().collect();
        if rules[0].history != (History { weight: Some(7), ..History::new(90) }) {
            return bad(format!("{}: history of another rule changed to {:?}", log, rules[0].history));
        }
        let own: Vec<&CfgRule> = rules[before..].iter().filter(|r| r.lhs == lhs).collect();
        if own.is_empty() {
            return bad(format!("{}: no rule", log));
        }
        for r in own {
            if r.history.origin() != h.origin() || r.history.weight != h.weight || r.history.nullable() != h.nullable() {
                return bad(format!("{}: {} has history {:?}", log, show(r), r.history));
            }
        }
    }
    cx.state(&log);
    if cx.want_note {
        cx.note = Some(log);
    }
    Ok(())
}

/// Rules and symbol numbers at the edges of the narrow integer types, split in
/// two-symbol rules.
fn split_wide(cx: &mut Cx) -> Res {
    let len = cx.pick(&[254usize, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 65538, 70_000]);
    let id = cx.pick(&[1u32, 255, 256, 65_535, 65_536, 70_000, 1 << 24, u32::MAX - 1]);
    let how = cx.choose(3);
    let what = format!("length {} origin {} how {}", len, id, how);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let mut cfg = Cfg::new();
    let n = 8;
    let syms: Vec<Symbol> = cfg.sym_source_mut().generate().take(n).collect();
    let body: Vec<usize> = (0..len).map(|i| 1 + (i * i / 7 + i / 5) % 7).collect();
    let rhs: Vec<Symbol> = body.iter().map(|&s| syms[s]).collect();
    let h: History = HistoryNodeWeight { prev: RootHistoryNode::Origin { origin: id as usize }.into(), weight: 70.25 }.into();
    match how {
        0 => {
            cfg.rule(syms[0]).rhs_with_history(&rhs[..], h);
            cfg.limit_rhs_len(Some(2));
        }
        1 => {
            cfg.limit_rhs_len(Some(2));
            cfg.rule(syms[0]).history(h).rhs(&rhs[..]);
        }
        _ => {
            cfg.add_rule(CfgRule::new(syms[0], &rhs[..], h));
            let none = cfg.binarize_and_eliminate_nulling_rules();
            if none.rules().count() != 0 {
                return bad(format!("{}: nulling rules appeared", what));
            }
        }
    }
    cx.op(2);
    cx.state(&(len, id, how));
    let rules: Vec<&CfgRule> = cfg.rules().collect();
    if rules.len() != len - 1 {
        return bad(format!("{}: {} rules", what, rules.len()));
    }
    let mut of: std::collections::BTreeMap<usize, usize> = Default::default();
    for (i, r) in rules.iter().enumerate() {
        if r.rhs.len() != 2 || of.insert(r.lhs.usize(), i).is_some() {
            return bad(format!("{}: not a split: {}", what, show(r)));
        }
    }
    // Lengths spanned, from the inside out, then dots from the left.
    fn spans(of: &std::collections::BTreeMap<usize, usize>, rules: &[&CfgRule], n: usize) -> Option<Vec<usize>> {
        let mut span = vec![0usize; rules.len()];
        let mut work = vec![(*of.get(&0)?, false)];
        let mut steps = 0;
        while let Some((i, ready)) = work.pop() {
            steps += 1;
            if steps > 4 * rules.len() + 4 {
                return None;
            }
            if ready {
                span[i] = 0;
                for s in rules[i].rhs.iter() {
                    span[i] += if s.usize() < n { 1 } else { span[*of.get(&s.usize())?] };
                }
            } else {
                work.push((i, true));
                for s in rules[i].rhs.iter() {
                    if s.usize() >= n {
                        work.push((*of.get(&s.usize())?, false));
                    }
                }
            }
        }
        Some(span)
    }
    let Some(span) = spans(&of, &rules, n) else { return bad(format!("{}: the parts do not form a tree", what)) };
    let mut work = vec![(of[&0], 0usize)];
    while let Some((i, start)) = work.pop() {
        let r = rules[i];
        let want = if i == of[&0] {
            History { dots: [RuleDot::new(id, 0), RuleDot::new(id, len as u32 - 1), RuleDot::new(id, len as u32)], ..h }
        } else {
            let s = r.rhs[0].usize();
            let first = if s < n { 1 } else { span[of[&s]] };
            History {
                origin: cfg_history::earley::ExternalOrigin::null(),
                dots: [RuleDot::none(), RuleDot::new(id, (start + first) as u32), RuleDot::none()],
                ..h
            }
        };
        if r.history != want || r.history.origin().is_null() == (i == of[&0]) {
            return bad(format!("{}: history of part {} spanning {}..{} is {:?} instead of {:?}", what, show(r), start, start + span[i], r.history, want));
        }
        let mut at = start;
        for s in r.rhs.iter() {
            if s.usize() < n {
                if body[at] != s.usize() {
                    return bad(format!("{}: symbol {} differs", what, at));
                }
                at += 1;
            } else {
                let j = of[&s.usize()];
                work.push((j, at));
                at += span[j];
            }
        }
    }
    Ok(())
}
