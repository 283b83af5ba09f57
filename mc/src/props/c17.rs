//! C17: random generation, with every random choice explored.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{NegativeRule, Random};
use cfg_grammar::Cfg;
use cfg_symbol::Symbol;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        families: vec![
            fam("plain", "all random choice sequences up to a bounded number of choices, on all small grammars, starts and terminal limits", plain),
            fam("lookahead", "the same with negative lookaheads, forbidden texts and retry limits", lookahead),
            fam("characters", "the same with unusual and shared characters", characters),
            fam("lookahead-long", "grammars with several lookaheads in a row and long forbidden texts", lookahead_long),
            fam("scaled", "lookaheads by the dozen, long forbidden texts, many of them for one symbol, long outputs before and between", scaled),
            fam("wide", "outputs, terminal limits and forbidden texts at the edges of 8 and 16 bits", wide),
            fam("retries", "lookaheads that are met only after a number of retries, or never", retries),
            fam("bytes", "byte-driven generation for all short byte strings", bytes),
            fam("sole", "grammars without alternatives, generated with every kind of random source", sole),
            fam("shapes", "long outputs of large parametric grammars", large),
            deep("deep", "larger grammars and more choices", deeper),
        ],
        assumptions: vec![
            "grammars whose start symbol reaches a symbol deriving nothing are left out (generation from them need not end)",
            "a negative lookahead is a symbol with only an empty rule and a non-empty forbidden text",
            "a run asking for more than the bounded number of random choices is cut",
        ],
    }
}

#[derive(Default)]
struct Script {
    choices: Vec<usize>,
    arity: Vec<usize>,
    pos: usize,
    max: usize,
    /// Arguments of mutate_start, in order.
    restarts: Vec<u64>,
    max_restarts: usize,
}

#[derive(Clone)]
struct Scripted(Rc<RefCell<Script>>);

struct Cut;

impl GenRange for Scripted {
    fn generate(&mut self, limit: f64) -> f64 {
        let mut s = self.0.borrow_mut();
        let k = limit.round() as usize;
        if s.pos >= s.max {
            drop(s);
            std::panic::resume_unwind(Box::new(Cut));
        }
        let p = s.pos;
        s.pos += 1;
        if p == s.choices.len() {
            s.choices.push(0);
            s.arity.push(k);
        }
        let c = s.choices[p];
        // Anywhere in the share.
        c as f64 + [0.0, 0.5, 0.996][(p + c) % 3]
    }
    fn mutate_start(&mut self, attempt: u64) {
        let mut s = self.0.borrow_mut();
        s.restarts.push(attempt);
        if s.restarts.len() > s.max_restarts {
            drop(s);
            std::panic::resume_unwind(Box::new(Cut));
        }
    }
}

type Out = Result<(Vec<usize>, Vec<char>), RandomGenError>;

/// Runs `f` on every sequence of at most `max` random choices.
fn all_scripts(max: usize, max_restarts: usize, mut f: impl FnMut(&mut Scripted) -> Out) -> Result<Vec<(Vec<usize>, Vec<u64>, Option<Out>)>, Fail> {
    let mut out = vec![];
    let mut choices: Vec<usize> = vec![];
    let mut arity: Vec<usize> = vec![];
    loop {
        let s = Rc::new(RefCell::new(Script { choices: choices.clone(), arity: arity.clone(), pos: 0, max, restarts: vec![], max_restarts }));
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut Scripted(s.clone()))));
        let s = match Rc::try_unwrap(s) {
            Ok(s) => s.into_inner(),
            Err(_) => return bad("the random source is kept alive"),
        };
        let r = match r {
            Ok(r) => Some(r),
            Err(p) if p.is::<Cut>() => None,
            Err(p) => std::panic::resume_unwind(p),
        };
        let used = s.pos.min(s.choices.len());
        out.push((s.choices[..used].to_vec(), s.restarts.clone(), r));
        if out.len() > 200_000 {
            return bad("more random choices than alternatives");
        }
        choices = s.choices[..used].to_vec();
        arity = s.arity[..used].to_vec();
        loop {
            match choices.pop() {
                None => return Ok(out),
                Some(c) => {
                    if c + 1 < arity[choices.len()] {
                        choices.push(c + 1);
                        break;
                    }
                    arity.pop();
                }
            }
        }
    }
}

/// All leftmost derivations with at most `max` choices between alternatives:
/// the finished sentences (symbols in `stop` are kept as they are), and
/// whether some derivation gets longer than `limit`.
fn derivations(g: &G, start: usize, stop: &[bool], counts: &[bool], max: usize, limit: Option<usize>) -> (BTreeSet<Vec<usize>>, bool) {
    let mut out = BTreeSet::new();
    let mut over = false;
    let mut work: Vec<(Vec<usize>, Vec<usize>, usize)> = vec![(vec![], vec![start], 0)]; // done, to do reversed, choices
    while let Some((mut done, mut todo, n)) = work.pop() {
        loop {
            let Some(s) = todo.pop() else {
                out.insert(done);
                break;
            };
            if stop[s] {
                done.push(s);
                if let Some(l) = limit {
                    if done.iter().filter(|&&s| counts[s]).count() > l {
                        over = true;
                        break;
                    }
                }
                continue;
            }
            let alts: Vec<&Vec<usize>> = g.rules.iter().filter(|r| r.0 == s).map(|r| &r.1).collect();
            if alts.len() == 1 {
                todo.extend(alts[0].iter().rev());
                continue;
            }
            if n < max {
                for a in alts {
                    let mut t = todo.clone();
                    t.extend(a.iter().rev());
                    work.push((done.clone(), t, n + 1));
                }
            }
            break;
        }
    }
    (out, over)
}

/// Productive everywhere it can get from `start`.
fn ends(g: &G, start: usize) -> bool {
    let p = g.productive();
    let r = g.reachable(&[start]);
    (0..g.n).all(|s| !r[s] || p[s])
}

struct Neg {
    sym: usize,
    texts: Vec<&'static str>,
}

thread_local! {
    /// Characters of the last three symbols.
    static ALPHABET: std::cell::Cell<Option<[char; 3]>> = const { std::cell::Cell::new(None) };
}

fn char_of(g: &G, s: usize, silent: Option<usize>) -> Option<char> {
    if Some(s) == silent {
        None
    } else {
        // The last symbols are x, y, z ... unless another alphabet is in use.
        Some(ALPHABET.get().map_or((123 + s - g.n) as u8 as char, |a| a[s + 3 - g.n]))
    }
}

/// Explores everything for one grammar.
fn explore_one(cx: &mut Cx, g: &G, start: usize, limit: Option<(usize, usize)>, negs: &[Neg], silent: Option<usize>, max: usize) -> Res {
    if !ends(g, start) {
        return cx.skip();
    }
    let (cfg, syms) = g.build();
    let rules: Vec<NegativeRule> = negs.iter().flat_map(|n| n.texts.iter().map(|t| NegativeRule { sym: syms[n.sym], chars: t })).collect();
    let tos = |s: Symbol| char_of(g, s.usize(), silent);
    let what = || {
        format!(
            "start {}, limit {:?}, lookaheads {:?}, silent {:?}, {}",
            start, limit, negs.iter().map(|n| (n.sym, n.texts.clone())).collect::<Vec<_>>(), silent, g
        )
    };
    let lim = limit.map(|(t, a)| Limits { terminals: t as u64, negative_rule_attempts: a as u64 });
    let runs = match guard("generation", || {
        all_scripts(max, 40, |rng| {
            cfg.random(syms[start], lim, rng, &rules, |s, _| tos(s)).map(|(a, b)| (a.iter().map(|s| s.usize()).collect(), b))
        })
    }) {
        Ok(r) => r?,
        Err(Fail::Bad(m)) => return bad(format!("{}: {}", m, what())),
        Err(e) => return Err(e),
    };
    cx.op(runs.len() as u64);
    // What may come out.
    let term = g.terminals();
    let mut stop = term.clone();
    for n in negs {
        stop[n.sym] = true;
    }
    let (marked, over) = derivations(g, start, &stop, &term, max, limit.map(|l| l.0));
    let mut good: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut any_bad = false;
    'next: for m in &marked {
        for (i, s) in m.iter().enumerate() {
            for n in negs.iter().filter(|n| n.sym == *s) {
                let follow: String = m[i..].iter().filter(|&&s| term[s]).filter_map(|&s| char_of(g, s, silent)).collect();
                if n.texts.iter().any(|t| follow.starts_with(t)) {
                    any_bad = true;
                    continue 'next;
                }
            }
        }
        good.insert(m.iter().copied().filter(|&s| term[s]).collect());
    }
    let mut got: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut got_over = false;
    for (script, restarts, r) in &runs {
        match r {
            None => {}
            Some(Ok((s, c))) => {
                if let Some((l, _)) = limit {
                    if s.len() > l {
                        return bad(format!("choices {:?} gave {:?}, longer than the limit; {}", script, s, what()));
                    }
                }
                if !good.contains(s) {
                    return bad(format!("choices {:?} gave {:?}, which is not allowed; {}", script, s, what()));
                }
                let want: Vec<char> = s.iter().filter_map(|&s| char_of(g, s, silent)).collect();
                if c != &want {
                    return bad(format!("choices {:?} gave {:?} with characters {:?}; {}", script, s, c, what()));
                }
                got.insert(s.clone());
            }
            Some(Err(RandomGenError::LimitExceeded)) => {
                if limit.is_none() {
                    return bad(format!("choices {:?}: limit exceeded without a limit; {}", script, what()));
                }
                got_over = true;
            }
            Some(Err(RandomGenError::NegativeRuleAttemptsExceeded)) => {
                let allowed = limit.map_or(256 * 64, |l| l.1);
                if restarts.len() <= allowed {
                    return bad(format!("choices {:?}: gave up after {} retries of {}; {}", script, restarts.len(), allowed, what()));
                }
            }
        }
        // Retries at one place are bounded.
        if let Some((_, a)) = limit {
            let zeros = restarts.iter().filter(|&&x| x == 0).count();
            if restarts.iter().any(|&x| x as usize > a) || restarts.len() > (a + 1) * zeros.max(1) {
                return bad(format!("choices {:?}: retries {:?} with {} allowed; {}", script, restarts, a, what()));
            }
        }
        if negs.is_empty() && !restarts.is_empty() {
            return bad(format!("choices {:?}: retried without lookaheads; {}", script, what()));
        }
    }
    if got != good {
        let missing: Vec<_> = good.difference(&got).take(3).collect();
        return bad(format!("no choices give {:?}; {}", missing, what()));
    }
    if negs.is_empty() && got_over != over || (got_over && !over && !any_bad) || (got_over && limit.is_none()) {
        return bad(format!("limit reported exceeded: {}, can be exceeded: {}; {}", got_over, over, what()));
    }
    cx.state(&(g, start, limit, &good));
    if cx.want_note {
        cx.note = Some(format!("{}: {} runs, {} outputs", what(), runs.len(), good.len()));
    }
    Ok(())
}

fn plain(cx: &mut Cx) -> Res {
    let sp = match cx.choose(4) {
        0 => Space::seq(2, 2, 1, 2, 2),
        1 => Space { orders: 1, ..Space::set(2, 1, 3, 3, 2) },
        2 => Space { orders: 1, ..Space::set(2, 2, 3, 3, 2) },
        _ => Space { orders: 1, ..Space::set(1, 2, 1, 3, 3) },
    };
    let g = sp.choose(cx)?;
    let start = cx.pick(&[0, g.n - 1]);
    if start != 0 && g.rules.len() > 1 {
        return cx.skip();
    }
    let limit = cx.pick(&[None, Some((2, 0)), Some((0, 3)), Some((1, 1)), Some((4, 9))]);
    let silent = if sp.nt == 2 && cx.flag() { Some(g.n - 1) } else { None };
    let max = cx.tier(5, 7);
    explore_one(cx, &g, start, limit, &[], silent, max)
}

fn lookahead(cx: &mut Cx) -> Res {
    // S, A, the lookahead N, x, y.
    let sp = match cx.choose(3) {
        0 => Space { orders: 1, ..Space::set(2, 3, 1, 2, 2) },
        1 => Space { orders: 1, ..Space::set(1, 3, 2, 2, 3) },
        _ => Space { orders: 1, ..Space::set(2, 3, 3, 3, 2) },
    };
    let mut g = sp.choose(cx)?;
    let n = sp.nn;
    if !g.rules.iter().any(|r| r.1.contains(&n)) {
        return cx.skip();
    }
    g.rules.push((n, vec![]));
    let texts: Vec<&'static str> = cx.pick(&[vec!["y"], vec!["yz"], vec!["yy"], vec!["y", "zy"], vec!["z", "zy"]]);
    let limit = cx.pick(&[Some((3, 2)), None, Some((2, 0)), Some((4, 1))]);
    // Without a limit, hopeless retries are cut by the chooser.
    let silent = if cx.flag() { Some(g.n - 1) } else { None };
    let max = cx.tier(4, 5);
    explore_one(cx, &g, 0, limit, &[Neg { sym: n, texts }], silent, max)
}

fn characters(cx: &mut Cx) -> Res {
    // S, the lookahead N, and the three characters.
    let sp = Space { orders: 1, ..Space::set(1, 4, 2, 3, 2) };
    let mut g = sp.choose(cx)?;
    let alphabets: [([char; 3], [&[&'static str]; 3]); 5] = [
        ([' ', '\t', '\0'], [&[" "], &["\0 ", "\t\t"], &["\t"]]),
        (['é', '漢', '😀'], [&["é"], &["漢😀", "éé"], &["\u{c3}"]]),
        (['a', 'a', 'a'], [&["aa"], &["aaa", "b"], &["a"]]),
        (['a', 'A', 'a'], [&["a"], &["Aa"], &["aA", "AA"]]),
        (['\n', '\u{301}', '\u{10ffff}'], [&["\n"], &["\u{301}\n"], &["\u{10ffff}"]]),
    ];
    let (chars, texts) = cx.pick(&alphabets);
    let mut negs = vec![];
    if g.rules.iter().any(|r| r.1.contains(&1)) {
        negs.push(Neg { sym: 1, texts: cx.pick(&texts).to_vec() });
    }
    g.rules.push((1, vec![]));
    let limit = cx.pick(&[Some((3, 2)), Some((2, 0))]);
    ALPHABET.set(Some(chars));
    let r = explore_one(cx, &g, 0, limit, &negs, None, cx.tier(4, 5));
    ALPHABET.set(None);
    match r {
        Err(Fail::Bad(m)) => bad(format!("characters {:?}: {}", chars, m)),
        r => r,
    }
}

fn lookahead_long(cx: &mut Cx) -> Res {
    // 0 = S, 1 = A, 2 = N, 3 = M, 4 = y (x is unused), 5 = z: A -> y | z; S -> a chosen string.
    let len = cx.range(2, cx.tier(5, 6));
    let rhs: Vec<usize> = (0..len).map(|_| cx.range(1, 4)).collect();
    if !rhs.contains(&2) && !rhs.contains(&3) {
        return cx.skip();
    }
    let g = G { n: 6, rules: vec![(0, rhs), (1, vec![4]), (1, vec![5]), (2, vec![]), (3, vec![])], roots: vec![0], ..G::default() };
    let t1: Vec<&'static str> = cx.pick(&[vec!["y"], vec!["yz"], vec!["zyy"], vec!["zz", "y"], vec!["yzy", "zzy"]]);
    let t2: Vec<&'static str> = cx.pick(&[vec!["z"], vec!["zz"], vec!["yyz"], vec!["zyzy"]]);
    let limit = cx.pick(&[Some((6, 2)), Some((6, 5)), None]);
    explore_one(cx, &g, 0, limit, &[Neg { sym: 2, texts: t1 }, Neg { sym: 3, texts: t2 }], None, cx.tier(7, 9))
}

/// Parametric grammars: 0 = S, 1 = A -> y | z, 2.. = lookaheads, then x, y, z.
fn scaled(cx: &mut Cx) -> Res {
    let kind = cx.choose(12);
    let n = if cx.flag() { cx.range(1, cx.tier(20, 24)) } else { cx.pick(&[33usize, 65]) };
    let count = match kind {
        2 | 6 => n,
        9 | 10 => 3,
        _ => 1,
    };
    let syms = 2 + count + 3;
    let (y, z) = (syms - 2, syms - 1);
    let ys = |k: usize| vec![y; k];
    let leak = |t: String| -> &'static str { Box::leak(t.into_boxed_str()) };
    let text = |k: usize| leak("y".repeat(k) + "z");
    let near = cx.choose(3); // the forbidden text is exactly right, too long, or ends otherwise
    let exact = |k: usize| match near {
        0 => text(k),
        1 => text(k + 1),
        _ => leak("y".repeat(k + 1)),
    };
    let mut more: Vec<(usize, Vec<usize>)> = vec![];
    let mut texts: Vec<Vec<&'static str>> = vec![vec![]; count];
    let body: Vec<usize> = match kind {
        0 => {
            texts[0] = vec![exact(n)];
            [vec![2], ys(n), vec![1]].concat()
        }
        1 => {
            texts[0] = vec![exact(0)];
            [ys(n), vec![2, 1]].concat()
        }
        // Many different lookaheads before the same place; one of them forbids.
        2 => {
            let which = [0, n / 2, n - 1][near];
            for (i, t) in texts.iter_mut().enumerate() {
                *t = vec![if i == which { "z" } else { "zzz" }];
            }
            (2..2 + n).chain([1]).collect()
        }
        // Many forbidden texts for one of them.
        3 => {
            texts[0] = (0..n).map(|k| text(k)).collect();
            [vec![2], ys([0, n / 2, n - 1][near]), vec![1]].concat()
        }
        // The same lookahead again and again, all still undecided.
        4 => {
            texts[0] = vec![exact(n / 2)];
            [[2, y].repeat(n), vec![1]].concat()
        }
        // Behind another symbol.
        5 => {
            texts[0] = vec![exact(n)];
            more.push((syms, [vec![2], ys(n)].concat()));
            vec![y, syms, 1, 1]
        }
        // Different lookaheads, one after the other.
        6 => {
            let which = [0, n / 2, n - 1][near];
            for (i, t) in texts.iter_mut().enumerate() {
                *t = vec![if i == which { text(n - i) } else { "zz" }];
            }
            (0..n).flat_map(|i| [2 + i, y]).chain([1]).collect()
        }
        // Choices undone before a long tail.
        7 => {
            texts[0] = vec![leak("z".to_string() + &"y".repeat(n))];
            [ys(near), vec![2, 1], ys(n), vec![1]].concat()
        }
        // Silent symbols before and between.
        11 => {
            texts[0] = vec![["z", "yz", "zz"][near]];
            let x = vec![syms - 3; n];
            [&x[..], &[2], &x[..n / 2], &[1], &x[..], &[1]].concat()
        }
        // What an undone choice recorded must not count after many others.
        9 | 10 => {
            texts[0] = vec!["zzzzz"];
            texts[1] = vec!["yy"];
            texts[2] = vec!["z"];
            more.push((syms, vec![y, 4, y]));
            more.push((syms, vec![z, z]));
            let again = if kind == 9 { vec![2; n] } else { [2, y].repeat(n) };
            [again, vec![3, syms], ys(near)].concat()
        }
        // Nothing is allowed.
        _ => {
            texts[0] = vec![leak("y".repeat(n))];
            [vec![1, 2], ys(n + near)].concat()
        }
    };
    let total = syms + !more.is_empty() as usize;
    // The letters come last.
    let shift = |s: usize| if more.is_empty() { s } else if s == syms { 2 + count } else if s >= 2 + count { s + 1 } else { s };
    let mut rules = vec![(0, body), (1, vec![y]), (1, vec![z])];
    rules.extend((0..count).map(|i| (2 + i, vec![])));
    rules.extend(more.iter().cloned());
    for r in &mut rules {
        r.0 = shift(r.0);
        for s in &mut r.1 {
            *s = shift(*s);
        }
    }
    let g = G { n: total, rules, roots: vec![0], ..G::default() };
    let term = g.terminals();
    let len = derivations(&g, 0, &term, &term, 3, None).0.iter().map(|w| w.len()).max().unwrap_or(0);
    let limit = match cx.choose(4) {
        0 => Some((len, 3)),
        1 => Some((len.saturating_sub(1), 3)),
        2 => Some((len + 5, n.min(30))),
        _ => None,
    };
    let negs: Vec<Neg> = texts.into_iter().enumerate().map(|(i, texts)| Neg { sym: 2 + i, texts }).collect();
    explore_one(cx, &g, 0, limit, &negs, (kind == 11).then_some(total - 3), 5)
}

fn deeper(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space { orders: 1, ..Space::set(2, 1, 4, 4, 2) },
        1 => Space { orders: 1, ..Space::set(3, 1, 4, 4, 2) },
        _ => Space { orders: 1, ..Space::set(2, 1, 3, 3, 3) },
    };
    let g = sp.choose(cx)?;
    let limit = cx.pick(&[None, Some((3, 0))]);
    explore_one(cx, &g, 0, limit, &[], None, 6)
}

fn bytes(cx: &mut Cx) -> Res {
    let sp = Space { orders: 1, ..Space::set(1, 3, 2, 3, 2) };
    let mut g = sp.choose(cx)?;
    let n = 1;
    g.rules.push((n, vec![]));
    if !ends(&g, 0) {
        return cx.skip();
    }
    let k = g.rules.iter().filter(|r| r.0 == 0).count();
    let len = cx.range(0, cx.tier(3, 4));
    let input: Vec<u8> = (0..len).map(|_| cx.pick(&[0u8, 100, 255])).collect();
    // Bytes run out: zeros, the first alternative, for ever. It must end.
    let first = &g.rules[0].1;
    if first.contains(&0) {
        return cx.skip();
    }
    let _ = k;
    let (cfg, syms) = g.build();
    let negs: Vec<NegativeRule> = if g.rules.iter().any(|r| r.1.contains(&n)) { vec![NegativeRule { sym: syms[n], chars: "y" }] } else { vec![] };
    let limits = Limits { terminals: 3, negative_rule_attempts: 3 };
    let r = guard(&format!("bytes {:?} on {}", input, g), || {
        cfg.random(syms[0], Some(limits), &mut ByteSource::new(input.iter().copied()), &negs, |s, _| char_of(&g, s.usize(), None))
    })?;
    cx.op(1);
    if cx.want_note {
        cx.note = Some(format!("bytes {:?} on {}: {:?}", input, g, r));
    }
    cx.state(&(&g, &input));
    if let Ok((s, c)) = r {
        let s: Vec<usize> = s.iter().map(|s| s.usize()).collect();
        let term = g.terminals();
        let mut stop = term.clone();
        stop[n] = true;
        let marked = marked_words(&g, &stop, &term, 3);
        let ok = marked.iter().any(|m| {
            m.iter().copied().filter(|&x| term[x]).eq(s.iter().copied())
                && m.iter().enumerate().all(|(i, &x)| x != n || m[i..].iter().find(|&&x| term[x]).is_none_or(|&x| char_of(&g, x, None) != Some('y')))
        });
        if !ok {
            return bad(format!("bytes {:?} gave {:?} on {}", input, s, g));
        }
        if c != s.iter().filter_map(|&s| char_of(&g, s, None)).collect::<Vec<_>>() {
            return bad(format!("bytes {:?} gave {:?} as {:?} on {}", input, s, c, g));
        }
    }
    Ok(())
}

/// Without alternatives the random values make no difference.
fn sole(cx: &mut Cx) -> Res {
    let mut g = Space { orders: 1, ..Space::set(2, 2, 2, 3, 3) }.choose(cx)?;
    g.rules.sort();
    if (0..2).any(|s| g.rules.iter().filter(|r| r.0 == s).count() > 1) || !ends(&g, 0) {
        return cx.skip();
    }
    let (cfg, syms) = g.build();
    let limit = cx.pick(&[None, Some(0usize), Some(1), Some(2), Some(9)]);
    let silent = cx.pick(&[None, Some(g.n - 1)]);
    let limits = limit.map(|l| Limits { terminals: l as u64, negative_rule_attempts: 1 });
    let (words, _) = derivations(&g, 0, &g.terminals(), &g.terminals(), 0, None);
    let word = words.into_iter().next().unwrap();
    let chars: Vec<char> = word.iter().filter_map(|&s| char_of(&g, s, silent)).collect();
    let what = format!("limit {:?}, silent {:?}, {}", limit, silent, g);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    cx.state(&what);
    let runs = guard(&what, || {
        let one = |s: Symbol| char_of(&g, s.usize(), silent);
        [
            cfg.with_thread_rng(syms[0], limits, &[], |s, _| one(s)),
            cfg.random(syms[0], limits, &mut <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(3), &[], |s, _| one(s)),
            cfg.random(syms[0], limits, &mut ByteSource::new(std::iter::empty()), &[], |s, _| one(s)),
        ]
    })?;
    cx.op(3);
    for r in runs {
        let fits = limit.is_none_or(|l| word.len() <= l);
        match r {
            Ok((s, c)) if fits && s.iter().map(|s| s.usize()).eq(word.iter().copied()) && c == chars => {}
            Err(RandomGenError::LimitExceeded) if !fits => {}
            r => return bad(format!("{}: generated {:?} instead of {:?}", what, r, word)),
        }
    }
    Ok(())
}

/// Words with at most `max` counted symbols and few others.
fn marked_words(g: &G, stop: &[bool], counts: &[bool], max: usize) -> BTreeSet<Vec<usize>> {
    let mut langs: Vec<BTreeSet<Vec<usize>>> = (0..g.n).map(|s| if stop[s] { BTreeSet::from([vec![s]]) } else { BTreeSet::new() }).collect();
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            if stop[*l] {
                continue;
            }
            let mut acc = vec![vec![]];
            for &s in r {
                let mut next = vec![];
                for a in &acc {
                    for b in &langs[s] {
                        let c: Vec<usize> = [&a[..], &b[..]].concat();
                        if c.iter().filter(|&&x| counts[x]).count() <= max && c.iter().filter(|&&x| !counts[x]).count() <= max + 6 {
                            next.push(c);
                        }
                    }
                }
                acc = next;
            }
            for a in acc {
                ch |= langs[*l].insert(a);
            }
        }
        if !ch {
            return langs.swap_remove(0);
        }
    }
}

fn large(cx: &mut Cx) -> Res {
    let g = shapes(cx, &[1, 3, 9, 33]);
    let start = g.roots[0];
    if !ends(&g, start) {
        return cx.skip();
    }
    let (cfg, syms): (Cfg, _) = g.build();
    let max = 6;
    let limit = cx.pick(&[None, Some(9), Some(33), Some(1)]);
    let lim = limit.map(|l| Limits { terminals: l as u64, negative_rule_attempts: 0 });
    let runs = guard("generation", || {
        all_scripts(max, 0, |rng| cfg.random(syms[start], lim, rng, &[], |s, _| char::from_u32(s.usize() as u32 + 65)).map(|(a, b)| (a.iter().map(|s| s.usize()).collect(), b)))
    })??;
    cx.op(runs.len() as u64);
    let term = g.terminals();
    let (good, over) = derivations(&g, start, &term, &term, max, limit);
    let mut got = BTreeSet::new();
    let mut got_over = false;
    for (_, _, r) in &runs {
        match r {
            Some(Ok((s, c))) => {
                if c.iter().map(|&c| c as usize - 65).ne(s.iter().copied()) {
                    return bad(format!("{:?} as {:?} on {}", s, c, g));
                }
                got.insert(s.clone());
            }
            Some(Err(e)) => {
                if *e != RandomGenError::LimitExceeded {
                    return bad(format!("{:?} on {}", e, g));
                }
                got_over = true;
            }
            None => {}
        }
    }
    cx.state(&(&g, limit));
    if got != good || got_over != over {
        return bad(format!("outputs {:?} (limit exceeded {}) instead of {:?} ({}) on {}", got, got_over, good, over, g));
    }
    Ok(())
}

/// Picks the first alternative until generation is restarted, then the second.
#[derive(Clone)]
struct Stubborn(Rc<RefCell<Vec<u64>>>, u64);

impl GenRange for Stubborn {
    fn generate(&mut self, limit: f64) -> f64 {
        if self.1 < 1 {
            0.25 * limit
        } else {
            0.75 * limit
        }
    }
    fn mutate_start(&mut self, attempt: u64) {
        self.0.borrow_mut().push(attempt);
        self.1 += 1;
    }
}

/// Outputs and forbidden texts at the edges of 8 and 16 bits.
fn wide(cx: &mut Cx) -> Res {
    let len = cx.pick(&[254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 70_000]);
    let limit = cx.pick(&[None, Some(-2i64), Some(-1), Some(0), Some(1), Some(1 << 40)]);
    let kind = cx.choose(4);
    if cx.want_note {
        cx.note = Some(format!("{} symbols, terminal limit {:?}, lookahead {}", len, limit, kind));
    }
    let what = format!("{} symbols, terminal limit of the length and {:?}, lookahead {}", len, limit, kind);
    let mut cfg = Cfg::new();
    let [start, t, neg, choice, a, b] = cfg.sym();
    // `t` that many times, half of it through rules.
    let half = len / 2;
    let half_sym = cfg.next_sym(None);
    cfg.rule(half_sym).rhs(vec![t; half]);
    let mut body = vec![half_sym, half_sym];
    if len % 2 == 1 {
        body.push(t);
    }
    cfg.rule(neg).rhs([]);
    cfg.rule(choice).rhs([a]).rhs([b]);
    let long: &'static str = Box::leak("t".repeat(len - 1).into_boxed_str());
    let longer: &'static str = Box::leak(("t".repeat(len) + "x").into_boxed_str());
    let (rules, want, restarts): (Vec<NegativeRule>, Vec<Symbol>, usize) = match kind {
        // No lookahead.
        0 => {
            body.push(choice);
            (vec![], [&vec![t; len][..], &[a]].concat(), 0)
        }
        // After the long text.
        1 => {
            body.extend([neg, choice]);
            (vec![NegativeRule { sym: neg, chars: "x" }], [&vec![t; len][..], &[b]].concat(), 1)
        }
        // Before it, forbidding something that does not occur.
        2 => {
            body.insert(0, neg);
            body.push(choice);
            (vec![NegativeRule { sym: neg, chars: "txt" }, NegativeRule { sym: neg, chars: Box::leak(("t".repeat(len) + "y").into_boxed_str()) }], [&vec![t; len][..], &[a]].concat(), 0)
        }
        // Before it, forbidding all of it.
        _ => {
            body.insert(0, neg);
            body.push(choice);
            (vec![NegativeRule { sym: neg, chars: longer }, NegativeRule { sym: t, chars: long }], [&vec![t; len][..], &[b]].concat(), 1)
        }
    };
    cfg.rule(start).rhs(body);
    let log = Rc::new(RefCell::new(vec![]));
    let mut rng = Stubborn(log.clone(), 0);
    let lim = limit.map(|d| Limits { terminals: (len as i64 + 1 + d) as u64, negative_rule_attempts: 1 });
    let got = guard(&what, || cfg.random(start, lim, &mut rng, &rules, |s, _| Some(if s == t { 't' } else if s == a { 'x' } else { 'y' })))?;
    cx.op(1);
    cx.state(&(len, limit, kind));
    match (got, limit) {
        (Err(RandomGenError::LimitExceeded), Some(d)) if d < 0 => Ok(()),
        (Ok((s, c)), None | Some(0..)) => {
            if s != want {
                return bad(format!("{}: {} symbols, ending in {:?}", what, s.len(), s.last()));
            }
            if c.len() != s.len() || (0..c.len()).any(|i| c[i] != if s[i] == t { 't' } else if s[i] == a { 'x' } else { 'y' }) {
                return bad(format!("{}: the characters differ", what));
            }
            if log.borrow().len() != restarts {
                return bad(format!("{}: restarted {:?}", what, log.borrow()));
            }
            Ok(())
        }
        (Ok((s, _)), _) => bad(format!("{}: {} symbols were produced", what, s.len())),
        (Err(e), _) => bad(format!("{}: {:?}", what, e)),
    }
}

/// Picks the first alternative until restarted a number of times.
#[derive(Clone)]
struct Patient(Rc<RefCell<u64>>, u64);

impl GenRange for Patient {
    fn generate(&mut self, limit: f64) -> f64 {
        if *self.0.borrow() < self.1 {
            0.25 * limit
        } else {
            0.75 * limit
        }
    }
    fn mutate_start(&mut self, _: u64) {
        *self.0.borrow_mut() += 1;
    }
}

/// Lookaheads that are met only after a number of retries, or never.
fn retries(cx: &mut Cx) -> Res {
    let allowed = cx.pick(&[None, Some(0u64), Some(1), Some(2), Some(7), Some(254), Some(255), Some(256), Some(257), Some(65_535), Some(65_536), Some(70_000)]);
    let needed = cx.pick(&[0u64, 1, 2, 6, 7, 8, 254, 255, 256, 257, 258, 65_535, 65_536, 65_537, u64::MAX]);
    let place = cx.choose(3);
    let what = format!("{:?} retries allowed, {} needed, place {}", allowed, needed, place);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let mut cfg = Cfg::new();
    let [start, neg, choice, a, b, t] = cfg.sym();
    cfg.rule(neg).rhs([]);
    cfg.rule(choice).rhs([a]).rhs([b]);
    cfg.rule(start).rhs(match place {
        0 => vec![neg, choice],
        1 => vec![t, neg, choice],
        _ => vec![t, neg, neg, choice, t],
    });
    let log = Rc::new(RefCell::new(0));
    let mut rng = Patient(log.clone(), needed);
    let limits = allowed.map(|n| Limits { terminals: 9, negative_rule_attempts: n });
    let got = guard(&what, || cfg.random(start, limits, &mut rng, &[NegativeRule { sym: neg, chars: "x" }], |s, _| Some(if s == a { 'x' } else { 'y' })))?;
    cx.op(1);
    cx.state(&(allowed, needed, place));
    let n = *log.borrow();
    match got {
        Ok((s, _)) => {
            if s.contains(&a) || !s.contains(&b) || n != needed {
                return bad(format!("{}: {:?} after {} retries", what, s, n));
            }
            if allowed.is_some_and(|m| needed > m) {
                return bad(format!("{}: succeeded after {} retries", what, n));
            }
            Ok(())
        }
        Err(RandomGenError::NegativeRuleAttemptsExceeded) => match allowed {
            Some(m) if needed <= m => bad(format!("{}: gave up after {}", what, n)),
            None if needed <= 258 => bad(format!("{}: gave up after {}", what, n)),
            _ => Ok(()),
        },
        Err(e) => bad(format!("{}: {:?}", what, e)),
    }
}
