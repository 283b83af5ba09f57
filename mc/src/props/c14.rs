//! C14: loading and writing basic BNF.
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadExt;
use cfg_symbol::Symbol;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        families: vec![
            fam("chars", "every text up to 5 characters over a 13-letter alphabet", chars),
            fam("chars-in-rule", "every text of up to 3 characters put into a rule at every place", chars_in_rule),
            fam("tokens", "every token sequence up to a length (each viable prefix with every next token)", tokens),
            fam("rules", "every text of up to 3 rules with alternatives and repetitions", rules),
            fam("alphabet", "every character up to U+024F and some beyond, at every kind of place", alphabet),
            fam("large", "long texts", large),
            fam("far-away", "lines, columns and names whose numbers do not fit in 8 or 16 bits", far_away),
            fam("realistic", "texts of programming and data languages with any one token changed, and written and loaded again", realistic_texts),
            fam("round-trip", "every small grammar of named symbols, written and loaded", round_trip),
        ],
        assumptions: vec!["written grammars have distinct identifier names, at least one rule and their start symbol first"],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    P(&'static str),
}

/// Reference lexer. `Err(i)`: no token begins with character `i`.
fn lex(text: &str) -> Result<Vec<Tok>, usize> {
    lex_at(text).map(|toks| toks.into_iter().map(|t| t.0).collect())
}

/// The same, with the number of each token's first character.
fn lex_at(text: &str) -> Result<Vec<(Tok, usize)>, usize> {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        match cs[i] {
            ' ' | '\n' | '\t' => i += 1,
            c if c.is_ascii_alphabetic() || c == '_' => {
                let j = i;
                while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                    i += 1;
                }
                out.push((Tok::Id(cs[j..i].iter().collect()), j));
            }
            ':' if cs.get(i + 1) == Some(&':') && cs.get(i + 2) == Some(&'=') => {
                out.push((Tok::P("::="), i));
                i += 3;
            }
            c => {
                out.push((Tok::P([";", "|", "+", "*", "(", ")"].into_iter().find(|p| p.starts_with(c)).ok_or(i)?), i));
                i += 1;
            }
        }
    }
    Ok(out)
}

/// Line and column of a character.
fn place(text: &str, at: usize) -> (u32, u32) {
    let before: String = text.chars().take(at).collect();
    let line = 1 + before.matches('\n').count() as u32;
    let col = 1 + before.rsplit('\n').next().unwrap().chars().count() as u32;
    (line, col)
}

/// (name, repetition): 0 once, 1 one or more, 2 zero or more
type Item = (String, u8);
type RefRule = (String, Vec<Item>);

/// Reference parser: a deterministic automaton over tokens. `Err(i)`: token `i`
/// cannot continue the text (`i` = number of tokens: the text is incomplete).
fn parse(toks: &[Tok]) -> Result<Vec<RefRule>, usize> {
    let mut rules: Vec<RefRule> = vec![];
    let mut i = 0;
    if toks.is_empty() {
        return Err(0);
    }
    while i < toks.len() {
        let Tok::Id(lhs) = &toks[i] else { return Err(i) };
        i += 1;
        if toks.get(i) != Some(&Tok::P("::=")) {
            return Err(i);
        }
        i += 1;
        if toks.get(i) == Some(&Tok::P(";")) {
            rules.push((lhs.clone(), vec![]));
            i += 1;
            continue;
        }
        let mut alt: Vec<Item> = vec![];
        let mut some = false;
        loop {
            match toks.get(i) {
                Some(Tok::Id(x)) => {
                    some = true;
                    i += 1;
                    let rep = match toks.get(i) {
                        Some(Tok::P("+")) => 1,
                        Some(Tok::P("*")) => 2,
                        _ => 0,
                    };
                    if rep > 0 {
                        i += 1;
                    }
                    alt.push((x.clone(), rep));
                }
                Some(Tok::P("(")) => {
                    some = true;
                    i += 1;
                    if toks.get(i) != Some(&Tok::P(")")) {
                        return Err(i);
                    }
                    i += 1;
                }
                Some(Tok::P("|")) if some => {
                    rules.push((lhs.clone(), std::mem::take(&mut alt)));
                    some = false;
                    i += 1;
                }
                Some(Tok::P(";")) if some => {
                    rules.push((lhs.clone(), std::mem::take(&mut alt)));
                    i += 1;
                    break;
                }
                _ => return Err(i),
            }
        }
    }
    Ok(rules)
}

/// The language of an unnamed symbol over one item: which numbers of repetitions
/// (up to 10) it derives, provided it derives nothing else.
pub fn repetition(g: &G, named: &dyn Fn(usize) -> bool, sym: usize, item: usize) -> Option<Vec<bool>> {
    // Only rules of unnamed symbols take part; named symbols are letters.
    let sub = G { n: g.n, rules: g.rules.iter().filter(|r| !named(r.0)).cloned().collect(), roots: vec![], ..G::default() };
    let reach = sub.reachable(&[sym]);
    for s in 0..g.n {
        if reach[s] && named(s) && s != item {
            return None;
        }
    }
    let al = Alpha::new(1, 10);
    let mut base = vec![0; g.n];
    base[item] = al.letter(0);
    let l = al.langs(&sub, &base)[sym];
    Some((0..=10).map(|n| l >> n & 1 == 1).collect())
}

fn check_loaded(what: &str, cfg: &Cfg, want: &[RefRule]) -> Res {
    let g = G::read(cfg);
    let names = cfg.sym_source().names();
    let mut by_name: BTreeMap<String, usize> = BTreeMap::new();
    for (i, n) in names.iter().enumerate() {
        if let Some(n) = n {
            if by_name.insert(n.to_string(), i).is_some() {
                return bad(format!("{}: two symbols are named {}", what, &**n));
            }
        }
    }
    let mut want_names: Vec<&str> = want.iter().flat_map(|(l, r)| std::iter::once(&l[..]).chain(r.iter().map(|x| &x.0[..]))).collect();
    want_names.sort();
    want_names.dedup();
    if by_name.keys().map(|s| &s[..]).collect::<Vec<_>>() != want_names {
        return bad(format!("{}: names {:?}, expected {:?}", what, by_name.keys().collect::<Vec<_>>(), want_names));
    }
    let named = |s: usize| names.get(s).is_some_and(|n| n.is_some());
    if g.roots != [by_name[&want[0].0]] {
        return bad(format!("{}: start symbols {:?}, expected {}", what, g.roots, want[0].0));
    }
    let mut k = 0;
    for (r, rule) in g.rules.iter().zip(cfg.rules()) {
        if !named(r.0) {
            continue;
        }
        let Some((lhs, rhs)) = want.get(k) else { return bad(format!("{}: more rules than written: {}", what, g)) };
        k += 1;
        if r.0 != by_name[lhs] || r.1.len() != rhs.len() {
            return bad(format!("{}: rule {} is {:?}, expected {} ::= {:?}", what, k, r, lhs, rhs));
        }
        if rule.history.origin().id as usize != k {
            return bad(format!("{}: rule {} has origin {:?}", what, k, rule.history.origin().id));
        }
        for (&s, (x, rep)) in r.1.iter().zip(rhs) {
            let item = by_name[x];
            if *rep == 0 {
                if s != item {
                    return bad(format!("{}: rule {} is {:?}, expected {} ::= {:?}", what, k, r, lhs, rhs));
                }
            } else {
                let want: Vec<bool> = (0..=10).map(|n| *rep == 2 || n > 0).collect();
                if named(s) || repetition(&g, &named, s, item) != Some(want) {
                    return bad(format!("{}: in rule {} the repetition of {} derives something else: {}", what, k, x, g));
                }
            }
        }
    }
    if k != want.len() {
        return bad(format!("{}: {} rules, expected {}", what, k, want.len()));
    }
    Ok(())
}

fn check_text(cx: &mut Cx, text: &str) -> Res {
    if cx.want_note {
        cx.note = Some(format!("{:?}", text.chars().take(200).collect::<String>()));
    }
    let shown: String = text.chars().take(300).collect();
    let what = format!("loading {:?}", shown);
    let got = guard(&what, || Cfg::load(text))?;
    cx.op(1);
    let lexed = lex_at(text);
    let parsed = lexed.as_ref().ok().map(|t| parse(&t.iter().map(|t| t.0.clone()).collect::<Vec<_>>()));
    let want = parsed.clone().and_then(|p| p.ok());
    match (got, want) {
        (Ok(cfg), Some(w)) => {
            cx.state(&text);
            check_loaded(&what, &cfg, &w)
        }
        (Err(e), None) => {
            cx.state(&text);
            if let Err(i) = lexed {
                let at = place(text, i);
                if (e.line, e.col) != at {
                    return bad(format!("{}: the character at line {} column {} begins no token, reported is {}", what, at.0, at.1, e));
                }
            }
            // The first token that cannot continue the text, unless the text just ends too early.
            if let (Ok(toks), Some(Err(i))) = (&lexed, &parsed) {
                if let Some((tok, ch)) = toks.get(*i) {
                    let at = place(text, *ch);
                    if (e.line, e.col) != at {
                        return bad(format!("{}: {:?} at line {} column {} is unexpected, reported is {}", what, tok, at.0, at.1, e));
                    }
                }
            }
            let _ = guard(&what, || format!("{} {:?}", e, e))?;
            Ok(())
        }
        (Ok(_), None) => bad(format!("{}: accepted", what)),
        (Err(e), Some(_)) => bad(format!("{}: rejected: {}", what, e)),
    }
}

const CHARS: [char; 13] = ['a', ':', '=', ';', '|', '+', '*', '(', ')', ' ', '\n', '7', 'é'];

fn chars(cx: &mut Cx) -> Res {
    let n = cx.range(0, cx.tier(5, 6));
    let s: String = (0..n).map(|_| cx.pick(&CHARS)).collect();
    check_text(cx, &s)
}

fn chars_in_rule(cx: &mut Cx) -> Res {
    let more = ['a', ':', '=', ';', '|', '+', '*', '(', ')', ' ', '\n', '\t', '\r', '7', '_', 'Z', '-', '\u{0}', 'é', '"', '~', '\u{10ffff}'];
    let base = cx.pick(&["a::=b;", "A ::= b c | d* ;\nE ::= ;"]);
    let at: Vec<usize> = (0..=base.len()).collect();
    let at = cx.pick(&at);
    let cut = cx.choose(2);
    if at + cut > base.len() {
        return cx.skip();
    }
    let n = cx.range(0, cx.tier(2, 3));
    let mut s = base[..at].to_string();
    for _ in 0..n {
        s.push(cx.pick(&more));
    }
    s.push_str(&base[at + cut..]);
    check_text(cx, &s)
}

/// Characters up to U+024F and the ends of wider encodings.
pub fn some_char(cx: &mut Cx) -> char {
    let more = [0x2c6, 0x370, 0x7ff, 0x800, 0x1fff, 0x2028, 0x2080, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xff21, 0xffff, 0x10000, 0x1d400, 0x1f600, 0x10ffff];
    let k = cx.choose(0x250 + more.len());
    char::from_u32(if k < 0x250 { k as u32 } else { more[k - 0x250] }).unwrap()
}

fn alphabet(cx: &mut Cx) -> Res {
    let c = some_char(cx);
    let hole = cx.pick(&[
        "#", "#::=b;", "a# ::= b;", "a#b ::= b;", "a ::= #;", "a ::= b#;", "a ::= b#c d;", "a ::= #b;", "a ::=\nb #\n;", "a ::= b;#", "a ::= b; #", "#\na ::= b;", "a # b;", "a :#= b;", "a ::= b | c#;\n\tx ::= #;",
        "a ::= c# | c;", "c ::= c#; c# ::= c;", "é#", "a ::= b;\n  é#", "a ::= (#) b;",
    ]);
    check_text(cx, &hole.replace('#', &c.to_string()))
}

fn tokens(cx: &mut Cx) -> Res {
    let all = ["A", "b1", "::=", ";", "|", "+", "*", "(", ")"];
    let max = cx.tier(11, 13);
    let mut toks: Vec<&str> = vec![];
    let spacing = cx.choose(3);
    for _ in 0..cx.range(1, max) {
        let t = cx.pick(&all);
        toks.push(t);
        let v: Vec<Tok> = toks.iter().map(|t| lex(t).unwrap().remove(0)).collect();
        match parse(&v) {
            Err(i) if i < v.len() => break, // checked below
            _ => {}
        }
    }
    // Sequences that stopped early are generated once per length: keep the shortest.
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let both_id = t.as_bytes()[0].is_ascii_alphabetic() && toks[i - 1].as_bytes()[0].is_ascii_alphabetic();
            s.push_str(match spacing {
                0 => " ",
                1 if both_id => "\n",
                1 => "",
                _ => "\n\t ",
            });
        }
        s.push_str(t);
    }
    check_text(cx, &s)
}

fn rules(cx: &mut Cx) -> Res {
    let count = cx.range(1, 3);
    let names = ["A", "B", "x"];
    let mut s = String::new();
    for i in 0..count {
        let lhs = if i == 0 { "A" } else { cx.pick(&names[..2]) };
        s.push_str(lhs);
        s.push_str(" ::=");
        let alts = if count < 3 { cx.range(0, 2) } else { 1 };
        for a in 0..alts {
            if a > 0 {
                s.push_str(" |");
            }
            let len = if count == 1 { cx.range(1, 2) } else if count == 3 { cx.range(1, 2) } else { 1 };
            for _ in 0..len {
                s.push(' ');
                let k = cx.choose(if count == 1 { 10 } else { 6 });
                match k {
                    0 => s.push_str("()"),
                    1..=3 => s.push_str(names[k - 1]),
                    4 => s.push_str("x*"),
                    5 => s.push_str("B+"),
                    6 => s.push_str("A +"),
                    7 => s.push_str("B\n*"),
                    8 => s.push_str("x+"),
                    _ => s.push_str("A*"),
                }
            }
        }
        s.push_str(" ;\n");
    }
    check_text(cx, &s)
}

fn large(cx: &mut Cx) -> Res {
    let n = if cx.flag() { cx.range(1, 40) } else { cx.pick(&[64usize, 65, 127, 129, 255, 257, 500]) };
    let n = if cx.thorough && n > 40 { n * 3 } else { n };
    let s = match cx.choose(17) {
        // As little space as can be.
        14 => "A::=x|y*;".repeat(n) + "%",
        15 => format!("A::={}é;", "x*|".repeat(n)),
        16 => format!("A::={};", "B+".repeat(n)) + "A::=B;?",
        6 => format!("A ::= {};", "x ".repeat(n)),
        7 => format!("A ::= {} ;", (0..n).map(|i| ["x", "x", "y", "x*", "A"][i % 5].to_string() + " ").collect::<String>()),
        8 => format!("A ::= {} z;", "x y | ".repeat(n)),
        9 => "A ::= x;\n".repeat(n) + "A ::= ;",
        10 => (0..n).map(|i| format!("R{} ::= {};\n", i % 3, (0..i % 11).map(|k| format!("t{} ", (i + k) % 4)).collect::<String>())).collect::<String>(),
        // A character that begins no token, far down or far to the right.
        11 => "A ::= x;\n".repeat(n) + "  ?",
        12 => format!("A ::=\n{} é;", "x ".repeat(n)),
        13 => format!("{}A ::= x;{}$", "\n".repeat(n), "\t".repeat(n)),
        0 => (0..n).map(|i| format!("R{} ::= R{} x;\n", i, i + 1)).collect::<String>(),
        1 => format!("A ::= {};", (0..n).map(|i| format!("y{} ", i)).collect::<String>()),
        2 => format!("A ::= {} z;", (0..n).map(|i| format!("y{} | ", i % 5)).collect::<String>()),
        3 => format!("A ::= {};", (0..n).map(|i| if i % 2 == 0 { "B* " } else { "C+ " }).collect::<String>()),
        4 => format!("A{} ::= A{};", "b".repeat(n), "b".repeat(n + 1)),
        _ => format!("A ::= {};", "() ".repeat(n)),
    };
    check_text(cx, &s)
}

/// Lines, columns and names whose numbers do not fit in 8 or 16 bits.
fn far_away(cx: &mut Cx) -> Res {
    let n = cx.pick(&[254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073]);
    let start = match cx.choose(6) {
        0 => "\n".repeat(n),
        1 => "\t".repeat(n),
        2 => format!("B ::= {};", "x".repeat(n)),
        3 => format!("B ::=\n{}c;\n", "\n ".repeat(n)),
        4 => format!("B{} ::=\tc;", "y".repeat(n)),
        _ => format!("\n{}", "\r".repeat(n)),
    };
    let end = cx.pick(&["A ::= x;", "?", "A ::= x; ?", "A ::= x;\n\t?", "A ::= x", "é", "A ::= x é;", ""]);
    check_text(cx, &(start + end))
}

fn realistic_texts(cx: &mut Cx) -> Res {
    let mut text = cx.pick(REALISTIC).to_string();
    let big = text.len() > 2000;
    if cx.flag() {
        // Written and loaded again.
        let cfg = guard("loading", || Cfg::load(&text))?.map_err(|e| Fail::Bad(format!("rejected: {}", e)))?;
        let again = guard("to_bnf", || cfg.to_bnf())?;
        let want = parse(&lex(&text).unwrap()).map_err(|_| Fail::Bad("own text is wrong".into()))?;
        let back = guard("loading again", || Cfg::load(&again))?.map_err(|e| Fail::Bad(format!("{:?} rejected: {}", again, e)))?;
        return check_loaded("written and loaded again", &back, &want);
    }
    if cx.flag() {
        text = text.replace(';', ";\n\n").replace(' ', "\t");
    }
    let others: &[&str] = if big && !cx.thorough { &["*"] } else { &["::=", ";", "|", "+", "*", "(", ")", "new", "()", "%"] };
    let s = one_token_changed(cx, &text, others)?;
    check_text(cx, &s)
}

fn round_trip(cx: &mut Cx) -> Res {
    let sp = match cx.choose(3) {
        0 => Space::seq(2, 2, 1, 2, 2),
        1 => Space::set(3, 1, 3, 3, 2),
        _ => Space::seq(2, 1, 3, 3, 1),
    };
    let g = sp.choose(cx)?;
    let names = cx.pick(&[["S", "A", "b", "c", "d"], ["_1", "lexer", "Zz_9", "A", "a"], ["g1", "g0", "g3", "g2", "g9"]]);
    // Unnamed symbols get their display names.
    let unnamed = cx.flag();
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..g.n).map(|i| cfg.next_sym(if unnamed && i % 2 == 1 { None } else { Some(names[i].into()) })).collect();
    let shown = |i: usize| -> String {
        if unnamed && i % 2 == 1 {
            format!("g{}", i)
        } else {
            names[i].to_string()
        }
    };
    let mut all: Vec<String> = (0..g.n).map(shown).collect();
    all.sort();
    all.dedup();
    if all.len() < g.n {
        return cx.skip();
    }
    for (l, r) in &g.rules {
        let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
        cfg.rule(syms[*l]).rhs(rhs);
    }
    cfg.set_roots([syms[g.rules[0].0]]);
    if cx.want_note {
        cx.note = Some(format!("{} names {:?}", g, names));
    }
    let text = guard("to_bnf", || cfg.to_bnf())?;
    cx.op(2);
    let want: Vec<RefRule> = g.rules.iter().map(|(l, r)| (shown(*l), r.iter().map(|&s| (shown(s), 0)).collect())).collect();
    cx.state(&text);
    match guard(&format!("loading {:?}", text), || Cfg::load(&text))? {
        Ok(back) => {
            check_loaded(&format!("{} written as {:?}", g, text), &back, &want)?;
            // Writing again gives the same text.
            let again = back.to_bnf();
            if again != text {
                return bad(format!("{:?} was loaded and written as {:?}", text, again));
            }
            Ok(())
        }
        Err(e) => bad(format!("{} written as {:?} cannot be loaded: {}", g, text, e)),
    }
}
