//! C15: loading rich BNF with a lexer.
use super::c14::{repetition, some_char};
use super::c16::{agree, one_edit, shape, usable, Chars, SHAPES};
use super::Prop;
use crate::engine::*;
use crate::gspace::*;
use crate::oracle::*;
use cfg_grammar::Cfg;
use cfg_load::advanced::{AdvancedGrammar, Token};
use cfg_load::CfgLoadAdvancedExt;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        families: vec![
            fam("chars", "every text up to 4 characters over a 17-letter alphabet", chars),
            fam("chars-in-text", "every text of up to 2 characters put into a text with a lexer, at every place", chars_in_text),
            fam("tokens", "every token sequence up to a length (each viable prefix with every next token)", tokens),
            fam("rules", "every text of up to 3 rules inside and outside lexers", rules),
            fam("fragments", "every rule of up to 3 fragments with actions", fragments),
            fam("actions", "every rule of up to 3 alternatives of 1 to 4 fragments, each with or without an action, and two such rules", actions),
            fam("strings", "every pair of quoted strings up to a length", strings),
            fam("regexps", "pairs of regular expressions and strings sharing characters", regexps),
            fam("alphabet", "every character up to U+024F and some beyond, at every kind of place", alphabet),
            fam("expressions", "pairs of shapes of expressions up to 24 parts and more, over their own words and all words one edit away", expressions),
            fam("far-away", "lines, columns and names whose numbers do not fit in 8 or 16 bits", far_away),
            fam("realistic", "texts of programming and data languages with any one token changed", realistic_texts),
            fam("large", "long texts", large),
        ],
        assumptions: vec![
            "names starting with __lex are not written by the user",
            "regular expressions are without look-around; regex-syntax defines which texts are expressions",
            "where a string that never ends is reported is not specified",
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    P(&'static str),
}

struct Lexed {
    toks: Vec<(Tok, u32, u32)>,
    /// A character no token begins with (its place), or a string that never ends (None).
    bad: Option<Option<(u32, u32)>>,
}

/// Reference lexer.
fn lex(text: &str) -> Lexed {
    let cs: Vec<char> = text.chars().collect();
    // Line and column of every character.
    let mut place = vec![];
    let (mut l, mut c) = (1, 1);
    for &ch in &cs {
        place.push((l, c));
        if ch == '\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    let mut i = 0;
    let mut toks = vec![];
    let mut error = None;
    while i < cs.len() {
        let (line, col) = place[i];
        let tok = match cs[i] {
            ' ' | '\n' | '\t' => {
                i += 1;
                continue;
            }
            c if c.is_ascii_alphabetic() || c == '_' => {
                let j = i;
                while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                    i += 1;
                }
                let s: String = cs[j..i].iter().collect();
                if s == "lexer" {
                    Tok::P("lexer")
                } else {
                    Tok::Id(s)
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                let mut closed = false;
                while i < cs.len() {
                    if cs[i] == '"' {
                        closed = true;
                        i += 1;
                        break;
                    }
                    if cs[i] == '\\' {
                        i += 1;
                        if i == cs.len() {
                            break;
                        }
                    }
                    s.push(cs[i]);
                    i += 1;
                }
                if !closed {
                    error = Some(None);
                    break;
                }
                Tok::Str(s)
            }
            ':' if cs.get(i + 1) == Some(&':') && cs.get(i + 2) == Some(&'=') => {
                i += 3;
                Tok::P("::=")
            }
            c => match [";", "|", "+", "*", "~", "(", ")", "{", "}", ">"].into_iter().find(|p| p.starts_with(c)) {
                Some(p) => {
                    i += 1;
                    Tok::P(p)
                }
                None => {
                    error = Some(Some((line, col)));
                    break;
                }
            },
        };
        toks.push((tok, line, col));
    }
    Lexed { toks, bad: error }
}

#[derive(Clone, Debug, PartialEq)]
enum Frag {
    Name(String, u8),
    Str(String),
    Call(String, String),
}

#[derive(Clone, Debug)]
struct RefRule {
    /// The token the rule begins with.
    at: usize,
    /// The tokens its fragments begin with.
    rhs_at: Vec<usize>,
    lhs: String,
    rhs: Vec<Frag>,
    action: Option<String>,
    lexical: bool,
}

struct P<'a> {
    t: &'a [(Tok, u32, u32)],
    i: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|t| &t.0)
    }
    fn eat(&mut self, p: &'static str) -> bool {
        let hit = self.peek() == Some(&Tok::P(p));
        self.i += hit as usize;
        hit
    }
    fn need(&mut self, p: &'static str) -> Result<(), usize> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn id(&mut self) -> Result<String, usize> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(self.i),
        }
    }
    fn string(&mut self) -> Result<String, usize> {
        match self.peek() {
            Some(Tok::Str(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(self.i),
        }
    }
    fn frag(&mut self) -> Result<Frag, usize> {
        if let Some(Tok::Str(_)) = self.peek() {
            return Ok(Frag::Str(self.string()?));
        }
        let name = self.id()?;
        Ok(if self.eat("+") {
            Frag::Name(name, 1)
        } else if self.eat("*") {
            Frag::Name(name, 2)
        } else if self.eat("(") {
            let s = self.string()?;
            self.need(")")?;
            Frag::Call(name, s)
        } else {
            Frag::Name(name, 0)
        })
    }
    fn rule(&mut self, lexical: bool, out: &mut Vec<RefRule>) -> Result<(), usize> {
        let at = self.i;
        let lhs = self.id()?;
        self.need("::=")?;
        if self.eat(";") {
            out.push(RefRule { at, rhs_at: vec![], lhs, rhs: vec![], action: None, lexical });
            return Ok(());
        }
        if self.eat(">") {
            let action = Some(self.id()?);
            self.need(";")?;
            out.push(RefRule { at, rhs_at: vec![], lhs, rhs: vec![], action, lexical });
            return Ok(());
        }
        loop {
            let mut rhs_at = vec![self.i];
            let mut rhs = vec![self.frag()?];
            while self.eat("~") {
                rhs_at.push(self.i);
                rhs.push(self.frag()?);
            }
            let action = if self.eat(">") { Some(self.id()?) } else { None };
            out.push(RefRule { at, rhs_at, lhs: lhs.clone(), rhs, action, lexical });
            if !self.eat("|") {
                break;
            }
        }
        self.need(";")
    }
    /// `Err(i)`: token `i` cannot continue the text.
    fn start(&mut self) -> Result<Vec<RefRule>, usize> {
        let mut plain = vec![];
        let mut lexical = vec![];
        if self.t.is_empty() {
            return Err(0);
        }
        while self.i < self.t.len() {
            if self.eat("lexer") {
                self.need("{")?;
                self.rule(true, &mut lexical)?;
                while !self.eat("}") {
                    self.rule(true, &mut lexical)?;
                }
            } else {
                self.rule(false, &mut plain)?;
            }
        }
        plain.extend(lexical);
        Ok(plain)
    }
}

fn same_token(t: &Tok, u: &Token) -> bool {
    match (t, u) {
        (Tok::Id(a), Token::Ident(b)) | (Tok::Str(a), Token::String(b)) => a == b,
        (Tok::P(p), u) => {
            *u == match *p {
                ";" => Token::Semicolon,
                "|" => Token::Pipe,
                "+" => Token::Plus,
                "*" => Token::Mul,
                "~" => Token::TildeOp,
                "(" => Token::LParen,
                ")" => Token::RParen,
                "{" => Token::LBrace,
                "}" => Token::RBrace,
                ">" => Token::GtOp,
                "::=" => Token::BnfOp,
                _ => Token::LexerKeyword,
            }
        }
        _ => false,
    }
}

fn check_text(cx: &mut Cx, text: &str) -> Res {
    let shown: String = text.chars().take(400).collect();
    let what = format!("loading {:?}", shown);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    let lexed = lex(text);
    let parsed = P { t: &lexed.toks, i: 0 }.start();
    // Regular expressions with look-around are outside the property.
    if let Ok(rules) = &parsed {
        if lexed.bad.is_none() {
            for f in rules.iter().flat_map(|r| &r.rhs) {
                if let Frag::Call(_, e) = f {
                    if usable(e).is_none() {
                        return cx.skip();
                    }
                }
            }
        }
    }
    let got = guard(&what, || Cfg::load_advanced(text))?;
    cx.op(1);
    cx.state(&text);
    if let Err(e) = &got {
        let _ = guard(&what, || format!("{} {:?}", e, e))?;
    }
    // A token that cannot continue comes before any later trouble.
    if let Err(i) = parsed {
        if i < lexed.toks.len() {
            let (tok, line, col) = &lexed.toks[i];
            return match got {
                Ok(_) => bad(format!("{}: accepted", what)),
                Err(e) if e.line == *line && e.col == *col && e.token.as_ref().is_some_and(|t| same_token(tok, t)) => Ok(()),
                Err(e) => bad(format!("{}: {:?} at line {} column {} is reported as: {}", what, tok, line, col, e)),
            };
        }
    }
    match lexed.bad {
        Some(place) => {
            return match (got, place) {
                (Ok(_), _) => bad(format!("{}: accepted", what)),
                (Err(_), None) => Ok(()),
                (Err(e), Some((line, col))) if (e.line, e.col) == (line, col) => Ok(()),
                (Err(e), Some((line, col))) => {
                    bad(format!("{}: the character at line {} column {} is reported as: {}", what, line, col, e))
                }
            };
        }
        None => {}
    }
    let rules = match parsed {
        Ok(r) => r,
        Err(_) => {
            return match got {
                Ok(_) => bad(format!("{}: accepted though incomplete", what)),
                Err(_) => Ok(()),
            };
        }
    };
    let plain: BTreeSet<&str> = rules.iter().filter(|r| !r.lexical).map(|r| &r.lhs[..]).collect();
    // The tokens at which a meaningless rule or fragment stands.
    let mut wrong: Vec<usize> = rules.iter().filter(|r| r.lexical && plain.contains(&r.lhs[..])).map(|r| r.at).collect();
    for (f, &at) in rules.iter().flat_map(|r| r.rhs.iter().zip(&r.rhs_at)) {
        if let Frag::Call(name, e) = f {
            if name != "Regexp" {
                wrong.push(at);
            } else if !matches!(usable(e), Some(Ok(_))) {
                // The expression itself follows the parenthesis.
                wrong.push(at + 2);
            }
        }
    }
    let denoted = wrong.is_empty();
    if let (Err(e), false) = (&got, denoted) {
        if !wrong.iter().any(|&i| (lexed.toks[i].1, lexed.toks[i].2) == (e.line, e.col)) {
            return bad(format!("{}: reported as: {}", what, e));
        }
    }
    match (got, denoted) {
        (Ok(g), true) => check_loaded(&what, g, &rules),
        (Err(_), false) => Ok(()),
        (Ok(_), false) => bad(format!("{}: accepted", what)),
        (Err(e), true) => bad(format!("{}: rejected: {}", what, e)),
    }
}

fn check_loaded(what: &str, mut ag: AdvancedGrammar, rules: &[RefRule]) -> Res {
    let g = G::read(&ag.cfg);
    let names = ag.cfg.sym_source().names();
    let mut by_name: BTreeMap<String, usize> = BTreeMap::new();
    for (i, n) in names.iter().enumerate() {
        if let Some(n) = n {
            if by_name.insert(n.to_string(), i).is_some() {
                return bad(format!("{}: two symbols are named {}", what, &**n));
            }
        }
    }
    // Names: those written, and one per distinct quoted string, in order.
    let mut strings: Vec<&str> = vec![];
    let mut want_names: BTreeSet<String> = BTreeSet::new();
    for r in rules {
        want_names.insert(r.lhs.clone());
        for f in &r.rhs {
            match f {
                Frag::Name(n, _) => {
                    want_names.insert(n.clone());
                }
                Frag::Str(s) => {
                    if !strings.contains(&&s[..]) {
                        strings.push(s);
                    }
                }
                _ => {}
            }
        }
    }
    let lex_name = |s: &str| format!("__lex{}", strings.iter().position(|t| *t == s).unwrap());
    for s in &strings {
        want_names.insert(lex_name(s));
    }
    if by_name.keys().cloned().collect::<BTreeSet<_>>() != want_names {
        return bad(format!("{}: names {:?}, expected {:?}", what, by_name.keys().collect::<Vec<_>>(), want_names));
    }
    let map: BTreeMap<String, usize> = ag.sym_map.iter().map(|(k, v)| (k.clone(), v.usize())).collect();
    if map != by_name {
        return bad(format!("{}: symbols by name {:?}, expected {:?}", what, map, by_name));
    }
    let named = |s: usize| names.get(s).is_some_and(|n| n.is_some());
    let is_lex = |s: usize| names.get(s).is_some_and(|n| n.as_ref().is_some_and(|n| n.starts_with("__lex")));
    if g.roots != [by_name[&rules[0].lhs]] {
        return bad(format!("{}: start symbols {:?}, expected {}", what, g.roots, rules[0].lhs));
    }
    // Lexical symbols.
    let lexical: BTreeSet<usize> =
        rules.iter().filter(|r| r.lexical).map(|r| by_name[&r.lhs]).chain(strings.iter().map(|s| by_name[&lex_name(s)])).collect();
    let got: BTreeSet<usize> = ag.sbs.iter().map(|s| s.usize()).collect();
    if got != lexical {
        return bad(format!("{}: lexical symbols {:?}, expected {:?}", what, got, lexical));
    }
    // Actions.
    let want: BTreeMap<usize, Option<String>> = rules.iter().enumerate().map(|(i, r)| (i + 1, r.action.clone())).collect();
    if ag.actions != want {
        return bad(format!("{}: actions {:?}, expected {:?}", what, ag.actions, want));
    }
    // Characters.
    ag.lexer_map.compute();
    let mut used: BTreeSet<char> = strings.iter().flat_map(|s| s.chars()).collect();
    let spaces = if rules.iter().any(|r| r.rhs.iter().any(|f| matches!(f, Frag::Call(..)))) {
        used.extend(['a', 'b', 'é']);
        vec![Chars::new(&['a', 'b', 'é'], 4), Chars::new(&['0', 'A', '\n', '\u{10ffff}'], 3)]
    } else {
        vec![]
    };
    // A quoted string derives exactly its characters.
    let terminal = g.terminals();
    for s in &strings {
        let sym = by_name[&lex_name(s)];
        let alts: BTreeSet<&Vec<usize>> = g.rules.iter().filter(|r| r.0 == sym).map(|r| &r.1).collect();
        let cs: Vec<char> = s.chars().collect();
        if alts.is_empty() {
            return bad(format!("{}: the string {:?} derives nothing", what, s));
        }
        for a in alts {
            if a.len() != cs.len() {
                return bad(format!("{}: the string {:?} derives {} symbols", what, s, a.len()));
            }
            for (&x, &c) in a.iter().zip(&cs) {
                // The symbol of a character stands for it and no other.
                if !terminal[x] || named(x) {
                    return bad(format!("{}: the string {:?} uses symbol {}, which has rules or a name", what, s, x));
                }
                let neighbours = [char::from_u32((c as u32).wrapping_sub(1)), char::from_u32(c as u32 + 1)];
                for &d in used.iter().chain(neighbours.iter().flatten()) {
                    if ag.lexer_map.get(d).iter().any(|t| t.usize() == x) != (c == d) {
                        return bad(format!("{}: in the string {:?}, {:?} is wrongly mapped for {:?}", what, s, d, c));
                    }
                }
            }
        }
    }
    let langs: Vec<Vec<u128>> = spaces.iter().map(|cs| cs.grammar(&g, &ag.lexer_map)).collect();
    let mut k = 0;
    for (r, rule) in g.rules.iter().zip(ag.cfg.rules()) {
        if !named(r.0) || is_lex(r.0) {
            continue;
        }
        let Some(RefRule { lhs, rhs, .. }) = rules.get(k) else { return bad(format!("{}: more rules than written: {}", what, g)) };
        k += 1;
        let oops = || bad(format!("{}: rule {} is {:?} in {}, expected {} ::= {:?}", what, k, r, g, lhs, rhs));
        if r.0 != by_name[lhs] || r.1.len() != rhs.len() {
            return oops();
        }
        if rule.history.origin().id as usize != k {
            return bad(format!("{}: rule {} has origin {:?}", what, k, rule.history.origin().id));
        }
        for (&s, f) in r.1.iter().zip(rhs) {
            match f {
                Frag::Name(x, 0) => {
                    if s != by_name[x] {
                        return oops();
                    }
                }
                Frag::Name(x, rep) => {
                    let want: Vec<bool> = (0..=10).map(|n| *rep == 2 || n > 0).collect();
                    if named(s) || repetition(&g, &named, s, by_name[x]) != Some(want) {
                        return bad(format!("{}: in rule {} the repetition of {} derives something else: {}", what, k, x, g));
                    }
                }
                Frag::Str(x) => {
                    if s != by_name[&lex_name(x)] {
                        return oops();
                    }
                }
                Frag::Call(_, e) => {
                    if named(s) {
                        return oops();
                    }
                    let Some(Ok(hir)) = usable(e) else { return Err(Fail::Skip) };
                    for (cs, l) in spaces.iter().zip(&langs) {
                        let Some(want) = cs.hir(&hir) else { return Err(Fail::Skip) };
                        if l[s] != want {
                            return bad(format!(
                                "{}: the expression {:?} lacks {} and has extra {} in {}",
                                what,
                                e,
                                cs.show(want & !l[s]),
                                cs.show(l[s] & !want),
                                g
                            ));
                        }
                    }
                }
            }
        }
    }
    if k != rules.len() {
        return bad(format!("{}: {} rules, expected {}", what, k, rules.len()));
    }
    Ok(())
}

fn chars(cx: &mut Cx) -> Res {
    let all = ['a', ':', '=', ';', '|', '+', '~', '(', ')', '{', '>', '"', '\\', ' ', '\n', '7', 'é'];
    let n = cx.range(0, cx.tier(4, 5));
    let s: String = (0..n).map(|_| cx.pick(&all)).collect();
    let s = if cx.flag() { format!("\n a::={}", s) } else { s };
    check_text(cx, &s)
}

fn chars_in_text(cx: &mut Cx) -> Res {
    let more = [
        'a', ':', '=', ';', '|', '+', '*', '~', '(', ')', '{', '}', '>', '"', '\\', ' ', '\n', '\t', '\r', '7', '_', '-', '\u{0}', 'é', '\u{10ffff}',
    ];
    let base = cx.pick(&[
        "A::=b~c>f;\nlexer{ x::=\"y\\\"z\n\"|Regexp(\"[a-b]*\");}\nC::=d+;",
        "lexer { a ::= \"a\"; }\n\nB ::= a* | ;",
    ]);
    let at: Vec<usize> = (0..=base.len()).collect();
    let at = cx.pick(&at);
    let cut = cx.choose(2);
    if at + cut > base.len() {
        return cx.skip();
    }
    let n = cx.range(0, cx.tier(2, 3));
    let mut s = base[..at].to_string();
    for _ in 0..n {
        s.push(cx.pick(&more));
    }
    s.push_str(&base[at + cut..]);
    check_text(cx, &s)
}

fn alphabet(cx: &mut Cx) -> Res {
    let c = some_char(cx);
    let hole = cx.pick(&[
        "#", "#::=b;", "a# ::= b;", "a#b ::= b;", "a ::= #;", "a ::= b#;", "a ::= b#c;", "a ::= b ~ #c > c#;", "a ::=\nb ~ #\n;", "a ::= b;#", "a ::= b; #", "#\na ::= b;", "a # b;", "a :#= b;",
        "a ::= c#* | c;", "c ::= c#+; c# ::= c;", "\"é#", "a ::= b;\n  é#", "a ::= b;\n \"é\n é\"#", "lexer# { a ::= b; }", "lexer { #a ::= \"b\"; } ", "lexer { a ::= \"#\"; }", "lexer { a ::= \"b#\"; c ::= \"#b\"; }",
        "a ::= \"\\#\";", "a ::= \"x\\#\\#y\" ~ d;", "a ::= \"é\n#\" ~ ;", "lexer { a ::= Regexp(\"#\"); }", "lexer { a ::= Regexp(\"[b#]+\") ~ \"b\"; }", "lexer { a ::= Regexp(\"x#y\"); b ::= \"#\"; }", "lexer { a ::= Regexp#(\"x\"); }", "a ::= > #; b ::= x > f#;",
    ]);
    check_text(cx, &hole.replace('#', &c.to_string()))
}

/// Lines, columns and names whose numbers do not fit in 8 or 16 bits.
fn far_away(cx: &mut Cx) -> Res {
    let n = cx.pick(&[254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073]);
    let start = match cx.choose(7) {
        0 => "\n".repeat(n),
        1 => "\t".repeat(n),
        2 => format!("B ::= {};", "x".repeat(n)),
        3 => format!("B ::=\n{}c;\n", "\n ".repeat(n)),
        4 => format!("B{} ::=\tc;", "y".repeat(n)),
        5 => format!("A ::= \"{}\";", "q".repeat(n)),
        _ => format!("\n{}", "\r".repeat(n)),
    };
    let end = cx.pick(&["A ::= x;", "é", "A ::= x; é", "A ::= x ~ ~ y;", "A ::= x;\n\tA x", "A ::= \"q", "A ::= x ~", "lexer { A ::= Regexp(\"é*\") ) }", "A ::= x > 7;", ""]);
    check_text(cx, &(start + end))
}

fn realistic_texts(cx: &mut Cx) -> Res {
    let calc = include_str!("../../data/calc.adv");
    let k = cx.choose(1 + REALISTIC.len());
    let text: String = if k == 0 {
        if cx.flag() {
            calc.replace('\n', " ").replace(" ~ ", "~")
        } else {
            calc.to_string()
        }
    } else {
        let mut s = String::new();
        for line in REALISTIC[k - 1].lines() {
            let (l, r) = line.split_once("::=").unwrap();
            s += &format!("{}::= {};\n", l, r.trim_end_matches(';').split_whitespace().collect::<Vec<_>>().join(" ~ "));
        }
        s
    };
    let others: &[&str] = if text.len() > 5000 && !cx.thorough { &[] } else { &["::=", ";", "|", "+", "*", "(", ")", "{", "}", "~", ">", "lexer", "new", "\"new\"", "Regexp(\"new|[a-c]+\")", "\"", "%"] };
    let s = one_token_changed(cx, &text, others)?;
    check_text(cx, &s)
}

fn tokens(cx: &mut Cx) -> Res {
    let all = ["A", "::=", ";", "|", "+", "*", "~", "(", ")", "{", "}", ">", "lexer", "\"b\nc\"", "b_1"];
    let max = cx.tier(9, 10);
    let mut toks: Vec<&str> = vec![];
    let spacing = cx.choose(3);
    let len = cx.range(1, max);
    for i in 0..len {
        let t = if i + 1 < len && cx.thorough { cx.pick(&all[..14]) } else { cx.pick(&all) };
        toks.push(t);
        let text = toks.join(" ");
        let v = lex(&text);
        if (P { t: &v.toks, i: 0 }).start().is_err_and(|i| i < v.toks.len()) {
            // Every next token after a viable prefix is tried; longer ones add nothing.
            if i + 1 < len {
                return cx.skip();
            }
        }
    }
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let word = |t: &str| t.as_bytes()[0].is_ascii_alphabetic();
            s.push_str(match spacing {
                0 => " ",
                1 if word(t) && word(toks[i - 1]) => "\n",
                1 => "",
                _ => "\n\t ",
            });
        }
        s.push_str(t);
    }
    check_text(cx, &s)
}

fn rules(cx: &mut Cx) -> Res {
    let count = cx.range(1, 3);
    let names = ["A", "B", "x", "lexer_1"];
    let mut s = String::new();
    let mut open = false;
    for i in 0..count {
        // Outside, in the current lexer block, or in a new one.
        let place = cx.choose(if open { 3 } else { 2 });
        if place != 2 && open {
            s.push_str("}\n");
            open = false;
        }
        if place == 1 {
            s.push_str("lexer { ");
            open = true;
        }
        let lhs = if i == 0 { "A" } else { cx.pick(&names[..2 + (count == 2) as usize]) };
        s.push_str(lhs);
        s.push_str(" ::=");
        let alts = if count < 3 { cx.range(0, 2) } else { cx.range(0, 1) };
        if alts == 0 && cx.flag() {
            s.push_str(" > act0");
        }
        for a in 0..alts {
            if a > 0 {
                s.push_str(" |");
            }
            let len = if count == 1 { cx.range(1, 2) } else { 1 };
            for f in 0..len {
                s.push_str(if f > 0 { " ~ " } else { " " });
                let k = cx.choose(if count == 1 { 12 } else { 8 });
                match k {
                    0..=2 => s.push_str(names[k]),
                    3 => s.push_str("x*"),
                    4 => s.push_str("B +"),
                    5 => s.push_str("\"x\""),
                    6 => s.push_str("\"xy\""),
                    7 => s.push_str("Regexp(\"x|y\")"),
                    8 => s.push_str("Regexp(\"[xy]+\")"),
                    9 => s.push_str("regexp(\"x\")"),
                    10 => s.push_str("Regexp(\"(\")"),
                    _ => s.push_str("lexer_1*"),
                }
            }
            match cx.choose(2 + (count == 1) as usize) {
                0 => {}
                1 => s.push_str(" > do_it"),
                _ => s.push_str("> B"),
            }
        }
        s.push_str(" ;\n");
    }
    if open {
        s.push('}');
    }
    check_text(cx, &s)
}

fn fragments(cx: &mut Cx) -> Res {
    let frags = ["A", "B", "B*", "A+", "\"\"", "\"a\"", "\"aa\"", "\"b\"", "Regexp(\"a\")", "Regexp(\"\")", "Regexp(\"[ab]\")", "Regexp(\"a*b?\")"];
    let n = cx.range(1, 3);
    let alt = cx.choose(2);
    let mut s = String::new();
    let inside = cx.flag();
    if inside {
        s.push_str("lexer {\n");
    }
    s.push_str("A ::= ");
    for i in 0..n {
        if i > 0 {
            s.push_str(if alt == 1 && i == 1 { " > first | " } else { " ~ " });
        }
        s.push_str(&cx.pick(&frags));
    }
    if cx.flag() {
        s.push_str(" > last");
    }
    s.push(';');
    if cx.flag() {
        s.push_str(" B ::= \"a\" ;");
    }
    if inside {
        s.push('}');
    }
    check_text(cx, &s)
}

fn actions(cx: &mut Cx) -> Res {
    let rules = cx.range(1, 2);
    let mut s = String::new();
    let mut plain = true;
    for i in 0..rules {
        let inside = cx.flag();
        if inside && plain {
            s.push_str("lexer { ");
        }
        if !inside && !plain {
            s.push_str("} ");
        }
        plain = !inside;
        s.push_str(["A ::=", "B ::="][i]);
        let alts = cx.range(1, cx.tier(if rules == 1 { 3 } else { 2 }, 3));
        let frag = cx.pick(&["x", "\"q\"", "x*"]);
        for a in 0..alts {
            let len = cx.range(1, if rules == 1 { 5 } else { 3 });
            s.push_str(if a > 0 { " | " } else { " " });
            for k in 0..len {
                if k > 0 {
                    s.push_str(" ~ ");
                }
                s.push_str(if k % 2 == 0 { frag } else { "y" });
            }
            // The same action may come again, and actions may be named as symbols.
            match cx.choose(3) {
                0 => {}
                1 => s.push_str(" > act"),
                _ => s.push_str(["> one", "> two", "> x"][a]),
            }
        }
        s.push_str(";\n");
    }
    if !plain {
        s.push('}');
    }
    check_text(cx, &s)
}

fn strings(cx: &mut Cx) -> Res {
    // Contents as written, between the quotes.
    let parts = ["a", "b", "\\\\", "\\\"", "\\n", "\n", "é", "\u{10ffff}", "\u{7f}", "\u{80}", ";", "~", "\u{0}", " "];
    let total = cx.range(0, cx.tier(4, 5));
    let first = cx.range(0, total);
    let mut a = String::new();
    let mut b = String::new();
    for i in 0..total {
        let p = cx.pick(&parts);
        if i < first {
            a.push_str(p);
        } else {
            b.push_str(p);
        }
    }
    let text = if cx.flag() { format!("A ::= \"{}\" ~ \"{}\";", a, b) } else { format!("A ::= \"{}\";lexer{{B ::= C | \"{}\";}}", a, b) };
    check_text(cx, &text)
}

fn regexps(cx: &mut Cx) -> Res {
    let exprs = [
        "", "a", "b", "ab", "a|b", "[ab]", "[^a]", ".", "a*", "a+b", "(ab)*", "(?i:a)", "é", "[a-é]", "a{2}", "a{2,3}", "(|a)", "\\\\d", "\\\\x61", "[a&&b]",
        "((a))", "a?|b*", "\u{10ffff}", "0|A|\\n", "(a", "a**", "[b-a]", "[é-\u{10ffff}]",
    ];
    let i = cx.choose(exprs.len());
    let j = cx.choose(exprs.len());
    let text = match cx.choose(4) {
        0 => format!("A ::= Regexp(\"{}\") ~ Regexp(\"{}\");", exprs[i], exprs[j]),
        1 => format!("A ::= B ~ C; lexer {{ B ::= Regexp(\"{}\"); C ::= Regexp(\"{}\") > c; }}", exprs[i], exprs[j]),
        2 => format!("A ::= Regexp(\"{}\") | \"a\" ~ \"b\" | Regexp(\"{}\") ~ \"é\";", exprs[i], exprs[j]),
        _ => {
            let k = cx.choose(exprs.len());
            format!("A ::= \"ba\" ~ Regexp(\"{}\") | Regexp(\"{}\");lexer{{D::=Regexp(\"{}\")~A*;}}", exprs[i], exprs[j], exprs[k])
        }
    };
    check_text(cx, &text)
}

fn large(cx: &mut Cx) -> Res {
    let n = if cx.flag() { cx.range(1, 40) } else { cx.pick(&[64usize, 65, 127, 129, 200, 257]) };
    let n = if cx.thorough && n > 40 { n * 3 } else { n };
    let letter = |i: usize| char::from_u32(0x61 + i as u32 % 26 + if i < 26 { 0 } else { 0x3b0 + (i as u32 / 26) * 26 - 0x61 }).unwrap();
    let s = match cx.choose(24) {
        // No space anywhere.
        20 => format!("A::={}~~;", vec!["x"; n].join("~")),
        21 => format!("A::={}", (0..n).map(|i| ["\"q\"", "x*", "y+", "zz"][i % 4]).collect::<Vec<_>>().join("|")) + "\\",
        22 => format!("lexer{{{}}}A::=x", (0..n).map(|i| format!("L::=\"é\"~L{};", i)).collect::<String>()) + ">>;",
        23 => format!("{}A::=x)", (0..n).map(|i| format!("A::=B>{};", ["f", "gh"][i % 2])).collect::<String>()),
        8 => format!("A ::= x > {} | y > {};", "f".repeat(n), "f".repeat(n + 1)),
        9 => format!("A{} ::= A{} > x;", "b".repeat(n), "b".repeat(n + 1)),
        10 => format!("A ::= {};", vec!["x"; n].join(" ~ ")),
        11 => format!("A ::= {};", (0..n).map(|i| ["x", "x", "y*", "\"q\"", "A"][i % 5]).collect::<Vec<_>>().join(" ~ ")),
        // Many characters, in strings and in expressions.
        12 => format!("A ::= \"{}\";", (0..n).map(letter).collect::<String>()),
        13 => format!("lexer {{ A ::= Regexp(\"{}\"); B ::= \"{}\"; }}", (0..n.min(20)).map(letter).collect::<String>(), letter(n.min(20) - 1)),
        14 => format!("lexer {{ A ::= Regexp(\"{}\") ~ \"a\"; }}", (0..n.min(20)).map(|i| letter(i).to_string()).collect::<Vec<_>>().join("|")),
        15 => format!("lexer {{ A ::= Regexp(\"{}\"); }}", (0..n.min(9)).map(|i| format!("[{}{}]", letter(2 * i), letter(2 * i + 1))).collect::<String>()),
        // Errors far down and far to the right.
        16 => format!("A ::=\n{} ~ ~;", vec!["x"; n].join(" ~ ")),
        17 => format!("A ::= x;{}é", " ".repeat(n)),
        18 => format!("{}A ::= \"{}\" x;", "\n".repeat(n), "q".repeat(n)),
        19 => format!("lexer {{\n{} A ::= ; A +; }}", (0..n).map(|i| format!("L{} ::= \"s\" > f{};", i, i)).collect::<String>()),
        0 => (0..n).map(|i| format!("R{} ::= R{} ~ x > a{};\n", i, i + 1, i)).collect::<String>(),
        1 => format!("A ::= {} z;", (0..n).map(|i| format!("y{} ~ ", i)).collect::<String>()),
        2 => format!("A ::= {} z;", (0..n).map(|i| format!("y{} > b | ", i % 5)).collect::<String>()),
        3 => format!("A ::= {} z;", (0..n).map(|i| if i % 2 == 0 { "B* ~ " } else { "C+ ~ " }).collect::<String>()),
        4 => format!("A ::= \"{}\" ~ \"{}\";", "b".repeat(n), "b".repeat(n + 1)),
        5 => format!("lexer {{ {} }}", (0..n).map(|i| format!("L{} ::= \"s{}\" | \"t{}\";\n", i, i, i / 2)).collect::<String>()),
        6 => (0..n).map(|i| format!("lexer {{ L{} ::= Regexp(\"[a-c]{{{}}}\"); }}\nP{} ::= L{};", i % 7, i % 4, i, i % 7)).collect::<String>(),
        // An error far down.
        _ => format!("{}  ~ A ::= b;", (0..n).map(|i| format!("R{} ::= R{} ~ x > a{};\n", i, i + 1, i)).collect::<String>()),
    };
    check_text(cx, &s)
}

/// Two expressions of many parts in one grammar, sharing characters.
fn expressions(cx: &mut Cx) -> Res {
    let kind = cx.choose(SHAPES);
    let n = if cx.flag() { cx.range(1, cx.tier(24, 32)) } else { cx.pick(&[49usize, 65]) };
    let other = if cx.thorough { cx.choose(SHAPES) } else { (kind * 5 + n) % SHAPES };
    let m = if cx.thorough { 3 } else { 1 + (n + kind) % 5 };
    if n > 12 && ([4, 5, 6, 18, 21].contains(&kind) || (26..31).contains(&kind)) {
        return cx.skip();
    }
    let esc = |t: &str| t.replace('\\', "\\\\").replace('"', "\\\"");
    let (t1, w1) = shape(kind, n);
    let (t2, w2) = shape(other, m);
    let text = match (n + kind) % 3 {
        0 => format!("A ::= Regexp(\"{}\") ~ x ~ Regexp(\"{}\");", esc(&t1), esc(&t2)),
        1 => format!("lexer {{ A ::= \"ab\" | x ; B ::= Regexp(\"{}\"); }} C ::= B ~ Regexp(\"{}\");", esc(&t2), esc(&t1)),
        _ => format!("A ::= \"ba\" ~ B; lexer {{ B ::= Regexp(\"{}\") | y ~ Regexp(\"{}\") > f; }}", esc(&t1), esc(&t2)),
    };
    check_text(cx, &text)?;
    let what = format!("loading {:?}", text);
    let mut ag = match Cfg::load_advanced(&text[..]) {
        Ok(a) => a,
        Err(e) => return bad(format!("{}: rejected: {}", what, e)),
    };
    ag.lexer_map.compute();
    let g = G::read(&ag.cfg);
    let lexed = lex(&text);
    let Ok(rules) = (P { t: &lexed.toks, i: 0 }).start() else { return bad(format!("the check's own text {:?}", text)) };
    // The rules written are the ones with an origin.
    let written: Vec<Vec<usize>> = ag
        .cfg
        .rules()
        .filter(|r| ag.cfg.sym_source().names().get(r.lhs.usize()).is_some_and(|n| n.as_ref().is_some_and(|n| !n.starts_with("__lex"))))
        .map(|r| r.rhs.iter().map(|s| s.usize()).collect())
        .collect();
    for (r, w) in rules.iter().zip(&written) {
        for (f, &s) in r.rhs.iter().zip(w) {
            let Frag::Call(_, e) = f else { continue };
            let Some(Ok(hir)) = usable(e) else { return bad(format!("the check's own text {:?}", text)) };
            let mut tries = std::collections::BTreeSet::new();
            tries.insert(vec![]);
            for w in w1.iter().chain(&w2) {
                let letters: Vec<char> = ['a'].into_iter().chain(w.chars().last()).collect();
                tries.extend(one_edit(w, &letters).into_iter().take(if n < 30 { 200 } else { 60 }));
                tries.insert(w.chars().collect());
            }
            cx.op(tries.len() as u64);
            agree(&format!("{} in {}", e, text), &hir, &g, s, &ag.lexer_map, &tries)?;
        }
    }
    Ok(())
}
