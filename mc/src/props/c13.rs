//! C13: symbol sources.
use super::Prop;
use crate::engine::*;
use cfg_grammar::Cfg;
use cfg_history::earley::{EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance};
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        families: vec![
            fam("u32", "every operation sequence on a 32-bit source", |cx| ops::<NonZeroU32>(cx, 0)),
            fam("u16", "every operation sequence on a 16-bit source", |cx| ops::<NonZeroU16>(cx, 1)),
            fam("u8", "every operation sequence on an 8-bit source", |cx| ops::<NonZeroU8>(cx, 1)),
            fam("capacity", "sources filled up to their capacity, truncated at every place", capacity),
            fam("grammar", "symbols created through grammars and their builders", grammar),
            fam("json-numbers", "all numbers up to 70000 and around all powers of two as JSON symbols", numbers),
            fam("json-mappings", "all small mappings through JSON", mapping_json),
            fam("binary", "symbols, mappings and marks of rule histories through the binary and serde formats, and all short byte strings read as symbols", binary),
            fam("names", "every short name over a difficult alphabet, through JSON", names),
        ],
        assumptions: vec!["truncation lengths are 1 or more, as documented", "renaming maps are permutations"],
    }
}

fn check<T: SymbolPrimitive + std::fmt::Debug + Eq>(what: &str, src: &SymbolSource<T>, model: &[Option<String>]) -> Res {
    if src.num_syms() != model.len() {
        return bad(format!("{}: num_syms() is {}, expected {}", what, src.num_syms(), model.len()));
    }
    let names = src.names();
    let got: Vec<Option<String>> = (0..names.len().max(model.len())).map(|i| names.get(i).and_then(|x| x.as_ref().map(|s| s.to_string()))).collect();
    if got != model {
        return bad(format!("{}: names {:?}, expected {:?}", what, got, model));
    }
    // By symbol; also one that is not there.
    for (i, s) in SymbolSource::<NonZeroU32>::generate_fresh().take(model.len() + 1).enumerate() {
        let want = model.get(i).cloned().flatten();
        if src.original_name_of(s).map(|x| x.to_string()) != want {
            return bad(format!("{}: original_name_of({}) is {:?}, expected {:?}", what, i, src.original_name_of(s), want));
        }
        let shown = want.unwrap_or_else(|| format!("g{}", i));
        if src.name_of(s) != shown {
            return bad(format!("{}: name_of({}) is {}, expected {}", what, i, src.name_of(s), shown));
        }
    }
    let map = src.name_map();
    let mut distinct: Vec<&String> = model.iter().flatten().collect();
    distinct.sort();
    distinct.dedup();
    if map.len() != distinct.len() {
        return bad(format!("{}: name_map has {} names, expected {}", what, map.len(), distinct.len()));
    }
    for (k, v) in &map {
        if model.get(v.usize()).cloned().flatten().as_deref() != Some(&**k) {
            return bad(format!("{}: name_map says {} is symbol {}", what, &**k, v.usize()));
        }
    }
    Ok(())
}

/// Names and symbols through JSON.
fn json(what: &str, model: &[Option<String>]) -> Res {
    for name in model.iter().flatten() {
        let n = SymbolName::from(name.as_str());
        let text = miniserde::json::to_string(&n);
        match miniserde::json::from_str::<SymbolName>(&text) {
            Ok(b) if b == n && *b == **name => {}
            r => return bad(format!("{}: name {:?} became {} and then {:?}", what, name, text, r.map(|x| x.to_string()))),
        }
    }
    Ok(())
}

/// Mappings through JSON.
fn mapping_json(cx: &mut Cx) -> Res {
    let n = cx.range(1, cx.tier(3, 4));
    let syms: Vec<Symbol> = SymbolSource::generate_fresh().skip(cx.pick(&[0, 253, 254, 65534])).take(n).collect();
    let mut m = Mapping::new(0);
    for _ in 0..cx.range(0, n) {
        let i = cx.choose(n + 1);
        m.to_internal.push(if i == n { None } else { Some(syms[i]) });
    }
    for _ in 0..cx.range(0, n) {
        m.to_external.push(cx.pick(&syms));
    }
    let text = miniserde::json::to_string(&m);
    cx.op(2);
    cx.state(&text);
    if cx.want_note {
        cx.note = Some(text.clone());
    }
    match miniserde::json::from_str::<Mapping>(&text) {
        Ok(b) if b.to_internal == m.to_internal && b.to_external == m.to_external => Ok(()),
        r => bad(format!("mapping {:?} became {} and then {:?}", m, text, r)),
    }
}

/// What is written comes back, in every format, and cut data is refused.
fn round_trip<T>(what: &str, x: &T, binary_len: usize) -> Res
where
    T: PartialEq
        + std::fmt::Debug
        + nanoserde::SerBin
        + nanoserde::DeBin
        + miniserde::Serialize
        + miniserde::Deserialize
        + serde::Serialize
        + serde::de::DeserializeOwned,
{
    let bytes = guard(what, || nanoserde::SerBin::serialize_bin(x))?;
    match guard(what, || T::deserialize_bin(&bytes))? {
        Ok(y) if y == *x && bytes.len() == binary_len => {}
        r => return bad(format!("{}: {:?} became {:?} and then {:?}", what, x, bytes, r)),
    }
    // In the middle of other data.
    let mut more = vec![7, 7, 7];
    nanoserde::SerBin::ser_bin(x, &mut more);
    more.extend([9, 9]);
    let mut at = 3;
    match guard(what, || T::de_bin(&mut at, &more))? {
        Ok(y) if y == *x && at == 3 + binary_len => {}
        r => return bad(format!("{}: {:?} became {:?} at {} in {:?}", what, x, r, at, more)),
    }
    for k in 0..bytes.len() {
        if let Ok(y) = guard(what, || T::deserialize_bin(&bytes[..k]))? {
            return bad(format!("{}: {:?} cut to {:?} was read as {:?}", what, bytes, &bytes[..k], y));
        }
    }
    let text = miniserde::json::to_string(x);
    match miniserde::json::from_str::<T>(&text) {
        Ok(y) if y == *x => {}
        r => return bad(format!("{}: {:?} became {} and then {:?}", what, x, text, r)),
    }
    let text = guard(what, || serde_json::to_string(x))?.map_err(|e| Fail::Bad(e.to_string()))?;
    match guard(what, || serde_json::from_str::<T>(&text))? {
        Ok(y) if y == *x => Ok(()),
        r => bad(format!("{}: {:?} became {} and then {:?}", what, x, text, r)),
    }
}

fn binary(cx: &mut Cx) -> Res {
    let kind = cx.choose(4);
    let number = |cx: &mut Cx| -> u32 {
        if cx.flag() {
            cx.range(0, 700) as u32
        } else {
            let k = cx.range(0, 32) as u32;
            let d = cx.range(0, 4) as i64 - 2;
            ((1i64 << k) + d).clamp(0, u32::MAX as i64) as u32
        }
    };
    match kind {
        0 => {
            let n = number(cx);
            let what = format!("number {}", n);
            if cx.want_note {
                cx.note = Some(what.clone());
            }
            cx.op(24);
            cx.state(&(kind, n));
            round_trip(&what, &ExternalOrigin { id: n }, 4)?;
            round_trip(&what, &EventId { id: n }, 4)?;
            round_trip(&what, &MinimalDistance { distance: n }, 4)?;
            round_trip(&what, &ExternalDottedRule::null(), 8)?;
            round_trip(&what, &cfg_history::earley::rule_dot::RuleDot::new(n, n / 2).trace(), 8)?;
            if n < u32::MAX {
                let s: Symbol = miniserde::json::from_str(&n.to_string()).map_err(|_| Fail::Bad(format!("{} is not read as a symbol", n)))?;
                round_trip(&what, &s, 4)?;
                if s.usize() != n as usize {
                    return bad(format!("{} is read as symbol {}", n, s.usize()));
                }
            }
            Ok(())
        }
        1 => {
            // Symbols one after the other.
            let n = cx.range(0, 70_000);
            let syms: Vec<Symbol> = SymbolSource::generate_fresh().skip(n).take(2).collect();
            cx.op(2);
            cx.state(&(kind, n));
            round_trip(&format!("symbol {}", n), &syms[0], 4)?;
            let mut bytes = vec![];
            nanoserde::SerBin::ser_bin(&syms[0], &mut bytes);
            nanoserde::SerBin::ser_bin(&syms[1], &mut bytes);
            let mut at = 0;
            let a = <Symbol as nanoserde::DeBin>::de_bin(&mut at, &bytes);
            let b = <Symbol as nanoserde::DeBin>::de_bin(&mut at, &bytes);
            if a.ok() != Some(syms[0]) || b.ok() != Some(syms[1]) || at != 8 {
                return bad(format!("symbols {} and {} are not read back from {:?}", n, n + 1, bytes));
            }
            Ok(())
        }
        2 => {
            // All byte strings over some bytes: read, and written the same again, or refused.
            let len = cx.range(0, 6);
            let bytes: Vec<u8> = (0..len).map(|_| cx.pick(&[0u8, 1, 2, 128, 255])).collect();
            cx.op(1);
            cx.state(&(kind, &bytes));
            if cx.want_note {
                cx.note = Some(format!("bytes {:?}", bytes));
            }
            match guard(&format!("reading {:?} as a symbol", bytes), || <Symbol as nanoserde::DeBin>::deserialize_bin(&bytes).ok())? {
                Some(s) if len >= 4 && nanoserde::SerBin::serialize_bin(&s) == bytes[..4] => Ok(()),
                None if len < 4 || bytes[..4] == [0; 4] => Ok(()),
                r => bad(format!("bytes {:?} are read as {:?}", bytes, r)),
            }
        }
        _ => {
            // Mappings and numbers through serde.
            let n = cx.range(1, 3);
            let syms: Vec<Symbol> = SymbolSource::generate_fresh().skip(cx.pick(&[0, 254, 65534])).take(n).collect();
            let mut m = Mapping::new(0);
            for _ in 0..cx.range(0, n) {
                let i = cx.choose(n + 1);
                m.to_internal.push(if i == n { None } else { Some(syms[i]) });
            }
            for _ in 0..cx.range(0, n) {
                m.to_external.push(cx.pick(&syms));
            }
            let text = serde_json::to_string(&m).map_err(|e| Fail::Bad(e.to_string()))?;
            cx.op(1);
            cx.state(&(kind, &text));
            match guard(&text, || serde_json::from_str::<Mapping>(&text))? {
                Ok(b) if b.to_internal == m.to_internal && b.to_external == m.to_external => {}
                r => return bad(format!("mapping {:?} became {} and then {:?}", m, text, r)),
            }
            let nothing = guard("reading serde symbols", || {
                // (objects with the stored number, which is never zero)
                serde_json::from_str::<Symbol>("{\"n\":0}").is_ok()
                    || serde_json::from_str::<Symbol>("{\"n\":4294967296}").is_ok()
                    || serde_json::from_str::<Symbol>("{\"n\":-1}").is_ok()
                    || serde_json::from_str::<Symbol<NonZeroU8>>("{\"n\":256}").is_ok()
                    || serde_json::from_str::<Symbol<NonZeroU16>>("{\"n\":65536}").is_ok()
            })?;
            if nothing {
                return bad("a number outside of the range is read as a symbol");
            }
            Ok(())
        }
    }
}

/// Numbers as JSON symbols: exactly those in range are read.
fn numbers(cx: &mut Cx) -> Res {
    fn t<T: SymbolPrimitive + std::fmt::Debug + PartialEq>(n: i128) -> Res {
        let r = guard(&format!("reading symbol {}", n), || miniserde::json::from_str::<Symbol<T>>(&n.to_string()).ok())?;
        let in_range = n >= 0 && n < T::MAX as i128;
        match r {
            Some(s) if in_range && s.usize() as i128 == n && miniserde::json::to_string(&s) == n.to_string() => Ok(()),
            None if !in_range => Ok(()),
            r => bad(format!("JSON number {} read as symbol {:?} (capacity {})", n, r, T::MAX)),
        }
    }
    let n = if cx.flag() {
        cx.range(0, 70_000) as i128
    } else {
        let k = cx.range(0, 66) as u32;
        let d = cx.range(0, 4) as i128 - 2;
        let v = (1i128 << k) + d;
        if cx.flag() {
            -v
        } else {
            v
        }
    };
    cx.op(3);
    cx.state(&n);
    if cx.want_note {
        cx.note = Some(n.to_string());
    }
    t::<NonZeroU8>(n)?;
    t::<NonZeroU16>(n)?;
    t::<NonZeroU32>(n)
}

fn ops<T: SymbolPrimitive + std::fmt::Debug + Eq + std::hash::Hash>(cx: &mut Cx, less: usize) -> Res {
    let depth = cx.range(1, cx.tier(5, 6) - less);
    let mut src = SymbolSource::<T>::new();
    let mut model: Vec<Option<String>> = vec![];
    let mut log = String::new();
    let mut fresh = 0;
    for step in 0..depth {
        let _ = step;
        let n = model.len();
        let k = cx.choose(12);
        let before = model.len();
        let mut got: Vec<Symbol<T>> = vec![];
        let mut name = |tag: &str| {
            fresh += 1;
            format!("{}{}", tag, fresh)
        };
        match k {
            0 => {
                log += " sym1";
                let [a] = src.sym();
                got.push(a);
                model.push(None);
            }
            1 => {
                log += " sym3";
                let s: [Symbol<T>; 3] = src.sym();
                got.extend(s);
                model.extend([None, None, None]);
            }
            2 => {
                log += " names(a,-,b)";
                let (a, b) = (name("a"), name("b"));
                let s = src.with_names([Some(a.clone()), None, Some(b.clone())]);
                got.extend(s);
                model.extend([Some(a), None, Some(b)]);
            }
            3 => {
                log += " next";
                got.push(src.next_sym(None));
                model.push(None);
            }
            4 => {
                log += " next(x)";
                let x = name("x");
                got.push(src.next_sym(Some(x.clone().into())));
                model.push(Some(x));
            }
            5 => {
                log += " next(dup)";
                got.push(src.next_sym(Some("dup".into())));
                model.push(Some("dup".into()));
            }
            6 => {
                log += " generate2";
                got.extend(src.generate().take(2));
                model.extend([None, None]);
            }
            7 => {
                log += " truncate-1";
                if n < 2 {
                    return cx.skip();
                }
                src.truncate(n - 1);
                model.truncate(n - 1);
            }
            8 => {
                let to = cx.pick(&[1, 2, n.max(1), n + 1, n + 5]);
                log += &format!(" truncate({})", to);
                guard(&log, || src.truncate(to))?;
                model.truncate(to);
            }
            9 => {
                log += " reverse";
                if n == 0 {
                    return cx.skip();
                }
                let fresh: Vec<Symbol<T>> = SymbolSource::<T>::generate_fresh().take(n).collect();
                src.remap_symbols(|s| fresh[n - 1 - s.usize()]);
                model.reverse();
            }
            10 => {
                log += " rotate";
                if n == 0 {
                    return cx.skip();
                }
                let fresh: Vec<Symbol<T>> = SymbolSource::<T>::generate_fresh().take(n).collect();
                src.remap_symbols(|s| fresh[(s.usize() + 1) % n]);
                model.rotate_right(1);
            }
            _ => {
                log += " clone";
                src = src.clone();
            }
        }
        cx.op(1);
        for (i, s) in got.iter().enumerate() {
            if s.usize() != before + i {
                return bad(format!("{}: symbol {} handed out instead of {}", log, s.usize(), before + i));
            }
            let as_u32: u32 = (*s).into();
            if as_u32 as usize != s.usize() {
                return bad(format!("{}: numeric value {} of symbol {}", log, as_u32, s.usize()));
            }
            if miniserde::json::to_string(s) != s.usize().to_string() || miniserde::json::from_str::<Symbol<T>>(&s.usize().to_string()).ok() != Some(*s) {
                return bad(format!("{}: symbol {} does not survive JSON", log, s.usize()));
            }
        }
        cx.state(&model);
    }
    if cx.want_note {
        cx.note = Some(log.clone());
    }
    check(&log, &src, &model)?;
    check(&format!("clone of {}", log), &src.clone(), &model)?;
    json(&log, &model)
}

fn capacity(cx: &mut Cx) -> Res {
    match cx.choose(4) {
        0 => fill::<NonZeroU8>(cx, &[1, 2, 3, 100, 127, 128, 129, 200, 250, 251, 252, 253]),
        1 => fill::<NonZeroU16>(cx, &[1, 254, 255, 256, 257, 300, 32767, 32768, 65533]),
        2 => fill::<NonZeroU32>(cx, &[1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000]),
        _ => exhaust(cx),
    }
}

fn fill<T: SymbolPrimitive + std::fmt::Debug + Eq>(cx: &mut Cx, sizes: &[usize]) -> Res {
    let n = cx.pick(sizes);
    let cut = cx.pick(&[1, 2, n / 2 + 1, n.saturating_sub(1).max(1), n]);
    let how = cx.choose(3);
    let mut src = SymbolSource::<T>::new();
    let mut model: Vec<Option<String>> = vec![];
    let mut all: Vec<Symbol<T>> = vec![];
    guard(&format!("{} symbols", n), || {
        for i in 0..n {
            match how {
                0 => {
                    all.push(src.next_sym(None));
                    model.push(None);
                }
                1 => {
                    all.push(src.next_sym(Some(format!("n{}", i).into())));
                    model.push(Some(format!("n{}", i)));
                }
                _ => {
                    all.push(src.generate().next().unwrap());
                    model.push(None);
                }
            }
        }
    })?;
    cx.op(n as u64);
    let what = format!("{} symbols, truncated to {}", n, cut);
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    for (i, s) in all.iter().enumerate() {
        if s.usize() != i {
            return bad(format!("{}: symbol number {} is {}", what, i, s.usize()));
        }
    }
    if T::MAX == u32::MAX && !cfg_symbol::syms!().take(n).map(|s: Symbol| s.usize()).eq(0..n) {
        return bad(format!("{}: syms!() differs", what));
    }
    let fresh: Vec<Symbol<T>> = SymbolSource::<T>::generate_fresh().take(n).collect();
    if fresh != all {
        return bad(format!("{}: generate_fresh differs", what));
    }
    check(&what, &src, &model)?;
    guard(&what, || src.truncate(cut))?;
    model.truncate(cut);
    check(&what, &src, &model)?;
    cx.state(&(n, cut, how));
    if cut.min(n) as u64 + 2 >= T::MAX as u64 {
        // Full.
        return Ok(());
    }
    let s = src.next_sym(None);
    if s.usize() != cut.min(n) {
        return bad(format!("{}: the next symbol is {}", what, s.usize()));
    }
    Ok(())
}

/// Past the capacity a source must not hand out a symbol twice.
fn exhaust(cx: &mut Cx) -> Res {
    let how = cx.choose(3);
    let r = std::panic::catch_unwind(|| {
        let mut src = SymbolSource::<NonZeroU8>::new();
        let mut seen = std::collections::BTreeSet::new();
        for i in 0..300 {
            let s = match how {
                0 => src.next_sym(None),
                1 => src.generate().next().unwrap(),
                _ => src.sym::<1>()[0],
            };
            if !seen.insert(s.usize()) {
                return Err(i);
            }
        }
        Ok(())
    });
    cx.op(300);
    cx.state(&how);
    match r {
        Ok(Err(i)) => bad(format!("an 8-bit source handed out a symbol twice at call {}", i)),
        _ => Ok(()),
    }
}

fn grammar(cx: &mut Cx) -> Res {
    let depth = cx.range(1, cx.tier(4, 5));
    let mut cfg = if cx.flag() {
        Cfg::new()
    } else {
        let mut s = SymbolSource::new();
        let _ = s.with_names([Some("first"), None]);
        Cfg::with_sym_source(s)
    };
    let mut model: Vec<Option<String>> = if cfg.num_syms() == 2 { vec![Some("first".into()), None] } else { vec![] };
    let mut log = String::new();
    for step in 0..depth {
        let before = model.len();
        let mut got = vec![];
        match cx.choose(9) {
            0 => {
                log += " sym2";
                got.extend(cfg.sym::<2>());
                model.extend([None, None]);
            }
            1 => {
                log += " next";
                got.push(cfg.next_sym(None));
                model.push(None);
            }
            2 => {
                log += " next(x)";
                let x = format!("x{}", step);
                got.push(cfg.next_sym(Some(x.clone().into())));
                model.push(Some(x));
            }
            3 => {
                log += " lexeme";
                got.push(guard(&log, || cfg.lexeme(None))?);
                model.push(None);
            }
            4 => {
                log += " lexeme(l)";
                let x = format!("l{}", step);
                got.push(guard(&log, || cfg.lexeme(Some(x.clone().into())))?);
                model.push(Some(x));
            }
            5 => {
                log += " source.names";
                let x = format!("n{}", step);
                got.extend(cfg.sym_source_mut().with_names([Some(x.clone())]));
                model.push(Some(x));
            }
            6 => {
                log += " wrap";
                let Some(r) = SymbolSource::generate_fresh().take(before).next() else { return cx.skip() };
                cfg.set_roots([r]);
                cfg.wrap_input();
                let w = cfg.wrapped_roots()[0];
                got.extend([w.root, w.start_of_input, w.end_of_input]);
                got.sort();
                let base = model.len();
                model.extend([None, None, None]);
                model[w.root.usize().min(base + 2)] = Some("root".into());
                model[w.start_of_input.usize().min(base + 2)] = Some("start_of_input".into());
                model[w.end_of_input.usize().min(base + 2)] = Some("end_of_input".into());
            }
            7 => {
                log += " clone";
                cfg = cfg.clone();
            }
            _ => {
                // Splitting a rule of four symbols takes new symbols.
                log += " split";
                if before < 1 {
                    return cx.skip();
                }
                let s = SymbolSource::generate_fresh().next().unwrap();
                cfg.limit_rhs_len(Some(2));
                cfg.rule(s).rhs([s, s, s, s]);
                let n = cfg.num_syms();
                if n < before {
                    return bad(format!("{}: symbols were lost", log));
                }
                let new: Vec<usize> = cfg.rules().map(|r| r.lhs.usize()).filter(|&x| x >= before).collect();
                let mut sorted = new.clone();
                sorted.sort();
                sorted.dedup();
                if sorted.len() != new.len() {
                    return bad(format!("{}: a fresh symbol was used twice: {:?}", log, new));
                }
                for i in before..n {
                    let _ = i;
                    model.push(None);
                }
                cfg.limit_rhs_len(None);
            }
        }
        cx.op(1);
        for (i, s) in got.iter().enumerate() {
            if s.usize() != before + i {
                return bad(format!("{}: symbol {} handed out instead of {}", log, s.usize(), before + i));
            }
        }
        cx.state(&model);
    }
    if cx.want_note {
        cx.note = Some(log.clone());
    }
    check(&log, cfg.sym_source(), &model)?;
    json(&log, &model)
}

fn names(cx: &mut Cx) -> Res {
    let alphabet = ['a', 'g', '0', '"', '\\', '\n', ' ', '\u{0}', 'é', '\u{10ffff}', '\u{fffd}', '/', '\u{7f}', '(', ';'];
    let len = cx.range(0, cx.tier(3, 4));
    let mut s = String::new();
    for _ in 0..len {
        s.push(cx.pick(&alphabet));
    }
    let mut src = SymbolSource::<NonZeroU32>::new();
    src.next_sym(None);
    let what = format!("name {:?}", s);
    src.next_sym(Some(s.clone().into()));
    // Given in other ways; the same name may stand for several symbols.
    let a = src.with_names([None, Some(s.clone())]);
    let mut cfg = Cfg::with_sym_source(SymbolSource::new());
    let b = [cfg.next_sym(Some(s.clone().into())), cfg.lexeme(Some(s.clone().into())), cfg.next_sym(Some("other".into()))];
    cx.op(7);
    cx.state(&s);
    let model = vec![None, Some(s.clone()), None, Some(s.clone())];
    if a.map(|x| x.usize()) != [2, 3] || b.map(|x| x.usize()) != [0, 1, 2] {
        return bad(format!("{}: gave symbols {:?} and {:?}", what, a, b));
    }
    check(&what, cfg.sym_source(), &[Some(s.clone()), Some(s.clone()), Some("other".to_string())])?;
    if cx.want_note {
        cx.note = Some(what.clone());
    }
    check(&what, &src, &model)?;
    json(&what, &model)
}
