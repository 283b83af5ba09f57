mod engine;
mod gspace;
mod oracle;
mod props;

use engine::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::process::{exit, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |i: usize| args.get(i).cloned().unwrap_or_default();
    match get(1).as_str() {
        "run" => exit(supervise(&get(2), &get(3))),
        "child" => child(&get(2), &get(3), &get(4), &get(5), &get(6)),
        "one" => one(&get(2), &get(3), &get(4), &get(5)),
        "replay" => exit(replay(&get(2))),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
                for f in p.families {
                    println!("  {}{}: {}", f.name, if f.thorough_only { " (thorough)" } else { "" }, f.about);
                }
            }
        }
        _ => {
            eprintln!("usage: mc run <ID> <quick|thorough> | replay <file> | list");
            exit(2)
        }
    }
}

fn families(id: &str, thorough: bool) -> Vec<(usize, Family)> {
    let p = props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        exit(2)
    });
    let only = std::env::var("MC_FAMILY").ok();
    p.families
        .iter()
        .enumerate()
        .filter(|(_, f)| thorough || !f.thorough_only)
        .filter(|(_, f)| only.as_ref().is_none_or(|o| f.name == o))
        .map(|(i, f)| (i, *f))
        .collect()
}

fn fmt_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

/// The exploring process.
fn child(id: &str, tier: &str, out: &str, slots: &str, secs: &str) {
    install_quiet_panic_hook();
    let thorough = tier == "thorough";
    let file = fs::File::create(slots).expect("slots");
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let out_path = out.to_string();
    let hang_out = out_path.clone();
    let opts = Opts {
        thorough,
        threads,
        deadline: Instant::now() + Duration::from_secs_f64(secs.parse().unwrap_or(300.0)),
        slots: Some(Arc::new(Slots { file })),
        hang: Some(Arc::new(move |f, c| {
            let mut o = fs::OpenOptions::new().append(true).create(true).open(&hang_out).unwrap();
            let _ = writeln!(o, "hang\t{}\t{}", f, fmt_choices(&c));
            let _ = o.flush();
            exit(3);
        })),
        hang_after: Duration::from_secs(if thorough { 60 } else { 30 }),
    };
    let mut o = fs::OpenOptions::new().append(true).create(true).open(&out_path).unwrap();
    for (ix, f) in families(id, thorough) {
        let (st, vs) = explore(ix as u32, f, &opts);
        writeln!(
            o,
            "stats\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            f.name, st.cases, st.skipped, st.trivial, st.transitions, st.states, st.max_depth, st.exhaustive, st.wall
        )
        .unwrap();
        for s in st.samples {
            writeln!(o, "sample\t{}\t{}", f.name, one_line(&s)).unwrap();
        }
        let mut vs = vs;
        vs.sort_by_key(|v| (v.choices.len(), v.choices.clone()));
        let found = !vs.is_empty();
        for v in vs {
            // Deterministic re-execution before reporting.
            let (r1, _) = run_case(f.run, &v.choices, thorough, true);
            let (r2, _) = run_case(f.run, &v.choices, thorough, true);
            match (r1, r2) {
                (Err(Fail::Bad(m)), Err(Fail::Bad(_))) => {
                    writeln!(o, "viol\t{}\t{}\t{}\t{}", ix, f.name, fmt_choices(&v.choices), one_line(&m)).unwrap()
                }
                _ => {
                    // Keep trying: nondeterministic behaviour of the code under test.
                    let again = (0..40).filter_map(|_| match run_case(f.run, &v.choices, thorough, true).0 {
                        Err(Fail::Bad(m)) => Some(m),
                        _ => None,
                    });
                    let ms: Vec<String> = again.collect();
                    if !ms.is_empty() {
                        writeln!(o, "viol\t{}\t{}\t{}\t{}", ix, f.name, fmt_choices(&v.choices), one_line(&ms[0])).unwrap();
                    } else {
                        writeln!(o, "flaky\t{}\t{}\t{}\t{}", ix, f.name, fmt_choices(&v.choices), one_line(&v.message)).unwrap();
                    }
                }
            }
        }
        if found && std::env::var("MC_KEEP_GOING").is_err() {
            break;
        }
        if Instant::now() > opts.deadline {
            writeln!(o, "deadline\t{}", f.name).unwrap();
            break;
        }
    }
    writeln!(o, "done").unwrap();
    o.flush().unwrap();
    exit(0);
}

/// Runs one case: exit 0 (held), 1 (violated).
fn one(id: &str, tier: &str, fam: &str, choices: &str) {
    install_quiet_panic_hook();
    let thorough = tier == "thorough";
    let ps = props::all();
    let p = ps.iter().find(|p| p.id == id).expect("property");
    let f = p.families[fam.parse::<usize>().expect("family")];
    let c = parse_choices(choices);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run_case(f.run, &c, thorough, true))
        .unwrap();
    let (r, cx) = h.join().unwrap();
    match r {
        Err(Fail::Bad(m)) => {
            eprintln!("{}", m);
            exit(1)
        }
        Err(Fail::Skip) => {
            eprintln!("outside the space");
            exit(0)
        }
        Ok(()) => {
            eprintln!("held: {}", cx.note.unwrap_or_default());
            exit(0)
        }
    }
}

fn spawn_limited(args: &[&str], timeout: Duration) -> Option<std::process::ExitStatus> {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new("sh");
    cmd.arg("-c").arg("ulimit -v 25165824 2>/dev/null; ulimit -c 0 2>/dev/null; exec \"$0\" \"$@\"").arg(exe).args(args);
    cmd.stdin(Stdio::null()).stdout(Stdio::null());
    if std::env::var("MC_DEBUG").is_err() {
        cmd.stderr(Stdio::null());
    }
    let mut ch = cmd.spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some(st);
        }
        if t.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn supervise(id: &str, tier: &str) -> i32 {
    let tier = if tier.is_empty() { "quick" } else { tier };
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let ev = format!("{}/evidence", verif_dir());
    let _ = fs::create_dir_all(format!("{}/replay", ev));
    let tmp = format!("{}/.run-{}-{}", ev, id, std::process::id());
    let (out, slots) = (format!("{}.out", tmp), format!("{}.slots", tmp));
    let _ = fs::remove_file(&out);
    let secs = std::env::var("MC_SECS").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(if thorough { 7200.0 } else { 420.0 });
    let st = spawn_limited(
        &["child", id, tier, &out, &slots, &secs.to_string()],
        Duration::from_secs_f64(secs + 180.0),
    );
    let text = fs::read_to_string(&out).unwrap_or_default();
    let slot_cases = Slots::read_all(&slots, 256);
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(&slots);
    let mut viols: Vec<(usize, String, String, String)> = vec![]; // fam ix, fam, choices, msg
    let (mut cases, mut skipped, mut trivial, mut trans, mut states, mut depth) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut exhaustive = true;
    let mut done = false;
    let mut samples = vec![];
    let mut per_family = vec![];
    let mut flaky = vec![];
    let mut hang = None;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "stats" => {
                cases += n(2);
                skipped += n(3);
                trivial += n(4);
                trans += n(5);
                states += n(6);
                depth = depth.max(n(7));
                exhaustive &= f[8] == "true";
                per_family.push(format!(
                    "{{\"family\":{},\"executions\":{},\"pruned\":{},\"distinct_states\":{},\"impl_calls\":{},\"max_choice_depth\":{},\"exhaustive\":{},\"wall_s\":{:.2}}}",
                    js(f[1]), n(2) - n(3), n(3), n(6), n(5), n(7), f[8], f[9].parse::<f64>().unwrap_or(0.0)
                ));
            }
            "sample" => samples.push(format!("{}: {}", f[1], f[2])),
            "viol" => viols.push((n(1) as usize, f[2].into(), f[3].into(), f[4].into())),
            "flaky" => flaky.push(l.to_string()),
            "hang" => hang = Some((n(1) as u32, parse_choices(f[2]))),
            "deadline" => exhaustive = false,
            "done" => done = true,
            _ => {}
        }
    }
    let mut internal_error = None;
    if !done && viols.is_empty() {
        exhaustive = false;
        // The exploring process died or hung: confirm on single cases.
        let mut suspects: Vec<(u32, Vec<u32>)> = vec![];
        if let Some(h) = &hang {
            suspects.push(h.clone());
        } else {
            suspects = slot_cases;
        }
        let ps = props::all();
        let p = ps.iter().find(|p| p.id == id).expect("property");
        for (f, c) in suspects {
            let cs = fmt_choices(&c);
            let r = spawn_limited(&["one", id, tier, &f.to_string(), &cs], Duration::from_secs(60));
            let msg = match r {
                None => Some("does not terminate (60 s on one small case)".to_string()),
                Some(s) if s.code() == Some(0) => None,
                Some(s) if s.code() == Some(1) => Some("violated".to_string()),
                Some(s) => Some(format!("process died: {}", s)),
            };
            if let Some(m) = msg {
                viols.push((f as usize, p.families[f as usize].name.into(), cs, m));
            }
        }
        if viols.is_empty() {
            internal_error = Some(format!("exploration ended abnormally ({:?}) without a confirmed case", st));
        }
    }
    if viols.is_empty() && !flaky.is_empty() {
        internal_error = Some(format!("unreproducible: {}", flaky[0]));
    }
    // Known findings.
    let known: Vec<(String, String)> = fs::read_to_string(format!("{}/known-findings", verif_dir()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
    let mut reported = HashSet::new();
    let mut code = 0;
    let mut nviol = 0;
    let fresh: Vec<_> = viols
        .into_iter()
        .filter(|v| {
            if let Some((_, text)) = known.iter().find(|(p, text)| p == id && v.3.contains(text.as_str())) {
                if reported.insert(text.clone()) {
                    println!("KNOWN-FINDING: property={} {}", id, text);
                }
                false
            } else {
                true
            }
        })
        .collect();
    if let Some((ix, fam, choices, msg)) = fresh.first() {
        nviol = fresh.len();
        let msg: String = msg.chars().take(20_000).collect();
        let replay = format!("{}/replay/{}.txt", ev, id);
        let _ = fs::write(
            &replay,
            format!("property={}\ntier={}\nfamily={}\nname={}\nchoices={}\nmessage={}\n", id, tier, ix, fam, choices, msg),
        );
        println!("{}: {}: {}", id, fam, msg);
        println!("VIOLATION property={} replay={}", id, replay);
        code = 1;
    } else if let Some(e) = &internal_error {
        eprintln!("{}: internal error: {}", id, e);
        code = 2;
    }
    let ps = props::all();
    let p = ps.iter().find(|p| p.id == id).expect("property");
    samples.truncate(12);
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"pruned_choice_vectors\": {},\n  \"executions_without_observation\": {},\n  \"max_choice_depth\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"families\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(id), js(tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        states, trans, cases - skipped, skipped, trivial, depth, exhaustive,
        js("every choice vector of every family within its stated bounds is executed on the real code; states are distinct observed (input, result) states, transitions are calls into the implementation, traces are complete executions compared with the oracle"),
        per_family.join(",\n   "),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), nviol
    );
    let _ = fs::write(format!("{}/{}.json", ev, id), json);
    if code == 0 {
        println!(
            "{}: held on {} executions, {} distinct states, {} implementation calls ({}), {:.1} s",
            id, cases - skipped, states, trans,
            if exhaustive { "exhaustive within bounds" } else { "cut by the time limit" },
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn replay(path: &str) -> i32 {
    let t = fs::read_to_string(path).expect("replay file");
    let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe)
        .args(["one", &g("property"), &g("tier"), &g("family"), &g("choices")])
        .stdout(Stdio::null())
        .status()
        .unwrap();
    st.code().unwrap_or(1)
}
