#!/usr/bin/env python3
"""Measures the checks on systematically generated small changes (not used by any check).

mutate.py list [FILES...]                   number of changes per file
mutate.py run WORKERS OUT.jsonl [--cap N] [FILES...]
Every change is applied in a scratch copy of /repo under /tmp/mw, the model
checker is built against that copy, and the quick checks of the properties
anchored in the file are run until one reports a violation; changes no check
reports are run against the repository's own tests."""
import json, os, random, re, subprocess, sys, threading, queue, shutil
REPO, VERIF, W = "/repo", "/verif", "/tmp/mw"
MAP = [
 ("cfg-symbol/src/", "C13 C12 C15 C01"),
 ("cfg-symbol-bit-matrix/src/remap", "C12 C19"),
 ("cfg-symbol-bit-matrix/src/", "C08 C03 C04"),
 ("cfg-grammar/src/cfg.rs", "C23 C01 C02 C22 C09 C20 C19 C12"),
 ("cfg-grammar/src/symbol_bit_set", "C22 C03"),
 ("cfg-grammar/src/occurence", "C22 C02"),
 ("cfg-grammar/src/precedenced", "C11 C20"),
 ("cfg-grammar/src/rule_builder", "C23 C20 C01 C11"),
 ("cfg-grammar/src/", "C23"),
 ("cfg-history/src/", "C20 C18 C23 C13 C15"),
 ("cfg-classify/src/useful", "C03 C19"),
 ("cfg-classify/src/cyclical", "C04 C19"),
 ("cfg-classify/src/lr", "C21"),
 ("cfg-classify/src/ll", "C07"),
 ("cfg-classify/src/recursive", "C08 C09"),
 ("cfg-classify/src/", "C03 C04 C08 C07"),
 ("cfg-predict-sets/src/", "C05 C06 C07"),
 ("cfg-predict-distance/src/", "C09 C13"),
 ("cfg-sequence/src/", "C10 C20 C14"),
 ("cfg-load/src/basic", "C14"),
 ("cfg-load/src/string_interner", "C14"),
 ("cfg-load/src/", "C15"),
 ("cfg-regexp-logic/src/", "C16 C15"),
 ("cfg-generate/src/weighted/random", "C17 C18"),
 ("cfg-generate/src/weighted/", "C18 C17"),
]
SKIP = ("genetic.rs", "advanced_macro.rs", "earley/id.rs")
TOK = [
 (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
 (r" \+ ", [" - ", " + 1 + "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" \+= ", [" = "]), (r" -= ", [" += "]),
 (r" \|= ", [" = "]), (r" \| (?=\w+\.)", [" & "]), (r" & ", [" | "]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"]),
 (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
 (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
 (r"\.is_empty\(\)", [".is_empty() == false"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
 (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=[\w(])", ["..="]), (r"\bcontinue;", ["break;", "{}"]), (r"\bbreak;", ["{}"]),
 (r"(?<=[\s(])!(?=\w)", [""]), (r"\bif (?!let)(?=[^{]*\{)", ["if true || ", "if false && "]),
 (r"\.saturating_sub\(", [".wrapping_sub("]), (r"\.sort\(\);", [".len();"]), (r"\.dedup\(\);", [".len();"]),
 (r"\.pop_front\(\)", [".pop_back()"]), (r"\.push_front\(", [".push_back("]),
 (r"\.pop\(\)", [".first().cloned()"]), (r"\.take\(\)", [".clone()"]), (r"\bOk\(\(\)\)", ["Err(())"]),
]
def body(path):
    """Source lines with comments, attributes, strings and test modules masked out (same length)."""
    t = open(path).read()
    m = re.search(r"#\[cfg\(test\)\]\s*mod", t)
    end = m.start() if m else len(t)
    t2 = list(t)
    for m in re.finditer(r'//[^\n]*|"(?:\\.|[^"\\])*"|#!?\[[^\]]*\]|\'(?:\\.|[^\'\\])\'', t):
        for i in range(m.start(), m.end()):
            if t2[i] != "\n": t2[i] = "\x01"
    for i in range(end, len(t)):
        if t2[i] != "\n": t2[i] = "\x01"
    return t, "".join(t2)
def mutants(rel):
    t, m = body(os.path.join(REPO, rel))
    out = []
    for pat, reps in TOK:
        for x in re.finditer(pat, m):
            for r in reps:
                old = t[x.start():x.end()]
                if r == "+1": new = str(int(old) + 1)
                elif r == "-1":
                    if int(old) == 0: continue
                    new = str(int(old) - 1)
                else: new = r
                out.append((x.start(), x.end(), new))
    # Statement deletion.
    pos = 0
    for line, ml in zip(t.splitlines(True), m.splitlines(True)):
        s = ml.strip()
        if s.endswith(";") and "\x01" not in s[:1] and not re.match(r"(let|use|pub|type|const|static|mod|struct|return|fn|\}|\)|\.|break|continue|impl)", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            i = pos + line.index(line.strip()[0])
            out.append((i, pos + len(line.rstrip()), "{}"))
        pos += len(line)
    out = [(rel, a, b, t[a:b], n, t.count("\n", 0, a) + 1) for a, b, n in out]
    lines = t.splitlines()
    # Texts and places of messages, tests, printing, unused history nodes.
    dull = re.compile(r"println!|assert|^\s*(line|col|terminals): \d|debug!|panic!|walk_hir\(expr, depth")
    dead = {"cfg-history/src/earley/mod.rs": (272, 326), "cfg-generate/src/weighted/random.rs": (100, 134)}.get(rel, (0, 0))
    return [m for m in out if not dull.search(lines[m[5] - 1]) and not dead[0] <= m[5] <= dead[1]]
def files():
    r = subprocess.run("git -C %s ls-files '*.rs'" % REPO, shell=True, capture_output=True, text=True).stdout.split()
    return [f for f in r if "/src/" in f and not any(s in f for s in SKIP) and any(f.startswith(p) for p, _ in MAP)]
def props(f):
    return next(v for p, v in MAP if f.startswith(p)).split()
def sh(c, timeout, env=None, cwd=None):
    try:
        r = subprocess.run(["bash", "-c", c], capture_output=True, text=True, timeout=timeout, env=env, cwd=cwd, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f " + (cwd or "nothing-at-all"), shell=True)
        return 124, "timeout"
def worker(i, q, out, lock):
    d = f"{W}/{i}"
    os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git {REPO}/ {d}/repo/; mkdir -p {d}/v; rsync -a --exclude target --exclude .git --exclude evidence --exclude seeded {VERIF}/ {d}/v/; mkdir -p {d}/v/evidence; sed -i 's#/repo/#{d}/repo/#' {d}/v/mc/Cargo.toml; [ -d {d}/v/target ] || cp -a {VERIF}/target {d}/v/target; [ -d {d}/t ] || cp -a {REPO}/target {d}/t", 600)
    env = dict(os.environ, MC_VERIF=f"{d}/v", MC_THREADS="2", MC_SECS="60", CARGO_BUILD_JOBS="2")
    while True:
        try: mu = q.get_nowait()
        except queue.Empty: return
        rel, a, b, old, new, line = mu
        p = f"{d}/repo/{rel}"
        t = open(f"{REPO}/{rel}").read()
        open(p, "w").write(t[:a] + new + t[b:])
        rc, o = sh("./build.sh", 600, env, f"{d}/v")
        res = {"file": rel, "line": line, "old": old, "new": new, "src": t.splitlines()[line - 1].strip()}
        if rc: res["result"] = "nocompile"
        else:
            res["result"] = "missed"
            for pr in props(rel):
                rc, o = sh(f"ulimit -v 8000000; {d}/v/target/release/mc run {pr} quick", 400, env, f"{d}/v")
                if rc == 1 and "VIOLATION" in o: res["result"] = "caught"; res["by"] = pr; break
                if rc: res["result"] = "noanswer"; res["by"] = pr; res["rc"] = rc; res["out"] = o[-300:]; break
            if res["result"] in ("missed", "noanswer"):
                rc, o = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={d}/t CARGO_BUILD_JOBS=2; cd {d}/repo; cargo test --workspace --all-features --offline 2>&1 | tail -30; exit ${{PIPESTATUS[0]}}", 300, None, d)
                if rc: res["tests"] = "fail" if rc != 124 else "hang"
                else: res["tests"] = "pass"
        open(p, "w").write(t)
        with lock:
            out.write(json.dumps(res) + "\n"); out.flush()
def main():
    a = sys.argv[1:]
    cap = None
    if "--cap" in a: i = a.index("--cap"); cap = int(a[i + 1]); del a[i:i + 2]
    if a[0] == "list":
        for f in a[1:] or files(): print(len(mutants(f)), f)
        return
    n, outp, fs = int(a[1]), a[2], a[3:] or files()
    rnd = random.Random(7)
    allm = []
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l); done.add((r["file"], r["line"], r["old"], r["new"]))
    for f in fs:
        ms = mutants(f)
        rnd.shuffle(ms)
        allm += ms[:cap] if cap else ms
    rnd.shuffle(allm)
    allm = [m for m in allm if (m[0], m[5], m[3], m[4]) not in done]
    print(len(allm), "changes")
    q = queue.Queue()
    for m in allm: q.put(m)
    lock = threading.Lock()
    with open(outp, "a") as out:
        ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
