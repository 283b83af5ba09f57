#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
mod = open(os.path.join(root, "mc/src/props/mod.rs")).read()
done = {m.upper() for m in re.findall(r"^mod (c\d\d);", mod, re.M)}
notes = {
 "C01": "every grammar of the bounded spaces and every bounded sequence of limit/add/extend/wrap calls, executed on the real crate; languages compared exactly up to a string length",
 "C02": "every grammar of the bounded spaces through the real transformation; languages compared up to a string length",
 "C03": "every grammar and start-symbol set of the bounded spaces; fixpoint definitions as oracle",
 "C04": "every grammar and start-symbol set of the bounded spaces; explicit graph search as oracle",
 "C05": "every grammar of the bounded spaces and every symbol string up to a length; textbook fixpoints as oracle",
 "C06": "every grammar and start-symbol set of the bounded spaces; textbook fixpoint as oracle",
 "C07": "every grammar and start-symbol set of the bounded spaces; LL(1) table built from the definition as oracle",
 "C08": "every grammar of the bounded spaces, re-embedded at word boundaries; explicit reachability as oracle",
 "C09": "every grammar and set of marked positions of the bounded spaces; Dijkstra over explicit tree positions as oracle",
 "C10": "every (minimum, maximum, separator) up to the bound and every bounded succession; exact languages as oracle",
 "C11": "every builder-call sequence of the bounded space; numbers of parse trees of every string up to a length against the flat grammar's precedence-respecting trees",
 "C12": "every bounded grammar and every bounded sequence of renumbering operations; explicit isomorphism check",
 "C13": "every bounded operation sequence on the real sources against a list-of-names reference",
 "C14": "every token sequence up to a length (viable prefixes extended) and every short character string, against an independent reference parser",
 "C15": "every token sequence up to a length and composed larger texts, against an independent reference reader",
 "C16": "every expression tree of the bounded space and every string up to a length, against an independent matcher; the character map for every character of Unicode",
 "C17": "every random choice sequence on every grammar and limit of the bounded space (the random source is the controlled scheduler)",
 "C18": "every weight vector of the bounded space and every share boundary value",
 "C19": "every bounded sequence of transformations on every grammar of the bounded space; languages compared after every step",
 "C20": "every rule length, nullable pattern and transformation order up to the bound; expected histories computed from the definition",
 "C21": "every grammar of the bounded space in the class; textbook construction as oracle",
 "C22": "every bounded operation sequence and every bounded grammar with every initial set; sets over integers as oracle",
 "C23": "every bounded operation sequence and all pairs of small grammars; a plain rule list as oracle",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json",
          "technique": "stateless model checking: exhaustive enumeration of inputs/histories on the real code with a definition-level oracle",
          "level": "model_checking", "level_note": notes[i]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
  "notes": "All checks drive the crates' public API; no hooks were needed in /repo. See DESIGN.md."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
