#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Limiting rule length preserves every symbol's language",
  "Limiting the right-hand-side length of a grammar to any limit of two or more leaves no rule longer than the limit, keeps the language of every symbol that existed before the call, and only introduces symbols that were never used before. The limit also holds for every rule added later by any means of adding rules (single rules, rules taken over from another grammar, input wrapping), with the reported number of parts being the number of rules stored. Limiting again changes nothing further.",
  ["inputs", "histories"], "all grammars and all sequences of limit / add rule / extend / wrap-input calls, all limits >= 2",
  "tests check three fixed grammars; a wrong split shows only for particular rule lengths, limits, or rules added after the limit was set",
  ["cfg-grammar/src/cfg.rs", "cfg-grammar/src/rule_builder.rs"],
  [("rule splitting", "Cfg::add_rule, Cfg::limit_rhs_len, Cfg::extend, Cfg::wrap_input")],
  "Cfg::rules, Cfg::rhs_len_invariant", "Cfg::rules()")
p("C02", "Nulling elimination keeps each language minus the empty string",
  "Splitting off the nulling part of a grammar leaves only rules with one or two symbols, and every symbol that was in the grammar before derives, over the original terminals, exactly the strings it derived before except the empty string; symbols that derive no non-empty string keep no rules. The returned nulling grammar derives the empty string from exactly those symbols that could derive it before. A grammar with no empty rule comes back merely limited to two symbols per rule, with an empty nulling grammar.",
  ["inputs"], "all grammars, including recursive, unproductive and fully nulling ones, and grammars already length-limited",
  "one test on one grammar; the number of nullable/non-nullable position patterns and their recursion is combinatorial",
  ["cfg-grammar/src/cfg.rs"],
  [("nulling elimination", "Cfg::binarize_and_eliminate_nulling_rules"), ("closure", "Cfg::rhs_closure")],
  "Cfg::rules", "Cfg::rules() of both grammars")
p("C03", "Usefulness analysis is exact and making a grammar proper is sound",
  "A symbol is reported productive exactly when it derives some terminal string (terminals and unused symbols count as productive), and a rule is reported reachable exactly when its left-hand side can be reached from the declared start symbols (or from the symbols passed explicitly). Removing useless rules never changes the language of a start symbol; making a grammar proper leaves only rules that are both productive and reachable, returns whether nothing had to be removed, and running it again changes nothing.",
  ["inputs"], "all grammars and all sets of start symbols",
  "tests look at two grammars that are already proper; reachability through unproductive rules, self-recursion and multiple roots are not sampled",
  ["cfg-classify/src/useful.rs", "cfg-classify/src/lib.rs", "cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs"],
  [("usefulness", "Usefulness::new/reachable/remove_useless_rules, CfgClassifyExt::make_proper")],
  "Usefulness, Cfg::rules", "Usefulness::*, Cfg::rules()")
p("C04", "Cycle analysis is exact; rewriting cycles preserves the language",
  "A grammar is reported cycle-free exactly when no symbol derives itself through unit rules between two or more distinct symbols, and the rules reported as participating are exactly the unit rules lying on such a cycle. Removing cycles removes exactly those rules; rewriting cycles leaves a cycle-free grammar in which every declared start symbol (as updated) derives exactly the language it derived before.",
  ["inputs"], "all grammars, start symbols inside or outside cycles, nested and overlapping cycles, self-loops",
  "tests use four small grammars with the start symbol as the cycle's representative",
  ["cfg-classify/src/cyclical.rs", "cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs"],
  [("cycles", "Cycles::{cycle_free,classify,cycle_participants,remove_cycles,rewrite_cycles}")],
  "Cycles, Cfg::rules, Cfg::roots", "Cfg::rules(), Cfg::roots()")
p("C05", "FIRST and LAST sets are exact",
  "For every nonterminal, the FIRST set holds exactly the terminals that can begin a sentential form derived from it, listed once in order, and is marked as possibly empty exactly when the nonterminal derives the empty string; LAST sets are the same for ends. The FIRST set of a string of symbols is what those per-symbol sets imply: terminals reachable at the front through nullable prefixes, and possibly empty exactly when every symbol of the string is nullable.",
  ["inputs"], "all grammars and all symbol strings over them",
  "tests sample six grammars; strings with nullable prefixes and order-dependent propagation are not covered",
  ["cfg-predict-sets/src/first.rs", "cfg-predict-sets/src/last.rs"],
  [("FIRST fixpoint", "FirstSets::collect_from"), ("string FIRST", "FirstSets::first_set_for_string"), ("LAST by reversal", "LastSets::new")],
  None, "PredictSets::predict_sets, FirstSets::first_set_for_string")
p("C06", "FOLLOW sets are exact, including end of input",
  "For every nonterminal, the FOLLOW set holds exactly the terminals that the grammar's rules allow directly after it (by the textbook rule-based definition, following nullable suffixes and ends of rules), listed once in order. It is marked as possibly followed by end of input exactly when that position can be reached from a declared start symbol through rule ends and nullable suffixes.",
  ["inputs"], "all grammars and start-symbol sets",
  "no test at all computes FOLLOW sets with start symbols",
  ["cfg-predict-sets/src/follow.rs", "cfg-predict-sets/src/cfg_sets_ext.rs"],
  [("FOLLOW fixpoint", "FollowSets::new")], None, "PredictSets::predict_sets")
p("C07", "LL(1) classification is exact",
  "A nonterminal is classified context-free exactly when it, or some nonterminal occurring in what it can derive, has two alternatives predicted by the same lookahead (a terminal or end of input); otherwise it is classified LL(1). Every nonterminal that is predicted by at least one lookahead gets a class, and nothing else does.",
  ["inputs"], "all grammars and start-symbol sets",
  "two grammars without start symbols are tested; conflicts via nullable prefixes and end of input are not",
  ["cfg-classify/src/ll.rs", "cfg-predict-sets/src/first.rs", "cfg-predict-sets/src/follow.rs"],
  [("LL table", "LlParseTable::new, LlParseTable::classify")], None, "LlClassification::classes")
p("C08", "Derivation relations and recursion kinds are exact",
  "The direct derivation, reachability, reflexive reachability and unit derivation relations between symbols are exactly the relations defined by the rules, for any number of symbols. A rule is reported as recursive exactly when some right-hand-side symbol can derive the rule's left-hand side, with left, middle and right recursion telling the true positions. Relations survive conversion to and from plain bit matrices, of which exactly the square ones convert.",
  ["inputs"], "all grammars with any number and numbering of symbols (word and block boundaries of bit matrices included)",
  "tests use fewer than 10 symbols in one numbering",
  ["cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs", "cfg-classify/src/recursive.rs"],
  [("matrices", "CfgSymbolBitMatrixExt"), ("recursion", "Recursion::recursive_rules, rule_recursion")], None,
  "SymbolBitMatrix index/iter_row_syms, Recursion::recursive_rules")
p("C09", "Minimal distances are true shortest distances",
  "For every set of marked rule positions and each direction, the distance reported at every rule position is the least number of terminals derivable between it and a marked position lying ahead of it in some derivation tree (further on in the same rule, inside the rules of a symbol ahead, or after leaving finished rules at any place where their left-hand side is used), or none if no marked position can lie ahead. Backward distances are the mirror image, symmetric distances the smaller of both, grammars with symbols that derive nothing are handled, and a distance beyond the range of the result type is reported as its largest value.",
  ["inputs"], "all grammars, all sets of marked positions, all three directions",
  "two tests with one marked position, forward only",
  ["cfg-predict-distance/src/lib.rs", "cfg-grammar/src/cfg.rs", "cfg-classify/src/recursive.rs"],
  [("distance propagation", "MinimalDistance::minimal_distances"), ("minimal lengths", "Cfg::rhs_closure_with_values")], None,
  "MinimalDistance::distances")
p("C10", "Sequence rules derive exactly the requested repetitions",
  "A sequence with any minimum, any maximum (or none) and any of the four separator modes derives exactly: that many elements, separated as the mode demands (none; between elements; after each element; either of the latter two). This holds for all ways of giving the range, for several sequences built in a row on one grammar, and with a length limit in force, and other symbols' languages do not change.",
  ["inputs", "histories"], "all (minimum, maximum, separator) triples and successions of such sequences",
  "tests fix a dozen ranges; the rewrite splits ranges at powers of two, so each range takes a different path",
  ["cfg-sequence/src/rewrite.rs", "cfg-sequence/src/builder.rs", "cfg-sequence/src/lib.rs", "cfg-sequence/src/destination.rs"],
  [("rewrite", "SequencesToProductions::reduce"), ("range", "SequenceRuleBuilder::range, Sequence::range")],
  "SequencesToProductions::map", "Cfg::rules()")
p("C11", "Precedenced rules derive exactly the precedence-respecting trees",
  "A precedenced rule built from levels of alternatives derives each operator expression with exactly as many parse trees as the flat grammar has trees that respect the stated precedence and associativity: at each operator the extreme operand on the associative side may be of the same or a tighter level, other operands only of a tighter level (the tightest level counts as tighter than itself), and grouped operands of any level. Several precedenced rules and plain rules may be built in a row.",
  ["inputs", "histories"], "all sequences of builder calls (levels, associativities, operand shapes) and all expressions",
  "three grammars are compared rule by rule; no test checks the trees derived",
  ["cfg-grammar/src/precedenced_rule.rs", "cfg-grammar/src/rule_builder.rs"],
  [("precedence builder", "PrecedencedRuleBuilder::{rhs_with_history,lower_precedence,finalize}")],
  "PrecedencedRuleBuilder fields", "Cfg::rules()")
p("C12", "Renumbering symbols is an isomorphism and its mapping is exact",
  "Reordering symbols renames every symbol consistently in rules, start symbols, wrapped start symbols and names, so that the result is the same grammar up to the renaming, sorted as requested. Removing unused symbols keeps exactly the symbols that occur in rules or belong to start symbols (wrapped ones with their markers included), numbered densely in their former order. After any succession of such operations the reported mapping translates both ways between old and new symbols, and translates removed symbols to nothing.",
  ["inputs", "histories"], "all grammars, orders and sequences of reorder / remove-unused operations",
  "three fixed reorderings are tested, names and start symbols not at all",
  ["cfg-symbol-bit-matrix/src/remap_symbols.rs", "cfg-symbol/src/intern.rs", "cfg-symbol/src/source.rs"],
  [("remap", "Remap::{reorder_symbols,remap_symbols,remove_unused_symbols}"), ("mapping composition", "Mapping::translate")],
  "Mapping, SymbolSource::names", "Cfg::rules/roots/wrapped_roots/sym_source, Remap::get_mapping")
p("C13", "Symbol sources hand out unique symbols and keep names attached",
  "Every symbol obtained from a source, by whichever call, is different from all others that are live and they are numbered densely; each symbol keeps exactly the name it was given, or is reported as unnamed with a generated display name. Truncation removes exactly the symbols at or above the given number and never invents any; symbols, names, symbol mappings and the marks of rule histories survive conversion to JSON or binary form and back unchanged, and numbers outside the symbol range are rejected.",
  ["histories"], "all sequences of symbol-creating, naming, truncating, renaming and serializing calls, for 8-, 16- and 32-bit symbols",
  "a single test checks the memory size of a symbol",
  ["cfg-symbol/src/source.rs", "cfg-symbol/src/symbol.rs"],
  [("symbol source", "SymbolSource::{next_sym,sym,with_names,generate,truncate,remap_symbols,name_of,name_map}"), ("miniserde impls", "cfg-symbol")],
  "SymbolSource::{next_symbol,names}", "SymbolSource public API")
p("C14", "Loading basic BNF is total, faithful and round-trips",
  "For every text, loading either returns the grammar the text denotes (rules in order with their origin numbers, alternatives, repetitions as languages, one symbol per distinct name, the first left-hand side as start symbol) or returns an error; it accepts exactly the texts of the documented notation and never panics. A character that begins no token, or else the first token that cannot continue the text, is reported with its own line and column. Writing out a grammar of distinctly named symbols whose start symbol comes first, and loading that text again, gives the same rules, names and start symbol.",
  ["inputs"], "all texts",
  "one short text is loaded in tests; malformed texts are never tried",
  ["cfg-load/src/basic.rs", "cfg-load/src/string_interner.rs"],
  [("lexer", "Lexer::eat"), ("evaluator", "Evaluator::product"), ("builder", "CfgLoadExt::load, to_bnf")], None,
  "CfgLoadExt::load, CfgLoadExt::to_bnf")
p("C15", "Loading rich BNF with a lexer is total and faithful",
  "For every text, loading either returns the denoted grammar, names, per-rule action names keyed by origin number, set of lexical symbols and character classes, or returns an error; a token that cannot continue the text is reported with that token's own line and column. Quoted strings and regular expressions derive exactly the character sequences they denote, and a name defined both inside and outside the lexer, an unknown function or a text that is no regular expression is rejected at the line and column where it stands. It never panics on regular expressions without look-around assertions.",
  ["inputs"], "all texts",
  "four texts are loaded in tests, one error case only checks that an error occurs",
  ["cfg-load/src/advanced.rs"],
  [("lexer", "Lexer::tokenize/eat"), ("evaluator", "Evaluator::product"), ("builder", "CfgLoadAdvancedExt::load_advanced")], None,
  "AdvancedGrammar fields, LoadError")
p("C16", "Regular expressions become grammars with the same language",
  "For every regular expression without look-around, the grammar obtained derives, when each character is translated through the computed character map, exactly the strings the expression matches in full. A text that is not a regular expression is rejected. The character map returns for every character exactly the symbols whose class contains it, for all of Unicode including range ends, however the classes were made (from a character, a byte or a class).",
  ["inputs"], "all regular expressions and all characters",
  "one expression is tested by counting rules and probing nine characters",
  ["cfg-regexp-logic/src/lib.rs", "cfg-regexp-logic/src/ext.rs"],
  [("translation", "Translator::walk_hir"), ("character map", "LexerMap::compute/get"), ("classes", "LexerClasses")], None,
  "CfgRegexpExt::from_regexp, LexerMap::get")
p("C17", "Random generation yields only sentences, within limits",
  "For every grammar and every sequence of random values, generation that succeeds returns a terminal string derivable from the start symbol together with the characters of those terminals, no longer than the terminal limit, in which no forbidden text follows the position of a negative lookahead. It fails only by reporting that the terminal limit or the allowed number of retries was exceeded, and every derivable string within the limit can be produced by some sequence of random values.",
  ["inputs", "schedules"], "all grammars, limits, negative lookaheads and all random choice sequences",
  "two tests run one seed each",
  ["cfg-generate/src/weighted/random.rs", "cfg-generate/src/weighted/weighted_rhs_by_lhs.rs"],
  [("generator", "Random::random"), ("backtracking", "BacktrackState")],
  "work list, backtracking map", "Random::random result")
p("C18", "Rule alternatives are picked in proportion to their weights",
  "Given the random value drawn below the total weight, the alternative picked is the one whose share of the cumulative weights, in rule order, contains that value (share start included, end excluded); so an alternative's share of values equals its weight divided by the total, and an alternative of weight zero is never picked. Rules without a weight count as weight one. A byte-driven source gives every alternative its share of the 256 bytes, to the nearest byte at either end.",
  ["inputs"], "all weight vectors and all random values",
  "generation tests fix two seeds; boundaries and proportions are not tested",
  ["cfg-generate/src/weighted/weighted_rhs_by_lhs.rs", "cfg-history/src/earley/mod.rs"],
  [("cumulative pick", "WeightedRhsByLhs::add_weight/pick_rhs"), ("weights from rules", "Weighted::weighted")], None,
  "WeightedRhsByLhs::pick_rhs, Random::random")
p("C19", "Chained grammar transformations keep the start symbols' language",
  "After any sequence of the language-preserving operations (limiting rule length, eliminating nulling rules, making proper, rewriting cycles, renumbering and removing unused symbols, sorting, removing duplicate rules, reversing twice, wrapping input, cloning) the start symbols derive the language they derived initially: minus the empty string once nulling rules were eliminated, and enclosed by the input markers once wrapped. No operation in such a sequence panics or loops.",
  ["histories", "inputs"], "all operation sequences on all grammars",
  "tests apply at most two operations to a grammar; interactions between operations are not sampled",
  ["cfg-grammar/src/cfg.rs", "cfg-classify/src/lib.rs", "cfg-classify/src/cyclical.rs", "cfg-symbol-bit-matrix/src/remap_symbols.rs"],
  [("transformations", "Cfg::*, Cycles::rewrite_cycles, make_proper, Remap::*")],
  "Cfg fields", "Cfg::rules(), Cfg::roots(), Cfg::wrapped_roots()")
p("C20", "Rule histories keep tracing back to the original rule",
  "When rules are split into two-symbol parts, exactly one part per original rule keeps the original's origin number and its dot positions name the original rule's first, last-but-one and last positions, while each other part has no origin and its middle dot names the true position in the original rule; all parts keep the weight. Eliminating nulling symbols keeps every rule's origin and all history of the rules it does not derive anew, and where exactly one of two symbols is nullable the new rule records that symbol and its side, keeping dots and weight. Alternatives of precedenced rules keep the origin and weight they were given, and a sequence's own rules keep the origin and weight the sequence was given.",
  ["inputs", "histories"], "all rules of all lengths, all nullable patterns, all orders of the transformations",
  "the history test file is empty",
  ["cfg-history/src/earley/mod.rs", "cfg-history/src/lib.rs", "cfg-grammar/src/cfg.rs", "cfg-sequence/src/rewrite.rs"],
  [("history updates", "process_linked, History::binarize, History::eliminate_nulling"), ("columns", "Cfg::column")],
  "CfgRule::history", "History::{origin,nullable,dot}, Cfg::column")
p("C21", "LR(0) item sets and machine match the textbook construction",
  "For every grammar in which no textbook LR(0) state needs two items of the same rule, the item closure, the advance operation and the machine built from a start symbol (over transitions through terminals) are those of the textbook construction: the same item sets, each once, with the same links, the initial set first. The grammar is extended by exactly one start rule.",
  ["inputs"], "all grammars and start symbols in that class",
  "one grammar is tested",
  ["cfg-classify/src/lr.rs"],
  [("closure", "Lr0ClosureBuilder::closure/advance"), ("machine", "Lr0FsmBuilder::make_lr0_fsm")],
  "Lr0FsmBuilder::cached_sets", "Lr0Node list")
p("C22", "Symbol sets and property closures behave as mathematical sets",
  "Symbol sets support membership, insertion, removal, union, negation, emptiness, fullness, iteration in order and reserving space exactly like sets over the grammar's symbols, and terminal, nulling, productive, used and unused sets contain exactly the symbols defined by the rules. Closing a set under all-symbols or any-symbol rules adds exactly the least set of left-hand sides that the rules with non-empty right-hand sides force, and closing a cost assignment yields the least costs (sums beyond the range of the cost type count as its largest value).",
  ["inputs", "histories"], "all grammars, all initial sets and costs, all operation sequences, any number of symbols",
  "no direct tests; indirect ones use few symbols",
  ["cfg-grammar/src/symbol_bit_set.rs", "cfg-grammar/src/cfg.rs", "cfg-grammar/src/occurence_map.rs"],
  [("bit set", "SymbolBitSet"), ("closures", "Cfg::rhs_closure, Cfg::rhs_closure_with_values"), ("occurrence index", "OccurenceMap")],
  "SymbolBitSet::bit_vec, Cfg::tmp_stack", "SymbolBitSet public API")
p("C23", "Grammar containers keep rules exactly as given",
  "Adding, sorting, removing consecutive duplicates, filtering, reversing, extending, cloning and clearing act on the list of rules exactly as on a plain list of (left-hand side, right-hand side, history) entries. Two grammars compare as equivalent exactly when their rule lists are equal in left- and right-hand sides. Wrapping input adds one start rule with fresh markers per start symbol, the emptiness test disregards only those, a dot column reports the true symbols before and after each dot, and the textual listing shows every rule in order. Rules with names attached are equal exactly when their names agree in order and their histories, where both are known, are equal.",
  ["histories", "inputs"], "all operation sequences and all pairs of grammars",
  "only indirectly tested; comparing grammars of different lengths never",
  ["cfg-grammar/src/cfg.rs", "cfg-grammar/src/compare.rs", "cfg-grammar/src/rule_builder.rs"],
  [("container operations", "Cfg::{add_rule,sort,sort_by,dedup,extend,retain,reverse,clear_rules,wrap_input,is_empty,column,equivalent}")],
  "Cfg fields", "Cfg public API")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
