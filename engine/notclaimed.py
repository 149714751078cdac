"""Properties a user relies on that this family cannot decide here, with the reason."""
PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, reason):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                      reason=reason)


prop("P91", "Every valid candidate is derivable from the result",
     "After minimisation, each candidate that the validator accepts is either among the chosen rules or derivable from the "
     "chosen and prior rules within the limits.",
     ["inputs", "programs"], "all candidate sets and limits", "tests check two fixed rulesets",
     ["src/enumo/ruleset.rs"], [("minimisation", "Ruleset::minimize")],
     "Derivability within limits is a runtime quantity of equality saturation (order of matches, node counts, time limit); no "
     "static argument in reach bounds it. The structural clause (a candidate is dropped only after the merge test) is P03.")
prop("P92", "Selected rules are true in the mathematical domain",
     "Every selected rule holds for all values of the domain it was synthesised for.",
     ["inputs", "programs"], "all rules and domain values", "tests check counts",
     ["src/enumo/rule.rs", "src/bv.rs"], [("validation", "SynthLanguage::validate")],
     "Truth rests on the domain's validator and the SMT solver's answer, which are outside this code; the clauses that are in "
     "the code (the gate, the encoding's agreement with the interpreter, the verdict mapping) are P01, P44 and P45.")
prop("P93", "Canonical representatives are unique up to renaming",
     "Two terms that differ only by a permutation of the listed symbols have the same canonical form, and canonicalising "
     "twice changes nothing.",
     ["inputs"], "all terms, symbol lists and permutations", "tests check fifteen terms",
     ["src/enumo/sexp.rs"], [("renaming", "Sexp::canon")],
     "A relation between two runs on different inputs (hyperproperty over recursive data): it needs an inductive proof over "
     "terms, not a rule on the code's shape. The per-node algorithm it rests on is P34.")
prop("P94", "Synthesis terminates within its time and memory limits",
     "A synthesis run ends, and its memory is bounded by the node limits given.",
     ["inputs", "configurations"], "all workloads and limits", "tests are sized to finish",
     ["src/enumo/scheduler.rs", "src/recipe_utils.rs"], [("limits", "Scheduler::run_internal")],
     "Sizes of e-graphs and of enumerated workloads are runtime quantities inside egg and the workload enumeration; only the "
     "wiring of each limit to its knob is visible statically, and that is P10.")
prop("P95", "Ranking picks the most useful rule",
     "The rule selected first is the one that makes the most other candidates redundant.",
     ["inputs"], "all candidate sets", "not tested", ["src/language.rs"], [("score", "SynthLanguage::score")],
     "A heuristic quality, not decidable from the source; that the documented score is the one computed and used is P24.")
