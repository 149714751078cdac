"""The property table (properties.jsonl and MANIFEST.json are generated from it by gen.py)."""
from props import prop, eq, bv, lint

RS, RULE, SCHED, WK, SX, FI, PA = ("src/enumo/%s.rs" % x for x in (
    "ruleset", "rule", "scheduler", "workload", "sexp", "filter", "pattern"))
LIB, LANG, BVF, REC, LOG, UT = ("src/%s.rs" % x for x in ("lib", "language", "bv", "recipe_utils", "logger", "util"))

# ---- soundness of inference ---------------------------------------------------------------------
prop("P01", "Only rules the validator accepts are ever selected",
     "Minimising candidates never returns a rule that the domain's validator did not judge Valid: a verdict of Invalid or "
     "Unknown keeps the rule out of the chosen set, whichever direction it was reached from (best candidate or its reverse).",
     ["inputs", "programs"], "all candidate sets, priors, schedulers and domain validators",
     "tests run a handful of domains whose validators almost never answer Unknown; the gate must hold for every verdict "
     "at every selection step", [RS, RULE],
     [("selection gate", "Ruleset::select"), ("verdict to boolean", "Rule::is_valid"), ("selection loop", "Ruleset::minimize")],
     eq("Ruleset::minimize", "Rule::is_valid", "Rule::new", "Ruleset::contains", "Ruleset::add", "Ruleset::extend",
        "Ruleset::remove_all", "Ruleset::is_empty", "Ruleset::len", "Ruleset as Default::default"))

prop("P02", "Minimisation returns the new rules and exactly the rejected ones",
     "Minimising candidates against prior rules returns two sets: the chosen rules, none of which is a prior rule, and the "
     "rejected rules, each of which was a candidate whose validation did not succeed. The two sets never share a rule.",
     ["inputs", "programs"], "all candidate sets and priors, including candidates whose reverse is not a candidate",
     "tests only count the chosen rules of a few runs and never look at the rejected set", [RS, RULE],
     [("result assembly", "Ruleset::minimize"), ("rejection bookkeeping", "Ruleset::select")],
     eq("Ruleset::minimize", "Rule::is_valid", "Rule::new", "Ruleset::contains", "Ruleset::add", "Ruleset::extend",
        "Ruleset::remove_all", "Ruleset as Default::default"))

prop("P03", "Minimisation drops a candidate only if it was judged or is derivable",
     "While minimising, a candidate leaves the pool only by being selected, by being rejected by the validator (itself or as "
     "the reverse of a selected rule), or because running the chosen and prior rules with the given scheduler put its two "
     "sides in one class. Every candidate whose sides stay apart remains available for the next step.",
     ["inputs", "programs", "histories"], "all candidate sets, priors, schedulers and step histories",
     "tests compare final rule counts of a few domains, which tolerate silently lost candidates", [RS, SCHED],
     [("redundancy elimination", "Ruleset::shrink"), ("selection", "Ruleset::select")],
     eq("Ruleset::minimize", "Ruleset::add", "Ruleset as Default::default", "SynthLanguage::instantiate",
        "Scheduler::run", "Scheduler::run_internal", "Rule::new"))

prop("P04", "A rule is reported derivable only when its sides end in the same class",
     "A rule counts as derivable from a ruleset only if running that ruleset, within the given limits, from the requested "
     "starting terms (left side only, or both sides) makes the two sides equal; a right side that never appears means not "
     "derivable. Both starting modes are honoured.",
     ["inputs", "programs"], "all rulesets, rules, derivation modes and limits",
     "tests exercise a few rules of one domain; the verdict must be right for every rule and mode", [RS, SCHED],
     [("derivability test", "Ruleset::can_derive"), ("saturation with early stop", "Scheduler::run_derive")],
     eq("Ruleset::can_derive", "Scheduler::run_derive", "Scheduler::run_internal", "SynthLanguage::instantiate"))

prop("P05", "Derivation splits the compared ruleset exactly into can and cannot",
     "Deriving one ruleset from another returns each compared rule exactly once, in the derivable part if it is derivable "
     "from the first ruleset under the given mode and limits and in the other part otherwise, in the original order.",
     ["inputs", "configurations"], "all pairs of rulesets, modes and limits, any number of worker threads",
     "tests check sizes on a few fixed rulesets", [RS],
     [("parallel partition", "Ruleset::partition"), ("derivation driver", "Ruleset::derive")],
     eq("Ruleset::derive", "Ruleset::partition", "Ruleset::can_derive", "Ruleset::add_all", "Ruleset::add",
        "Ruleset as Default::default"))

prop("P06", "A rule's name, sides and executable rewrite always agree",
     "Every rule is created with a name that spells its left and right side, patterns equal to those sides, and a rewrite "
     "that searches for the left pattern and applies the right one. The reverse direction of a bidirectional rule swaps all "
     "of them together.",
     ["inputs"], "all patterns and all textual rules, unidirectional and bidirectional",
     "tests look at the printed name only; a rewrite built from the wrong side would still print correctly", [RULE],
     [("construction", "Rule::new"), ("parsing", "Rule::from_string"), ("printing", "Rule Display")],
     eq("Rule::new", "Rule::from_string", "Rule as Display::fmt", "Rhs as Applier::vars"))

prop("P07", "Rewrites never touch classes without a defined value",
     "Applying a learned rule unions the matched class with the instantiated right side only if both classes have at least "
     "one sample point with a defined value (or no samples at all); otherwise the class structure is left unmerged and "
     "nothing is reported as changed.",
     ["inputs", "histories"], "all e-graphs, substitutions and rules",
     "tests use total operators almost everywhere; partial operators need the guard on every application", [RULE, LANG],
     [("guarded applier", "Rhs::apply_one"), ("definedness", "Signature::is_defined")],
     eq("Rhs as Applier::apply_one", "Signature::is_defined", "Rhs as Applier::vars"))

prop("P08", "The right side is instantiated under the matching substitution",
     "Applying a rule adds exactly the right-hand pattern with every variable replaced by the class it was matched to, and "
     "merges that term's root with the matched class, reporting the merged class.",
     ["inputs"], "all patterns and substitutions",
     "tests run whole syntheses; a wrongly wired child index is only visible for particular shapes", [RULE],
     [("instantiation", "apply_pat"), ("applier", "Rhs::apply_one")],
     eq("Rhs as Applier::apply_one", "Rhs as Applier::vars", "Rule::new", "Rule::from_string"))

# ---- schedulers ---------------------------------------------------------------------------------
prop("P09", "Compression never grows the e-graph",
     "Running rules in compressing mode returns a copy of the given e-graph in which classes have only been merged, namely "
     "exactly those the rules proved equal on a scratch copy, and which is rebuilt; no term that was not in the input is added.",
     ["inputs", "histories"], "all e-graphs, rulesets and limits",
     "tests observe learned rule counts, not the classes of intermediate e-graphs", [SCHED],
     [("compress arm", "Scheduler::run_internal")],
     eq("Scheduler::run_internal", "Scheduler::run"))

prop("P10", "Resource limits are enforced where they are meant to be",
     "Every saturation run is bounded by the iteration, node and per-rule match limits it was given, each reaching its own "
     "knob, and the match limit is applied to every rule search. The preset limits for synthesis, minimisation and "
     "derivation keep their documented values.",
     ["configurations", "inputs"], "all limits and schedulers",
     "a swapped or dropped limit only shows on inputs large enough to hit it", [SCHED, LIB],
     [("runner construction", "Scheduler::run_internal"), ("match limit", "MatchScheduler::search_rewrite"), ("presets", "Limits")],
     eq("Scheduler::run_internal", "MatchScheduler as RewriteScheduler::search_rewrite", "Limits::synthesis",
        "Limits::minimize", "Limits::deriving"))

prop("P11", "Saturating mode alternates full saturation with single growth steps",
     "In saturating mode, each of the allowed iterations first runs the non-growing rules without iteration or node bound "
     "and then the remaining rules for one iteration under the node limit, and a final unbounded non-growing run follows; "
     "every rule of the ruleset belongs to exactly one of the two groups.",
     ["inputs", "configurations"], "all rulesets and limits",
     "tests check a few derivations that succeed under many schedules", [SCHED, RULE, RS],
     [("saturating arm", "Scheduler::run_internal"), ("classification", "Rule::is_saturating")],
     eq("Scheduler::run_internal", "Rule::is_saturating", "Ruleset::partition"))

prop("P12", "Schedulers run every rule of the ruleset and start from the given graph",
     "Running a ruleset never changes the caller's e-graph; it starts from a copy of it, applies exactly the rules of the "
     "given ruleset, stops early only when the rule being derived has been proved, and returns a rebuilt e-graph.",
     ["inputs"], "all e-graphs, rulesets and schedulers",
     "tests cannot see a rule that was silently not run unless its absence changes a count", [SCHED],
     [("entry points", "Scheduler::run, Scheduler::run_derive"), ("runner", "Scheduler::run_internal")],
     eq("Scheduler::run_internal", "Scheduler::run", "Scheduler::run_derive"))

prop("P13", "A rule is saturating only if it cannot add classes",
     "A rule is classified as saturating exactly when the graph holding its left side does not get more classes by adding "
     "its right side and merging the two.",
     ["inputs"], "all rules",
     "tests do not inspect the classification", [RULE],
     [("classification", "Rule::is_saturating")],
     eq("Rule::is_saturating", "SynthLanguage::instantiate"))

# ---- analysis -----------------------------------------------------------------------------------
prop("P14", "Merging classes keeps all sample knowledge and detects contradictions",
     "When two classes merge, every sample point defined in either stays defined with that value, two different defined "
     "values at one point stop the run, and a class without samples does not erase the other's. Both sides are told "
     "accurately when they changed.",
     ["inputs", "histories"], "all pairs of signatures in any merge order",
     "tests rarely merge classes with partially undefined samples", [LANG],
     [("merge", "SynthAnalysis::merge")],
     eq("SynthAnalysis as Analysis::merge"))

prop("P15", "Intervals of merged classes are intersected",
     "When two classes merge, the surviving interval is the intersection of the two (largest lower bound, smallest upper "
     "bound, unbounded only where both are), and an empty interval is rejected when it is built. A new node's interval comes "
     "from its children's intervals.",
     ["inputs", "histories"], "all pairs of intervals, including half-open ones",
     "the interval tests cover one arithmetic domain", [LANG, LIB],
     [("merge", "SynthAnalysis::merge"), ("construction check", "Interval::new"), ("default", "Interval::default")],
     eq("SynthAnalysis as Analysis::merge", "Interval::new", "Interval as Default::default",
        "SynthAnalysis as Analysis::make", "SynthLanguage::mk_interval"))

prop("P16", "Constant folding happens only when the interval is a single point",
     "After a class changes, it is unioned with a constant node only if both interval bounds are known and equal, and the "
     "constant is that bound; the domain's own hook runs first on every change. Otherwise no node is added.",
     ["inputs", "histories"], "all e-graphs and classes",
     "tests fold a few constants of one domain", [LANG],
     [("modify hook", "SynthAnalysis::modify")],
     eq("SynthAnalysis as Analysis::modify", "SynthLanguage::custom_modify"))

prop("P17", "Each class remembers a simplest term that really denotes it",
     "The representative term recorded for a new node is that node over the recorded terms of its children, with child "
     "references adjusted to the combined term; when classes merge, the cheaper of the two terms is kept, with disallowed "
     "operators priced as unusable.",
     ["inputs", "histories"], "all nodes, including repeated children, and all merges",
     "tests do not read the recorded term", [LANG, LIB],
     [("make", "SynthAnalysis::make"), ("merge", "SynthAnalysis::merge"), ("cost", "ExtractableAstSize::cost")],
     eq("SynthAnalysis as Analysis::make", "SynthAnalysis as Analysis::merge", "ExtractableAstSize as CostFunction::cost",
        "SynthLanguage::is_allowed_op", "SynthLanguage::is_var"))

prop("P18", "A new node is evaluated on its children's samples",
     "The sample vector of a new class is the domain interpreter applied to the node with the graph's configured sample "
     "count and its children's own sample vectors.",
     ["inputs"], "all nodes and e-graphs",
     "tests only see the candidate rules that result", [LANG],
     [("make", "SynthAnalysis::make"), ("default analysis", "SynthAnalysis::default")],
     eq("SynthAnalysis as Analysis::make", "SynthAnalysis as Default::default"))

# ---- candidate generation -----------------------------------------------------------------------
prop("P19", "Sample matching pairs exactly the classes the definition asks for",
     "Candidate search by samples proposes a rule for two classes exactly when they agree at every point where both are "
     "defined and are both defined at some point; every such pair is considered once and expressed by its smallest terms.",
     ["inputs"], "all e-graphs with partially defined sample vectors",
     "tests use total domains where every definition of matching coincides", [RS],
     [("matching", "Ruleset::cvec_match"), ("pairing", "Ruleset::add_from_recexprs")],
     eq("Ruleset::cvec_match", "Ruleset::add_from_recexprs", "Ruleset as Default::default"))

prop("P20", "Fast matching pairs all classes with identical defined samples",
     "The fast candidate search groups classes that have at least one defined sample by identical sample vectors and "
     "proposes every unordered pair within a group, and only those.",
     ["inputs"], "all e-graphs",
     "tests count candidates of a few graphs", [RS, LANG],
     [("matching", "Ruleset::fast_cvec_match")],
     eq("Ruleset::fast_cvec_match", "Ruleset::add_from_recexprs", "Signature::is_defined", "Ruleset as Default::default"))

prop("P21", "Candidates from two e-graphs are newly equal and expressible",
     "Comparing a graph before and after rewriting proposes a rule only for terms of classes that were distinct before and "
     "equal after, considers every such pair in both orders, and never uses a term containing a disallowed operator.",
     ["inputs"], "all pairs of e-graphs and operator restrictions",
     "two test domains restrict operators at all", [RS, LIB],
     [("extraction", "Ruleset::extract_candidates"), ("cost function", "ExtractableAstSize::cost")],
     eq("Ruleset::extract_candidates", "Ruleset::add_from_recexprs", "ExtractableAstSize as CostFunction::cost",
        "SynthLanguage::is_allowed_op", "Ruleset as Default::default"))

prop("P22", "Both directions of a candidate share one variable naming",
     "When a pair of terms becomes candidate rules, variables are renamed consistently across both terms in order of first "
     "appearance, distinct variables stay distinct, everything else is unchanged, and each direction is added whenever it "
     "is a well-formed rule.",
     ["inputs"], "all pairs of terms",
     "tests check one asymmetric example", [RS, LANG, UT],
     [("generalisation", "SynthLanguage::generalize"), ("pairing", "Ruleset::add_from_recexprs"), ("names", "letter")],
     eq("Ruleset::add_from_recexprs", "SynthLanguage::generalize", "SynthLanguage::to_enode_or_var", "util::letter",
        "Rule::new", "Ruleset::add", "SynthLanguage::is_var"))

prop("P23", "Instantiating a pattern only turns its variables into domain variables",
     "Turning a pattern into a ground term keeps its shape and operators and replaces each pattern variable by the domain "
     "variable of the same name; going back from a node yields the pattern variable of that name.",
     ["inputs"], "all patterns", "tests see it only through whole runs", [LANG],
     [("instantiation", "SynthLanguage::instantiate"), ("node to pattern", "SynthLanguage::to_enode_or_var")],
     eq("SynthLanguage::instantiate", "SynthLanguage::to_enode_or_var", "SynthLanguage::is_var"))

prop("P24", "Rule ranking follows the documented lexicographic score",
     "Candidates are ranked by more variables first, then fewer constants, smaller larger side, smaller total size and fewer "
     "distinct operators, in that order, computed over both sides, and the highest ranked candidate is always selected next.",
     ["inputs"], "all rules and candidate sets",
     "tests compare final counts that are insensitive to ties and most orderings", [LANG, RULE, RS],
     [("score", "SynthLanguage::score"), ("selection order", "Ruleset::select")],
     eq("SynthLanguage::score", "Rule::score", "Ruleset::minimize"))

# ---- pipelines ----------------------------------------------------------------------------------
prop("P25", "Rule inference runs its stages on the right inputs in the right order",
     "Inferring rules from a workload builds its e-graph, compresses it with the prior rules under the prior limits, finds "
     "candidates on the compressed graph by the requested matching, and minimises them against the prior rules under the "
     "minimisation limits; the result is the chosen new rules, and learning nothing is an error.",
     ["inputs", "configurations"], "all workloads, priors, limits and matching modes",
     "tests run a few workloads where several orders give the same counts", [REC],
     [("driver", "run_workload")],
     eq("recipe_utils::run_workload", "Ruleset::is_empty", "Ruleset::len"))

prop("P26", "Fast-forwarding separates allowed, exploratory and all rules by phase",
     "Fast-forwarding compresses with only the prior rules made of allowed operators, then grows with the exploratory rules, "
     "then compresses with all of them, collects candidates from the second and third phase, and minimises them against the "
     "prior rules; exploratory rules are never part of the result unless rediscovered as candidates.",
     ["inputs", "configurations"], "all workloads, priors and domains with exploratory rules",
     "three test domains run it and check counts", [REC, LANG],
     [("driver", "run_fast_forwarding"), ("operator restriction", "SynthLanguage::is_allowed_rewrite")],
     eq("recipe_utils::run_fast_forwarding", "SynthLanguage::is_allowed_rewrite", "SynthLanguage::is_allowed_op",
        "SynthLanguage::is_fast_forwarding", "Ruleset::partition", "Ruleset::extend", "Ruleset::extract_candidates"))

prop("P27", "Recursive synthesis uses every smaller size and every prior rule",
     "Building rules up to a size first builds those of the previous size with the same metric, language and prior, uses "
     "them together with the prior rules as the next prior, enumerates terms with at least one variable using one operator "
     "slot per arity of the language, and returns the new rules together with all earlier ones.",
     ["inputs", "configurations"], "all languages, metrics, sizes and priors",
     "tests run sizes up to 3 on two domains", [REC],
     [("driver", "recursive_rules"), ("grammar", "base_lang"), ("language", "Lang::new")],
     eq("recipe_utils::recursive_rules", "recipe_utils::base_lang", "recipe_utils::iter_metric", "Lang::new",
        "Ruleset::extend", "Ruleset as Default::default"))

prop("P28", "Iterating a grammar enumerates it up to the size bound",
     "Iterating a workload on a placeholder n times plugs the previous level into the original workload and bounds each "
     "level by the metric, so that level i holds only terms of measure at most i; substitution plugs each substitute in turn "
     "and appends the results in order.",
     ["inputs", "configurations"], "all workloads, placeholders, metrics and bounds",
     "tests count terms of one grammar", [REC, WK],
     [("iteration", "iter_metric"), ("substitution", "substitute"), ("grammar", "base_lang")],
     eq("recipe_utils::iter_metric", "recipe_utils::substitute", "recipe_utils::base_lang", "Workload::plug",
        "Workload::filter", "Workload::append", "Workload::force"))

# ---- workloads ----------------------------------------------------------------------------------
prop("P29", "Workload optimisations never change the set of terms",
     "Adding a filter, plugging or appending yields a workload whose terms are exactly those of the unoptimised operation: "
     "a filter is pushed below a plug only if it can never become true again on a larger term, and is still applied on top; "
     "combined filters keep every condition; appended workloads keep all terms.",
     ["inputs", "programs"], "all workload expressions, filters and terms",
     "tests check one or two instances of each optimisation", [WK, FI],
     [("push-down", "Workload::filter"), ("monotonicity", "Filter::is_monotonic"), ("combination", "Filter::and"),
      ("empty plug", "Workload::plug"), ("append", "Workload::append")],
     eq("Workload::filter", "Workload::plug", "Workload::append", "Workload::force", "Filter::and", "Filter::is_monotonic",
        "Filter::subsumed_by", "Workload::empty", "Workload as Default::default", "Workload::new", "Workload as From::from")
    )

prop("P30", "Filters mean what their names say",
     "A filter decides a term by its own definition: a size bound is strict, equality is exact, containment looks at the "
     "term and all its subterms, exclusion is the negation of containment, canonical means unchanged by canonicalisation, "
     "and the connectives are the logical ones; an empty conjunction accepts and an empty disjunction rejects.",
     ["inputs"], "all filters and terms",
     "tests check single examples of most filters and none of disjunction or canonicity", [FI],
     [("test", "Filter::test")],
     eq("Filter::test", "Pattern::matches", "Pattern::matches_with", "Sexp::measure", "Sexp::canon"))

prop("P31", "Pattern matching binds variables consistently",
     "A term pattern matches exactly when the wildcard, literals and list shape agree with the term and every occurrence of "
     "one variable is matched to the same subterm; a literal matches only the equal atom and a list only a list of the same "
     "length.",
     ["inputs"], "all patterns and terms", "tests check three patterns", [PA],
     [("matching", "Pattern::matches_with"), ("parsing", "Pattern::from_str")],
     eq("Pattern::matches", "Pattern::matches_with", "Pattern::from_symbolic_expr", "Pattern as FromStr::from_str"))

prop("P32", "Plugging substitutes every occurrence independently",
     "Plugging values for a name produces every term obtained by replacing each occurrence of exactly that name by some "
     "value, independently for each occurrence, leaving all other atoms and the list structure unchanged; terms without the "
     "name, including the empty list, survive exactly once.",
     ["inputs"], "all terms, names and value lists",
     "tests check a few terms with at most two occurrences", [SX, WK],
     [("substitution", "Sexp::plug"), ("enumeration", "Workload::force")],
     eq("Sexp::plug", "Workload::force", "Workload::plug"))

prop("P33", "Term measures count atoms, lists and depth",
     "The three measures of a term are the number of atoms, the number of lists, and the nesting depth where an atom counts "
     "one and a list one more than its deepest element; they are defined for every term, including empty lists.",
     ["inputs"], "all terms", "tests cover small non-empty terms", [SX],
     [("measure", "Sexp::measure")], eq("Sexp::measure"))

prop("P34", "Canonical renaming assigns symbols in order of first appearance",
     "Canonicalising a term renames only the listed symbols, maps equal symbols to equal and different symbols to different "
     "ones, assigning them in list order by first appearance from left to right, and changes nothing else.",
     ["inputs"], "all terms and symbol lists", "tests use one list of three symbols", [SX],
     [("renaming", "Sexp::mk_canon"), ("application", "Sexp::apply_subst")],
     eq("Sexp::canon", "Sexp::mk_canon", "Sexp::apply_subst"))

prop("P35", "Terms are read and printed faithfully",
     "Reading a term yields the atoms and lists written in it, in order and nesting, and printing a term writes all of them "
     "back in a form that reads as the same term; a workload written to a file holds one such line per enumerated term and "
     "reading a file keeps every line in order.",
     ["inputs"], "all terms and workloads", "tests parse two terms and never print one back", [SX, WK],
     [("parse", "Sexp::from_str"), ("print", "Sexp Display"), ("files", "Workload::to_file, Workload::from_file")],
     eq("Sexp as FromStr::from_str", "Sexp::from_symbolic_expr", "Sexp as Display::fmt", "Workload::to_file",
        "Workload::from_file", "Workload::new", "Workload as From::from", "Workload::force"))

prop("P36", "Building the e-graph covers every term and every variable",
     "Turning a workload into an e-graph initialises each variable occurring in any term exactly once, in order of first "
     "appearance and before any other term is added, and then adds every term of the workload.",
     ["inputs"], "all workloads and domains",
     "tests cannot see a skipped term or a late variable unless a count changes", [WK],
     [("construction", "Workload::to_egraph")],
     eq("Workload::to_egraph", "Workload::force", "SynthLanguage::to_enode_or_var", "Sexp as Display::fmt"))

# ---- rulesets -----------------------------------------------------------------------------------
prop("P37", "Ruleset operations are set operations keyed by rule",
     "Adding, extending, uniting, removing and membership treat a ruleset as a set of rules identified by their printed "
     "form: no rule is lost or duplicated, removal keeps the rest, the operands of a union are unchanged, and size and "
     "emptiness count the members.",
     ["inputs", "histories"], "all rulesets and operation sequences", "tests use tiny rulesets", [RS],
     [("operations", "Ruleset")],
     eq("Ruleset::add", "Ruleset::add_all", "Ruleset::extend", "Ruleset::union", "Ruleset::remove_all", "Ruleset::contains",
        "Ruleset::len", "Ruleset::is_empty", "Ruleset as Default::default", "Ruleset::iter", "Ruleset::iter_mut"))

prop("P38", "Partitioning loses nothing and keeps the order",
     "Splitting a ruleset by a predicate puts each rule in the first part if the predicate holds and in the second "
     "otherwise, exactly once, in the original order, however many threads evaluate the predicate.",
     ["inputs", "schedules"], "all rulesets, predicates and thread schedules",
     "tests never compare the order or the union of the parts", [RS],
     [("partition", "Ruleset::partition")],
     eq("Ruleset::partition", "Ruleset::add_all", "Ruleset::add", "Ruleset as Default::default"))

prop("P39", "A ruleset written to a file is read back as the same rules",
     "Writing a ruleset puts one rule per line and reading a file keeps every well-formed line's rule, both directions for a "
     "bidirectional one, in order; building a ruleset from text follows the same rules. Writing then reading gives back an "
     "equal ruleset.",
     ["inputs"], "all rulesets and files", "one test round-trips one ruleset", [RS, RULE],
     [("write", "Ruleset::to_file"), ("read", "Ruleset::from_file"), ("parse", "Rule::from_string")],
     eq("Ruleset::to_file", "Ruleset::from_file", "Ruleset::new", "Ruleset::to_str_vec", "Rule::from_string",
        "Rule as Display::fmt", "Ruleset as PartialEq::eq") + lint("no_io_error_dropped"))

prop("P40", "Ruleset equality and printing pair rules with their reverses",
     "Two rulesets are equal exactly when they hold the same rules in the same order; the bidirectional count and the printed "
     "listing report a rule and its reverse once, and every other rule on its own.",
     ["inputs"], "all rulesets", "tests compare a few rulesets", [RS],
     [("equality", "Ruleset PartialEq"), ("count", "Ruleset::bidir_len"), ("listing", "Ruleset::pretty_print")],
     eq("Ruleset as PartialEq::eq", "Ruleset::bidir_len", "Ruleset::pretty_print", "Ruleset::contains", "Rule::new"))

# ---- fixed-width arithmetic ---------------------------------------------------------------------
prop("P41", "Bit-vector values always stay within their width",
     "Every way of obtaining an N-bit value (construction, arithmetic, logic, shifts, parsing, conversion, deserialisation, "
     "named constants, random generation) yields a value below 2^N, so equal values are represented equally.",
     ["inputs", "configurations"], "all widths from 1 to 128 and all operand values",
     "tests use width 4 and a few operands", [BVF],
     [("masking constructor", "BV::new"), ("operators", "BV"), ("deserialisation", "BV Deserialize")],
     eq("BV::new", "BV as Not::not", "BV as BitAnd::bitand", "BV as BitOr::bitor", "BV as BitXor::bitxor", "BV::wrapping_add",
        "BV::wrapping_sub", "BV::wrapping_mul", "BV::wrapping_neg", "BV::my_shl", "BV::my_shr", "BV as FromStr::from_str",
        "BV as Deserialize::deserialize", "BV as From::from", "bv::sample", "BV::ZERO", "BV::ALL_ONES", "BV::NEG_ONE",
        "BV::MIN", "BV::MAX") + lint("bv_masked"))

prop("P42", "Bit-vector operations are arithmetic modulo 2^N",
     "Addition, subtraction, multiplication and negation are exact modulo 2^N, logic is bitwise, and shifts by at least the "
     "width give zero while smaller shifts drop the bits shifted out; minimum, maximum and all-ones are the two's complement "
     "ones.",
     ["inputs", "configurations"], "all widths and operand values", "tests check six identities at width 4", [BVF],
     [("operators", "BV")],
     eq("BV::wrapping_add", "BV::wrapping_sub", "BV::wrapping_mul", "BV::wrapping_neg", "BV::my_shl", "BV::my_shr",
        "BV as Not::not", "BV as BitAnd::bitand", "BV as BitOr::bitor", "BV as BitXor::bitxor", "BV::new",
        "BV::ZERO", "BV::ALL_ONES", "BV::NEG_ONE", "BV::MIN", "BV::MAX"))

prop("P43", "Bit-vector literals are read and printed as their value",
     "A bit-vector literal is read as a decimal number or, after the binary prefix, as a binary one, reduced to the width, "
     "and anything else is a parse error rather than a crash; printing writes the decimal value.",
     ["inputs"], "all strings", "no test parses a literal", [BVF],
     [("parse", "BV::from_str"), ("print", "BV Display")],
     eq("BV as FromStr::from_str", "BV as Display::fmt", "BV as Debug::fmt", "BV::new", "BV as From::from",
        "BV as Deserialize::deserialize"))

prop("P44", "Bit-vector interpreter and validator give every operator one meaning",
     "For every generated bit-vector domain, the operation the interpreter computes for an operator and the operation the "
     "SMT query builds for it are the same, on the same operands in the same order; literals and variables denote the same "
     "width-N values on both sides.",
     ["inputs", "configurations"], "all operators, all widths, all values",
     "no test compares the two; a mismatch shows only as a wrong verdict on particular rules", [BVF],
     [("interpreter", "impl_bv! eval"), ("SMT encoding", "impl_bv! egg_to_z3")],
     bv("eval", "validate::egg_to_z3") + eq(*["Bv<%d> as %s" % (w, n) for w in (4, 32, 64, 128) for n in (
         "FromOp::from_op", "Display::fmt", "Language::matches", "Language::children")]))

prop("P45", "The bit-vector verdict is Valid only when the solver refutes a difference",
     "Validating a bit-vector rule asks the solver whether the two sides can differ and answers Valid only for "
     "unsatisfiable, Invalid only for satisfiable and Unknown otherwise, with both sides encoded in one context over the "
     "same variables.",
     ["inputs"], "all rules and solver outcomes", "tests never force the unknown outcome", [BVF],
     [("query", "impl_bv! validate")],
     bv("validate", "validate::egg_to_z3") + eq("SynthLanguage::instantiate"))

prop("P46", "Undefined samples propagate through evaluation",
     "Evaluating a bit-vector operator works pointwise: a point where any operand is undefined is undefined, every other "
     "point is the operator applied to the operands at that point, and a literal is defined everywhere.",
     ["inputs"], "all operators and sample vectors", "tests only use fully defined samples", [BVF, UT],
     [("pointwise evaluation", "map! macro"), ("interpreter", "impl_bv! eval")],
     bv("eval"))

prop("P47", "Bit-vector variables sample all corner-case combinations",
     "Initialising bit-vector variables gives the variables the cross product of the corner values (zero, one, their "
     "negations and the extremes), one distinct column per variable, sets the graph's sample count to match, and registers "
     "every variable; no variables is accepted.",
     ["inputs", "configurations"], "all variable lists and widths", "tests never inspect the samples", [BVF, UT],
     [("sampling", "impl_bv! initialize_vars"), ("cross product", "self_product")],
     bv("initialize_vars", "to_var", "mk_var", "is_constant", "mk_constant", "mk_interval") + eq("util::self_product",
        "BV::MIN", "BV::MAX", "BV as From::from", "BV::wrapping_add", "BV::wrapping_sub", "BV::wrapping_neg"))

prop("P48", "The sample cross product enumerates every combination exactly once",
     "The cross product of k values over n variables has n columns of k^n entries in which every combination of values "
     "occurs in exactly one row.",
     ["inputs"], "all value lists and variable counts", "no test checks the table", [UT],
     [("cross product", "self_product")], eq("util::self_product"))

# ---- reporting ----------------------------------------------------------------------------------
prop("P49", "The results log only grows and never loses earlier rows",
     "Recording a result reads all rows already in the results file, appends exactly one row and writes all of them back; an "
     "absent or empty file counts as no rows, and unreadable content or a failed write stops the run instead of discarding "
     "rows.",
     ["histories", "fault_sequences"], "all file contents and sequences of recordings",
     "no test writes the log twice or with damaged content", [LOG],
     [("append", "add_json_to_file")],
     eq("logger::add_json_to_file", "logger::write_baseline", "logger::write_ff_phase", "logger::write_bv_derivability")
     + lint("no_io_error_dropped"))

prop("P50", "Recorded rows carry the right ruleset under each label",
     "Each derivability figure in a recorded row is computed with the ruleset, direction and derivation mode its label names, "
     "skips only the listed expensive comparisons, and the rules, time and names recorded are those of the run.",
     ["inputs", "configurations"], "all rulesets and labels", "no test reads a recorded row", [LOG, LIB, UT],
     [("baseline rows", "write_baseline"), ("bit-vector rows", "write_bv_derivability"), ("phase rows", "write_ff_phase")],
     eq("logger::write_baseline", "logger::write_bv_derivability", "logger::write_ff_phase", "Phase as Display::fmt",
        "util::count_lines", "Ruleset::to_str_vec", "Ruleset::derive"))

prop("P51", "Inference is a function of its inputs",
     "The library uses no randomness, randomly seeded hashing, environment, clock-dependent decision or unordered parallel "
     "reduction: apart from reported times and egg's own time limit, repeated runs on the same input make the same decisions "
     "in the same order. No result depends on what earlier calls left behind in a static or thread-local. It contains no unsafe "
     "code.",
     ["inputs", "schedules", "configurations"], "all inputs, runs and thread counts",
     "a single test run cannot observe a difference between runs", [RS, WK, SX, LANG, REC, SCHED],
     [("ordered maps", "IndexMap, FxHashMap"), ("ordered parallel partition", "Ruleset::partition")],
     lint("deterministic", "no_hidden_state", "no_unsafe") + eq("Ruleset::partition"))
