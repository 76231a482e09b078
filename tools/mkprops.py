#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the file is committed; this only keeps it easy to edit)."""
import json
P=[]
def prop(id,title,st,over,q,why,files,mech,state=None,obs=None):
    if len(title)>80: print("LONG",id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
ps="src/parsers/"; ty="src/types/"
EX="Each existing test parses one or two hand-picked texts per construct; no test relates structure of the text to structure of the value in general."
prop("C01","A domain's text is represented completely, in order and in the right section",
 "Parsing any well-formed PDDL 3.1 domain definition succeeds, and the returned value's public accessors yield exactly the written name, extends list, requirements, types, constants, predicates, functions, constraints and structure items (actions, durative actions, derived predicates): every element, once, in written order, with its written names, types and sub-expressions. A section or optional field that is absent yields its documented default (empty list, empty constraint, absent effect), and no section's content depends on which other sections are present.",
 ["inputs"],"all well-formed domains and their parts: every combination of optional sections, any number and order of structure items, any list length, any names",
 EX,[ps+"domain.rs",ps+"structure_def.rs",ps+"action_def.rs",ps+"requirements.rs",ps+"predicates_def.rs",ps+"functions_def.rs",ty+"domain.rs",ty+"action_definition.rs"],
 [("section sequence and builder chain",ps+"domain.rs parse_domain"),("builder/accessor pairs",ty+"domain.rs Domain::with_*"),("structure alternatives",ps+"structure_def.rs")],obs=["Domain::parse","parse_domain","accessors of Domain and its parts"])
prop("C02","A problem's text is represented completely, in order and in the right section",
 "Parsing any well-formed PDDL 3.1 problem definition succeeds, and the returned value's public accessors yield exactly the written name, domain, requirements, objects, initial elements (literals, timed literals, numeric and object fluent values), goals, constraints, metric and length: every element, once, in written order, with its written names, numbers and polarity. Absent optional sections yield their documented defaults, and no section's content depends on which others are present.",
 ["inputs"],"all well-formed problems: every combination of optional sections, any number and mix of initial elements, any object list",
 EX,[ps+"problem.rs",ps+"init_def.rs",ps+"init_el.rs",ps+"goal_def.rs",ps+"metric_spec.rs",ps+"length_spec.rs",ps+"objects_def.rs",ty+"problem.rs",ty+"init_el.rs"],
 [("section sequence and builder chain",ps+"problem.rs parse_problem"),("ordered choice of initial elements",ps+"init_el.rs parse_init_el"),("builder/accessor pairs",ty+"problem.rs")],obs=["Problem::parse","parse_problem","parse_init_el"])
prop("C03","Goal descriptions, preconditions and preferences parse to the written formula",
 "Every well-formed goal description, precondition or preference (atoms, equality, and/or/not/imply, typed exists/forall, numeric comparison, named and unnamed preference, conjunctions and quantification of preferences) parses to a value with exactly the written connectives, operand order, nesting, bound variables and terms. Nested conjunctions of preconditions are flattened in written order without losing or duplicating a conjunct, a preference keeps its name (or its absence) and its own formula, and a connective is never taken for a predicate.",
 ["inputs"],"all formulas of the goal grammar, of any arity, nesting depth and mixture",
 EX,[ps+"gd.rs",ps+"pre_gd.rs",ps+"pref_gd.rs",ps+"atomic_formula.rs",ps+"literal.rs",ps+"term.rs",ty+"gd.rs",ty+"pre_gd.rs",ty+"pref_gd.rs",ty+"preference.rs"],
 [("ordered alternatives over connectives",ps+"gd.rs parse_gd"),("flattening of conjunctions",ps+"pre_gd.rs, "+ty+"pre_gd.rs"),("equality versus predicate",ps+"atomic_formula.rs")],obs=["parse_gd","parse_pre_gd","parse_pref_gd"])
prop("C04","Action effects parse to the written effects",
 "Every well-formed action effect parses to exactly the written effects in written order: atomic add and delete effects keep their polarity, fluent assignments keep their operator, target and value, an assignment of `undefined` or of an object term is told apart from a numeric one, and conditional (`when`) and universal (`forall`) effects keep their condition or bound variables attached to their own sub-effects.",
 ["inputs"],"all effects of the grammar, any number of conjuncts and any nesting",
 EX,[ps+"effects.rs",ps+"c_effect.rs",ps+"p_effect.rs",ps+"cond_effect.rs",ps+"assign_op.rs",ty+"effects.rs",ty+"c_effect.rs",ty+"p_effect.rs"],
 [("ordered alternatives",ps+"c_effect.rs, "+ps+"p_effect.rs"),("conjunction of effects",ps+"effects.rs")],obs=["parse_effect","parse_c_effect","parse_p_effect","parse_cond_effect"])
prop("C05","Durative actions parse to the written durations, timed conditions and effects",
 "Every well-formed durative action parses to exactly its written symbol, typed parameters, duration constraints (operator, value, optional start/end tag, order), condition and effect, with every timed goal and timed effect attached to its own time specifier (at start, at end, over all) and every quantifier, `when`, preference and fluent assignment keeping its operands in order. Continuous effects keep operator, target and rate, and `()` is the absent duration, condition or effect.",
 ["inputs"],"all durative actions and their parts: any combination of duration forms, conditions and effects, any nesting and number of conjuncts",
 EX,[ps+"da_def.rs",ps+"duration_constraint.rs",ps+"simple_duration_constraint.rs",ps+"da_gd.rs",ps+"timed_gd.rs",ps+"pref_timed_gd.rs",ps+"da_effect.rs",ps+"timed_effect.rs",ps+"f_assign_da.rs",ps+"f_exp_da.rs",ps+"f_exp_t.rs",ps+"d_value.rs"],
 [("fields in order",ps+"da_def.rs"),("time specifier dispatch",ps+"timed_gd.rs, "+ps+"timed_effect.rs"),("duration alternatives",ps+"duration_constraint.rs")],obs=["parse_da_def","parse_da_gd","parse_da_effect","parse_duration_constraint"])
prop("C06","Numeric expressions, comparisons and metrics parse to the written arithmetic",
 "Every well-formed numeric expression (including the forms allowed in metrics, durative effects and continuous effects) parses to exactly the written operator tree: operator, operand order, arity (negation, binary, or n-ary for * and +), function heads with their arguments, and literals with the value of the written decimal. Comparisons keep their operator and sides, and a metric keeps its direction and expression, with total-time and is-violated distinguished from ordinary functions.",
 ["inputs"],"all numeric expressions, comparisons and metrics of any size and shape",
 EX,[ps+"f_exp.rs",ps+"f_exp_da.rs",ps+"f_exp_t.rs",ps+"metric_f_exp.rs",ps+"f_comp.rs",ps+"f_head.rs",ps+"metric_spec.rs",ps+"binary_op.rs",ps+"multi_op.rs",ps+"binary_comp.rs"],
 [("operator and arity dispatch",ps+"f_exp.rs, "+ps+"metric_f_exp.rs, "+ps+"f_exp_da.rs"),("function heads",ps+"f_head.rs")],obs=["parse_f_exp","parse_f_exp_da","parse_f_exp_t","parse_metric_f_exp","parse_f_comp"])
prop("C07","Trajectory constraints parse to the written modal operators and bounds",
 "Every well-formed domain or problem constraint parses to exactly the written tree of modal operators (at end, always, sometime, within, at-most-once, sometime-after, sometime-before, always-within, hold-during, hold-after), conjunctions, quantifiers and preferences, each with its numeric bounds and its operands in written order. A nested constraint is represented as a constraint and never as a goal formula.",
 ["inputs"],"all constraints of the grammar, of any nesting and arity",
 EX,[ps+"con_gd.rs",ps+"pref_con_gd.rs",ps+"domain_constraints_def.rs",ps+"problem_constraints_def.rs",ty+"con_gd.rs",ty+"pref_con_gd.rs"],
 [("ordered alternatives",ps+"con_gd.rs parse_con_gd, parse_con2_gd"),("preferences over constraints",ps+"pref_con_gd.rs")],obs=["parse_con_gd","Con2GD::parse","parse_pref_con_gd"])
prop("C08","Typed lists attach each declared type to exactly the names written before it",
 "In every typed list (types, constants, objects, action and quantifier parameters, predicate and function skeletons) the items come out in written order and each carries exactly the type written after its group: a single type or an `either` of all its written alternatives in order. Items with no type after them get the default type, `object` for names and variables and `number` for functions.",
 ["inputs"],"all typed lists: any number of groups and group sizes, any `either`, with or without an untyped tail, in every position of the language",
 EX,[ps+"typed_list.rs",ps+"type.rs",ps+"primitive_type.rs",ps+"function_typed_list.rs",ps+"function_type.rs",ps+"atomic_formula_skeleton.rs",ps+"atomic_function_skeleton.rs",ty+"typed_list.rs",ty+"typed.rs",ty+"type.rs",ty+"function_typed_list.rs"],
 [("groups then untyped tail",ps+"typed_list.rs"),("default types",ty+"type.rs TYPE_OBJECT/TYPE_NUMBER")],obs=["parse_types_def","parse_constants_def","parse_functions_def","parse_atomic_formula_skeleton","parse_action_def"])
prop("C09","White space and comments between tokens never change the result",
 "Replacing the white space between two tokens of a document by any other non-empty mix of spaces, tabs, line breaks and `;` comments that end at a line break (with any comment text), inserting such white space next to any parenthesis, or leaving out the white space directly before or after an opening parenthesis or directly before a closing one, never changes whether the document parses or what it parses to. This holds at every token boundary inside every construct, and around whole domains and problems.",
 ["inputs"],"every document, every gap between two of its tokens, and every layout of those gaps",
 "The tests fix one layout per construct, with a few multi-line ones; layout at an arbitrary gap of an arbitrary construct is never varied.",
 [ps+"utilities.rs",ps+"comments.rs",ps+"typed_list.rs",ps+"atomic_formula.rs",ps+"f_exp.rs",ps+"empty_or.rs"],
 [("white space and comment skipping",ps+"utilities.rs ws, parens, prefix_expr, space_separated_list0/1"),("comment text",ps+"comments.rs ignore_eol_comment")],obs=["every parse_* entry point"])
prop("C10","Identifiers are taken whole and verbatim, and keywords match only whole words",
 "Every identifier (a letter followed by letters, digits, `-` and `_`) is accepted wherever the grammar allows a name and is represented with exactly its written characters and case, whatever its length and even when a keyword is its prefix or suffix. A keyword is recognised only as a whole word, so gluing name characters to a keyword or cutting it short makes it an ordinary identifier or an error, never the keyword plus leftovers.",
 ["inputs"],"all identifiers at all name positions, and all keywords extended, truncated or glued at all keyword positions",
 "The tests use a few plain names and exact keywords.",
 [ps+"name.rs",ps+"variable.rs",ps+"primitive_type.rs",ps+"utilities.rs",ps+"metric_f_exp.rs",ps+"time_specifier.rs",ps+"predicate.rs",ty+"name.rs"],
 [("identifier characters",ps+"name.rs parse_name"),("keyword matching",ps+"utilities.rs prefix_expr and tag() uses")],obs=["every parse_* entry point"])
prop("C11","Malformed or torn text is refused, never silently reinterpreted",
 "Text that is not well formed for a construct is refused by that construct's parser with an error: text cut off at any token, and text with a token missing, added, replaced or swapped so that it no longer reads as that construct in the PDDL 3.1 grammar. It is never accepted with the offending part dropped or reinterpreted, and sections out of order, duplicated or unknown are refused rather than skipped.",
 ["inputs","crash_points"],"every document cut at every token boundary, and every single-token or single-element edit of it that leaves the language",
 "Tests contain almost no malformed inputs; the space of torn and edited documents is never enumerated.",
 [ps+"mod.rs",ps+"domain.rs",ps+"problem.rs",ps+"utilities.rs",ps+"action_def.rs",ps+"da_def.rs",ps+"requirements.rs"],
 [("closing delimiters required",ps+"utilities.rs prefix_expr, parens"),("fixed field and section order",ps+"domain.rs, "+ps+"problem.rs, "+ps+"action_def.rs")],obs=["every parse_* entry point"])
prop("C12","Parsing any text returns: no panic, abort or hang",
 "Every parsing entry point, applied to any text whatever (any characters including non-ASCII and control characters, any literal size, any length, any unbalanced nesting), returns a value or an error in bounded time. It never panics, overflows its stack, aborts the process or loops forever.",
 ["inputs"],"all strings",
 "Tests feed well-formed text only.",
 [ps+"number.rs",ps+"comments.rs",ps+"utilities.rs",ps+"typed_list.rs",ps+"gd.rs",ps+"name.rs",ps+"length_spec.rs",ty+"number.rs"],
 [("finite number conversion",ps+"number.rs, "+ty+"number.rs"),("comment skipping",ps+"comments.rs"),("recursive descent",ps+"gd.rs and siblings")],obs=["every parse_* entry point"])
prop("C13","Parsers consume exactly their construct and report the exact remainder",
 "A successful parse consumes exactly the construct (complete domains and problems also the white space and comments after them): the returned remainder is the unchanged rest of the input, its reported byte offset and line are its true position, and text following the construct after white space or a parenthesis never changes the value parsed. The trait methods on text and on spans and the free functions agree on every input, also when starting in the middle of a larger text, and `from_str` yields exactly the value `parse` yields, or an error when `parse` does.",
 ["inputs"],"all constructs, all following texts, all start offsets and all entry points",
 "Tests check the remainder of a few texts and never compare the entry points with one another.",
 [ps+"mod.rs",ps+"domain.rs",ps+"problem.rs",ps+"utilities.rs","src/lib.rs"],
 [("trait default methods",ps+"mod.rs trait Parser"),("span bookkeeping",ps+"mod.rs Span")],obs=["Parser::parse","Parser::parse_span","Parser::from_str","parse_*"])
prop("C14","Number is a finite, totally ordered value equal to the literal it was read from",
 "Every decimal literal parses to the 32-bit float nearest to it, or is refused when that is not finite, and no public operation yields a Number that is not finite. Equality, ordering and hashing of Numbers agree with each other and with the numeric order for all pairs of finite values, with +0 and -0 equal; conversions from integers and floats give the nearest 32-bit float and printing then re-reading gives the same Number.",
 ["inputs"],"all decimal literals, all finite 32-bit values and pairs of them, all integer conversions",
 "Tests compare a handful of values.",
 [ty+"number.rs",ps+"number.rs"],
 [("finite check",ty+"number.rs Number::try_new"),("Eq, Ord, Hash",ty+"number.rs"),("literal syntax",ps+"number.rs")],obs=["Number","parse_number"])
prop("C15","Names behave as their text, however and whenever they were created",
 "Two names compare equal (and hash alike) exactly when their texts are equal, whichever constructor or conversion produced them, whatever other names were created before, between or after them, and with interning on or off. A name always reads back as exactly the text it was created from, and with interning on, equal names made at run time share one stored string.",
 ["histories","inputs","configurations"],"all sequences of name creations over any texts through any constructor",
 "Tests create a few names; interned state is global and its history is never explored.",
 [ty+"name.rs",ps+"name.rs"],
 [("sorted intern table and binary search",ty+"name.rs Name::new_string_interned"),("static fast path for well-known names",ty+"name.rs map_to_static"),("Eq and Hash",ty+"name.rs")],
 state=[("STRING_INTERNING","process-wide sorted table of interned strings",ty+"name.rs")],obs=["Name::new","Name::new_static","Name::from","Name::eq","Name::hash"])
prop("C16","Concurrent parsing and interning behave as if run one at a time",
 "When several threads create names or parse documents at the same time, under every interleaving each thread obtains exactly the values it would obtain alone, equal names from different threads compare equal and share their stored string, and no thread deadlocks, panics or leaves the interner unusable for the others.",
 ["schedules"],"all thread interleavings of concurrent name creation and parsing",
 "Tests never share the interner between controlled threads; which interleavings run is left to the operating system.",
 [ty+"name.rs"],[("mutex around search and insert",ty+"name.rs Name::new_string_interned")],
 state=[("STRING_INTERNING","process-wide table shared by all threads",ty+"name.rs")],obs=["Name::new from several threads"])
prop("C17","Requirement implication and effective sets follow the documented definitions",
 "A requirement contains itself and exactly the requirements it is documented to imply (adl, quantified preconditions, fluents, timed initial literals), and expanding it lists exactly the basic requirements it stands for. The effective set of any requirement list is the union of the expansions of its elements, independent of order and repetition, and is {strips} when the list is empty.",
 ["inputs","configurations"],"all pairs of requirements and all lists (subsets, orders, repetitions) of them",
 "Tests assert some of the pairs that hold, none of those that must not, and no combination.",
 [ty+"requirement.rs",ty+"requirements.rs"],[("contains",ty+"requirement.rs"),("expand",ty+"requirement.rs"),("to_effective",ty+"requirements.rs")],obs=["Requirement::contains","Requirement::expand","Requirements::to_effective"])
prop("C18","Keywords and enum values correspond one to one in every direction",
 "Every requirement key, operator, comparator, assignment operator, time specifier, interval and optimisation direction has exactly one documented spelling: printing, string conversion, string comparison, fallible conversion from text and the parser all agree on it, so that text to value to text is the identity (with `change` read as assign). Every other string, including other spellings by case or white space, is refused by the conversions.",
 ["inputs"],"all variants of all keyword enums, all keyword texts, their cross product and all near misses",
 "Tests check listed pairs for some enums; converses, cross pairs and refusals are not covered.",
 [ty+"requirement.rs",ty+"assign_op.rs",ty+"assign_op_t.rs",ty+"binary_comp.rs",ty+"binary_op.rs",ty+"multi_op.rs",ty+"d_op.rs",ty+"optimization.rs",ty+"interval.rs",ty+"time_specifier.rs"],
 [("names tables, TryFrom, Display, AsRef",ty+"*.rs"),("keyword parsers",ps+"*.rs")],obs=["TryFrom<&str>","Display","AsRef<str>","PartialEq<&str>"])
prop("C19","Constructors, builders, conversions and containers keep what they are given",
 "Building a value through any public constructor, builder method, conversion or collection method and reading it back through accessors, dereference, iteration, length or value conversion yields exactly the given parts in the given order. A builder method changes only its own field, in whatever order builder methods are applied, conversions between goal, effect, type, term and name representations keep content and order, and flattening and iteration of conjunctions and typed lists visit every element exactly once in order.",
 ["programs","histories"],"all sequences of public construction and read-back operations over all field values",
 "Tests build a few expected values to compare parses with; they share the constructors under test on both sides.",
 [ty+"domain.rs",ty+"problem.rs",ty+"typed_list.rs",ty+"typed.rs",ty+"type.rs",ty+"iterators.rs",ty+"pre_gd.rs",ty+"effects.rs",ty+"preference.rs",ty+"gd.rs"],
 [("builder methods",ty+"domain.rs, "+ty+"problem.rs"),("flattening iterators",ty+"iterators.rs"),("From/FromIterator impls",ty+"*.rs")],obs=["public constructors and accessors of all types"])
prop("C20","The result of parsing does not depend on what was parsed before",
 "Parsing a text yields the same outcome (value, remainder, or refusal) whatever texts were parsed before it in the process, successfully or not, in whatever order and however often. Values obtained earlier are unaffected by later parses, and remain equal to values later obtained from the same text.",
 ["histories"],"all sequences of parse calls in one process",
 "Each test parses once; the process-wide interner's history is never varied.",
 [ty+"name.rs",ps+"mod.rs"],[("append-only interner",ty+"name.rs")],state=[("STRING_INTERNING","process-wide table of interned strings",ty+"name.rs")],obs=["parse_domain","parse_problem","every parse_*"])
prop("C21","Parsing effort grows polynomially with the size and nesting of the text",
 "The work of parsing a document grows at most polynomially (in practice at most about quadratically) with its length, for every repeated and every nested construct of the language. In particular no nesting of expressions, goals, effects or constraints makes the parser repeat the work of the inner text a constant number of times per level.",
 ["inputs"],"all families of documents obtained by repeating or nesting any construct of the grammar",
 "Tests are all small; exponential backtracking shows only when an unlucky construct is nested deeply.",
 [ps+"f_exp.rs",ps+"f_exp_da.rs",ps+"metric_f_exp.rs",ps+"gd.rs",ps+"con_gd.rs",ps+"da_gd.rs",ps+"da_effect.rs",ps+"pre_gd.rs",ps+"cond_effect.rs"],
 [("ordered choice with backtracking","src/parsers: alt() over prefix_expr")],obs=["every parse_*"])
prop("C22","Feature configurations build and agree",
 "The crate builds with every combination of its optional features, and everything available in two configurations gives the same results in both: switching interning on or off never changes whether a text parses, the parsed value, or any comparison, ordering, printing or hashing-equality of values.",
 ["configurations","inputs"],"all four feature combinations times all inputs",
 "The test suite runs with all features on only.",
 ["Cargo.toml","src/lib.rs",ty+"name.rs",ty+"requirement.rs"],[("cfg(feature) branches",ty+"name.rs"),("optional dependencies","Cargo.toml")],obs=["cargo build --no-default-features [--features ..]","parse_*"])
prop("C23","Equality and copying of parsed values follow their content",
 "Two parsed values are equal exactly when they have the same content; re-parsing the same text gives an equal value, texts differing in any name, number, operator, order or structure that the value represents give unequal ones, and a clone equals its original and stays so. Where values have an ordering or hash, it agrees with equality.",
 ["inputs"],"all pairs of documents of each construct",
 "Tests assert equality with expected values but practically never inequality.",
 [ty+"*.rs"],[("PartialEq/Clone/Hash on all types",ty+"*.rs")],obs=["PartialEq, Clone, Hash, Ord of public types"])
prop("C24","A refusal is final and names true positions in the text",
 "When a text is refused the error is final, never a request for more input, even when the text breaks off in the middle of a construct. It records at least one position, and each recorded position lies in the text at or after the place parsing started, with its true byte offset and line, and its fragment is the unchanged rest of the input from there. `Parser::parse`, `parse_span`, `from_str` and the free function report the same error, calling again reports it again, and a construct refused further on in a larger text reports the same positions moved by exactly that distance.",
 ["inputs"],"all refused texts of all entry points, at all places in a larger text",
 "Tests of refused texts check that there is an error and never look at it.",
 [ps+"mod.rs",ps+"utilities.rs",ps+"term.rs",ps+"type.rs",ps+"empty_or.rs",ps+"*.rs"],
 [("error construction",ps+"term.rs, type.rs, empty_or.rs, utilities.rs error_position!"),("complete, not streaming, combinators",ps+"*.rs")],obs=["Parser::parse","Parser::parse_span","Parser::from_str","parse_*: nom::Err<ParseError>"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
