//! Every public parsing entry point, behind one uniform signature.
use crate::lift::{Lift, Val};
use crate::t::T;
use pddl::parsers::{self, Parser, Span};
use pddl::*;

/// Outcome of one call, as values: Ok(tree, offset of the remainder, remainder length, line of the remainder).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok { tree: T, offset: usize, rest: usize, line: u32, same_buffer: bool },
    Err,
}
pub struct Entry {
    pub nt: &'static str,
    /// through `parse_x` (the free function) or the combinator
    pub free: fn(&str) -> Out,
    /// through the `Parser` trait: parse(&str), parse_span, from_str; None for plain combinators
    pub tr: Option<[fn(&str) -> Out; 2]>,
    pub from_str: Option<fn(&str) -> Option<T>>,
    /// parse only, no lifting (for effort measurements)
    pub run: fn(&str) -> bool,
    /// debug text of the value
    pub dbg: fn(&str) -> Option<String>,
    /// the outcome and the value itself, type erased, of one call
    pub both: fn(&str) -> (Out, Option<Box<dyn Val>>),
    /// `parse_x` on a span that starts inside a larger text
    pub span_at: fn(&str, usize) -> Out,
    /// how `parse_x` refuses the text from a place in it on
    pub refused: fn(&str, usize) -> Option<Refusal>,
    /// how Parser::parse, parse_span and from_str refuse a text; parse_span inside a larger text
    pub refused_tr: Option<([fn(&str) -> Option<Refusal>; 3], fn(&str, usize) -> Option<Refusal>)>,
}
/// One entry of an error: where it points and what it says.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Place {
    pub offset: usize,
    pub line: u32,
    pub rest: usize,
    pub same_buffer: bool,
    pub what: String,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Refusal {
    pub incomplete: bool,
    pub places: Vec<Place>,
}
pub fn refusal<V>(text: &str, r: parsers::ParseResult<V>) -> Option<Refusal> {
    let e = r.err()?;
    let incomplete = e.is_incomplete();
    let mut places = vec![];
    let _ = e.map(|g| {
        for (at, what) in &g.errors {
            let frag: &str = at.fragment();
            let offset = at.location_offset();
            places.push(Place {
                offset,
                line: at.location_line(),
                rest: frag.len(),
                same_buffer: offset <= text.len() && text.is_char_boundary(offset) && std::ptr::eq(text[offset..].as_ptr(), frag.as_ptr()),
                what: format!("{:?}", what),
            });
        }
    });
    Some(Refusal { incomplete, places })
}

pub fn out<V: Lift>(text: &str, r: parsers::ParseResult<V>) -> Out {
    match r {
        Ok((rest, v)) => {
            let frag: &str = rest.fragment();
            let off = rest.location_offset();
            let same = off <= text.len() && text.is_char_boundary(off) && std::ptr::eq(&text[off..], frag);
            Out::Ok { tree: v.lift(), offset: off, rest: frag.len(), line: rest.location_line(), same_buffer: same }
        }
        Err(_) => Out::Err,
    }
}

pub fn both<V: Lift + Clone + PartialEq + std::fmt::Debug + 'static>(text: &str, r: parsers::ParseResult<V>) -> (Out, Option<Box<dyn Val>>) {
    let v = r.as_ref().ok().map(|(_, v)| Box::new(v.clone()) as Box<dyn Val>);
    (out(text, r), v)
}
macro_rules! entry {
    ($nt:literal, $f:expr, $t:ty) => {
        Entry {
            nt: $nt,
            free: |s| out(s, ($f)(s)),
            tr: Some([|s| out(s, <$t as Parser>::parse(s)), |s| out(s, <$t as Parser>::parse_span(Span::new(s)))]),
            from_str: Some(|s| <$t as Parser>::from_str(s).ok().map(|v| v.lift())),
            run: |s| ($f)(s).is_ok(),
            both: |s| both(s, ($f)(s)),
            dbg: |s| ($f)(s).ok().map(|(_, v)| format!("{:?}", v)),
            span_at: |s, k| {
                let sp = advance(s, k);
                out(s, ($f)(sp))
            },
            refused: |s, k| refusal(s, ($f)(advance(s, k))),
            refused_tr: Some((
                [
                    |s| refusal(s, <$t as Parser>::parse(s)),
                    |s| refusal(s, <$t as Parser>::parse_span(Span::new(s))),
                    |s| refusal(s, <$t as Parser>::from_str(s).map(|v| (Span::new(s), v))),
                ],
                |s, k| refusal(s, <$t as Parser>::parse_span(advance(s, k))),
            )),
        }
    };
}
macro_rules! comb {
    ($nt:literal, $f:expr) => {
        Entry {
            nt: $nt,
            free: |s| out(s, ($f)(Span::new(s))),
            tr: None,
            from_str: None,
            run: |s| ($f)(Span::new(s)).is_ok(),
            both: |s| both(s, ($f)(Span::new(s))),
            dbg: |s| ($f)(Span::new(s)).ok().map(|(_, v)| format!("{:?}", v)),
            span_at: |s, k| out(s, ($f)(advance(s, k))),
            refused: |s, k| refusal(s, ($f)(advance(s, k))),
            refused_tr: None,
        }
    };
}

/// A span over `s` positioned `k` bytes in, as a caller parsing piecemeal would hold.
pub fn advance(s: &str, k: usize) -> Span<'_> {
    let line = 1 + s[..k].bytes().filter(|b| *b == b'\n').count() as u32;
    // SAFETY: offset and line describe the position of `&s[k..]` inside `s`.
    unsafe { Span::new_from_raw_offset(k, line, &s[k..], ()) }
}

pub fn entries() -> Vec<Entry> {
    vec![
        entry!("domain", parsers::parse_domain, Domain),
        entry!("problem", parsers::parse_problem, Problem),
        entry!("structure", parsers::parse_structure_def, StructureDef),
        entry!("action", parsers::parse_action_def, ActionDefinition),
        entry!("durative", parsers::parse_da_def, DurativeActionDefinition),
        entry!("derived", parsers::parse_derived_predicate, DerivedPredicate),
        entry!("requirements", parsers::parse_require_def, Requirements),
        entry!("req-key", parsers::parse_require_key, Requirement),
        entry!("types", parsers::parse_types_def, Types),
        entry!("constants", parsers::parse_constants_def, Constants),
        entry!("objects", parsers::parse_problem_objects_declaration, Objects),
        entry!("predicates", parsers::parse_predicates_def, PredicateDefinitions),
        entry!("functions", parsers::parse_functions_def, Functions),
        entry!("timeless", parsers::parse_timeless_def, Timeless),
        entry!("domain-constraints", parsers::parse_domain_constraints_def, DomainConstraintsDef),
        entry!("problem-constraints", parsers::parse_problem_constraints_def, ProblemConstraintsDef),
        entry!("init", parsers::parse_problem_init_def, InitElements),
        entry!("init-el", parsers::parse_init_el, InitElement),
        entry!("goal", parsers::parse_problem_goal_def, GoalDef),
        entry!("metric", parsers::parse_problem_metric_spec, MetricSpec),
        entry!("length", parsers::parse_problem_length_spec, LengthSpec),
        entry!("gd", parsers::parse_gd, GoalDefinition),
        entry!("pref-gd", parsers::parse_pref_gd, PreferenceGD),
        entry!("pre-gd", parsers::parse_pre_gd, PreconditionGoalDefinitions),
        entry!("con-gd", parsers::parse_con_gd, ConGD),
        entry!("con2-gd", <Con2GD as Parser>::parse, Con2GD),
        entry!("pref-con-gd", parsers::parse_pref_con_gd, PrefConGDs),
        entry!("p-effect", parsers::parse_p_effect, PEffect),
        entry!("cond-effect", parsers::parse_cond_effect, ConditionalEffect),
        entry!("c-effect", parsers::parse_c_effect, CEffect),
        entry!("forall-c-effect", parsers::parse_forall_c_effect, ForallCEffect),
        entry!("when-c-effect", parsers::parse_when_c_effect, WhenCEffect),
        entry!("effect", parsers::parse_effect, Effects),
        entry!("timed-gd", parsers::parse_timed_gd, TimedGD),
        entry!("pref-timed-gd", parsers::parse_pref_timed_gd, PrefTimedGD),
        entry!("da-gd", parsers::parse_da_gd, DurativeActionGoalDefinition),
        entry!("timed-effect", parsers::parse_timed_effect, TimedEffect),
        entry!("da-effect", parsers::parse_da_effect, DurativeActionEffect),
        entry!("f-assign-da", parsers::parse_f_assign_da, FAssignDa),
        entry!("simple-duration", parsers::parse_simple_duration_constraint, SimpleDurationConstraint),
        entry!("duration", parsers::parse_duration_constraint, DurationConstraint),
        entry!("d-value", parsers::parse_d_value, DurationValue),
        entry!("f-exp", parsers::parse_f_exp, FExp),
        entry!("f-exp-da", parsers::parse_f_exp_da, FExpDa),
        entry!("f-exp-t", parsers::parse_f_exp_t, FExpT),
        entry!("f-comp", parsers::parse_f_comp, FComp),
        entry!("f-head", parsers::parse_f_head, FHead),
        entry!("metric-f-exp", parsers::parse_metric_f_exp, MetricFExp),
        entry!("term", parsers::parse_term, Term),
        entry!("fterm", parsers::parse_function_term, FunctionTerm),
        entry!("bft", parsers::parse_basic_function_term, BasicFunctionTerm),
        entry!("skel", parsers::parse_atomic_formula_skeleton, AtomicFormulaSkeleton),
        entry!("fskel", parsers::parse_atomic_function_skeleton, AtomicFunctionSkeleton),
        entry!("type", parsers::parse_type, Type),
        entry!("ftype", parsers::parse_function_type, FunctionType),
        entry!("primitive-type", parsers::parse_primitive_type, PrimitiveType),
        entry!("name", parsers::parse_name, Name),
        entry!("predicate", parsers::parse_predicate, Predicate),
        entry!("action-symbol", parsers::parse_action_symbol, ActionSymbol),
        entry!("da-symbol", parsers::parse_da_symbol, DurativeActionSymbol),
        entry!("function-symbol", parsers::parse_function_symbol, FunctionSymbol),
        entry!("pref-name", parsers::parse_pref_name, PreferenceName),
        entry!("variable", parsers::parse_variable, Variable),
        entry!("number", parsers::parse_number, Number),
        entry!("assign-op", parsers::parse_assign_op, AssignOp),
        entry!("assign-op-t", parsers::parse_assign_op_t, AssignOpT),
        entry!("binary-comp", parsers::parse_binary_comp, BinaryComp),
        entry!("binary-op", parsers::parse_binary_op, BinaryOp),
        entry!("multi-op", parsers::parse_multi_op, MultiOp),
        entry!("d-op", parsers::parse_d_op, DOp),
        entry!("optimization", parsers::parse_optimization, Optimization),
        entry!("interval", parsers::parse_interval, Interval),
        entry!("time-spec", parsers::parse_time_specifier, TimeSpecifier),
        comb!("literal-term", (|s| parsers::literal(parsers::parse_term)(s))),
        comb!("literal-name", (|s| parsers::literal(parsers::parse_name)(s))),
        comb!("atomic-term", (|s| parsers::atomic_formula(parsers::parse_term)(s))),
        comb!("atomic-name", (|s| parsers::atomic_formula(parsers::parse_name)(s))),
    ]
}

/// Public combinators with an inner parser of the caller's choice, for the checks that need no reference semantics.
pub fn extras() -> Vec<Entry> {
    vec![
        comb!("typed-list-names", (|s| parsers::typed_list(parsers::parse_name)(s))),
        comb!("typed-list-vars", (|s| parsers::typed_list(parsers::parse_variable)(s))),
        comb!("function-typed-list", (|s| parsers::function_typed_list(parsers::parse_atomic_function_skeleton)(s))),
        comb!("empty-or-gd", (|s| parsers::empty_or(|x| parsers::parse_gd(x))(s))),
        comb!("literal-variable", (|s| parsers::literal(parsers::parse_variable)(s))),
        comb!("atomic-number", (|s| parsers::atomic_formula(parsers::parse_number)(s))),
        comb!("comment", (|s| parsers::ignore_eol_comment(s))),
    ]
}
