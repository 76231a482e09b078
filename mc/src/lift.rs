//! Abstraction function: library values -> neutral terms, through public variants and accessors only.
use crate::t::{a, f, n, opt, T};
use pddl::*;

pub trait Lift {
    fn lift(&self) -> T;
}
impl<X: Lift> Lift for Option<X> {
    fn lift(&self) -> T {
        opt("opt", self.as_ref().map(|x| x.lift()))
    }
}
impl<X: Lift> Lift for Box<X> {
    fn lift(&self) -> T {
        (**self).lift()
    }
}
pub fn list<'x, X: Lift + 'x, I: IntoIterator<Item = &'x X>>(tag: &'static str, it: I) -> T {
    n(tag, it.into_iter().map(|x| x.lift()).collect())
}
impl Lift for () {
    fn lift(&self) -> T {
        n("unit", vec![])
    }
}
impl Lift for Name {
    fn lift(&self) -> T {
        a(self.as_ref() as &str)
    }
}
macro_rules! named {
    ($($t:ty),*) => {$(impl Lift for $t { fn lift(&self) -> T { let s: &str = self.as_ref(); a(s) } })*};
}
named!(ActionSymbol, DurativeActionSymbol, FunctionSymbol, Predicate, PrimitiveType);
impl Lift for PreferenceName {
    fn lift(&self) -> T {
        a(&***self)
    }
}
impl Lift for Variable {
    fn lift(&self) -> T {
        let s: &str = self.as_ref();
        n("var", vec![a(s)])
    }
}
impl Lift for Number {
    fn lift(&self) -> T {
        f(**self)
    }
}
impl Lift for Type {
    fn lift(&self) -> T {
        match self {
            Type::Exactly(p) => n("exactly", vec![p.lift()]),
            Type::EitherOf(v) => list("either", v),
        }
    }
}
impl Lift for FunctionType {
    fn lift(&self) -> T {
        (**self).lift()
    }
}
impl<O: Lift> Lift for Typed<O> {
    fn lift(&self) -> T {
        n("typed", vec![self.value().lift(), self.type_().lift()])
    }
}
impl<O: Lift> Lift for TypedList<O> {
    fn lift(&self) -> T {
        list("tl", self.value())
    }
}
impl<O: Lift> Lift for FunctionTyped<O> {
    fn lift(&self) -> T {
        n("typed", vec![self.value_ref().lift(), self.type_ref().lift()])
    }
}
impl<O: Lift> Lift for FunctionTypedList<O> {
    fn lift(&self) -> T {
        list("tl", self.values())
    }
}
impl Lift for Term {
    fn lift(&self) -> T {
        match self {
            Term::Name(x) => n("tname", vec![x.lift()]),
            Term::Variable(x) => x.lift(),
            Term::Function(x) => x.lift(),
        }
    }
}
impl Lift for FunctionTerm {
    fn lift(&self) -> T {
        n("fterm", vec![self.symbol().lift(), list("args", self.terms())])
    }
}
impl Lift for FHead {
    fn lift(&self) -> T {
        match self {
            FHead::Simple(s) => n("fhead", vec![s.lift()]),
            FHead::WithTerms(s, t) => n("fheadt", vec![s.lift(), list("args", t)]),
        }
    }
}
impl<X: Lift> Lift for AtomicFormula<X> {
    fn lift(&self) -> T {
        match self {
            AtomicFormula::Equality(e) => n("eq", vec![e.first().lift(), e.second().lift()]),
            AtomicFormula::Predicate(p) => {
                n("pred", vec![p.predicate().lift(), list("args", p.values())])
            }
        }
    }
}
impl<X: Lift> Lift for Literal<X> {
    fn lift(&self) -> T {
        match self {
            Literal::AtomicFormula(x) => n("pos", vec![x.lift()]),
            Literal::NotAtomicFormula(x) => n("neg", vec![x.lift()]),
        }
    }
}
impl Lift for BinaryComp {
    fn lift(&self) -> T {
        a(match self {
            BinaryComp::GreaterThan => ">",
            BinaryComp::LessThan => "<",
            BinaryComp::Equal => "=",
            BinaryComp::GreaterOrEqual => ">=",
            BinaryComp::LessThanOrEqual => "<=",
        })
    }
}
impl Lift for BinaryOp {
    fn lift(&self) -> T {
        a(match self {
            BinaryOp::Multiplication => "*",
            BinaryOp::Addition => "+",
            BinaryOp::Subtraction => "-",
            BinaryOp::Division => "/",
        })
    }
}
impl Lift for MultiOp {
    fn lift(&self) -> T {
        a(match self {
            MultiOp::Multiplication => "*",
            MultiOp::Addition => "+",
        })
    }
}
impl Lift for DOp {
    fn lift(&self) -> T {
        a(match self {
            DOp::Equal => "=",
            DOp::GreaterOrEqual => ">=",
            DOp::LessThanOrEqual => "<=",
        })
    }
}
impl Lift for AssignOp {
    fn lift(&self) -> T {
        a(match self {
            AssignOp::Assign => "assign",
            AssignOp::ScaleUp => "scale-up",
            AssignOp::ScaleDown => "scale-down",
            AssignOp::Increase => "increase",
            AssignOp::Decrease => "decrease",
        })
    }
}
impl Lift for AssignOpT {
    fn lift(&self) -> T {
        a(match self {
            AssignOpT::Increase => "increase",
            AssignOpT::Decrease => "decrease",
        })
    }
}
impl Lift for TimeSpecifier {
    fn lift(&self) -> T {
        a(match self {
            TimeSpecifier::Start => "start",
            TimeSpecifier::End => "end",
        })
    }
}
impl Lift for Interval {
    fn lift(&self) -> T {
        match self {
            Interval::All => a("all"),
        }
    }
}
impl Lift for Optimization {
    fn lift(&self) -> T {
        a(match self {
            Optimization::Minimize => "minimize",
            Optimization::Maximize => "maximize",
        })
    }
}
pub fn req_str(r: Requirement) -> &'static str {
    use Requirement::*;
    match r {
        Strips => ":strips",
        Typing => ":typing",
        NegativePreconditions => ":negative-preconditions",
        DisjunctivePreconditions => ":disjunctive-preconditions",
        Equality => ":equality",
        ExistentialPreconditions => ":existential-preconditions",
        UniversalPreconditions => ":universal-preconditions",
        QuantifiedPreconditions => ":quantified-preconditions",
        ConditionalEffects => ":conditional-effects",
        Fluents => ":fluents",
        NumericFluents => ":numeric-fluents",
        ObjectFluents => ":object-fluents",
        Adl => ":adl",
        DurativeActions => ":durative-actions",
        DurationInequalities => ":duration-inequalities",
        ContinuousEffects => ":continuous-effects",
        DerivedPredicates => ":derived-predicates",
        TimedInitialLiterals => ":timed-initial-literals",
        Preferences => ":preferences",
        Constraints => ":constraints",
        ActionCosts => ":action-costs",
    }
}
impl Lift for Requirement {
    fn lift(&self) -> T {
        a(req_str(*self))
    }
}
impl Lift for Requirements {
    fn lift(&self) -> T {
        list("reqs", self.iter())
    }
}
impl Lift for FExp {
    fn lift(&self) -> T {
        match self {
            FExp::Number(x) => x.lift(),
            FExp::Function(h) => h.lift(),
            FExp::Negative(e) => n("negate", vec![e.lift()]),
            FExp::BinaryOp(o, l, r) => n("bin", vec![o.lift(), l.lift(), r.lift()]),
            FExp::MultiOp(o, l, r) => n("multi", vec![o.lift(), l.lift(), list("rest", r)]),
        }
    }
}
impl Lift for FExpDa {
    fn lift(&self) -> T {
        match self {
            FExpDa::Assign(o, h, e) => n("da-assign", vec![o.lift(), h.lift(), e.lift()]),
            FExpDa::BinaryOp(o, l, r) => n("da-bin", vec![o.lift(), l.lift(), r.lift()]),
            FExpDa::MultiOp(o, l, r) => n("da-multi", vec![o.lift(), l.lift(), list("rest", r)]),
            FExpDa::Negative(e) => n("da-negate", vec![e.lift()]),
            FExpDa::Duration => n("?duration", vec![]),
            FExpDa::FExp(e) => n("da-fexp", vec![e.lift()]),
        }
    }
}
impl Lift for FExpT {
    fn lift(&self) -> T {
        match self {
            FExpT::Now => n("#t", vec![]),
            FExpT::Scaled(e) => n("scaled", vec![e.lift()]),
        }
    }
}
impl Lift for FComp {
    fn lift(&self) -> T {
        n("fcomp", vec![self.comparison().lift(), self.first().lift(), self.second().lift()])
    }
}
impl Lift for FAssignDa {
    fn lift(&self) -> T {
        n("fassignda", vec![self.operation().lift(), self.function().lift(), self.function_expr().lift()])
    }
}
impl Lift for MetricFExp {
    fn lift(&self) -> T {
        match self {
            MetricFExp::BinaryOp(o, l, r) => n("bin", vec![o.lift(), l.lift(), r.lift()]),
            MetricFExp::MultiOp(o, l, r) => n("multi", vec![o.lift(), l.lift(), list("rest", r)]),
            MetricFExp::Negative(e) => n("negate", vec![e.lift()]),
            MetricFExp::Number(x) => x.lift(),
            MetricFExp::Function(s, v) => n("mfun", vec![s.lift(), list("args", v)]),
            MetricFExp::TotalTime => n("total-time", vec![]),
            MetricFExp::IsViolated(p) => n("is-violated", vec![p.lift()]),
        }
    }
}
impl Lift for GoalDefinition {
    fn lift(&self) -> T {
        use GoalDefinition::*;
        match self {
            AtomicFormula(x) => x.lift(),
            Literal(x) => n("gd-literal", vec![x.lift()]),
            And(v) => list("and", v),
            Or(v) => list("or", v),
            Not(x) => n("not", vec![x.lift()]),
            Imply(x, y) => n("imply", vec![x.lift(), y.lift()]),
            Exists(v, g) => n("exists", vec![v.lift(), g.lift()]),
            ForAll(v, g) => n("forall", vec![v.lift(), g.lift()]),
            FComp(x) => x.lift(),
        }
    }
}
impl Lift for Preference {
    fn lift(&self) -> T {
        n("preference", vec![self.name().lift(), self.goal().lift()])
    }
}
impl Lift for PreferenceGD {
    fn lift(&self) -> T {
        match self {
            PreferenceGD::Goal(g) => g.lift(),
            PreferenceGD::Preference(p) => p.lift(),
        }
    }
}
impl Lift for PreconditionGoalDefinition {
    fn lift(&self) -> T {
        match self {
            PreconditionGoalDefinition::Preference(p) => p.lift(),
            PreconditionGoalDefinition::Forall(v, g) => n("pre-forall", vec![v.lift(), g.lift()]),
        }
    }
}
impl Lift for PreconditionGoalDefinitions {
    fn lift(&self) -> T {
        list("pre", self.iter())
    }
}
impl Lift for GoalDef {
    fn lift(&self) -> T {
        self.value().lift()
    }
}
impl Lift for PEffect {
    fn lift(&self) -> T {
        match self {
            PEffect::AtomicFormula(x) => n("add", vec![x.lift()]),
            PEffect::NotAtomicFormula(x) => n("del", vec![x.lift()]),
            PEffect::AssignNumericFluent(o, h, e) => n("numeric", vec![o.lift(), h.lift(), e.lift()]),
            PEffect::AssignObjectFluent(x, t) => n("object", vec![x.lift(), t.lift()]),
        }
    }
}
impl Lift for ConditionalEffect {
    fn lift(&self) -> T {
        match self {
            ConditionalEffect::Single(e) => n("single", vec![e.lift()]),
            ConditionalEffect::All(v) => list("all", v),
        }
    }
}
impl Lift for ForallCEffect {
    fn lift(&self) -> T {
        n("forall", vec![self.variables.lift(), self.effects.lift()])
    }
}
impl Lift for WhenCEffect {
    fn lift(&self) -> T {
        n("when", vec![self.condition.lift(), self.effect.lift()])
    }
}
impl Lift for CEffect {
    fn lift(&self) -> T {
        match self {
            CEffect::Effect(e) => e.lift(),
            CEffect::Forall(x) => x.lift(),
            CEffect::When(x) => x.lift(),
        }
    }
}
impl Lift for Effects {
    fn lift(&self) -> T {
        list("effects", self.iter())
    }
}
impl Lift for TimedGD {
    fn lift(&self) -> T {
        match self {
            TimedGD::At(t, g) => n("at", vec![t.lift(), g.lift()]),
            TimedGD::Over(t, g) => n("over", vec![t.lift(), g.lift()]),
        }
    }
}
impl Lift for PrefTimedGD {
    fn lift(&self) -> T {
        match self {
            PrefTimedGD::Required(g) => g.lift(),
            PrefTimedGD::Preference(p, g) => n("preference", vec![p.lift(), g.lift()]),
        }
    }
}
impl Lift for DurativeActionGoalDefinition {
    fn lift(&self) -> T {
        match self {
            DurativeActionGoalDefinition::Timed(g) => g.lift(),
            DurativeActionGoalDefinition::And(v) => list("and", v),
            DurativeActionGoalDefinition::Forall(v, g) => n("forall", vec![v.lift(), g.lift()]),
        }
    }
}
impl Lift for TimedEffect {
    fn lift(&self) -> T {
        match self {
            TimedEffect::Conditional(t, e) => n("t-cond", vec![t.lift(), e.lift()]),
            TimedEffect::NumericFluent(t, e) => n("t-fluent", vec![t.lift(), e.lift()]),
            TimedEffect::ContinuousEffect(o, h, e) => n("t-cont", vec![o.lift(), h.lift(), e.lift()]),
        }
    }
}
impl Lift for DurativeActionEffect {
    fn lift(&self) -> T {
        match self {
            DurativeActionEffect::Timed(e) => e.lift(),
            DurativeActionEffect::All(v) => list("and", v),
            DurativeActionEffect::Forall(v, e) => n("forall", vec![v.lift(), e.lift()]),
            DurativeActionEffect::When(g, e) => n("when", vec![g.lift(), e.lift()]),
        }
    }
}
impl Lift for DurationValue {
    fn lift(&self) -> T {
        match self {
            DurationValue::Number(x) => n("dnum", vec![x.lift()]),
            DurationValue::FExp(x) => n("dexp", vec![x.lift()]),
        }
    }
}
impl Lift for SimpleDurationConstraint {
    fn lift(&self) -> T {
        match self {
            SimpleDurationConstraint::Op(o, v) => n("d", vec![o.lift(), v.lift()]),
            SimpleDurationConstraint::At(t, c) => n("at", vec![t.lift(), c.lift()]),
        }
    }
}
impl Lift for DurationConstraint {
    fn lift(&self) -> T {
        match self {
            DurationConstraint::Single(c) => n("single", vec![c.lift()]),
            DurationConstraint::All(v) => list("all", v),
        }
    }
}
impl Lift for Con2GD {
    fn lift(&self) -> T {
        match self {
            Con2GD::Goal(g) => n("goal", vec![g.lift()]),
            Con2GD::Nested(g) => n("nested", vec![g.lift()]),
        }
    }
}
impl Lift for ConGD {
    fn lift(&self) -> T {
        use ConGD::*;
        match self {
            And(v) => list("and", v),
            Forall(v, g) => n("forall", vec![v.lift(), g.lift()]),
            AtEnd(g) => n("at-end", vec![g.lift()]),
            Always(g) => n("always", vec![g.lift()]),
            Sometime(g) => n("sometime", vec![g.lift()]),
            Within(x, g) => n("within", vec![x.lift(), g.lift()]),
            AtMostOnce(g) => n("at-most-once", vec![g.lift()]),
            SometimeAfter(g, h) => n("sometime-after", vec![g.lift(), h.lift()]),
            SometimeBefore(g, h) => n("sometime-before", vec![g.lift(), h.lift()]),
            AlwaysWithin(x, g, h) => n("always-within", vec![x.lift(), g.lift(), h.lift()]),
            HoldDuring(x, y, g) => n("hold-during", vec![x.lift(), y.lift(), g.lift()]),
            HoldAfter(x, g) => n("hold-after", vec![x.lift(), g.lift()]),
        }
    }
}
impl Lift for DomainConstraintsDef {
    fn lift(&self) -> T {
        self.value().lift()
    }
}
impl Lift for PrefConGD {
    fn lift(&self) -> T {
        match self {
            PrefConGD::Goal(g) => n("goal", vec![g.lift()]),
            PrefConGD::Forall(v, g) => n("forall", vec![v.lift(), g.lift()]),
            PrefConGD::Preference(p, g) => n("preference", vec![p.lift(), g.lift()]),
        }
    }
}
impl Lift for PrefConGDs {
    fn lift(&self) -> T {
        list("prefcon", self.iter())
    }
}
impl Lift for ProblemConstraintsDef {
    fn lift(&self) -> T {
        self.value().lift()
    }
}
impl Lift for AtomicFormulaSkeleton {
    fn lift(&self) -> T {
        n("skel", vec![self.predicate().lift(), self.variables().lift()])
    }
}
impl Lift for AtomicFunctionSkeleton {
    fn lift(&self) -> T {
        n("skel", vec![self.symbol().lift(), self.variables().lift()])
    }
}
impl Lift for Types {
    fn lift(&self) -> T {
        self.values().lift()
    }
}
impl Lift for Constants {
    fn lift(&self) -> T {
        list("tl", self.value())
    }
}
impl Lift for Objects {
    fn lift(&self) -> T {
        self.values().lift()
    }
}
impl Lift for PredicateDefinitions {
    fn lift(&self) -> T {
        list("preds", self.values())
    }
}
impl Lift for Functions {
    fn lift(&self) -> T {
        self.values().lift()
    }
}
impl Lift for Timeless {
    fn lift(&self) -> T {
        list("timeless", self.values())
    }
}
impl Lift for ActionDefinition {
    fn lift(&self) -> T {
        n("action", vec![self.symbol().lift(), self.parameters().lift(), self.precondition().lift(), self.effect().lift()])
    }
}
impl Lift for DurativeActionDefinition {
    fn lift(&self) -> T {
        n("durative", vec![self.symbol().lift(), self.parameters().lift(), self.duration().lift(), self.condition().lift(), self.effect().lift()])
    }
}
impl Lift for DerivedPredicate {
    fn lift(&self) -> T {
        n("derived", vec![self.predicate().lift(), self.expression().lift()])
    }
}
impl Lift for StructureDef {
    fn lift(&self) -> T {
        match self {
            StructureDef::Action(x) => x.lift(),
            StructureDef::DurativeAction(x) => x.lift(),
            StructureDef::Derived(x) => x.lift(),
        }
    }
}
impl Lift for StructureDefs {
    fn lift(&self) -> T {
        list("structure", self.values())
    }
}
impl Lift for Domain {
    fn lift(&self) -> T {
        n(
            "domain",
            vec![
                self.name().lift(),
                list("extends", self.extends()),
                self.requirements().lift(),
                self.types().lift(),
                self.constants().lift(),
                self.predicates().lift(),
                self.functions().lift(),
                self.constraints().lift(),
                self.structure().lift(),
            ],
        )
    }
}
impl Lift for BasicFunctionTerm {
    fn lift(&self) -> T {
        n("bft", vec![self.symbol().lift(), list("args", self.names())])
    }
}
impl Lift for InitElement {
    fn lift(&self) -> T {
        match self {
            InitElement::Literal(l) => l.lift(),
            InitElement::At(t, l) => n("at", vec![t.lift(), l.lift()]),
            InitElement::IsValue(b, v) => n("isvalue", vec![b.lift(), v.lift()]),
            InitElement::IsObject(b, v) => n("isobject", vec![b.lift(), v.lift()]),
        }
    }
}
impl Lift for InitElements {
    fn lift(&self) -> T {
        list("init", self.values())
    }
}
impl Lift for MetricSpec {
    fn lift(&self) -> T {
        n("metric", vec![self.optimization().lift(), self.expression().lift()])
    }
}
impl Lift for LengthSpec {
    fn lift(&self) -> T {
        n("length", vec![opt("serial", self.serial().map(T::U)), opt("parallel", self.parallel().map(T::U))])
    }
}
impl Lift for Problem {
    fn lift(&self) -> T {
        n(
            "problem",
            vec![
                self.name().lift(),
                self.domain().lift(),
                self.requirements().lift(),
                self.objects().lift(),
                self.init().lift(),
                self.goals().lift(),
                self.constraints().lift(),
                self.metric_spec().lift(),
                self.length_spec().lift(),
            ],
        )
    }
}

/// A parsed value of whatever type.
pub trait Val {
    fn lift_val(&self) -> T;
    fn debug(&self) -> String;
    fn copy(&self) -> Box<dyn Val>;
    /// (==, !=); None for values of different types
    fn same(&self, o: &dyn Val) -> Option<(bool, bool)>;
    fn any(&self) -> &dyn std::any::Any;
}
impl<V: Lift + Clone + PartialEq + std::fmt::Debug + 'static> Val for V {
    fn lift_val(&self) -> T {
        self.lift()
    }
    fn debug(&self) -> String {
        format!("{:?}", self)
    }
    fn copy(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    #[allow(clippy::nonminimal_bool)]
    fn same(&self, o: &dyn Val) -> Option<(bool, bool)> {
        let o = o.any().downcast_ref::<V>()?;
        Some((self == o, self != o))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}
