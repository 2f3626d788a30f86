//! Judges: each decides one case (one transition, one state, one tuple of
//! states) against the reference semantics.  They are looked up by name so that
//! a replay file can run exactly the same decision again.
use crate::display;
use crate::engine::*;
use crate::envhash;
use crate::eval::*;
use crate::gpoly;
use crate::poly;
use crate::term::*;
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
#[cfg(feature = "internals")]
use ncas::manipulation::expansion_rules as er;
#[cfg(feature = "internals")]
use ncas::manipulation::simplification_rules as sr;
use num::{One, Signed, Zero};
use std::cmp::Ordering as O;
use std::sync::Arc;

pub type Judge = fn(&Ctx, &[&St], &str) -> Verdict;
use Verdict::*;

pub fn lookup(name: &str) -> Judge {
    match name {
        "op" => j_op,
        "un" => j_un,
        "nary" => j_nary,
        "build" => j_build,
        "trace" => j_trace,
        "expand" => j_expand,
        "simplify" => j_simplify,
        "rule" => j_rule,
        "pair-order" => j_pair_order,
        "permute" => j_permute,
        "group" => j_group,
        "hash-order" => j_hash_order,
        "hash-seed" => j_hash_seed,
        "idempotent" => j_idempotent,
        "congruent" => j_congruent,
        "parts" => j_parts,
        "exact" => j_exact,
        "renamed" => j_renamed,
        "named" => j_named,
        "compare" => j_compare,
        "compare-self" => j_compare_self,
        "compare-chain" => j_compare_chain,
        "int-op" => j_int_op,
        "int-expr" => j_int_expr,
        "rational-op" => j_rational_op,
        "rational-read" => j_rational_read,
        "rational-expr" => j_rational_expr,
        "const" => j_const,
        "total" => j_total,
        "total-pair" => j_total_pair,
        "display" => j_display,
        "assoc" => j_assoc,
        "forms" => j_forms,
        "symbol-forms" => j_symbol_forms,
        "expanded" => j_expanded,
        "canonical" => j_canonical,
        "collected" => j_collected,
        "canonical-pair" => j_canonical_pair,
        "identity" => j_identity,
        "identity-pair" => j_identity_pair,
        "shape" => j_shape,
        "real-op" => j_real_op,
        "triple-order" => j_triple_order,
        "reordered" => j_reordered,
        "int-power" => j_int_power,
        "assoc-state" => j_assoc_state,
        _ => panic!("unknown judge {}", name),
    }
}

// ------------------------------------------------------------------ //
//  Value preservation                                                 //
// ------------------------------------------------------------------ //

/// `got` must have the value `want[i]` at every point where that is defined.
pub fn same_value(ctx: &Ctx, what: &str, want: &[Option<Ev>], got: &Expression) -> Verdict {
    let mut any = false;
    for (i, w) in want.iter().enumerate() {
        let w = match w {
            Some(w) => w,
            None => continue,
        };
        match ev(got, &ctx.pts[i], true) {
            None => {
                // the result may be too large to evaluate; it must not be undefined
                if undefined(got, &ctx.pts[i]) {
                    return Fail(format!("{} is undefined where the operands are defined (result {}, {})", what, got, show_pt(&ctx.pts[i], got)));
                }
            }
            Some(g) => {
                any = true;
                if !same(&g, w) {
                    return Fail(format!(
                        "{} changed the value: result {} is {} instead of {} at {}",
                        what,
                        got,
                        show_ev(&g),
                        show_ev(w),
                        show_pt(&ctx.pts[i], got)
                    ));
                }
            }
        }
    }
    if any {
        Pass
    } else {
        Skip("no comparable point")
    }
}
pub fn show_ev(e: &Ev) -> String {
    match &e.v {
        V::Q(x) => format!("{}", x),
        V::F(f) => format!("{:e}", f),
    }
}
fn vars(e: &Expression, out: &mut Vec<String>) {
    match e {
        Expression::Variable(v) => {
            if !out.contains(&v.data) {
                out.push(v.data.clone())
            }
        }
        Expression::Integer(_) | Expression::Real(_) => {}
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().for_each(|i| vars(i, out)),
        Expression::Power(p) | Expression::Logarithm(p) => {
            vars(&p.argument(), out);
            vars(&p.modifier(), out)
        }
        Expression::Sine(o) | Expression::Cossine(o) => vars(&o.argument(), out),
    }
}
fn show_pt(p: &Point, e: &Expression) -> String {
    let mut vs = vec![];
    vars(e, &mut vs);
    vs.sort();
    p.iter().filter(|(n, _)| vs.contains(n)).map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(", ")
}
/// Definitely undefined (as opposed to out of the evaluator's reach): a
/// division by an exact zero, a non-positive logarithm, a NaN or an infinity.
fn undefined(e: &Expression, p: &Point) -> bool {
    match e {
        Expression::Integer(_) | Expression::Variable(_) => false,
        Expression::Real(r) => !r.data.is_finite(),
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().any(|i| undefined(i, p)),
        Expression::Sine(o) | Expression::Cossine(o) => undefined(&o.argument(), p),
        Expression::Power(pw) => {
            if undefined(&pw.argument(), p) || undefined(&pw.modifier(), p) {
                return true;
            }
            match (ev(&pw.argument(), p, true), ev(&pw.modifier(), p, true)) {
                (Some(b), Some(x)) => b.sign() == Some(0) && matches!(x.sign(), Some(s) if s <= 0),
                _ => false,
            }
        }
        Expression::Logarithm(l) => {
            if undefined(&l.argument(), p) || undefined(&l.modifier(), p) {
                return true;
            }
            let bad = |e: &Expression| matches!(ev(e, p, true).and_then(|v| v.sign()), Some(s) if s <= 0);
            bad(&l.argument()) || bad(&l.modifier())
        }
    }
}

pub fn op_of(name: &str) -> Op {
    *ALL_OPS.iter().find(|o| o.name() == name).expect("op")
}
pub fn un_of(name: &str) -> Un {
    *[Un::Neg, Un::Expand, Un::Simplify, Un::Sin, Un::Cos].iter().find(|o| o.name() == name).expect("un")
}

pub fn j_op(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    let op = op_of(param);
    let want: Vec<Option<Ev>> = (0..ctx.pts.len()).map(|i| want_bin(op, a[0], a[1], i)).collect();
    let got = apply_bin(op, a[0].e.clone(), a[1].e.clone());
    same_value(ctx, op.name(), &want, &got)
}
pub fn j_un(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    let u = un_of(param);
    let want: Vec<Option<Ev>> = match u {
        Un::Neg => a[0].evs.iter().map(|v| v.as_ref().map(neg)).collect(),
        Un::Expand | Un::Simplify => a[0].evs.clone(),
        _ => return Skip("trig"),
    };
    let got = apply_un(u, a[0].e.clone());
    same_value(ctx, u.name(), &want, &got)
}
pub fn j_nary(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    let sum = param == "sum";
    let want: Vec<Option<Ev>> = (0..ctx.pts.len())
        .map(|p| {
            let mut acc = Ev::exact(if sum { q(0, 1) } else { q(1, 1) });
            for s in a {
                let v = s.evs[p].as_ref()?;
                acc = if sum { add(&acc, v)? } else { mul(&acc, v)? };
            }
            Some(acc)
        })
        .collect();
    let v: Vec<Expression> = a.iter().map(|s| s.e.clone()).collect();
    let got = if sum { Expression::addition(v) } else { Expression::multiplication(v) };
    same_value(ctx, param, &want, &got)
}
fn j_build(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let _ = a[0].t.build();
    Pass
}
fn j_trace(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    if key(&a[0].t.build()) == key(&a[0].e) {
        Pass
    } else {
        Fail("replaying the same operations gave a different expression".into())
    }
}
fn j_expand(ctx: &Ctx, a: &[&St], _: &str) -> Verdict {
    same_value(ctx, "expand", &a[0].evs, &a[0].e.clone().expand())
}
fn j_simplify(ctx: &Ctx, a: &[&St], _: &str) -> Verdict {
    same_value(ctx, "simplify", &a[0].evs, &a[0].e.clone().simplify())
}

pub const RULES: [&str; 9] = [
    "InversePowerLog",
    "AdditiveCommonAddend",
    "MultiplicativeCommonFactor",
    "SingleAlgebraicDenominator",
    "RationalsAddition",
    "RationalsMultiplication",
    "MultiplicativeDistributive",
    "PowerDistributiveAddition",
    "PowerDistributiveMultiplication",
];
/// Without access to the rules themselves they are observed through the two
/// operations that run them.
#[cfg(not(feature = "internals"))]
pub fn apply_rule(name: &str, e: &Expression) -> Expression {
    match name {
        "MultiplicativeDistributive" | "PowerDistributiveAddition" | "PowerDistributiveMultiplication" => e.clone().expand(),
        _ => e.clone().simplify(),
    }
}
#[cfg(feature = "internals")]
pub fn apply_rule(name: &str, e: &Expression) -> Expression {
    use er::rule::Rule as ER;
    use sr::rule::Rule as SR;
    match name {
        "InversePowerLog" => <sr::identities::inverse_power_log::InversePowerLog as SR>::apply(e),
        "AdditiveCommonAddend" => <sr::factoring::additive_common_addend::AdditiveCommonAddend as SR>::apply(e),
        "MultiplicativeCommonFactor" => <sr::factoring::multiplicative_common_factor::MultiplicativeCommonFactor as SR>::apply(e),
        "SingleAlgebraicDenominator" => <sr::factoring::single_algebraic_denominator::SingleAlgebraicDenominator as SR>::apply(e),
        "RationalsAddition" => <sr::rational::rationals_addition::RationalsAddition as SR>::apply(e),
        "RationalsMultiplication" => <sr::rational::rationals_multiplication::RationalsMultiplication as SR>::apply(e),
        "MultiplicativeDistributive" => <er::multiplicative_distributive::MultiplicativeDistributive as ER>::apply(e),
        "PowerDistributiveAddition" => <er::power_distributive_addition::PowerDistributiveAddition as ER>::apply(e),
        "PowerDistributiveMultiplication" => <er::power_distributive_multiplication::PowerDistributiveMultiplication as ER>::apply(e),
        _ => panic!("unknown rule {}", name),
    }
}
/// Which kind of expression a rule is about; any other kind comes back as it is.
fn rule_applies(name: &str, e: &Expression) -> bool {
    match name {
        "InversePowerLog" => matches!(e, Expression::Power(_) | Expression::Logarithm(_)),
        "AdditiveCommonAddend" | "RationalsAddition" => matches!(e, Expression::Addition(_)),
        "PowerDistributiveAddition" | "PowerDistributiveMultiplication" => matches!(e, Expression::Power(_)),
        _ => matches!(e, Expression::Multiplication(_)),
    }
}
fn j_rule(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    if param == "PowerDistributiveAddition" && a[0].xs > 400.0 {
        return Skip("expansion bound");
    }
    let got = apply_rule(param, &a[0].e);
    if cfg!(feature = "internals") && !rule_applies(param, &a[0].e) && key(&got) != key(&a[0].e) {
        return Fail(format!("{} does not apply to {} but rewrote it to {}", param, a[0].e, got));
    }
    same_value(ctx, param, &a[0].evs, &got)
}

// ------------------------------------------------------------------ //
//  Equality, order, hash                                              //
// ------------------------------------------------------------------ //
pub fn hash_of<T: std::hash::Hash>(e: &T) -> u64 {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher;
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
/// Precedence documented by the ordering: plain numbers, then variables, then
/// powers, logarithms, trigonometrics, products, sums.
pub fn rank(e: &Expression) -> u8 {
    match e {
        Expression::Real(_) => 0,
        Expression::Integer(_) => 1,
        Expression::Variable(_) => 2,
        Expression::Power(_) => 3,
        Expression::Logarithm(_) => 4,
        Expression::Sine(_) => 5,
        Expression::Cossine(_) => 6,
        Expression::Multiplication(_) => 7,
        Expression::Addition(_) => 8,
    }
}
/// The parts of two expressions of one kind obey the same laws.
fn part_laws<T: Ord + std::hash::Hash>(a: &T, b: &T, same: bool, c: O) -> Result<(), String> {
    if (a == b) != same || (a != b) == same {
        return Err(format!("== is {} but the structures are {}", a == b, if same { "the same" } else { "different" }));
    }
    if a.cmp(b) != c || b.cmp(a) != c.reverse() || a.partial_cmp(b) != Some(c) {
        return Err(format!("cmp {:?}, reversed {:?}, partial_cmp {:?} where the expressions are {:?}", a.cmp(b), b.cmp(a), a.partial_cmp(b), c));
    }
    if same && hash_of(a) != hash_of(b) {
        return Err("hashes differ".into());
    }
    Ok(())
}
pub fn pair_order(x: &Expression, kx: &str, y: &Expression, ky: &str) -> Result<O, String> {
    let same = kx == ky;
    let c = x.cmp(y);
    let eq = x == y;
    if eq != same {
        return Err(format!("{} == {} is {} but their structures are {}", x, y, eq, if same { "the same" } else { "different" }));
    }
    if (x != y) == eq {
        return Err(format!("!= does not negate == on {} and {}", x, y));
    }
    if (c == O::Equal) != eq {
        return Err(format!("cmp({}, {}) is {:?} but == is {}", x, y, c, eq));
    }
    if x.partial_cmp(y) != Some(c) {
        return Err(format!("partial_cmp({}, {}) is {:?} but cmp is {:?}", x, y, x.partial_cmp(y), c));
    }
    if y.cmp(x) != c.reverse() {
        return Err(format!("cmp({}, {}) is {:?} but cmp reversed is {:?}", x, y, c, y.cmp(x)));
    }
    if eq && hash_of(x) != hash_of(y) {
        return Err(format!("{} == {} but their hashes differ", x, y));
    }
    if rank(x) != rank(y) && c != rank(x).cmp(&rank(y)) {
        return Err(format!("cmp({}, {}) is {:?}, against the precedence of their kinds", x, y, c));
    }
    let parts = match (x, y) {
        (Expression::Integer(a), Expression::Integer(b)) => part_laws(a, b, same, c),
        (Expression::Real(a), Expression::Real(b)) => part_laws(a, b, same, c),
        (Expression::Variable(a), Expression::Variable(b)) => part_laws(a, b, same, c),
        (Expression::Power(a), Expression::Power(b)) | (Expression::Logarithm(a), Expression::Logarithm(b)) => part_laws(a, b, same, c),
        (Expression::Sine(a), Expression::Sine(b)) | (Expression::Cossine(a), Expression::Cossine(b)) => part_laws(a, b, same, c),
        (Expression::Addition(a), Expression::Addition(b)) | (Expression::Multiplication(a), Expression::Multiplication(b)) => part_laws(a, b, same, c),
        _ => Ok(()),
    };
    if let Err(m) = parts {
        return Err(format!("the contents of {} and {}: {}", x, y, m));
    }
    match (x, y) {
        (Expression::Integer(a), Expression::Integer(b)) if c != a.data.cmp(&b.data) => return Err(format!("integers {} and {} are ordered {:?}", x, y, c)),
        (Expression::Real(a), Expression::Real(b)) => {
            if let Some(o) = a.data.partial_cmp(&b.data) {
                if o != c {
                    return Err(format!("reals {} and {} are ordered {:?}", x, y, c));
                }
            }
        }
        _ => {}
    }
    Ok(c)
}
fn j_pair_order(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    // a rebuilt copy of each operand, so that sharing cannot hide anything
    let x = if param == "permuted" { reversed(&a[0].e) } else { a[0].e.clone() };
    match pair_order(&x, &key(&x), &a[1].e, &key(&a[1].e)) {
        Ok(_) => Pass,
        Err(m) => Fail(m),
    }
}
/// The same expression with the operands of every sum and product supplied in
/// the opposite order.
pub fn reversed(e: &Expression) -> Expression {
    match e {
        Expression::Addition(a) => {
            let mut v: Vec<Expression> = a.items().iter().map(reversed).collect();
            v.reverse();
            Expression::Addition(CommutativeAssociation::new(v))
        }
        Expression::Multiplication(a) => {
            let mut v: Vec<Expression> = a.items().iter().map(reversed).collect();
            v.reverse();
            Expression::Multiplication(CommutativeAssociation::new(v))
        }
        Expression::Power(p) => Expression::Power(AssociativeOperation::new(reversed(&p.argument()), reversed(&p.modifier()))),
        Expression::Logarithm(p) => Expression::Logarithm(AssociativeOperation::new(reversed(&p.argument()), reversed(&p.modifier()))),
        Expression::Sine(o) => Expression::Sine(Operation::new(reversed(&o.argument()))),
        Expression::Cossine(o) => Expression::Cossine(Operation::new(reversed(&o.argument()))),
        _ => e.clone(),
    }
}

// ------------------------------------------------------------------ //
//  Commutativity and associativity                                    //
// ------------------------------------------------------------------ //
fn nary_build(sum: bool, v: Vec<Expression>) -> Expression {
    if sum {
        Expression::addition(v)
    } else {
        Expression::multiplication(v)
    }
}
fn same_expr(x: &Expression, y: &Expression) -> bool {
    x == y && key(x) == key(y)
}
/// Every permutation of the operands builds the same expression.
fn j_permute(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let sum = param == "sum";
    let es: Vec<Expression> = a.iter().map(|s| s.e.clone()).collect();
    let first = nary_build(sum, es.clone());
    let kf = key(&first);
    let mut bad = None;
    envhash::permutations(es.len(), &mut |p| {
        if bad.is_some() {
            return;
        }
        let r = nary_build(sum, p.iter().map(|&i| es[i].clone()).collect());
        if r != first || key(&r) != kf || hash_of(&r) != hash_of(&first) {
            bad = Some(format!("operands in order {:?} build {} but {}", p, r, first));
        }
    });
    match bad {
        Some(m) => Fail(m),
        None => Pass,
    }
}
/// Every way to group the operands with the binary operators builds the same
/// expression as the flat constructor.
fn j_group(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let sum = param == "sum";
    let es: Vec<Expression> = a.iter().map(|s| s.e.clone()).collect();
    let flat = nary_build(sum, es.clone());
    let mut bad = None;
    envhash::permutations(es.len(), &mut |p| {
        if bad.is_some() {
            return;
        }
        let v: Vec<Expression> = p.iter().map(|&i| es[i].clone()).collect();
        for g in groupings(&v, sum) {
            if !same_expr(&g, &flat) {
                bad = Some(format!("a grouping of {:?} builds {} but the flat constructor builds {}", v.iter().map(|e| e.to_string()).collect::<Vec<_>>(), g, flat));
                return;
            }
        }
    });
    match bad {
        Some(m) => Fail(m),
        None => Pass,
    }
}
fn groupings(v: &[Expression], sum: bool) -> Vec<Expression> {
    if v.len() == 1 {
        return vec![v[0].clone()];
    }
    let mut out = vec![];
    for k in 1..v.len() {
        for l in groupings(&v[..k], sum) {
            for r in groupings(&v[k..], sum) {
                out.push(if sum { l.clone() + r } else { l.clone() * r });
            }
        }
    }
    out
}

// ------------------------------------------------------------------ //
//  Hash order                                                         //
// ------------------------------------------------------------------ //
/// Everything the property says must not depend on iteration order.
fn observe(e: &Expression) -> String {
    let s = e.clone().simplify();
    format!("{} | {}", key(&s), s)
}
fn j_hash_order(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    let mut it = param.split_whitespace().map(|x| x.parse::<usize>().unwrap_or(1));
    let (bound, full) = (it.next().unwrap_or(1), it.next().unwrap_or(4));
    let e = &a[0].e;
    let (base, trace) = envhash::scripted(&[], || observe(e));
    let mut runs = 1u64;
    let mut choices = 0u64;
    let r = order_search(e, &base, &mut vec![], &trace, 0, bound, full, &mut runs, &mut choices);
    {
        let mut s = ctx.stats.lock().unwrap();
        *s.counters.entry("order_executions".into()).or_default() += runs;
        *s.counters.entry("order_choice_points".into()).or_default() += trace.len() as u64;
        if trace.iter().any(|&n| n > full) {
            *s.counters.entry("order_points_beyond_full_permutation_bound".into()).or_default() += trace.iter().filter(|&&n| n > full).count() as u64;
        }
        s.transitions += choices;
    }
    match r {
        Some(m) => Fail(m),
        None => {
            if trace.is_empty() {
                Skip("no choice point")
            } else {
                Pass
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn order_search(e: &Expression, base: &str, script: &mut Vec<Vec<usize>>, trace: &[usize], from: usize, bound: usize, full: usize, runs: &mut u64, choices: &mut u64) -> Option<String> {
    if bound == 0 {
        return None;
    }
    for i in from..trace.len() {
        for alt in envhash::alternatives(trace[i], full) {
            let mut s = script.clone();
            while s.len() < i {
                s.push(vec![]);
            }
            s.push(alt.clone());
            let (r, t) = envhash::scripted(&s, || observe(e));
            *runs += 1;
            *choices += 1;
            if r != base {
                return Some(format!("iteration order {:?} gives {} instead of {}", s, r, base));
            }
            if t.len() > i + 1 {
                if let Some(m) = order_search(e, base, &mut s, &t, i + 1, bound - 1, full, runs, choices) {
                    return Some(m);
                }
            }
        }
    }
    None
}
fn j_hash_seed(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    let n: u64 = param.parse().unwrap_or(8);
    let e = &a[0].e;
    let base = observe(e);
    for seed in 1..=n {
        let r = envhash::seeded(seed, || {
            envhash::thread_init();
            observe(e)
        });
        if r != base {
            return Fail(format!("hash seed {} gives {} instead of {}", seed, r, base));
        }
    }
    ctx.stats.lock().unwrap().transitions += n;
    Pass
}

// ------------------------------------------------------------------ //
//  Simplify is idempotent                                             //
// ------------------------------------------------------------------ //
fn j_idempotent(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let s1 = a[0].e.clone().simplify();
    let s2 = s1.clone().simplify();
    if !same_expr(&s1, &s2) {
        return Fail(format!("simplify gives {}, and simplifying that gives {}", s1, s2));
    }
    // simplifying the expanded or the negated-twice form adds nothing either
    let s3 = a[0].e.clone().expand().simplify();
    let s4 = s3.clone().simplify();
    if !same_expr(&s3, &s4) {
        return Fail(format!("simplify of the expansion gives {}, and simplifying that gives {}", s3, s4));
    }
    Pass
}

/// Without machine reals among the operands there are none in any result.
fn j_exact(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    if a[0].t.has_real() {
        return Skip("reals");
    }
    fn find(e: &Expression) -> bool {
        match e {
            Expression::Real(_) => true,
            Expression::Addition(c) | Expression::Multiplication(c) => c.items().iter().any(find),
            Expression::Power(p) | Expression::Logarithm(p) => find(&p.argument()) || find(&p.modifier()),
            Expression::Sine(o) | Expression::Cossine(o) => find(&o.argument()),
            _ => false,
        }
    }
    let e = &a[0].e;
    if find(e) {
        return Fail(format!("{} has a machine real in it", e));
    }
    if a[0].xs > 400.0 {
        return Pass;
    }
    let mut all = vec![("expand".to_string(), e.clone().expand()), ("simplify".to_string(), e.clone().simplify())];
    for r in RULES {
        all.push((r.to_string(), apply_rule(r, e)));
    }
    for (n, r) in all {
        if find(&r) {
            return Fail(format!("{} of {} gives {}, which has a machine real in it", n, e, r));
        }
    }
    Pass
}
/// Names carry no meaning: what happens to an expression happens, renamed, to
/// the renamed expression.
type Map<'a> = &'a dyn Fn(&str) -> String;
fn named_map(n: &str, map: usize) -> String {
    match map {
        0 => match n {
            "x" => "y".into(),
            "y" => "x".into(),
            _ => n.into(),
        },
        // the other way round in the alphabet
        1 => n.chars().map(|c| if c.is_ascii_lowercase() { (b'a' + b'z' - c as u8) as char } else { c }).collect(),
        _ => format!("v_{}_{}", n.len(), n),
    }
}
fn rename_term(t: &Term, map: Map) -> Term {
    let f = |t: &Arc<Term>| Arc::new(rename_term(t, map));
    match t {
        Term::Var(n) => Term::Var(map(n)),
        Term::Bin(o, l, r) => Term::Bin(*o, f(l), f(r)),
        Term::Un(u, l) => Term::Un(*u, f(l)),
        Term::Sum(v) => Term::Sum(v.iter().map(f).collect()),
        Term::Prod(v) => Term::Prod(v.iter().map(f).collect()),
        Term::Raw(k, v) => Term::Raw(*k, v.iter().map(f).collect()),
        t => t.clone(),
    }
}
fn rename_expr(e: &Expression, map: Map) -> Expression {
    let f = |e: &Expression| rename_expr(e, map);
    match e {
        Expression::Variable(v) => Symbol::variable(&map(&v.data)).expr(),
        Expression::Addition(a) => Expression::Addition(CommutativeAssociation::new(a.items().iter().map(f).collect())),
        Expression::Multiplication(a) => Expression::Multiplication(CommutativeAssociation::new(a.items().iter().map(f).collect())),
        Expression::Power(p) => Expression::Power(AssociativeOperation::new(f(&p.argument()), f(&p.modifier()))),
        Expression::Logarithm(p) => Expression::Logarithm(AssociativeOperation::new(f(&p.argument()), f(&p.modifier()))),
        Expression::Sine(o) => Expression::Sine(Operation::new(f(&o.argument()))),
        Expression::Cossine(o) => Expression::Cossine(Operation::new(f(&o.argument()))),
        e => e.clone(),
    }
}
fn j_renamed(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let mut any = false;
    for map in 0..3 {
        if !param.is_empty() && param != map.to_string() {
            continue;
        }
        match renamed(a[0], &|n| named_map(n, map)) {
            Ok(b) => any |= b,
            Err(m) => return Fail(m),
        }
    }
    if any {
        Pass
    } else {
        Skip("no variables")
    }
}
/// The same for names given: x and y become the names in the parameter.
fn j_named(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let to: Vec<String> = param.split(' ').map(|n| n.replace("\\s", " ").replace("\\e", "")).collect();
    // the other names stay clear of these two
    match renamed(a[0], &|n| match n {
        "x" => to[0].clone(),
        "y" => to[1].clone(),
        _ => format!("other_{}", n),
    }) {
        Ok(true) => Pass,
        Ok(false) => Skip("no variables"),
        Err(m) => Fail(m),
    }
}
fn renamed(s: &St, map: Map) -> Result<bool, String> {
    let e = &s.e;
    let want = rename_expr(e, map);
    let got = rename_term(&s.t, map).build();
    let any = key(&got) != key(e);
    if key(&want) != key(&got) {
        return Err(format!("{} renamed is {}, but built from renamed variables it is {}", e, want, got));
    }
    if s.xs > 400.0 || !any {
        return Ok(any);
    }
    let mut all: Vec<(&str, Expression, Expression)> = vec![("expand", e.clone().expand(), got.clone().expand()), ("simplify", e.clone().simplify(), got.clone().simplify())];
    for r in RULES {
        all.push((r, apply_rule(r, e), apply_rule(r, &got)));
    }
    for (n, l, r) in all {
        if key(&rename_expr(&l, map)) != key(&r) {
            return Err(format!("{} of {} is {}, but with {} for it, it is {}", n, e, l, got, r));
        }
    }
    Ok(any)
}
/// Every part of a simplified expression is simplified (trigonometric
/// arguments are left alone by the library).
fn j_parts(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let s = a[0].e.clone().simplify();
    fn walk(e: &Expression, whole: &Expression) -> Option<String> {
        let subs = match e {
            Expression::Addition(c) | Expression::Multiplication(c) => c.items(),
            Expression::Power(p) | Expression::Logarithm(p) => vec![p.argument(), p.modifier()],
            _ => vec![],
        };
        for sub in subs {
            if let Some(m) = walk(&sub, whole) {
                return Some(m);
            }
            let again = sub.clone().simplify();
            if !same_expr(&sub, &again) {
                return Some(format!("{} is simplified but its part {} simplifies to {}", whole, sub, again));
            }
        }
        None
    }
    match walk(&s, &s) {
        Some(m) => Fail(m),
        None => Pass,
    }
}
/// Inside a logarithm, as an exponent, as a summand or factor: simplifying a
/// polynomial first makes no difference.
fn j_congruent(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let e = &a[0].e;
    if poly::of_term(&a[0].t).is_none() {
        return Skip("not a polynomial");
    }
    let s = e.clone().simplify();
    let y = || Symbol::variable("y").expr();
    type F = fn(Expression, Expression) -> Expression;
    let frames: [(&str, F); 9] = [
        ("log(?, y)", |e, y| Expression::logarithm(e, y)),
        ("log(y, ?)", |e, y| Expression::logarithm(y, e)),
        ("log(y, log(y, ?))", |e, y| Expression::logarithm(y.clone(), Expression::logarithm(y, e))),
        ("y ^ ?", |e, y| Expression::power(y, e)),
        ("log(?, y) ^ y", |e, y| Expression::power(Expression::logarithm(e, y.clone()), y)),
        ("? + y", |e, y| e + y),
        ("y - ?", |e, y| y - e),
        ("? * y", |e, y| e * y),
        ("? / y", |e, y| e / y),
    ];
    for (n, f) in frames {
        let (l, r) = (f(e.clone(), y()).simplify(), f(s.clone(), y()).simplify());
        if !same_expr(&l, &r) {
            return Fail(format!("{} with {} in it simplifies to {}, with its simplification {} to {}", n, e, l, s, r));
        }
    }
    Pass
}

// ------------------------------------------------------------------ //
//  Comparisons                                                        //
// ------------------------------------------------------------------ //
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Cmp {
    pub comparable: bool,
    pub eq: bool,
    pub ne: bool,
    pub gt: bool,
    pub lt: bool,
    pub ge: bool,
    pub le: bool,
}
pub fn cmp_all(x: &Expression, y: &Expression) -> Cmp {
    Cmp {
        comparable: x.comparable(y),
        eq: x.equal(y),
        ne: x.not_equal(y),
        gt: x.greater(y),
        lt: x.lesser(y),
        ge: x.greater_equal(y),
        le: x.lesser_equal(y),
    }
}
fn consistent(c: &Cmp) -> Result<(), String> {
    let ok = if c.comparable {
        (c.eq as u8 + c.gt as u8 + c.lt as u8) == 1 && c.ne == !c.eq && c.ge == (c.gt || c.eq) && c.le == (c.lt || c.eq)
    } else {
        !c.eq && !c.ne && !c.gt && !c.lt && !c.ge && !c.le
    };
    if ok {
        Ok(())
    } else {
        Err(format!("the seven comparisons contradict each other: {:?}", c))
    }
}
fn sign_of(c: &Cmp) -> i32 {
    if c.gt {
        1
    } else if c.lt {
        -1
    } else {
        0
    }
}
/// param "complete": the pair are polynomials with exact coefficients, so the
/// comparison must also succeed whenever they differ by a number.
fn j_compare(ctx: &Ctx, a: &[&St], param: &str) -> Verdict {
    let (x, y) = (&a[0].e, &a[1].e);
    let c = cmp_all(x, y);
    if let Err(m) = consistent(&c) {
        return Fail(format!("{} vs {}: {}", x, y, m));
    }
    let r = cmp_all(y, x);
    if let Err(m) = consistent(&r) {
        return Fail(format!("{} vs {}: {}", y, x, m));
    }
    if r.comparable != c.comparable || (c.comparable && sign_of(&r) != -sign_of(&c)) {
        return Fail(format!("{} vs {} is {:?} but the other way round {:?}", x, y, c, r));
    }
    // soundness at every point where both are defined
    if c.comparable {
        for i in 0..ctx.pts.len() {
            if let (Some(p), Some(q)) = (&a[0].evs[i], &a[1].evs[i]) {
                if let Some(d) = add(p, &neg(q)) {
                    let s = if p.approx || q.approx {
                        // rounding may decide very close calls
                        if d.v.f().abs() <= 1e-9 * d.scale {
                            continue;
                        }
                        d.sign()
                    } else {
                        d.sign()
                    };
                    if let Some(s) = s {
                        if s != sign_of(&c) {
                            return Fail(format!("{} vs {}: answered {:?}, but the difference is {} at {}", x, y, c, show_ev(&d), show_pt(&ctx.pts[i], &(x.clone() * y.clone()))));
                        }
                    }
                }
            }
        }
    }
    if param == "complete" {
        let d = match (poly::of_term(&a[0].t), poly::of_term(&a[1].t)) {
            (Some(p), Some(q)) => p.add(&q.scale(&-num::rational::BigRational::one())).as_const(),
            // sums of monomials with any exponents
            _ => match (gpoly::of_term(&a[0].t), gpoly::of_term(&a[1].t)) {
                (Some(p), Some(q)) => p.minus(&q).as_const(),
                _ => return Skip("not sums of monomials"),
            },
        };
        match d {
            Some(k) => {
                let s = if k.is_zero() {
                    0
                } else if k.is_positive() {
                    1
                } else {
                    -1
                };
                if !c.comparable || sign_of(&c) != s {
                    return Fail(format!("{} and {} differ by the constant {} but the comparison answers {:?}", x, y, k, c));
                }
            }
            None => {
                if c.comparable {
                    return Fail(format!("{} and {} do not differ by a constant but the comparison answers {:?}", x, y, c));
                }
            }
        }
    }
    if param == "numbers" {
        // both are numbers: always comparable
        if !c.comparable {
            return Fail(format!("the numbers {} and {} are not comparable", x, y));
        }
    }
    Pass
}
fn j_compare_self(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let x = &a[0].e;
    let c = cmp_all(x, x);
    let want = Cmp { comparable: true, eq: true, ne: false, gt: false, lt: false, ge: true, le: true };
    if c != want {
        return Fail(format!("{} compared with itself: {:?}", x, c));
    }
    // an expression equals its own expansion and simplification when those are polynomials
    if poly::of_term(&a[0].t).is_some() || gpoly::of_term(&a[0].t).is_some() {
        for (n, y) in [("expansion", x.clone().expand()), ("simplification", x.clone().simplify())] {
            if cmp_all(x, &y) != want {
                return Fail(format!("{} is not equal to its own {} {}", x, n, y));
            }
        }
    }
    Pass
}
fn j_compare_chain(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let (x, y, z) = (&a[0].e, &a[1].e, &a[2].e);
    if x.lesser_equal(y) && y.lesser_equal(z) && !x.lesser_equal(z) {
        return Fail(format!("{} <= {} <= {} but not {} <= {}", x, y, z, x, z));
    }
    if x.equal(y) && y.equal(z) && !x.equal(z) {
        return Fail(format!("{} = {} = {} but not {} = {}", x, y, z, x, z));
    }
    Pass
}

// ------------------------------------------------------------------ //
//  Integers                                                           //
// ------------------------------------------------------------------ //
type B = num::BigInt;
fn as_int(s: &St) -> Option<B> {
    match &*s.t {
        Term::Int(n) => Some(n.clone()),
        _ => None,
    }
}
/// Schoolbook decimal/binary reference, independent of the library's integer
/// operations: sign and magnitude in base 2^16.
mod school {
    use num::bigint::{BigInt, Sign};
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct N {
        pub neg: bool,
        pub d: Vec<u32>, // base 65536, little endian, no leading zeros
    }
    fn trim(mut d: Vec<u32>) -> Vec<u32> {
        while d.last() == Some(&0) {
            d.pop();
        }
        d
    }
    pub fn cmp_mag(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
        a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
    }
    fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![];
        let mut c = 0;
        for i in 0..a.len().max(b.len()) {
            let s = a.get(i).unwrap_or(&0) + b.get(i).unwrap_or(&0) + c;
            r.push(s & 0xffff);
            c = s >> 16;
        }
        r.push(c);
        trim(r)
    }
    fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![];
        let mut bo = 0i64;
        for i in 0..a.len() {
            let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - bo;
            bo = 0;
            if s < 0 {
                s += 65536;
                bo = 1;
            }
            r.push(s as u32);
        }
        trim(r)
    }
    fn norm(neg: bool, d: Vec<u32>) -> N {
        let d = trim(d);
        N { neg: neg && !d.is_empty(), d }
    }
    impl N {
        pub fn from(b: &BigInt) -> N {
            let (s, by) = b.to_bytes_le();
            let mut d = vec![];
            for c in by.chunks(2) {
                d.push(c[0] as u32 | ((*c.get(1).unwrap_or(&0) as u32) << 8));
            }
            norm(s == Sign::Minus, d)
        }
        pub fn to(&self) -> BigInt {
            let by: Vec<u8> = self.d.iter().flat_map(|x| vec![*x as u8, (*x >> 8) as u8]).collect();
            BigInt::from_bytes_le(if self.neg { Sign::Minus } else { Sign::Plus }, &by)
        }
        pub fn add(&self, o: &N) -> N {
            if self.neg == o.neg {
                return norm(self.neg, add_mag(&self.d, &o.d));
            }
            match cmp_mag(&self.d, &o.d) {
                std::cmp::Ordering::Less => norm(o.neg, sub_mag(&o.d, &self.d)),
                _ => norm(self.neg, sub_mag(&self.d, &o.d)),
            }
        }
        pub fn neg(&self) -> N {
            norm(!self.neg, self.d.clone())
        }
        pub fn mul(&self, o: &N) -> N {
            let mut r = vec![0u32; self.d.len() + o.d.len() + 1];
            for i in 0..self.d.len() {
                let mut c = 0u64;
                for j in 0..o.d.len() {
                    let s = r[i + j] as u64 + self.d[i] as u64 * o.d[j] as u64 + c;
                    r[i + j] = (s & 0xffff) as u32;
                    c = s >> 16;
                }
                let mut k = i + o.d.len();
                while c > 0 {
                    let s = r[k] as u64 + c;
                    r[k] = (s & 0xffff) as u32;
                    c = s >> 16;
                    k += 1;
                }
            }
            norm(self.neg != o.neg, r)
        }
        /// truncated division, bit by bit
        pub fn divrem(&self, o: &N) -> (N, N) {
            let mut quo = vec![0u32; self.d.len()];
            let mut rem: Vec<u32> = vec![];
            for i in (0..self.d.len() * 16).rev() {
                let bit = (self.d[i / 16] >> (i % 16)) & 1;
                let mut c = bit;
                for x in rem.iter_mut() {
                    let s = (*x << 1) | c;
                    *x = s & 0xffff;
                    c = s >> 16;
                }
                if c > 0 {
                    rem.push(c);
                }
                rem = trim(rem);
                if cmp_mag(&rem, &o.d) != std::cmp::Ordering::Less {
                    rem = sub_mag(&rem, &o.d);
                    quo[i / 16] |= 1 << (i % 16);
                }
            }
            (norm(self.neg != o.neg, quo), norm(self.neg, rem))
        }
        pub fn cmp(&self, o: &N) -> std::cmp::Ordering {
            match (self.neg, o.neg) {
                (false, true) => std::cmp::Ordering::Greater,
                (true, false) => std::cmp::Ordering::Less,
                (false, false) => cmp_mag(&self.d, &o.d),
                (true, true) => cmp_mag(&o.d, &self.d),
            }
        }
        pub fn is_zero(&self) -> bool {
            self.d.is_empty()
        }
        pub fn abs(&self) -> N {
            N { neg: false, d: self.d.clone() }
        }
        pub fn gcd(&self, o: &N) -> N {
            let (mut a, mut b) = (self.abs(), o.abs());
            while !b.is_zero() {
                let r = a.divrem(&b).1;
                a = b;
                b = r;
            }
            a
        }
        pub fn decimal(&self) -> String {
            if self.d.is_empty() {
                return "0".into();
            }
            let ten = N { neg: false, d: vec![10] };
            let mut cur = self.abs();
            let mut out = vec![];
            while !cur.is_zero() {
                let (a, r) = cur.divrem(&ten);
                out.push(b'0' + *r.d.get(0).unwrap_or(&0) as u8);
                cur = a;
            }
            if self.neg {
                out.push(b'-');
            }
            out.reverse();
            String::from_utf8(out).unwrap()
        }
    }
}
use school::N;

/// Symbol<BigInt> operations against the schoolbook reference.
fn j_int_op(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let (x, y) = match (as_int(a[0]), as_int(a[1])) {
        (Some(x), Some(y)) => (x, y),
        _ => return Skip("not integers"),
    };
    let (sx, sy) = (Symbol { data: x.clone() }, Symbol { data: y.clone() });
    let (nx, ny) = (N::from(&x), N::from(&y));
    let check = |got: Symbol<B>, want: N| -> Verdict {
        if N::from(&got.data) == want && got.label() == want.decimal() {
            Pass
        } else {
            Fail(format!("{}({}, {}) = {} instead of {}", param, x, y, got.label(), want.decimal()))
        }
    };
    // every way of passing the operands
    let all = |forms: [Symbol<B>; 4], want: N| -> Verdict {
        for f in forms {
            if let Fail(m) = check(f, want.clone()) {
                return Fail(m);
            }
        }
        Pass
    };
    match param {
        "add" => all([&sx + &sy, sx.clone() + &sy, &sx + sy.clone(), sx + sy], nx.add(&ny)),
        "sub" => all([&sx - &sy, sx.clone() - &sy, &sx - sy.clone(), sx - sy], nx.add(&ny.neg())),
        "mul" => all([&sx * &sy, sx.clone() * &sy, &sx * sy.clone(), sx * sy], nx.mul(&ny)),
        "div" => {
            if ny.is_zero() {
                return Skip("division by zero");
            }
            all([&sx / &sy, sx.clone() / &sy, &sx / sy.clone(), sx / sy], nx.divrem(&ny).0)
        }
        "rem" => {
            if ny.is_zero() {
                return Skip("division by zero");
            }
            all([&sx % &sy, sx.clone() % &sy, &sx % sy.clone(), sx % sy], nx.divrem(&ny).1)
        }
        "gcd" => check(Symbol::gcd(&sx, &sy), nx.gcd(&ny)),
        "lcm" => {
            let g = nx.gcd(&ny);
            if g.is_zero() {
                return Skip("lcm(0, 0)");
            }
            check(Symbol::lcm(&sx, &sy), nx.mul(&ny).abs().divrem(&g).0)
        }
        "cmp" => {
            let w = nx.cmp(&ny);
            if sx.cmp(&sy) != w || sx.partial_cmp(&sy) != Some(w) || (sx == sy) != (w == O::Equal) || (sx < sy) != (w == O::Less) {
                return Fail(format!("order of {} and {} is {:?}", x, y, sx.cmp(&sy)));
            }
            if w == O::Equal && hash_of(&sx) != hash_of(&sy) {
                return Fail(format!("hash of {}", x));
            }
            Pass
        }
        "unary" => {
            if sx.is_negative() != nx.neg {
                return Fail(format!("is_negative({})", x));
            }
            if sx.label() != nx.decimal() {
                return Fail(format!("label of {} is {}", x, sx.label()));
            }
            let lim = B::from(isize::MAX);
            let lo = B::from(isize::MIN);
            let fits = x <= lim && x >= lo;
            match sx.value() {
                Some(v) => {
                    if !fits || format!("{}", v) != nx.decimal() {
                        return Fail(format!("value({}) is {}", x, v));
                    }
                    if Symbol::integer(v).data != x {
                        return Fail(format!("integer({}) is not {}", v, x));
                    }
                }
                None => {
                    if fits {
                        return Fail(format!("value({}) is None", x));
                    }
                }
            }
            check(sx.opposite(), nx.neg())
        }
        "pow" => {
            if ny.neg {
                return if sx.pow(&sy).is_none() { Pass } else { Fail(format!("{} to the negative {} is an integer", x, y)) };
            }
            let k = match num::ToPrimitive::to_u64(&y) {
                // 0, 1 and -1: only zero and the parity matter
                _ if x.bits() <= 1 => (if y.is_zero() { 0 } else if num::Integer::is_odd(&y) { 1 } else { 2 }) as u64,
                Some(k) if k.saturating_mul(x.bits()) <= 4096 => k,
                _ => return Skip("power bound"),
            };
            let mut w = N::from(&B::one());
            for _ in 0..k {
                w = w.mul(&nx);
            }
            match sx.pow(&sy) {
                Some(g) => check(g, w),
                None => Fail(format!("{} ^ {} has no value", x, y)),
            }
        }
        _ => panic!("int op"),
    }
}
/// Integer results of expressions: three operands, two operators.
fn j_int_expr(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let v: Vec<B> = match a.iter().map(|s| as_int(s)).collect::<Option<Vec<_>>>() {
        Some(v) => v,
        None => return Skip("not integers"),
    };
    let n: Vec<N> = v.iter().map(N::from).collect();
    let e: Vec<Expression> = a.iter().map(|s| s.e.clone()).collect();
    let ops: Vec<&str> = param.split_whitespace().collect();
    let mut acc_n = n[0].clone();
    let mut acc_e = e[0].clone();
    for (i, op) in ops.iter().enumerate() {
        let (en, nn) = (e[i + 1].clone(), &n[i + 1]);
        match *op {
            "add" => {
                acc_n = acc_n.add(nn);
                acc_e = acc_e + en;
            }
            "sub" => {
                acc_n = acc_n.add(&nn.neg());
                acc_e = acc_e - en;
            }
            "mul" => {
                acc_n = acc_n.mul(nn);
                acc_e = acc_e * en;
            }
            "div" => {
                if nn.is_zero() {
                    return Skip("division by zero");
                }
                let (quo, rem) = acc_n.divrem(nn);
                if !rem.is_zero() {
                    return Skip("inexact division");
                }
                acc_n = quo;
                acc_e = acc_e / en;
            }
            _ => panic!("op"),
        }
    }
    for (what, got) in [("built", acc_e.clone()), ("expanded", acc_e.clone().expand()), ("simplified", acc_e.clone().simplify())] {
        match &got {
            Expression::Integer(g) if N::from(&g.data) == acc_n && got.to_string() == acc_n.decimal() => {}
            _ => return Fail(format!("{:?} over {:?} {} is {} instead of the integer {}", ops, v.iter().map(|x| x.to_string()).collect::<Vec<_>>(), what, got, acc_n.decimal())),
        }
    }
    Pass
}

// ------------------------------------------------------------------ //
//  Rationals                                                          //
// ------------------------------------------------------------------ //
#[cfg(feature = "internals")]
use sr::rational::rationals::Rational;
type Q = num::rational::BigRational;
#[cfg(feature = "internals")]
fn rat(n: &B, d: &B) -> Rational {
    Rational::from(Symbol { data: n.clone() }, Symbol { data: d.clone() })
}
#[cfg(feature = "internals")]
/// reads "n / d" back
fn rat_text(r: &Rational) -> Option<(B, B)> {
    let s = r.to_string();
    let mut it = s.split(" / ");
    let n = it.next()?.parse().ok()?;
    let d = it.next()?.parse().ok()?;
    Some((n, d))
}
#[cfg(feature = "internals")]
fn rat_check(what: &str, r: &Rational, want: &Q) -> Verdict {
    match rat_text(r) {
        None => return Fail(format!("{} displays as {}", what, r)),
        Some((n, d)) => {
            if &n != want.numer() || &d != want.denom() {
                return Fail(format!("{} is {} instead of {} / {} in lowest terms", what, r, want.numer(), want.denom()));
            }
        }
    }
    if r != &rat(want.numer(), want.denom()) {
        return Fail(format!("{}: {} is not == to {}", what, r, want));
    }
    let e = r.clone().expr();
    if let Some(m) = canonical_fraction(&e, want) {
        return Fail(format!("{}: {} as an expression: {}", what, r, m));
    }
    match Rational::from_expression(e.clone()) {
        Some(b) if &b == r && rat_text(&b) == rat_text(r) => {}
        other => return Fail(format!("{}: {} read back from {} is {:?}", what, r, e, other.map(|x| x.to_string()))),
    }
    Pass
}
/// The one way a number is written: n, pow(d, -1), or n * pow(d, -1), in lowest
/// terms with the sign at the numerator.
pub fn canonical_fraction(e: &Expression, want: &Q) -> Option<String> {
    let one = B::one();
    let m1 = -B::one();
    let is_inv = |e: &Expression, d: &B| -> bool {
        matches!(e, Expression::Power(p) if matches!((p.argument(), p.modifier()), (Expression::Integer(b), Expression::Integer(x)) if &b.data == d && x.data == m1))
    };
    let ok = if want.denom() == &one {
        matches!(e, Expression::Integer(n) if &n.data == want.numer())
    } else if want.numer() == &one {
        is_inv(e, want.denom())
    } else {
        match e {
            Expression::Multiplication(m) => {
                let it = m.items();
                it.len() == 2 && it.iter().any(|i| matches!(i, Expression::Integer(n) if &n.data == want.numer())) && it.iter().any(|i| is_inv(i, want.denom()))
            }
            _ => false,
        }
    };
    if ok {
        None
    } else {
        Some(format!("{} is not the canonical form of {}", e, want))
    }
}
#[cfg(feature = "internals")]
/// args: n1 d1 n2 d2
fn j_rational_op(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let v: Vec<B> = match a.iter().map(|s| as_int(s)).collect::<Option<Vec<_>>>() {
        Some(v) => v,
        None => return Skip("not integers"),
    };
    if v[1].is_zero() || v[3].is_zero() {
        return Skip("division by zero");
    }
    let (r, s) = (rat(&v[0], &v[1]), rat(&v[2], &v[3]));
    let (p, t) = (Q::new(v[0].clone(), v[1].clone()), Q::new(v[2].clone(), v[3].clone()));
    match param {
        "from" => rat_check("from", &r, &p),
        "eq" => {
            if (r == s) == (p == t) && (r != s) == (p != t) {
                Pass
            } else {
                Fail(format!("{} == {} is {}", r, s, r == s))
            }
        }
        "add" => rat_check(&format!("{} + {}", r, s), &(r.clone() + s.clone()), &(p + t)),
        "sub" => rat_check(&format!("{} - {}", r, s), &(r.clone() - s.clone()), &(p - t)),
        "mul" => rat_check(&format!("{} * {}", r, s), &(r.clone() * s.clone()), &(p * t)),
        "div" => {
            if t.is_zero() {
                return Skip("division by zero");
            }
            rat_check(&format!("({}) / ({})", r, s), &(r.clone() / s.clone()), &(p / t))
        }
        _ => panic!("rational op"),
    }
}
#[cfg(not(feature = "internals"))]
fn j_rational_op(_: &Ctx, _: &[&St], _: &str) -> Verdict {
    Skip("the fraction type is not reachable")
}
/// An API history over integers with + - * / and integer powers simplifies to
/// the canonical fraction of its exact value.
#[cfg(feature = "internals")]
fn j_rational_read(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    use ncas::manipulation::simplification_rules::rational::rationals::Rational;
    let inverse = |e: &Expression| matches!(e, Expression::Power(p) if matches!((p.argument(), p.modifier()), (Expression::Integer(_), Expression::Integer(n)) if n.data == -B::one()));
    let part = |e: &Expression| matches!(e, Expression::Integer(_)) || inverse(e);
    let readable = match &a[0].e {
        Expression::Multiplication(m) => m.items().iter().all(part),
        e => part(e),
    };
    if !readable {
        return Skip("not a product of integers and their inverses");
    }
    let want = match ev(&a[0].e, &vec![], false).map(|v| v.v) {
        Some(V::Q(w)) => w,
        _ => return Skip("no value"),
    };
    match Rational::from_expression(a[0].e.clone()) {
        None => Fail(format!("{} is not read as a fraction", a[0].e)),
        Some(r) => rat_check(&format!("reading {}", a[0].e), &r, &want),
    }
}
#[cfg(not(feature = "internals"))]
fn j_rational_read(_: &Ctx, _: &[&St], _: &str) -> Verdict {
    Skip("the fraction type is not reachable")
}
fn j_rational_expr(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let want = match poly::of_term(&a[0].t).and_then(|p| p.as_const()) {
        Some(w) => w,
        None => return Skip("not a rational constant"),
    };
    let got = a[0].e.clone().simplify();
    if let Some(m) = canonical_fraction(&got, &want) {
        return Fail(format!("{} simplifies to {}: {}", a[0].t.pretty(), got, m));
    }
    // equal numbers written differently are recognised as the same
    let canon = big(want.numer()) / big(want.denom());
    if got != canon {
        return Fail(format!("{} simplifies to {} which is not == {}", a[0].t.pretty(), got, canon));
    }
    Pass
}
/// one division of two integers builds the canonical fraction at once
fn j_const(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let (n, d) = match (as_int(a[0]), as_int(a[1])) {
        (Some(n), Some(d)) if !d.is_zero() => (n, d),
        _ => return Skip("division by zero"),
    };
    let e = a[0].e.clone() / a[1].e.clone();
    let want = Q::new(n.clone(), d.clone());
    match canonical_fraction(&e, &want) {
        Some(m) => Fail(format!("{} / {} builds {}: {}", n, d, e, m)),
        None => Pass,
    }
}

// ------------------------------------------------------------------ //
//  Totality                                                           //
// ------------------------------------------------------------------ //
/// Runs everything a user can do with one expression; only completion counts.
fn j_total(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let e = &a[0].e;
    let _ = e.to_string();
    let _ = format!("{:?}", e).len();
    let _ = hash_of(e);
    let _ = e == &a[0].t.build();
    let _ = e.id();
    let _ = -e;
    if let Expression::Addition(c) | Expression::Multiplication(c) = e {
        let _ = (c.items(), c.get_reals(), c.get_rational_numerators(), c.get_rational_denominators(), c.get_rationals(), c.get_non_rationals(), c.get_symbolics());
    }
    #[cfg(feature = "internals")]
    let _ = Rational::from_expression(e.clone());
    if param == "light" {
        return Pass;
    }
    for r in RULES {
        let _ = apply_rule(r, e);
    }
    let x = e.clone().expand();
    let s = e.clone().simplify();
    let _ = (x.to_string(), s.to_string());
    let _ = cmp_all(e, e);
    Pass
}
fn j_total_pair(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let _ = cmp_all(&a[0].e, &a[1].e);
    let _ = a[0].e.cmp(&a[1].e);
    let _ = a[0].e == a[1].e;
    Pass
}

// ------------------------------------------------------------------ //
//  Display                                                            //
// ------------------------------------------------------------------ //
fn j_display(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let e = &a[0].e;
    let text = e.to_string();
    match display::parse(&text) {
        Err(m) => Fail(format!("{:?} does not read back: {}", text, m)),
        Ok(d) => match display::matches(&d, e) {
            Ok(()) => Pass,
            Err(m) => Fail(format!("{:?} reads back as something else: {}", text, m)),
        },
    }
}

// ------------------------------------------------------------------ //
//  Associations                                                       //
// ------------------------------------------------------------------ //
fn kmulti(v: &[Expression]) -> Vec<String> {
    let mut k: Vec<String> = v.iter().map(key).collect();
    k.sort();
    k
}
fn is_integer(e: &Expression) -> bool {
    matches!(e, Expression::Integer(_))
}
fn is_real(e: &Expression) -> bool {
    matches!(e, Expression::Real(_))
}
fn is_inverse(e: &Expression) -> bool {
    matches!(e, Expression::Power(p) if is_integer(&p.argument()) && is_integer(&p.modifier()))
}
fn is_rational(e: &Expression) -> bool {
    match e {
        Expression::Multiplication(m) => m.items().iter().all(|i| is_integer(i) || is_inverse(i)),
        e => is_integer(e) || is_inverse(e),
    }
}
fn j_assoc(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let input: Vec<Expression> = a.iter().map(|s| s.e.clone()).collect();
    let c = CommutativeAssociation::new(input.clone());
    let items = c.items();
    let bag = |v: &[Expression]| kmulti(v);
    let sel = |f: &dyn Fn(&Expression) -> bool| -> Vec<Expression> { input.iter().filter(|e| f(e)).cloned().collect() };
    let cmp_bag = |what: &str, got: Vec<Expression>, want: Vec<Expression>| -> Result<(), String> {
        if bag(&got) != bag(&want) {
            let show = |v: &[Expression]| v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ");
            return Err(format!("{} of [{}] is [{}] instead of [{}]", what, show(&input), show(&got), show(&want)));
        }
        Ok(())
    };
    let run = || -> Result<(), String> {
        cmp_bag("items", items.clone(), input.clone())?;
        for w in items.windows(2) {
            if w[0].cmp(&w[1]) == O::Greater {
                return Err(format!("items are not sorted: {} before {}", w[0], w[1]));
            }
        }
        // asking again, and asking a clone, changes nothing
        cmp_bag("items again", c.items(), input.clone())?;
        cmp_bag("items of a clone", c.clone().items(), input.clone())?;
        cmp_bag("get_reals", c.get_reals(), sel(&is_real))?;
        cmp_bag("get_rational_numerators", c.get_rational_numerators(), sel(&is_integer))?;
        let dens: Vec<Expression> = sel(&is_inverse)
            .iter()
            .map(|e| match e {
                Expression::Power(p) => p.argument(),
                _ => unreachable!(),
            })
            .collect();
        cmp_bag("get_rational_denominators", c.get_rational_denominators(), dens)?;
        cmp_bag("get_rationals", c.get_rationals(), sel(&is_rational))?;
        cmp_bag("get_non_rationals", c.get_non_rationals(), sel(&|e| !is_rational(e)))?;
        cmp_bag("get_symbolics", c.get_symbolics(), sel(&|e| !is_integer(e) && !is_real(e) && !is_inverse(e)))?;
        cmp_bag("get(all)", c.get(&|_| true), input.clone())?;
        cmp_bag("get(none)", c.get(&|_| false), vec![])?;
        cmp_bag("get(variables)", c.get(&|e| matches!(e, Expression::Variable(_))), sel(&|e| matches!(e, Expression::Variable(_))))?;
        match c.get_one(&is_integer) {
            Some(x) => {
                if !is_integer(&x) || !bag(&input).contains(&key(&x)) {
                    return Err(format!("get_one(integer) found {}", x));
                }
            }
            None => {
                if input.iter().any(is_integer) {
                    return Err("get_one(integer) found nothing".into());
                }
            }
        }
        // by kind of expression, and by each single item
        for i in input.iter() {
            let (kind, k) = (std::mem::discriminant(i), key(i));
            let same_kind = |e: &Expression| std::mem::discriminant(e) == kind;
            cmp_bag("get(same kind)", c.get(&same_kind), sel(&same_kind))?;
            cmp_bag("get(same item)", c.get(&|e| key(e) == k), sel(&|e| key(e) == k))?;
            match c.get_one(&same_kind) {
                Some(x) if same_kind(&x) && bag(&input).contains(&key(&x)) => (),
                o => return Err(format!("get_one(the kind of {}) found {:?}", i, o.map(|e| e.to_string()))),
            }
            match c.get_one(&|e| key(e) == k) {
                Some(x) if key(&x) == k => (),
                o => return Err(format!("get_one({}) found {:?}", i, o.map(|e| e.to_string()))),
            }
        }
        if c.get_one(&|_| false).is_some() {
            return Err("get_one(none) found something".into());
        }
        cmp_bag("map(identity)", c.map(&|e| e.clone()), input.clone())?;
        cmp_bag("map(wrap)", c.map(&|e| Expression::Sine(Operation::new(e.clone()))), input.iter().map(|e| Expression::Sine(Operation::new(e.clone()))).collect())?;
        if c.get_rationals().len() + c.get_non_rationals().len() != input.len() {
            return Err("rationals and non rationals do not partition the items".into());
        }
        Ok(())
    };
    match run() {
        Ok(()) => Pass,
        Err(m) => Fail(m),
    }
}

// ------------------------------------------------------------------ //
//  Operator forms                                                     //
// ------------------------------------------------------------------ //
fn j_forms(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    let (x, y) = (&a[0].e, &a[1].e);
    let (kx, ky) = (key(x), key(y));
    let op = op_of(param);
    let v: Vec<Expression> = match op {
        Op::Add => vec![x.clone() + y.clone(), x.clone() + y, x + y.clone(), x + y, Expression::addition(vec![x.clone(), y.clone()])],
        Op::Sub => vec![x.clone() - y.clone(), x.clone() - y, x - y.clone(), x - y, Expression::subtraction(x.clone(), y.clone())],
        Op::Mul => vec![x.clone() * y.clone(), x.clone() * y, x * y.clone(), x * y, Expression::multiplication(vec![x.clone(), y.clone()])],
        Op::Div => vec![x.clone() / y.clone(), x.clone() / y, x / y.clone(), x / y, Expression::division(x.clone(), y.clone())],
        Op::Pow => vec![x.clone().pow(y.clone()), Expression::power(x.clone(), y.clone())],
        Op::Log => vec![x.clone().log(y.clone()), Expression::logarithm(x.clone(), y.clone())],
    };
    let k0 = key(&v[0]);
    for (i, e) in v.iter().enumerate() {
        if key(e) != k0 || e != &v[0] || e.to_string() != v[0].to_string() {
            return Fail(format!("{} of {} and {}: form {} builds {} but form 0 builds {}", param, x, y, i, e, v[0]));
        }
    }
    if key(x) != kx || key(y) != ky {
        return Fail(format!("{} changed its borrowed operands", param));
    }
    let n = [-x.clone(), -x];
    if key(&n[0]) != key(&n[1]) {
        return Fail(format!("negations of {} differ: {} and {}", x, n[0], n[1]));
    }
    Pass
}
fn j_symbol_forms(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    fn four<T: PartialEq + std::fmt::Debug>(what: &str, v: [T; 4]) -> Result<(), String> {
        if v.iter().any(|x| x != &v[0]) {
            return Err(format!("{}: owned and borrowed forms differ: {:?}", what, v));
        }
        Ok(())
    }
    let r = match (&a[0].e, &a[1].e) {
        (Expression::Integer(x), Expression::Integer(y)) => (|| {
            four("add", [x.clone() + y.clone(), x.clone() + y, x + y.clone(), x + y])?;
            four("sub", [x.clone() - y.clone(), x.clone() - y, x - y.clone(), x - y])?;
            four("mul", [x.clone() * y.clone(), x.clone() * y, x * y.clone(), x * y])?;
            if !y.data.is_zero() {
                four("div", [x.clone() / y.clone(), x.clone() / y, x / y.clone(), x / y])?;
                four("rem", [x.clone() % y.clone(), x.clone() % y, x % y.clone(), x % y])?;
            }
            Ok(())
        })(),
        (Expression::Real(x), Expression::Real(y)) => (|| {
            let b = |s: Symbol<f64>| s.data.to_bits();
            four("add", [b(x.clone() + y.clone()), b(x.clone() + y), b(x + y.clone()), b(x + y)])?;
            four("sub", [b(x.clone() - y.clone()), b(x.clone() - y), b(x - y.clone()), b(x - y)])?;
            four("mul", [b(x.clone() * y.clone()), b(x.clone() * y), b(x * y.clone()), b(x * y)])?;
            four("div", [b(x.clone() / y.clone()), b(x.clone() / y), b(x / y.clone()), b(x / y)])?;
            Ok(())
        })(),
        _ => return Skip("not numbers of one kind"),
    };
    match r {
        Ok(()) => Pass,
        Err(m) => Fail(m),
    }
}
/// Symbol<f64> arithmetic is the machine's.
fn j_real_op(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    if let (Expression::Real(x), Expression::Real(y)) = (&a[0].e, &a[1].e) {
        let (p, r) = (x.data, y.data);
        let same = |g: f64, w: f64| g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan());
        let bad = [("+", (x + y).data, p + r), ("-", (x - y).data, p - r), ("*", (x * y).data, p * r), ("/", (x / y).data, p / r)].into_iter().find(|(_, g, w)| !same(*g, *w));
        if let Some((o, g, w)) = bad {
            return Fail(format!("{} {} {} is {} instead of {}", p, o, r, g, w));
        }
        if x.value() != Some(p) && !p.is_nan() {
            return Fail(format!("value of {}", p));
        }
        return Pass;
    }
    Skip("not reals")
}

// ------------------------------------------------------------------ //
//  Expanded form                                                      //
// ------------------------------------------------------------------ //
/// No product of sums, no integer power of a sum but its inverse, no integer
/// power of a product is left anywhere.
fn undistributed(e: &Expression) -> Option<String> {
    match e {
        Expression::Multiplication(m) => {
            for i in m.items() {
                if matches!(i, Expression::Addition(_)) {
                    return Some(format!("product {} still has the sum {}", e, i));
                }
                if let Some(s) = undistributed(&i) {
                    return Some(s);
                }
            }
            None
        }
        Expression::Addition(m) => m.items().iter().find_map(undistributed),
        Expression::Power(p) => {
            let (b, x) = (p.argument(), p.modifier());
            if let Expression::Integer(n) = &x {
                if matches!(b, Expression::Addition(_)) && n.data.abs() > B::one() {
                    return Some(format!("power {} of a sum is left", e));
                }
                if matches!(b, Expression::Multiplication(_)) {
                    return Some(format!("power {} of a product is left", e));
                }
            }
            undistributed(&b).or_else(|| undistributed(&x))
        }
        Expression::Logarithm(p) => undistributed(&p.argument()).or_else(|| undistributed(&p.modifier())),
        _ => None,
    }
}
fn j_expanded(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let x = a[0].e.clone().expand();
    if let Some(m) = undistributed(&x) {
        return Fail(format!("expand of {} gives {}: {}", a[0].e, x, m));
    }
    let y = x.clone().expand();
    if !same_expr(&x, &y) {
        return Fail(format!("expand of {} gives {}, and expanding that gives {}", a[0].e, x, y));
    }
    Pass
}

// ------------------------------------------------------------------ //
//  Canonical polynomials                                              //
// ------------------------------------------------------------------ //
/// simplify of a polynomial: collected (one summand per monomial, no zero
/// coefficient), and denoting the same polynomial.
fn j_canonical(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let want = match poly::of_term(&a[0].t) {
        Some(p) => p,
        None => return Skip("not a polynomial"),
    };
    let got = a[0].e.clone().simplify();
    match poly::of_expr(&got) {
        Some(p) if p == want => {}
        p => return Fail(format!("{} simplifies to {}, which denotes {} instead of {}", a[0].t.pretty(), got, p.map(|p| poly::show(&p)).unwrap_or("no polynomial".into()), poly::show(&want))),
    }
    let summands = match &got {
        Expression::Addition(s) => s.items(),
        e => vec![e.clone()],
    };
    let expect = want.0.len().max(1);
    if summands.len() != expect {
        return Fail(format!("{} simplifies to {}: {} summands for {} monomials", a[0].t.pretty(), got, summands.len(), expect));
    }
    for s in &summands {
        if poly::of_expr(s).map(|p| p.0.len() > 1).unwrap_or(true) {
            return Fail(format!("{} simplifies to {}: {} is not a monomial", a[0].t.pretty(), got, s));
        }
    }
    // and the form is the one built from the reference monomials
    let r = reference_form(&want);
    if !same_expr(&got, &r) {
        return Fail(format!("{} simplifies to {} but the same polynomial built from its monomials simplifies to {}", a[0].t.pretty(), got, r));
    }
    Pass
}
/// simplify of the polynomial written in the harness's order: sum of
/// coefficient * product of powers.
pub fn reference_term(p: &poly::Poly) -> Arc<Term> {
    let ss: Vec<Arc<Term>> =
        p.0.iter()
            .map(|(m, c)| {
                let mut f = vec![Arc::new(Term::Bin(Op::Div, Arc::new(Term::Int(c.numer().clone())), Arc::new(Term::Int(c.denom().clone()))))];
                for (v, k) in m {
                    f.push(Arc::new(Term::Bin(Op::Pow, var(v), int(*k as i64))));
                }
                Arc::new(Term::Prod(f))
            })
            .collect();
    Arc::new(Term::Sum(ss))
}
fn reference_form(p: &poly::Poly) -> Expression {
    reference_term(p).build().simplify()
}
/// The same for sums of monomials with any exponents over variables and logarithms.
fn j_collected(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let want = match gpoly::of_term(&a[0].t) {
        Some(p) if !p.is_plain() => p,
        Some(_) => return Skip("a polynomial"),
        None => return Skip("not a sum of monomials"),
    };
    let got = a[0].e.clone().simplify();
    match gpoly::of_expr(&got) {
        Some(p) if p == want => {}
        p => return Fail(format!("{} simplifies to {}, which denotes {} instead of {}", a[0].t.pretty(), got, p.map(|p| p.show()).unwrap_or("no sum of monomials".into()), want.show())),
    }
    let items = |e: &Expression| match e {
        Expression::Addition(s) => s.items(),
        e => vec![e.clone()],
    };
    if items(&got).len() != want.0.len().max(1) {
        return Fail(format!("{} simplifies to {}: {} summands for {} monomials", a[0].t.pretty(), got, items(&got).len(), want.0.len()));
    }
    for s in items(&got) {
        let (m, c) = match gpoly::of_expr(&s) {
            Some(p) if p.0.len() <= 1 => match p.0.into_iter().next() {
                Some(t) => t,
                None => continue,
            },
            _ => return Fail(format!("{} simplifies to {}: {} is not a monomial", a[0].t.pretty(), got, s)),
        };
        let factors = match &s {
            Expression::Multiplication(f) => f.items().iter().filter(|f| !is_rational(f)).count(),
            e => !is_rational(e) as usize,
        };
        if factors != m.len() {
            return Fail(format!("{} simplifies to {}: {} has {} factors for {} bases (coefficient {})", a[0].t.pretty(), got, s, factors, m.len(), c));
        }
    }
    let r = gpoly::reference_term(&want).build().simplify();
    if !same_expr(&got, &r) {
        return Fail(format!("{} simplifies to {} but the same sum built from its monomials simplifies to {}", a[0].t.pretty(), got, r));
    }
    Pass
}
fn j_canonical_pair(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let (p, r) = match (poly::of_term(&a[0].t), poly::of_term(&a[1].t)) {
        (Some(p), Some(r)) => (p, r),
        _ => return Skip("not polynomials"),
    };
    let (x, y) = (a[0].e.clone().simplify(), a[1].e.clone().simplify());
    if (p == r) != same_expr(&x, &y) {
        return Fail(format!("{} and {} are {} polynomials but simplify to {} and {}", a[0].t.pretty(), a[1].t.pretty(), if p == r { "the same" } else { "different" }, x, y));
    }
    Pass
}

// ------------------------------------------------------------------ //
//  Identities                                                         //
// ------------------------------------------------------------------ //
fn want_same(what: &str, got: &Expression, want: &Expression) -> Result<(), String> {
    if same_expr(got, want) {
        Ok(())
    } else {
        Err(format!("{} builds {} instead of {}", what, got, want))
    }
}
/// Identities every expression obeys at construction.
fn j_identity(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    if a[0].t.has_real() {
        return Skip("reals are not collected");
    }
    let x = &a[0].e;
    let zero = &Symbol::integer(0).expr();
    let one = &Symbol::integer(1).expr();
    let m1 = &Symbol::integer(-1).expr();
    let r0 = &Symbol::real(0.0).expr();
    let r1 = &Symbol::real(1.0).expr();
    let nonzero = a[0].evs.iter().all(|v| v.as_ref().map(|v| v.sign() != Some(0)).unwrap_or(true));
    let run = || -> Result<(), String> {
        {
            want_same("x + 0", &(x + zero), x)?;
            want_same("0 + x", &(zero + x), x)?;
            want_same("x - 0", &(x - zero), x)?;
            want_same("x + 0.0", &(x + r0), x)?;
            want_same("x - 0.0", &(x - r0), x)?;
            want_same("x * 1", &(x * one), x)?;
            want_same("1 * x", &(one * x), x)?;
            want_same("x * 1.0", &(x * r1), x)?;
            want_same("addition[x]", &Expression::addition(vec![x.clone()]), x)?;
            want_same("multiplication[x]", &Expression::multiplication(vec![x.clone()]), x)?;
            want_same("-(-x)", &(-(-x)), x)?;
            want_same("x * -1 * -1", &(x * m1 * m1), x)?;
        }
        want_same("x / 1", &(x / one), x)?;
        want_same("x / 1.0", &(x / r1), x)?;
        want_same("x ^ 1", &x.clone().pow(one.clone()), x)?;
        want_same("x ^ 1.0", &x.clone().pow(r1.clone()), x)?;
        want_same("x * 0", &(x * zero), zero)?;
        want_same("0 * x", &(zero * x), zero)?;
        want_same("x * 0.0", &(x * r0), zero)?;
        want_same("0 - x", &(zero - x), &(-x))?;
        want_same("x * -1", &(x * m1), &(-x))?;
        want_same("1 ^ x", &one.clone().pow(x.clone()), one)?;
        want_same("1.0 ^ x", &r1.clone().pow(x.clone()), r1)?;
        if nonzero {
            let special = matches!(x, Expression::Integer(n) if n.data == B::one()) || matches!(x, Expression::Real(r) if r.data == 1.0);
            if !special {
                want_same("x ^ 0", &x.clone().pow(zero.clone()), one)?;
                want_same("x ^ 0.0", &x.clone().pow(r0.clone()), one)?;
            }
            want_same("0 / x", &(zero / x), zero)?;
            want_same("x / -1", &(x / m1), &(-x))?;
        }
        Ok(())
    };
    match run() {
        Ok(()) => Pass,
        Err(m) => Fail(format!("for x = {}: {}", x, m)),
    }
}
/// Identities between powers and logarithms.
fn j_identity_pair(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let (x, y) = (&a[0].e, &a[1].e);
    let run = || -> Result<bool, String> {
        let mut any = false;
        // a ^ log(x, a) == x for a symbolic base
        if !matches!(x, Expression::Integer(_) | Expression::Real(_)) {
            let l = Expression::logarithm(y.clone(), x.clone());
            if matches!(&l, Expression::Logarithm(_)) && !matches!(x, Expression::Power(_)) && !numeric_product(x) {
                want_same("x ^ log(y, x)", &x.clone().pow(l), y)?;
                any = true;
            }
            // log(a ^ y, a) == y
            let p = x.clone().pow(y.clone());
            if matches!(&p, Expression::Power(pp) if key(&pp.argument()) == key(x)) {
                want_same("log(x ^ y, x)", &Expression::logarithm(p, x.clone()), y)?;
                any = true;
            }
            // (x ^ y) ^ z is one power
            let p = x.clone().pow(y.clone());
            if let Expression::Power(pp) = &p {
                if key(&pp.argument()) == key(x) && matches!(x, Expression::Variable(_)) {
                    let z = Symbol::variable("z").expr();
                    want_same("(x ^ y) ^ z", &p.clone().pow(z.clone()), &x.clone().pow(Expression::multiplication(vec![y.clone(), z])))?;
                    any = true;
                }
            }
        }
        Ok(any)
    };
    match run() {
        Ok(true) => Pass,
        Ok(false) => Skip("no identity applies"),
        Err(m) => Fail(format!("for x = {}, y = {}: {}", x, y, m)),
    }
}
fn numeric_product(x: &Expression) -> bool {
    matches!(x, Expression::Multiplication(m) if m.items().iter().any(|i| matches!(i, Expression::Integer(_) | Expression::Real(_))))
}
/// The structural invariants of anything the constructors build.
pub fn shape(e: &Expression) -> Option<String> {
    match e {
        Expression::Addition(s) => {
            let it = s.items();
            if it.len() < 2 {
                return Some(format!("sum of {} items in {}", it.len(), e));
            }
            if it.iter().any(|i| matches!(i, Expression::Addition(_))) {
                return Some(format!("sum inside a sum in {}", e));
            }
            if it.iter().filter(|i| is_integer(i)).count() > 1 || it.iter().filter(|i| is_real(i)).count() > 1 {
                return Some(format!("uncollected numbers in {}", e));
            }
            if it.iter().any(|i| matches!(i, Expression::Integer(n) if n.data.is_zero()) || matches!(i, Expression::Real(r) if r.data == 0.0)) {
                return Some(format!("neutral element in {}", e));
            }
            it.iter().find_map(shape)
        }
        Expression::Multiplication(s) => {
            let it = s.items();
            if it.len() < 2 {
                return Some(format!("product of {} items in {}", it.len(), e));
            }
            if it.iter().any(|i| matches!(i, Expression::Multiplication(_))) {
                return Some(format!("product inside a product in {}", e));
            }
            if it.iter().filter(|i| is_integer(i)).count() > 1 || it.iter().filter(|i| is_real(i)).count() > 1 {
                return Some(format!("uncollected numbers in {}", e));
            }
            if it.iter().any(|i| matches!(i, Expression::Integer(n) if n.data.is_zero() || n.data == B::one()) || matches!(i, Expression::Real(r) if r.data == 0.0 || r.data == 1.0)) {
                return Some(format!("neutral or absorbing element in {}", e));
            }
            it.iter().find_map(shape)
        }
        Expression::Power(p) => {
            let (b, x) = (p.argument(), p.modifier());
            if matches!(b, Expression::Power(_)) {
                return Some(format!("power of a power in {}", e));
            }
            if matches!(&x, Expression::Integer(n) if n.data.is_zero() || n.data == B::one()) || matches!(&x, Expression::Real(r) if r.data == 0.0 || r.data == 1.0) {
                return Some(format!("trivial exponent in {}", e));
            }
            if let (Expression::Integer(n), Expression::Integer(k)) = (&b, &x) {
                if k.data != -B::one() || n.data <= B::one() {
                    return Some(format!("unevaluated integer power {}", e));
                }
            }
            shape(&b).or_else(|| shape(&x))
        }
        Expression::Logarithm(p) => shape(&p.argument()).or_else(|| shape(&p.modifier())),
        _ => None,
    }
}
fn j_shape(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    if a[0].t.has_real() {
        return Skip("reals are not collected");
    }
    match shape(&a[0].e) {
        Some(m) => Fail(format!("{} builds {}: {}", a[0].t.pretty(), a[0].e, m)),
        None => Pass,
    }
}

fn j_triple_order(_: &Ctx, a: &[&St], param: &str) -> Verdict {
    if param == "inconsistent" {
        return match pair_order(&a[0].e, &key(&a[0].e), &a[1].e, &key(&a[1].e)) {
            Ok(_) => Skip("needs the whole matrix"),
            Err(m) => Fail(m),
        };
    }
    let (x, y, z) = (&a[0].e, &a[1].e, &a[2].e);
    if x.cmp(y) != O::Greater && y.cmp(z) != O::Greater && x.cmp(z) == O::Greater {
        return Fail(format!("{} <= {} <= {} but {} > {}", x, y, z, x, z));
    }
    Pass
}
/// The same sums and products with their operands supplied in the opposite
/// order expand and simplify to the same thing.
fn j_reordered(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let e = &a[0].e;
    let r = reversed(e);
    if r.to_string() != e.to_string() || !same_expr(&r, e) || hash_of(&r) != hash_of(e) {
        return Fail(format!("{} with its operands reversed is {}", e, r));
    }
    let pairs = [("expand", e.clone().expand(), r.clone().expand()), ("simplify", e.clone().simplify(), r.clone().simplify())];
    for (w, p, q) in pairs {
        if !same_expr(&p, &q) || p.to_string() != q.to_string() {
            return Fail(format!("{} of {} gives {} but {} with the operands reversed", w, e, p, q));
        }
    }
    Pass
}
fn j_int_power(_: &Ctx, a: &[&St], _: &str) -> Verdict {
    let (b, k) = match (as_int(a[0]), as_int(a[1])) {
        // 0, 1 and -1: only the sign and the parity of the exponent matter
        (Some(b), Some(k)) if b.bits() <= 1 && k.bits() > 10 => {
            let even = if num::Integer::is_even(&k) { 2 } else { 1 };
            (b, if k.is_negative() { -even } else { even })
        }
        (Some(b), Some(k)) => match num::ToPrimitive::to_i64(&k) {
            Some(k) => (b, k),
            None => return Skip("power bound"),
        },
        _ => return Skip("not integers"),
    };
    if b.is_zero() && k <= 0 {
        return Skip("zero to a non-positive power");
    }
    if b.bits() * k.unsigned_abs() > 20000 {
        return Skip("power bound");
    }
    let mut w = N::from(&B::one());
    for _ in 0..k.unsigned_abs() {
        w = w.mul(&N::from(&b));
    }
    let w = w.to();
    let want = if k >= 0 { Q::from_integer(w.clone()) } else { Q::new(B::one(), w.clone()) };
    let got = a[0].e.clone().pow(a[1].e.clone());
    if let Some(m) = canonical_fraction(&got, &want) {
        return Fail(format!("{} ^ {} builds {}: {}", b, k, got, m));
    }
    if b >= B::from(2) && k >= 1 {
        let l = Expression::logarithm(got.clone(), a[0].e.clone());
        if !matches!(&l, Expression::Integer(n) if n.data == B::from(k)) {
            return Fail(format!("log({}, {}) builds {} instead of {}", got, b, l, k));
        }
        // its neighbours are no powers of the base
        for d in [-1i64, 1] {
            let n = &w + B::from(d);
            if n > B::one() && !(b == B::from(2) && (n == B::from(2) || n == B::one())) {
                let l = Expression::logarithm(big(&n), a[0].e.clone());
                if matches!(l, Expression::Integer(_)) && is_not_power(&n, &b) {
                    return Fail(format!("log({}, {}) builds the integer {}", n, b, l));
                }
            }
        }
    }
    Pass
}
fn is_not_power(n: &B, b: &B) -> bool {
    let mut p = B::one();
    while &p < n {
        p = &p * b;
    }
    &p != n
}
/// the items of a reached sum or product
fn j_assoc_state(ctx: &Ctx, a: &[&St], _: &str) -> Verdict {
    match &a[0].e {
        Expression::Addition(c) | Expression::Multiplication(c) => {
            let items = c.items();
            let st: Vec<St> = items.iter().map(|e| St { e: e.clone(), t: a[0].t.clone(), evs: vec![], size: 1, xs: 1.0, strays: false }).collect();
            let refs: Vec<&St> = st.iter().collect();
            match j_assoc(ctx, &refs, "") {
                Pass => {}
                o => return o,
            }
            let again = CommutativeAssociation::new(items.clone());
            if &again != c || hash_of(&again) != hash_of(c) || again.cmp(c) != O::Equal {
                return Fail(format!("{} is not the association of its own items", a[0].e));
            }
            let mut shorter = items.clone();
            shorter.pop();
            if &CommutativeAssociation::new(shorter) == c {
                return Fail(format!("{} equals itself without its last item", a[0].e));
            }
            Pass
        }
        _ => Skip("not an association"),
    }
}
