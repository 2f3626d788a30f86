//! Operation terms: the history of public-API calls that built an expression.
//! Every explored state carries the term that produced it, so every
//! counterexample is a replayable sequence of real API calls.
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
    Log,
}
impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Add => "add",
            Op::Sub => "sub",
            Op::Mul => "mul",
            Op::Div => "div",
            Op::Pow => "pow",
            Op::Log => "log",
        }
    }
}
pub const ALL_OPS: [Op; 6] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow, Op::Log];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Neg,
    Expand,
    Simplify,
    Sin,
    Cos,
}
impl Un {
    pub fn name(self) -> &'static str {
        match self {
            Un::Neg => "neg",
            Un::Expand => "expand",
            Un::Simplify => "simplify",
            Un::Sin => "sin",
            Un::Cos => "cos",
        }
    }
}

#[derive(Clone, Debug)]
pub enum Term {
    Int(BigInt),
    Real(f64),
    Var(String),
    Bin(Op, Arc<Term>, Arc<Term>),
    Un(Un, Arc<Term>),
    Sum(Vec<Arc<Term>>),
    Prod(Vec<Arc<Term>>),
    /// a node put together without its constructor function
    Raw(Raw, Vec<Arc<Term>>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Raw {
    Sum,
    Prod,
    Pow,
    Log,
}
impl Raw {
    pub fn name(self) -> &'static str {
        match self {
            Raw::Sum => "rawsum",
            Raw::Prod => "rawprod",
            Raw::Pow => "rawpow",
            Raw::Log => "rawlog",
        }
    }
}

pub fn big(n: &BigInt) -> Expression {
    Expression::Integer(Symbol { data: n.clone() })
}

pub fn apply_bin(op: Op, a: Expression, b: Expression) -> Expression {
    match op {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        Op::Pow => a.pow(b),
        Op::Log => a.log(b),
    }
}
pub fn apply_un(un: Un, a: Expression) -> Expression {
    match un {
        Un::Neg => -a,
        Un::Expand => a.expand(),
        Un::Simplify => a.simplify(),
        Un::Sin => Expression::Sine(Operation::new(a)),
        Un::Cos => Expression::Cossine(Operation::new(a)),
    }
}

impl Term {
    /// Replays the term through the public API.
    pub fn build(&self) -> Expression {
        match self {
            Term::Int(n) => big(n),
            Term::Real(r) => Symbol::real(*r).expr(),
            Term::Var(v) => Symbol::variable(v).expr(),
            Term::Bin(op, a, b) => apply_bin(*op, a.build(), b.build()),
            Term::Un(un, a) => apply_un(*un, a.build()),
            Term::Sum(v) => Expression::addition(v.iter().map(|t| t.build()).collect()),
            Term::Prod(v) => Expression::multiplication(v.iter().map(|t| t.build()).collect()),
            Term::Raw(k, v) => {
                let mut e: Vec<Expression> = v.iter().map(|t| t.build()).collect();
                match k {
                    Raw::Sum => Expression::Addition(CommutativeAssociation::new(e)),
                    Raw::Prod => Expression::Multiplication(CommutativeAssociation::new(e)),
                    Raw::Pow | Raw::Log => {
                        let o = AssociativeOperation::new(e.remove(0), e.remove(0));
                        if *k == Raw::Pow {
                            Expression::Power(o)
                        } else {
                            Expression::Logarithm(o)
                        }
                    }
                }
            }
        }
    }
    /// value in plain double arithmetic
    pub fn approx(&self, p: &crate::eval::Point) -> f64 {
        let pow = |a: f64, b: f64| if b.fract() == 0.0 && b.abs() < 1e9 { a.powi(b as i32) } else { a.powf(b) };
        match self {
            Term::Int(n) => num::ToPrimitive::to_f64(n).unwrap_or(f64::NAN),
            Term::Real(r) => *r,
            Term::Var(v) => p.iter().find(|(n, _)| n == v).map_or(f64::NAN, |x| crate::eval::qf(&x.1)),
            Term::Bin(op, a, b) => {
                let (a, b) = (a.approx(p), b.approx(p));
                match op {
                    Op::Add => a + b,
                    Op::Sub => a - b,
                    Op::Mul => a * b,
                    Op::Div => a / b,
                    Op::Pow => pow(a, b),
                    Op::Log => a.ln() / b.ln(),
                }
            }
            Term::Un(Un::Neg, a) => -a.approx(p),
            Term::Un(Un::Sin, a) => a.approx(p).sin(),
            Term::Un(Un::Cos, a) => a.approx(p).cos(),
            Term::Un(Un::Expand | Un::Simplify, a) => a.approx(p),
            Term::Sum(v) | Term::Raw(Raw::Sum, v) => v.iter().map(|t| t.approx(p)).sum(),
            Term::Prod(v) | Term::Raw(Raw::Prod, v) => v.iter().map(|t| t.approx(p)).product(),
            Term::Raw(Raw::Pow, v) => pow(v[0].approx(p), v[1].approx(p)),
            Term::Raw(Raw::Log, v) => v[0].approx(p).ln() / v[1].approx(p).ln(),
        }
    }
    pub fn has_real(&self) -> bool {
        match self {
            Term::Int(_) | Term::Var(_) => false,
            Term::Real(_) => true,
            Term::Bin(_, a, b) => a.has_real() || b.has_real(),
            Term::Un(_, a) => a.has_real(),
            Term::Sum(v) | Term::Prod(v) | Term::Raw(_, v) => v.iter().any(|t| t.has_real()),
        }
    }
    pub fn sexp(&self) -> String {
        match self {
            Term::Int(n) => format!("(int {})", n),
            Term::Real(r) => format!("(real {:?})", r),
            Term::Var(v) => format!("(var {})", if v.is_empty() { "<empty>" } else { v }),
            Term::Bin(op, a, b) => format!("({} {} {})", op.name(), a.sexp(), b.sexp()),
            Term::Un(u, a) => format!("({} {})", u.name(), a.sexp()),
            Term::Sum(v) => format!("(sum{})", v.iter().map(|t| format!(" {}", t.sexp())).collect::<String>()),
            Term::Prod(v) => format!("(prod{})", v.iter().map(|t| format!(" {}", t.sexp())).collect::<String>()),
            Term::Raw(k, v) => format!("({}{})", k.name(), v.iter().map(|t| format!(" {}", t.sexp())).collect::<String>()),
        }
    }
    /// Human-readable form used in messages.
    pub fn pretty(&self) -> String {
        match self {
            Term::Int(n) => format!("{}", n),
            Term::Real(r) => format!("{:?}", r),
            Term::Var(v) => v.clone(),
            Term::Bin(op, a, b) => match op {
                Op::Add => format!("({} + {})", a.pretty(), b.pretty()),
                Op::Sub => format!("({} - {})", a.pretty(), b.pretty()),
                Op::Mul => format!("({} * {})", a.pretty(), b.pretty()),
                Op::Div => format!("({} / {})", a.pretty(), b.pretty()),
                Op::Pow => format!("pow({}, {})", a.pretty(), b.pretty()),
                Op::Log => format!("log({}, {})", a.pretty(), b.pretty()),
            },
            Term::Un(u, a) => match u {
                Un::Neg => format!("(-{})", a.pretty()),
                u => format!("{}({})", u.name(), a.pretty()),
            },
            Term::Sum(v) => format!("sum[{}]", v.iter().map(|t| t.pretty()).collect::<Vec<_>>().join(", ")),
            Term::Prod(v) => format!("prod[{}]", v.iter().map(|t| t.pretty()).collect::<Vec<_>>().join(", ")),
            Term::Raw(k, v) => format!("{}[{}]", k.name(), v.iter().map(|t| t.pretty()).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn parse(s: &str) -> Result<Term, String> {
        let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(String::from).collect();
        let mut pos = 0;
        let t = parse_at(&toks, &mut pos)?;
        if pos != toks.len() {
            return Err("trailing tokens".into());
        }
        Ok(t)
    }
}

fn parse_at(toks: &[String], pos: &mut usize) -> Result<Term, String> {
    let expect = |pos: &mut usize, t: &str| -> Result<(), String> {
        if toks.get(*pos).map(|s| s == t).unwrap_or(false) {
            *pos += 1;
            Ok(())
        } else {
            Err(format!("expected {} at {}", t, *pos))
        }
    };
    expect(pos, "(")?;
    let head = toks.get(*pos).ok_or("eof")?.clone();
    *pos += 1;
    let atom = |pos: &mut usize| -> Result<String, String> {
        let a = toks.get(*pos).ok_or("eof")?.clone();
        *pos += 1;
        Ok(a)
    };
    let t = match head.as_str() {
        "int" => Term::Int(atom(pos)?.parse().map_err(|_| "bad int".to_string())?),
        "real" => Term::Real(atom(pos)?.parse().map_err(|_| "bad real".to_string())?),
        "var" => Term::Var(match atom(pos)?.as_str() {
            "<empty>" => String::new(),
            v => v.to_string(),
        }),
        "sum" | "prod" | "rawsum" | "rawprod" | "rawpow" | "rawlog" => {
            let mut v = vec![];
            while toks.get(*pos).map(|s| s == "(").unwrap_or(false) {
                v.push(Arc::new(parse_at(toks, pos)?));
            }
            match head.as_str() {
                "sum" => Term::Sum(v),
                "prod" => Term::Prod(v),
                "rawsum" => Term::Raw(Raw::Sum, v),
                "rawprod" => Term::Raw(Raw::Prod, v),
                "rawpow" => Term::Raw(Raw::Pow, v),
                _ => Term::Raw(Raw::Log, v),
            }
        }
        h => {
            if let Some(op) = ALL_OPS.iter().find(|o| o.name() == h) {
                let a = parse_at(toks, pos)?;
                let b = parse_at(toks, pos)?;
                Term::Bin(*op, Arc::new(a), Arc::new(b))
            } else if let Some(u) = [Un::Neg, Un::Expand, Un::Simplify, Un::Sin, Un::Cos].iter().find(|u| u.name() == h) {
                Term::Un(*u, Arc::new(parse_at(toks, pos)?))
            } else {
                return Err(format!("unknown head {}", h));
            }
        }
    };
    expect(pos, ")")?;
    Ok(t)
}

/// Canonical serialisation of an expression's observable structure, written by
/// the harness (it does not use the code's own Eq, Ord, Hash or Display).
/// Children of sums and products are put in the order of their own
/// serialisation: the property of `==` being order-free is C05/C06's business.
pub fn key(e: &Expression) -> String {
    let mut s = String::new();
    key_into(e, &mut s, false);
    s
}
/// The same, telling 0.0 from -0.0: they are equal, but not the same state.
pub fn state_key(e: &Expression) -> String {
    let mut s = String::new();
    key_into(e, &mut s, true);
    s
}
fn key_into(e: &Expression, s: &mut String, signed: bool) {
    use std::fmt::Write;
    match e {
        Expression::Integer(n) => write!(s, "i{}", n.data).unwrap(),
        Expression::Real(r) => {
            if r.data == 0.0 && !(signed && r.data.is_sign_negative()) {
                s.push_str("r0")
            } else {
                write!(s, "r{:?}", r.data).unwrap()
            }
        }
        Expression::Variable(v) => write!(s, "v{}", v.data).unwrap(),
        Expression::Addition(a) => assoc_key(a.items(), 'A', s, signed),
        Expression::Multiplication(m) => assoc_key(m.items(), 'M', s, signed),
        Expression::Power(p) => {
            s.push_str("P(");
            key_into(&p.argument(), s, signed);
            s.push(',');
            key_into(&p.modifier(), s, signed);
            s.push(')');
        }
        Expression::Logarithm(p) => {
            s.push_str("L(");
            key_into(&p.argument(), s, signed);
            s.push(',');
            key_into(&p.modifier(), s, signed);
            s.push(')');
        }
        Expression::Sine(o) => {
            s.push_str("S(");
            key_into(&o.argument(), s, signed);
            s.push(')');
        }
        Expression::Cossine(o) => {
            s.push_str("C(");
            key_into(&o.argument(), s, signed);
            s.push(')');
        }
    }
}
fn assoc_key(items: Vec<Expression>, tag: char, s: &mut String, signed: bool) {
    let f: fn(&Expression) -> String = if signed { state_key } else { key };
    let mut ks: Vec<String> = items.iter().map(f).collect();
    ks.sort();
    s.push(tag);
    s.push('[');
    for (i, k) in ks.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(k);
    }
    s.push(']');
}

/// Number of nodes, used to bound the space.
pub fn nodes(e: &Expression) -> usize {
    match e {
        Expression::Integer(_) | Expression::Real(_) | Expression::Variable(_) => 1,
        Expression::Addition(a) | Expression::Multiplication(a) => 1 + a.items().iter().map(nodes).sum::<usize>(),
        Expression::Power(p) | Expression::Logarithm(p) => 1 + nodes(&p.argument()) + nodes(&p.modifier()),
        Expression::Sine(o) | Expression::Cossine(o) => 1 + nodes(&o.argument()),
    }
}

/// Upper estimate of the number of summands a full distribution of `e` creates
/// (saturating); used only to keep the explored space within its size bound.
pub fn expansion_size(e: &Expression) -> f64 {
    match e {
        Expression::Integer(_) | Expression::Real(_) | Expression::Variable(_) => 1.0,
        Expression::Addition(a) => a.items().iter().map(expansion_size).sum(),
        Expression::Multiplication(a) => a.items().iter().map(expansion_size).product(),
        Expression::Power(p) => {
            let b = expansion_size(&p.argument());
            let ex = p.modifier();
            let n = max_int(&ex);
            let eb = expansion_size(&ex);
            if b > 1.0 {
                b.powf(n.max(1.0)) * eb
            } else {
                eb
            }
        }
        Expression::Logarithm(p) => expansion_size(&p.argument()) + expansion_size(&p.modifier()),
        Expression::Sine(o) | Expression::Cossine(o) => expansion_size(&o.argument()),
    }
}
/// Product of the absolute values of the integers in an exponent.
pub fn max_int(e: &Expression) -> f64 {
    use num::ToPrimitive;
    match e {
        Expression::Integer(n) => n.data.to_f64().unwrap_or(1e300).abs().max(1.0),
        Expression::Addition(a) => a.items().iter().map(max_int).sum(),
        Expression::Multiplication(a) => a.items().iter().map(max_int).product(),
        Expression::Power(p) => max_int(&p.argument()).powf(max_int(&p.modifier())),
        Expression::Logarithm(p) => max_int(&p.argument()),
        _ => 1.0,
    }
}

/// Largest bit length of an integer appearing in `e`.
pub fn int_bits(e: &Expression) -> f64 {
    match e {
        Expression::Integer(n) => n.data.bits() as f64,
        Expression::Real(_) | Expression::Variable(_) => 1.0,
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().map(int_bits).fold(1.0, f64::max),
        Expression::Power(p) | Expression::Logarithm(p) => int_bits(&p.argument()).max(int_bits(&p.modifier())),
        Expression::Sine(o) | Expression::Cossine(o) => int_bits(&o.argument()),
    }
}
