//! Reference normal form: sums of monomials with rational coefficients, where a
//! monomial is a product of powers of atoms. An atom is a variable or a
//! logarithm of such sums; an exponent is a polynomial.
use crate::poly::{self, Poly};
use crate::term::*;
use ncas::base::expression::Expression;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Atom {
    Var(String),
    Log(Box<GPoly>, Box<GPoly>),
}
pub type Mono = BTreeMap<Atom, Poly>;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct GPoly(pub BTreeMap<Mono, BigRational>);

fn one() -> Poly {
    Poly::constant(BigRational::one())
}
fn times(a: &Mono, b: &Mono) -> Mono {
    let mut m = a.clone();
    for (v, e) in b {
        let s = m.get(v).cloned().unwrap_or_else(Poly::zero).add(e);
        if s.0.is_empty() {
            m.remove(v);
        } else {
            m.insert(v.clone(), s);
        }
    }
    m
}
impl GPoly {
    fn zero() -> GPoly {
        GPoly(BTreeMap::new())
    }
    fn single(m: Mono, c: BigRational) -> GPoly {
        let mut p = GPoly::zero();
        if !c.is_zero() {
            p.0.insert(m, c);
        }
        p
    }
    fn constant(c: BigRational) -> GPoly {
        GPoly::single(Mono::new(), c)
    }
    fn atom(a: Atom) -> GPoly {
        GPoly::single([(a, one())].into_iter().collect(), BigRational::one())
    }
    fn add(&self, o: &GPoly) -> GPoly {
        let mut r = self.0.clone();
        for (m, c) in &o.0 {
            *r.entry(m.clone()).or_insert_with(BigRational::zero) += c;
        }
        r.retain(|_, c| !c.is_zero());
        GPoly(r)
    }
    fn mul(&self, o: &GPoly) -> Option<GPoly> {
        let mut r: BTreeMap<Mono, BigRational> = BTreeMap::new();
        for (m1, c1) in &self.0 {
            for (m2, c2) in &o.0 {
                *r.entry(times(m1, m2)).or_insert_with(BigRational::zero) += c1 * c2;
            }
        }
        r.retain(|_, c| !c.is_zero());
        if r.len() > 400 {
            return None;
        }
        Some(GPoly(r))
    }
    pub fn minus(&self, o: &GPoly) -> GPoly {
        self.add(&GPoly(o.0.iter().map(|(m, c)| (m.clone(), -c)).collect()))
    }
    fn one_term(&self) -> Option<(&Mono, &BigRational)> {
        if self.0.len() == 1 {
            self.0.iter().next()
        } else {
            None
        }
    }
    pub fn as_const(&self) -> Option<BigRational> {
        if self.0.is_empty() {
            return Some(BigRational::zero());
        }
        let (m, c) = self.one_term()?;
        if m.is_empty() {
            Some(c.clone())
        } else {
            None
        }
    }
    /// as an exponent: variables to whole powers only
    fn as_poly(&self) -> Option<Poly> {
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            let mut t = Poly::constant(c.clone());
            for (a, e) in m {
                let n = e.as_const()?;
                if !n.is_integer() || !n.is_positive() {
                    return None;
                }
                match a {
                    Atom::Var(v) => {
                        for _ in 0..n.numer().to_u32().filter(|n| *n < 20)? {
                            t = t.mul(&Poly::var(v));
                        }
                    }
                    _ => return None,
                }
            }
            r = r.add(&t);
        }
        Some(r)
    }
    fn power(&self, x: &GPoly) -> Option<GPoly> {
        let e = x.as_poly()?;
        let n = e.as_const().filter(|c| c.is_integer());
        if let Some((m, c)) = self.one_term() {
            // whole exponents distribute over all factors; others stay on one atom
            if n.is_none() && !(c.is_one() && m.len() == 1) {
                return None;
            }
            let c = if c.is_one() { c.clone() } else { power(c, n?.numer().to_i64()?)? };
            let m: Mono = m.iter().map(|(a, k)| (a.clone(), k.mul(&e))).filter(|(_, k)| !k.0.is_empty()).collect();
            return Some(GPoly::single(m, c));
        }
        if self.0.is_empty() {
            return n.filter(|n| n.is_positive()).map(|_| GPoly::zero());
        }
        let n = n?.numer().to_u32().filter(|n| *n <= 12)?;
        let mut r = GPoly::constant(BigRational::one());
        for _ in 0..n {
            r = r.mul(self)?;
        }
        Some(r)
    }
    fn log(&self, base: &GPoly) -> Option<GPoly> {
        // numbers to a number, and powers of the base, are not logarithms
        if self.as_const().is_some() || base.0.is_empty() {
            return None;
        }
        if let (Some((m, c)), Some((k, d))) = (self.one_term(), base.one_term()) {
            if c.is_one() && d.is_one() && m.len() == 1 && k.len() == 1 && m.keys().next() == k.keys().next() {
                return None;
            }
        }
        Some(GPoly::atom(Atom::Log(Box::new(self.clone()), Box::new(base.clone()))))
    }
    pub fn is_plain(&self) -> bool {
        self.0.keys().all(|m| m.iter().all(|(a, e)| matches!(a, Atom::Var(_)) && e.as_const().map_or(false, |c| c.is_integer() && c.is_positive())))
    }
    pub fn show(&self) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        let f = |(m, c): (&Mono, &BigRational)| {
            let fs: Vec<String> = m
                .iter()
                .map(|(a, e)| match a {
                    Atom::Var(v) => format!("{}^({})", v, poly::show(e)),
                    Atom::Log(x, b) => format!("log({}, {})^({})", x.show(), b.show(), poly::show(e)),
                })
                .collect();
            format!("{}*{}", c, fs.join("*"))
        };
        self.0.iter().map(f).collect::<Vec<_>>().join(" + ")
    }
}
fn power(c: &BigRational, n: i64) -> Option<BigRational> {
    if n.unsigned_abs() > 64 || (c.is_zero() && n <= 0) {
        return None;
    }
    let r = num::pow(c.clone(), n.unsigned_abs() as usize);
    Some(if n < 0 { r.recip() } else { r })
}

fn whole(e: &GPoly) -> bool {
    e.as_const().map_or(false, |c| c.is_integer())
}

/// What a structure denotes, if it is built of these.
pub fn of_expr(e: &Expression) -> Option<GPoly> {
    match e {
        Expression::Integer(n) => Some(GPoly::constant(BigRational::from_integer(n.data.clone()))),
        Expression::Variable(v) => Some(GPoly::atom(Atom::Var(v.data.clone()))),
        Expression::Addition(a) => a.items().iter().try_fold(GPoly::zero(), |r, i| Some(r.add(&of_expr(i)?))),
        Expression::Multiplication(a) => a.items().iter().try_fold(GPoly::constant(BigRational::one()), |r, i| r.mul(&of_expr(i)?)),
        Expression::Power(p) => of_expr(&p.argument())?.power(&of_expr(&p.modifier())?),
        Expression::Logarithm(l) => of_expr(&l.argument())?.log(&of_expr(&l.modifier())?),
        _ => None,
    }
}

/// What an API history denotes.
pub fn of_term(t: &Term) -> Option<GPoly> {
    match t {
        Term::Int(n) => Some(GPoly::constant(BigRational::from_integer(n.clone()))),
        Term::Real(_) | Term::Raw(..) => None,
        Term::Var(v) => Some(GPoly::atom(Atom::Var(v.clone()))),
        Term::Bin(op, a, b) => {
            let (x, y) = (of_term(a)?, of_term(b)?);
            match op {
                Op::Add => Some(x.add(&y)),
                Op::Sub => Some(x.minus(&y)),
                Op::Mul => x.mul(&y),
                Op::Div => {
                    let (m, c) = y.one_term()?;
                    let minus = Poly::constant(-BigRational::one());
                    let inverse = m.iter().map(|(a, e)| (a.clone(), e.mul(&minus))).collect();
                    x.mul(&GPoly::single(inverse, c.recip()))
                }
                // an exponent that is not whole stands on a single base as built
                Op::Pow => match (whole(&y), a.build()) {
                    (true, _) | (_, Expression::Variable(_)) | (_, Expression::Power(_)) | (_, Expression::Logarithm(_)) => x.power(&y),
                    _ => None,
                },
                Op::Log => x.log(&y),
            }
        }
        Term::Un(u, a) => match u {
            Un::Neg => of_term(a)?.mul(&GPoly::constant(-BigRational::one())),
            Un::Expand | Un::Simplify => of_term(a),
            _ => None,
        },
        Term::Sum(v) => v.iter().try_fold(GPoly::zero(), |r, t| Some(r.add(&of_term(t)?))),
        Term::Prod(v) => v.iter().try_fold(GPoly::constant(BigRational::one()), |r, t| r.mul(&of_term(t)?)),
    }
}

fn poly_term(p: &Poly) -> std::sync::Arc<Term> {
    crate::judges::reference_term(p)
}
/// The same written by the harness: a sum of coefficient * product of powers.
pub fn reference_term(p: &GPoly) -> std::sync::Arc<Term> {
    use std::sync::Arc;
    let ss = p
        .0
        .iter()
        .map(|(m, c)| {
            let mut f = vec![Arc::new(Term::Bin(Op::Div, Arc::new(Term::Int(c.numer().clone())), Arc::new(Term::Int(c.denom().clone()))))];
            for (a, e) in m {
                let a = match a {
                    Atom::Var(v) => Arc::new(Term::Var(v.clone())),
                    Atom::Log(x, b) => Arc::new(Term::Bin(Op::Log, reference_term(x), reference_term(b))),
                };
                f.push(Arc::new(Term::Bin(Op::Pow, a, poly_term(e))));
            }
            Arc::new(Term::Prod(f))
        })
        .collect();
    Arc::new(Term::Sum(ss))
}
