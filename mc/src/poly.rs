//! Reference normal form: polynomials with rational coefficients, as a map from
//! monomials to coefficients.
use crate::term::*;
use ncas::base::expression::Expression;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

pub type Mono = BTreeMap<String, u32>;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Mono, BigRational>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(BTreeMap::new())
    }
    pub fn constant(c: BigRational) -> Poly {
        let mut p = Poly::zero();
        if !c.is_zero() {
            p.0.insert(Mono::new(), c);
        }
        p
    }
    pub fn var(v: &str) -> Poly {
        let mut m = Mono::new();
        m.insert(v.to_string(), 1);
        let mut p = Poly::zero();
        p.0.insert(m, BigRational::one());
        p
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.0.clone();
        for (m, c) in &o.0 {
            let e = r.entry(m.clone()).or_insert_with(BigRational::zero);
            *e += c;
        }
        r.retain(|_, c| !c.is_zero());
        Poly(r)
    }
    pub fn scale(&self, k: &BigRational) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m1, c1) in &self.0 {
            let mut part = BTreeMap::new();
            for (m2, c2) in &o.0 {
                let mut m = m1.clone();
                for (v, e) in m2 {
                    *m.entry(v.clone()).or_insert(0) += e;
                }
                part.insert(m, c1 * c2);
            }
            r = r.add(&Poly(part));
        }
        r
    }
    /// Inside the bound on what an API history may denote; what the structure
    /// under test denotes is worked out well beyond it.
    fn bounded(self) -> Option<Poly> {
        let d = self.0.keys().map(|m| m.values().sum::<u32>()).max().unwrap_or(0);
        if self.0.len() > 1 && (d > 24 || self.0.len() > 1000) {
            return None;
        }
        Some(self)
    }
    pub fn as_const(&self) -> Option<BigRational> {
        if self.0.is_empty() {
            return Some(BigRational::zero());
        }
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.is_empty() {
                return Some(c.clone());
            }
        }
        None
    }
    fn pow(&self, n: u64) -> Option<Poly> {
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if n > 1000 {
                return None;
            }
            let m = m.iter().map(|(v, e)| (v.clone(), e * n as u32)).filter(|(_, e)| *e > 0).collect();
            return Some(Poly([(m, num::pow(c.clone(), n as usize))].into_iter().collect()));
        }
        if n > 100 {
            return None;
        }
        let mut r = Poly::constant(BigRational::one());
        for _ in 0..n {
            r = r.mul(self);
            if r.0.len() > 4000 {
                return None;
            }
        }
        Some(r)
    }
}

/// The polynomial a structure denotes, if it is built with +, *, nonnegative
/// integer powers and division by numbers.
pub fn of_expr(e: &Expression) -> Option<Poly> {
    match e {
        Expression::Integer(n) => Some(Poly::constant(BigRational::from_integer(n.data.clone()))),
        Expression::Variable(v) => Some(Poly::var(&v.data)),
        Expression::Addition(a) => {
            let mut r = Poly::zero();
            for i in a.items() {
                r = r.add(&of_expr(&i)?);
            }
            Some(r)
        }
        Expression::Multiplication(a) => {
            let mut r = Poly::constant(BigRational::one());
            for i in a.items() {
                r = r.mul(&of_expr(&i)?);
            }
            Some(r)
        }
        Expression::Power(p) => {
            let b = of_expr(&p.argument())?;
            let x = of_expr(&p.modifier())?.as_const()?;
            power(&b, &x)
        }
        _ => None,
    }
}
fn power(b: &Poly, x: &BigRational) -> Option<Poly> {
    if !x.is_integer() {
        return None;
    }
    if let Some(c) = b.as_const() {
        let n = x.numer().to_i64()?;
        if c.is_zero() && n <= 0 {
            return None;
        }
        if n.unsigned_abs() > 64 {
            return None;
        }
        let mut r = BigRational::one();
        for _ in 0..n.unsigned_abs() {
            r *= &c;
        }
        return Some(Poly::constant(if n < 0 { r.recip() } else { r }));
    }
    if x.is_negative() {
        return None;
    }
    b.pow(x.numer().to_u64()?)
}

/// The polynomial an API history denotes mathematically.
pub fn of_term(t: &Term) -> Option<Poly> {
    of_term_any(t)?.bounded()
}
fn of_term_any(t: &Term) -> Option<Poly> {
    match t {
        Term::Int(n) => Some(Poly::constant(BigRational::from_integer(n.clone()))),
        Term::Real(_) => None,
        Term::Var(v) => Some(Poly::var(v)),
        Term::Bin(op, a, b) => {
            let (x, y) = (of_term(a)?, of_term(b)?);
            match op {
                Op::Add => Some(x.add(&y)),
                Op::Sub => Some(x.add(&y.scale(&-BigRational::one()))),
                Op::Mul => Some(x.mul(&y)),
                Op::Div => {
                    let c = y.as_const()?;
                    if c.is_zero() {
                        return None;
                    }
                    Some(x.scale(&c.recip()))
                }
                // an exponent that is an integer as it stands
                Op::Pow => match b.build() {
                    Expression::Integer(_) => power(&x, &y.as_const()?),
                    _ => None,
                },
                Op::Log => None,
            }
        }
        Term::Un(u, a) => match u {
            Un::Neg => Some(of_term(a)?.scale(&-BigRational::one())),
            Un::Expand | Un::Simplify => of_term(a),
            _ => None,
        },
        Term::Sum(v) => {
            let mut r = Poly::zero();
            for t in v {
                r = r.add(&of_term(t)?);
            }
            Some(r)
        }
        Term::Raw(..) => None,
        Term::Prod(v) => {
            let mut r = Poly::constant(BigRational::one());
            for t in v {
                r = r.mul(&of_term(t)?).bounded()?;
            }
            Some(r)
        }
    }
}

pub fn show(p: &Poly) -> String {
    if p.0.is_empty() {
        return "0".into();
    }
    p.0.iter()
        .map(|(m, c)| {
            let ms: Vec<String> = m.iter().map(|(v, e)| format!("{}^{}", v, e)).collect();
            format!("{}*{}", c, ms.join("*"))
        })
        .collect::<Vec<_>>()
        .join(" + ")
}
