//! Reference semantics: the mathematical value of an expression at a point.
//!
//! Exact rational arithmetic wherever the value is rational; otherwise an
//! approximation carrying the magnitude of everything it was computed from, so
//! that a comparison knows how much rounding it must tolerate.
//!
//! `ev` returns None where the value is undefined, or where the usual laws of
//! exponents do not hold (see DESIGN.md, "Domain"), or where it exceeds the
//! size bound: such a point says nothing about the transition.
use ncas::base::expression::Expression;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};

#[derive(Clone, Debug)]
pub enum V {
    Q(BigRational),
    F(f64),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub v: V,
    /// some rounding happened (or a floating-point leaf was used)
    pub approx: bool,
    /// largest magnitude met on the way
    pub scale: f64,
    /// the value and each of its multiplicative parts are positive
    pub allpos: bool,
    /// the value is an integer, and so is each part it is built from
    pub allint: bool,
}

pub const MAX_BITS: u64 = 6000;

pub type Point = Vec<(String, BigRational)>;

pub fn q(n: i64, d: i64) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}

/// ratio of big integers as f64, robust to huge terms
pub fn qf(x: &BigRational) -> f64 {
    let (n, d) = (x.numer(), x.denom());
    let (nb, db) = (n.bits() as i64, d.bits() as i64);
    if nb < 1000 && db < 1000 {
        return n.to_f64().unwrap_or(f64::NAN) / d.to_f64().unwrap_or(f64::NAN);
    }
    let sn = (nb - 900).max(0) as usize;
    let sd = (db - 900).max(0) as usize;
    let nf = (n.clone() >> sn).to_f64().unwrap_or(f64::NAN);
    let df = (d.clone() >> sd).to_f64().unwrap_or(f64::NAN);
    (nf / df) * 2f64.powi((sn as i64 - sd as i64) as i32)
}

impl V {
    pub fn f(&self) -> f64 {
        match self {
            V::Q(x) => qf(x),
            V::F(f) => *f,
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            V::Q(x) => x.is_zero(),
            V::F(f) => *f == 0.0,
        }
    }
    fn positive(&self) -> bool {
        match self {
            V::Q(x) => x.is_positive(),
            V::F(f) => *f > 0.0,
        }
    }
}

impl Ev {
    pub fn exact(x: BigRational) -> Ev {
        let allpos = x.is_positive();
        let allint = x.is_integer();
        let scale = qf(&x).abs();
        Ev { v: V::Q(x), approx: false, scale, allpos, allint }
    }
    fn sane(self) -> Option<Ev> {
        match &self.v {
            V::Q(x) => {
                if x.numer().bits() > MAX_BITS || x.denom().bits() > MAX_BITS {
                    return None;
                }
                if self.approx {
                    let f = qf(x);
                    if !f.is_finite() || f.abs() > 1e200 {
                        return None;
                    }
                }
            }
            V::F(f) => {
                if !f.is_finite() || f.abs() > 1e200 {
                    return None;
                }
            }
        }
        if self.approx && !(self.scale < 1e200) {
            return None;
        }
        Some(self)
    }
    /// an approximate value whose sign/zeroness cannot be trusted
    fn murky(&self) -> bool {
        self.approx && self.v.f().abs() < 1e-4 * self.scale.max(1e-300)
    }
    /// sign of the value: None if it cannot be told
    pub fn sign(&self) -> Option<i32> {
        match &self.v {
            V::Q(x) if !self.approx => Some(if x.is_zero() {
                0
            } else if x.is_positive() {
                1
            } else {
                -1
            }),
            _ => {
                if self.murky() {
                    None
                } else {
                    Some(if self.v.f() > 0.0 { 1 } else { -1 })
                }
            }
        }
    }
}

/// Do two evaluations denote the same number (as far as they can tell)?
pub fn same(a: &Ev, b: &Ev) -> bool {
    if let (V::Q(x), V::Q(y)) = (&a.v, &b.v) {
        if !a.approx && !b.approx {
            return x == y;
        }
    }
    let (x, y) = (a.v.f(), b.v.f());
    let scale = a.scale.max(b.scale).max(x.abs()).max(y.abs());
    (x - y).abs() <= 1e-9 * scale + 1e-300
}

pub fn add(a: &Ev, b: &Ev) -> Option<Ev> {
    let v = match (&a.v, &b.v) {
        (V::Q(x), V::Q(y)) => V::Q(x + y),
        _ => V::F(a.v.f() + b.v.f()),
    };
    let f = v.f().abs();
    let approx = a.approx || b.approx;
    let allpos = a.allpos && b.allpos;
    Ev { approx, scale: a.scale.max(b.scale).max(f), allpos, allint: a.allint && b.allint, v }.sane()
}
pub fn mul(a: &Ev, b: &Ev) -> Option<Ev> {
    let v = match (&a.v, &b.v) {
        (V::Q(x), V::Q(y)) => V::Q(x * y),
        _ => V::F(a.v.f() * b.v.f()),
    };
    let approx = a.approx || b.approx;
    let scale = v.f().abs().max(a.scale * b.scale.max(1e-300));
    Ev { approx, scale, allpos: a.allpos && b.allpos, allint: a.allint && b.allint, v }.sane()
}
pub fn neg(a: &Ev) -> Ev {
    let v = match &a.v {
        V::Q(x) => V::Q(-x.clone()),
        V::F(f) => V::F(-f),
    };
    Ev { v, approx: a.approx, scale: a.scale, allpos: false, allint: a.allint }
}

fn qpow(x: &BigRational, n: i64) -> Option<BigRational> {
    let m = n.unsigned_abs();
    let bits = x.numer().bits().max(x.denom().bits());
    // 1 and -1 never grow
    let unit = x.numer().abs().is_one() && x.denom().is_one();
    if unit {
        return Some(if x.is_negative() && m % 2 == 1 { x.clone() } else { BigRational::one() });
    }
    if bits.saturating_mul(m) > MAX_BITS {
        return None;
    }
    let mut r = BigRational::one();
    let mut b = x.clone();
    let mut k = m;
    while k > 0 {
        if k & 1 == 1 {
            r = &r * &b;
        }
        k >>= 1;
        if k > 0 {
            b = &b * &b;
        }
    }
    if n < 0 {
        r = r.recip();
    }
    Some(r)
}

fn as_small_int(e: &Ev) -> Option<i64> {
    if let V::Q(x) = &e.v {
        if x.is_integer() {
            return x.numer().to_i64();
        }
    }
    None
}

/// base ^ exponent.  `lenient`: used on the result side, where any real value
/// counts; strict: used on the operand side, restricts to the domain on which
/// the laws of exponents hold.
pub fn pow(b: &Ev, e: &Ev, exp_is_pos_int_literal: bool, lenient: bool) -> Option<Ev> {
    if b.v.is_zero() && !b.approx {
        let pos = match as_small_int(e) {
            Some(n) => n > 0,
            None => false,
        };
        if (exp_is_pos_int_literal || lenient) && pos {
            return Some(Ev::exact(BigRational::zero()));
        }
        return None;
    }
    if b.murky() {
        return None;
    }
    let int_exp = as_small_int(e);
    if !b.allpos {
        let ok = e.allint || (lenient && (int_exp.is_some() || b.v.positive()));
        if !ok {
            return None;
        }
        int_exp?;
    }
    // exact?
    if let (V::Q(x), Some(n)) = (&b.v, int_exp) {
        let r = qpow(x, n)?;
        let f = qf(&r).abs();
        let approx = b.approx || e.approx;
        let allint = b.allint && e.allint && n >= 0;
        let allpos = b.allpos;
        let rel = if approx { (b.scale / qf(x).abs()).max(1.0).powf((n.abs() as f64).min(60.0)) } else { 1.0 };
        return Ev { v: V::Q(r), approx, scale: f * rel, allpos, allint }.sane();
    }
    let bf = b.v.f();
    let ef = e.v.f();
    let r = if let Some(n) = int_exp {
        if n.abs() > 1_000_000 {
            return None;
        }
        bf.powi(n as i32)
    } else {
        if bf <= 0.0 {
            return None;
        }
        bf.powf(ef)
    };
    if r == 0.0 || r.abs() < 1e-200 {
        return None;
    }
    // error amplification of the exponent's and base's uncertainty
    let amp = 1.0 + (e.scale * bf.abs().ln().abs()).max(1.0) + ef.abs() * (b.scale / bf.abs()).max(1.0);
    if amp > 1e4 {
        return None;
    }
    Ev { v: V::F(r), approx: true, scale: r.abs() * amp, allpos: r > 0.0 && b.allpos, allint: false }.sane()
}

pub fn div(a: &Ev, b: &Ev) -> Option<Ev> {
    if b.v.is_zero() || b.murky() {
        return None;
    }
    let inv = match &b.v {
        V::Q(x) => V::Q(x.recip()),
        V::F(f) => V::F(1.0 / f),
    };
    let f = inv.f().abs();
    let unit = matches!(&b.v, V::Q(x) if x.is_integer() && x.numer().abs().is_one());
    let inv = Ev {
        v: inv,
        approx: b.approx,
        scale: f * (b.scale * f).max(1.0),
        allpos: b.allpos,
        allint: b.allint && unit,
    };
    mul(a, &inv)
}

pub fn log(x: &Ev, b: &Ev) -> Option<Ev> {
    if x.murky() || b.murky() || !x.v.positive() || !b.v.positive() {
        return None;
    }
    if let V::Q(bq) = &b.v {
        if bq.is_one() {
            return None;
        }
        if let V::Q(xq) = &x.v {
            if !x.approx && !b.approx {
                let g = lnq(xq) / lnq(bq);
                let k = g.round();
                if k.abs() < 4000.0 && (g - k).abs() < 1e-6 {
                    if let Some(p) = qpow(bq, k as i64) {
                        if &p == xq {
                            let mut ev = Ev::exact(BigRational::from_integer(BigInt::from(k as i64)));
                            ev.allint = false;
                            return Some(ev);
                        }
                    }
                }
            }
        }
    }
    let lb = match &b.v {
        V::Q(q) => lnq(q),
        V::F(f) => f.ln(),
    };
    let lx = match &x.v {
        V::Q(q) => lnq(q),
        V::F(f) => f.ln(),
    };
    if lb.abs() < 1e-3 {
        return None;
    }
    let r = lx / lb;
    let amp = (x.scale / x.v.f().abs()).max(1.0) + (b.scale / b.v.f().abs()).max(1.0);
    Ev { v: V::F(r), approx: true, scale: r.abs() + amp / lb.abs() * (1.0 + r.abs()), allpos: r > 0.0, allint: false }.sane()
}
fn lnq(x: &BigRational) -> f64 {
    lnb(x.numer()) - lnb(x.denom())
}
fn lnb(n: &BigInt) -> f64 {
    let bits = n.bits();
    if bits < 1000 {
        return n.to_f64().unwrap().ln();
    }
    let sh = (bits - 500) as usize;
    (n.clone() >> sh).to_f64().unwrap().ln() + sh as f64 * std::f64::consts::LN_2
}

pub fn is_pos_int_literal(e: &Expression) -> bool {
    matches!(e, Expression::Integer(n) if n.data.is_positive())
}

/// Value of the structure of `e` at point `p`.
pub fn ev(e: &Expression, p: &Point, lenient: bool) -> Option<Ev> {
    match e {
        Expression::Integer(n) => Some(Ev::exact(BigRational::from_integer(n.data.clone()))),
        Expression::Real(r) => {
            let x = BigRational::from_float(r.data)?;
            let mut v = Ev::exact(x);
            v.approx = true;
            v.sane()
        }
        Expression::Variable(v) => {
            let x = p.iter().find(|(n, _)| n == &v.data)?;
            Some(Ev::exact(x.1.clone()))
        }
        Expression::Addition(a) => {
            let mut acc = Ev::exact(BigRational::zero());
            acc.allpos = true;
            let mut allpos = true;
            let mut allint = true;
            for it in a.items() {
                let x = ev(&it, p, lenient)?;
                allint &= x.allint;
                allpos &= x.allpos || signed_allpos(&it, p, lenient);
                acc = add(&acc, &x)?;
            }
            acc.allint = allint;
            acc.allpos = allpos && acc.v.positive() && !acc.murky();
            Some(acc)
        }
        Expression::Multiplication(m) => {
            let mut acc = Ev::exact(BigRational::one());
            for it in m.items() {
                let x = ev(&it, p, lenient)?;
                acc = mul(&acc, &x)?;
            }
            Some(acc)
        }
        Expression::Power(pw) => {
            let (be, ee) = (pw.argument(), pw.modifier());
            let b = ev(&be, p, lenient)?;
            let x = ev(&ee, p, lenient)?;
            pow(&b, &x, is_pos_int_literal(&ee), lenient)
        }
        Expression::Logarithm(l) => {
            let a = ev(&l.argument(), p, lenient)?;
            let b = ev(&l.modifier(), p, lenient)?;
            log(&a, &b)
        }
        Expression::Sine(o) => {
            let a = ev(&o.argument(), p, lenient)?;
            trig(&a, f64::sin)
        }
        Expression::Cossine(o) => {
            let a = ev(&o.argument(), p, lenient)?;
            trig(&a, f64::cos)
        }
    }
}
fn trig(a: &Ev, f: fn(f64) -> f64) -> Option<Ev> {
    let x = a.v.f();
    if x.abs() > 1e6 || (a.approx && a.scale > 1e6) {
        return None;
    }
    let r = f(x);
    Some(Ev { v: V::F(r), approx: true, scale: 1.0 + a.scale, allpos: r > 0.0, allint: false })
}
/// a product whose only non-positive factors are numeric coefficients, or a
/// negative number
fn signed_allpos(e: &Expression, p: &Point, lenient: bool) -> bool {
    match e {
        Expression::Integer(n) => !n.data.is_zero(),
        Expression::Real(r) => r.data != 0.0,
        Expression::Multiplication(m) => m.items().iter().all(|it| match it {
            Expression::Integer(n) => !n.data.is_zero(),
            Expression::Real(r) => r.data != 0.0,
            _ => ev(it, p, lenient).map(|x| x.allpos).unwrap_or(false),
        }),
        _ => false,
    }
}
