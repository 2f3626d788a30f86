//! The bounded spaces the checks explore.
use crate::engine::*;
use crate::term::*;
use std::sync::Arc;

pub const RING: [Op; 3] = [Op::Add, Op::Sub, Op::Mul];
pub const FIELD: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];
pub const RINGP: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Pow];

pub fn x() -> Arc<Term> {
    var("x")
}
pub fn y() -> Arc<Term> {
    var("y")
}
pub fn sum(v: &[Arc<Term>]) -> Arc<Term> {
    Arc::new(Term::Sum(v.to_vec()))
}
pub fn prod(v: &[Arc<Term>]) -> Arc<Term> {
    Arc::new(Term::Prod(v.to_vec()))
}

/// polynomials: two variables, small integers
pub fn poly(n: usize) -> Space {
    Space::new("poly", vec![x(), y(), int(-1), int(2), int(3)], &RING, n)
}
/// polynomials and integer/symbolic powers
pub fn polyp(n: usize) -> Space {
    Space::new("poly-power", vec![x(), y(), int(-1), int(2), int(3)], &RINGP, n)
}
/// one variable and fractions
pub fn rat(n: usize) -> Space {
    Space::new("fractions", vec![x(), int(-2), int(2), int(3), int(6)], &FIELD, n)
}
/// numbers only
pub fn numbers(n: usize) -> Space {
    Space::new("numbers", vec![int(-3), int(-1), int(2), int(4), int(6), int(9)], &FIELD, n)
}
/// every operator, neutral elements included
pub fn all(n: usize) -> Space {
    Space::new("all-operators", vec![x(), y(), int(-2), int(-1), int(0), int(1), int(2), int(4)], &ALL_OPS, n)
}
/// every operator over a small alphabet, one level deeper
pub fn deep(n: usize) -> Space {
    Space::new("deep", vec![x(), int(-1), int(2)], &ALL_OPS, n)
}
/// reals (dyadic, so that machine sums and products are exact) with integers
pub fn reals(n: usize) -> Space {
    Space::new("reals", vec![x(), int(2), int(-3), real(0.0), real(1.0), real(-1.0), real(2.5), real(-0.5), real(4.0)], &ALL_OPS, n)
}
/// integers around and beyond the machine word
pub fn bigints(n: usize) -> Space {
    Space::new(
        "big-integers",
        vec![
            x(),
            int(2),
            int(-3),
            bigs("9223372036854775807"),
            bigs("9223372036854775808"),
            bigs("-9223372036854775808"),
            bigs("18446744073709551617"),
            bigs("1000000000000000000000000000000"),
            real(2.5),
        ],
        &ALL_OPS,
        n,
    )
}
/// composite operands: the shapes that rewriting rules look for
pub fn macro_leaves() -> Vec<Arc<Term>> {
    let (x, y) = (x(), y());
    let half = bin(Op::Div, &int(1), &int(2));
    vec![
        x.clone(),
        int(2),
        int(-3),
        half.clone(),
        bin(Op::Div, &int(-2), &int(3)),
        un(Un::Neg, &x),
        bin(Op::Mul, &int(2), &x),
        bin(Op::Div, &x, &int(2)),
        bin(Op::Mul, &x, &y),
        bin(Op::Mul, &int(-1), &bin(Op::Mul, &x, &y)),
        bin(Op::Div, &y, &x),
        bin(Op::Div, &int(1), &x),
        bin(Op::Pow, &x, &int(2)),
        bin(Op::Pow, &x, &int(3)),
        bin(Op::Pow, &x, &int(-2)),
        bin(Op::Pow, &x, &half),
        bin(Op::Pow, &x, &y),
        bin(Op::Pow, &x, &bin(Op::Mul, &int(2), &y)),
        bin(Op::Pow, &x, &un(Un::Neg, &y)),
        bin(Op::Pow, &int(2), &x),
        bin(Op::Pow, &int(2), &half),
        bin(Op::Log, &x, &y),
        bin(Op::Log, &x, &int(2)),
        bin(Op::Log, &int(3), &int(2)),
        bin(Op::Add, &x, &y),
        bin(Op::Sub, &x, &y),
        bin(Op::Add, &x, &int(1)),
        bin(Op::Div, &int(1), &bin(Op::Add, &x, &y)),
        bin(Op::Div, &int(1), &bin(Op::Mul, &x, &y)),
        bin(Op::Pow, &bin(Op::Add, &x, &y), &int(2)),
        bin(Op::Pow, &bin(Op::Mul, &x, &y), &half),
        bin(Op::Mul, &x, &bin(Op::Add, &x, &y)),
    ]
}
pub fn macros(n: usize) -> Space {
    Space::new("composite", macro_leaves(), &ALL_OPS, n)
}
/// composite operands with reals and trigonometric functions
pub fn macros_real(n: usize) -> Space {
    let (x, y) = (x(), y());
    let mut l = vec![
        x.clone(),
        int(2),
        int(-3),
        real(0.5),
        real(-1.5),
        real(2.0),
        bin(Op::Mul, &real(2.5), &x),
        bin(Op::Mul, &real(-1.0), &x),
        bin(Op::Div, &x, &real(2.0)),
        bin(Op::Add, &x, &real(0.5)),
        bin(Op::Add, &y, &real(-0.25)),
        bin(Op::Pow, &x, &real(0.5)),
        bin(Op::Pow, &x, &real(2.0)),
        bin(Op::Pow, &real(2.0), &x),
        bin(Op::Log, &x, &real(2.0)),
        bin(Op::Mul, &real(0.5), &bin(Op::Add, &x, &y)),
        bin(Op::Div, &int(1), &int(3)),
        bin(Op::Pow, &x, &int(-1)),
    ];
    l.push(un(Un::Sin, &x));
    l.push(un(Un::Cos, &bin(Op::Mul, &int(2), &x)));
    l.push(un(Un::Sin, &bin(Op::Add, &x, &y)));
    Space::new("composite-real", l, &ALL_OPS, n)
}
/// summands of larger sums: coefficients integral, fractional, negative
pub fn monomials() -> Vec<Arc<Term>> {
    let (x, y) = (x(), y());
    vec![
        int(3),
        bin(Op::Div, &int(1), &int(2)),
        x.clone(),
        bin(Op::Mul, &int(-2), &x),
        bin(Op::Div, &x, &int(3)),
        y.clone(),
        bin(Op::Mul, &x, &y),
        bin(Op::Div, &bin(Op::Mul, &x, &y), &int(-2)),
        bin(Op::Pow, &x, &int(2)),
    ]
}
/// factors of larger products: like bases, symbolic exponents, inverses
pub fn factors() -> Vec<Arc<Term>> {
    let (x, y) = (x(), y());
    vec![
        int(2),
        bin(Op::Div, &int(1), &int(6)),
        x.clone(),
        bin(Op::Pow, &x, &y),
        bin(Op::Pow, &x, &int(-2)),
        y.clone(),
        bin(Op::Div, &int(1), &y),
        bin(Op::Pow, &y, &bin(Op::Div, &int(1), &int(2))),
        bin(Op::Add, &x, &y),
        bin(Op::Div, &int(1), &bin(Op::Add, &x, &y)),
    ]
}
pub fn wide(n: usize) -> Vec<Space> {
    vec![Space::new("wide-sums", monomials(), &[], 1).nary(n), Space::new("wide-products", factors(), &[], 1).nary(n)]
}
/// powers of sums, products and numbers, exponents of both signs
pub fn high_powers() -> Space {
    let (x, y) = (x(), y());
    let bases = vec![
        bin(Op::Add, &x, &y),
        bin(Op::Sub, &x, &y),
        bin(Op::Add, &x, &int(1)),
        bin(Op::Add, &bin(Op::Mul, &int(2), &x), &int(-3)),
        sum(&[x.clone(), y.clone(), int(1)]),
        bin(Op::Add, &bin(Op::Div, &x, &int(2)), &y),
        bin(Op::Add, &bin(Op::Pow, &x, &int(2)), &bin(Op::Div, &int(1), &x)),
        bin(Op::Mul, &x, &bin(Op::Add, &x, &y)),
        bin(Op::Mul, &int(-2), &x),
        bin(Op::Div, &int(-2), &int(3)),
        bin(Op::Pow, &x, &y),
    ];
    let mut l = vec![x.clone(), int(2), int(-1)];
    for b in &bases {
        for n in (-8..=9).chain([11]) {
            if n != 0 && n != 1 {
                l.push(bin(Op::Pow, b, &int(n)));
            }
        }
    }
    let mut s = Space::new("high-powers", l, &RING, 1);
    s.max_xs = 2100.0;
    s
}
/// many variable names: order and spelling must not matter
pub fn names(n: usize) -> Space {
    Space::new("names", vec![var("x"), var("y"), var("a"), var("Z"), var("xy"), var("x1"), int(2)], &RINGP, n)
}
/// products, sums and powers of several distinct sums: distribution
pub fn distribution() -> Space {
    let (x, y, z) = (x(), y(), var("z"));
    let sums = vec![
        bin(Op::Add, &x, &y),
        bin(Op::Sub, &x, &y),
        bin(Op::Add, &x, &int(2)),
        sum(&[x.clone(), y.clone(), z.clone()]),
        bin(Op::Add, &bin(Op::Mul, &x, &y), &bin(Op::Div, &z, &int(2))),
        x.clone(),
        int(-2),
        bin(Op::Div, &int(1), &bin(Op::Add, &x, &y)),
        bin(Op::Pow, &bin(Op::Add, &x, &z), &int(2)),
    ];
    Space::new("distribution", sums, &RING, 2).nary(4)
}
/// polynomials with fractional coefficients
pub fn polyfrac(n: usize) -> Space {
    Space::new("poly-fractions", vec![x(), y(), int(-1), int(2), bin(Op::Div, &int(1), &int(2)), bin(Op::Div, &int(-2), &int(3))], &RING, n)
}

/// one operand of every kind in every position, two levels deep, then framed by
/// a small operand
pub fn kinds(n: usize) -> Space {
    let (x, y) = (x(), y());
    let half = bin(Op::Div, &int(1), &int(2));
    let l = vec![
        int(2),
        y.clone(),
        int(-2),
        x.clone(),
        bin(Op::Add, &x, &y),
        bin(Op::Pow, &x, &half),
        half.clone(),
        bin(Op::Add, &x, &int(1)),
        bin(Op::Mul, &x, &y),
        bin(Op::Log, &x, &y),
        un(Un::Sin, &x),
        bin(Op::Pow, &int(2), &x),
        bin(Op::Pow, &x, &y),
        bin(Op::Pow, &x, &int(2)),
        bin(Op::Div, &int(1), &x),
        bin(Op::Pow, &x, &bin(Op::Add, &y, &int(1))),
        bin(Op::Pow, &x, &bin(Op::Log, &y, &int(2))),
        bin(Op::Log, &bin(Op::Add, &x, &y), &y),
    ];
    Space::new("kinds", l, &ALL_OPS, n).linear(3, if n > 3 { 2 } else { 6 })
}
/// operation chains: every level applies one operation with a leaf
pub fn towers(n: usize) -> Space {
    Space::new("towers", vec![x(), int(2), y(), int(-1)], &ALL_OPS, n).linear(3, 3)
}
/// integers of many sizes where small ones are usual
pub fn magnitudes(n: usize) -> Space {
    let mut l = vec![x(), y(), int(2)];
    l.extend([12, -21, 100, 257, -1000, 65536, -2147483648, 9007199254740993].iter().map(|&i| int(i)));
    l.push(real(1.5));
    Space::new("magnitudes", l, &ALL_OPS, n).linear(3, 3)
}
/// exponents and coefficients beyond the machine word
pub fn huge_exponents() -> Space {
    let (x, y) = (x(), y());
    let h = bigs("18446744073709551616");
    let m = bigs("-9223372036854775809");
    let l = vec![
        x.clone(),
        y.clone(),
        int(2),
        bin(Op::Pow, &x, &h),
        bin(Op::Pow, &x, &m),
        bin(Op::Pow, &x, &bin(Op::Mul, &h, &y)),
        bin(Op::Pow, &y, &bin(Op::Mul, &m, &x)),
        bin(Op::Pow, &bin(Op::Add, &x, &y), &h),
        bin(Op::Pow, &bin(Op::Add, &x, &y), &m),
        bin(Op::Pow, &int(2), &bin(Op::Mul, &int(-40), &x)),
        bin(Op::Mul, &h, &x),
        bin(Op::Div, &x, &m),
        bin(Op::Log, &h, &int(3)),
        bin(Op::Add, &x, &h),
        real(1.5),
        bin(Op::Mul, &m, &y),
    ];
    Space::new("huge-exponents", l, &ALL_OPS, 2).nary(3)
}
/// integers and reals that look alike
pub fn lookalikes(n: usize) -> Space {
    let l = vec![x(), int(2), real(2.0), int(-1), real(-1.0), y(), int(3), real(3.0), bin(Op::Div, &int(1), &int(2)), real(0.5)];
    Space::new("lookalikes", l, &ALL_OPS, n).linear(3, 5)
}
/// twins that differ only in an integer or real deep inside
pub fn twins(n: usize) -> Space {
    let (x, y) = (x(), y());
    let mut l = vec![x.clone(), y.clone()];
    for n in [int(2), real(2.0), int(3), real(2.5)] {
        let s = bin(Op::Add, &y, &n);
        let m = bin(Op::Mul, &y, &n);
        l.extend([
            n.clone(),
            s.clone(),
            m.clone(),
            bin(Op::Pow, &x, &n),
            bin(Op::Pow, &x, &s),
            bin(Op::Pow, &x, &m),
            bin(Op::Pow, &s, &x),
            bin(Op::Log, &x, &s),
            bin(Op::Log, &s, &x),
            bin(Op::Log, &x, &n),
            bin(Op::Mul, &x, &s),
            un(Un::Sin, &s),
            un(Un::Cos, &m),
        ]);
    }
    Space::new("twins", l, &[Op::Add, Op::Mul, Op::Pow, Op::Log], n)
}
/// products and powers of larger sums
pub fn big_sums() -> Space {
    let (x, y) = (x(), y());
    let names = ["x", "y", "z", "a", "b", "c"];
    let mono: Vec<Arc<Term>> = {
        let mut v: Vec<Arc<Term>> = names.iter().map(|n| var(n)).collect();
        for (i, a) in names.iter().enumerate() {
            v.push(bin(Op::Mul, &int(i as i64 - 3), &bin(Op::Pow, &var(a), &int(2))));
            v.push(bin(Op::Mul, &var(a), &var(names[(i + 1) % 6])));
        }
        v.push(int(5));
        v
    };
    let mut l = vec![x.clone(), int(-2)];
    for k in [5, 7, 9, 13, 18] {
        l.push(sum(&mono[..k]));
    }
    l.push(bin(Op::Pow, &bin(Op::Add, &x, &y), &int(3)));
    l.push(bin(Op::Pow, &bin(Op::Add, &x, &int(1)), &int(5)));
    l.push(bin(Op::Pow, &sum(&mono[..5]), &int(2)));
    l.push(bin(Op::Pow, &sum(&mono[2..9]), &int(-2)));
    l.push(bin(Op::Pow, &sum(&mono[..9]), &bin(Op::Div, &int(1), &int(2))));
    let mut s = Space::new("big-sums", l, &RING, 2);
    s.max_xs = 4000.0;
    s
}
/// sums and products with many different operands
pub fn many_operands() -> Space {
    let names = ["x", "y", "z", "a", "b", "c", "xy", "x1", "Z"];
    let mut f: Vec<Arc<Term>> = names.iter().map(|n| var(n)).collect();
    let mut m: Vec<Arc<Term>> = f.clone();
    for k in 1..4 {
        for i in 0..9 {
            f.push(bin(Op::Pow, &var(names[i]), &var(names[(i + k) % 9])));
            m.push(bin(Op::Mul, &var(names[i]), &var(names[(i + k) % 9])));
        }
    }
    let mut l = vec![x(), int(2)];
    let primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59];
    for k in [9, 12, 17] {
        let fr: Vec<Arc<Term>> = (0..k).map(|i| bin(Op::Div, &int(if i % 3 == 0 { -1 } else { i as i64 + 1 }), &int(primes[i]))).collect();
        l.push(prod(&fr));
        l.push(sum(&fr));
    }
    for k in [6, 8, 9, 10, 11, 12, 16, 17, 20, 24, 33] {
        l.push(prod(&f[..k]));
        l.push(sum(&m[..k]));
    }
    Space::new("many-operands", l, &FIELD, 2)
}
/// every number of operands crossed with every shape: sums and products of
/// 2 to 9 names, their powers, multiples and inverses
pub fn sizes(n: usize) -> Space {
    let names: Vec<Arc<Term>> = ["x", "y", "z", "a", "b", "c", "xy", "x1", "Z"].iter().map(|n| var(n)).collect();
    let mut l = vec![x(), int(2), int(-1)];
    for k in 2..=9 {
        let s = sum(&names[..k]);
        let p = prod(&names[..k]);
        for n in [-2, 3] {
            l.push(bin(Op::Pow, &p, &int(n)));
        }
        for n in [-2, -1, 2, 3, 4] {
            if k < 5 || k < 7 && n == 3 || n == -1 {
                l.push(bin(Op::Pow, &s, &int(n)));
            }
        }
        l.push(bin(Op::Mul, &int(-2), &p));
        l.push(bin(Op::Mul, &bin(Op::Div, &int(1), &int(3)), &p));
        l.push(bin(Op::Mul, &int(3), &s));
        l.push(s);
        l.push(p);
    }
    let mut s = Space::new("sizes", l, &FIELD, n);
    s.max_xs = 130.0;
    s
}
/// nodes put together without their constructor functions, as rules and their
/// tests do: at least two operands and at most one number per product
pub fn raw_leaves() -> Vec<Arc<Term>> {
    let (x, y) = (x(), y());
    let r = |k: Raw, v: &[&Arc<Term>]| Arc::new(Term::Raw(k, v.iter().map(|t| (*t).clone()).collect()));
    let two = int(2);
    let s = bin(Op::Add, &x, &y);
    let m = bin(Op::Mul, &x, &y);
    let x2 = bin(Op::Pow, &x, &two);
    let lyx = bin(Op::Log, &y, &x);
    vec![
        r(Raw::Pow, &[&x, &lyx]),
        r(Raw::Pow, &[&s, &bin(Op::Log, &y, &s)]),
        r(Raw::Pow, &[&two, &bin(Op::Log, &x, &two)]),
        r(Raw::Pow, &[&y, &lyx]),
        r(Raw::Pow, &[&m, &bin(Op::Log, &x2, &m)]),
        r(Raw::Log, &[&x2, &x]),
        r(Raw::Log, &[&bin(Op::Pow, &s, &y), &s]),
        r(Raw::Log, &[&bin(Op::Pow, &two, &x), &two]),
        r(Raw::Log, &[&bin(Op::Pow, &y, &x), &x]),
        r(Raw::Log, &[&bin(Op::Pow, &m, &s), &m]),
        r(Raw::Pow, &[&x2, &y]),
        r(Raw::Pow, &[&bin(Op::Pow, &x, &y), &s]),
        r(Raw::Pow, &[&m, &two]),
        r(Raw::Pow, &[&s, &int(3)]),
        r(Raw::Sum, &[&x, &x]),
        r(Raw::Sum, &[&x, &s, &two]),
        r(Raw::Sum, &[&int(1), &two, &x]),
        r(Raw::Prod, &[&x, &x]),
        r(Raw::Prod, &[&two, &m, &x]),
        r(Raw::Prod, &[&s, &s]),
        x.clone(),
        two.clone(),
        int(-1),
        y.clone(),
    ]
}
pub fn raws(n: usize) -> Space {
    Space::new("raw-nodes", raw_leaves(), &ALL_OPS, n)
}
/// long sums and products over a few operands
pub fn long(n: usize) -> Vec<Space> {
    let (x, y) = (x(), y());
    let fr = |a: i64, b: i64| bin(Op::Div, &int(a), &int(b));
    vec![
        Space::new("long-fractions", vec![fr(1, 2), fr(-1, 3), fr(3, 5), x.clone()], &[], 1).nary(n),
        Space::new("long-products", vec![x.clone(), bin(Op::Div, &int(1), &y), bin(Op::Pow, &x, &y), fr(2, 3)], &[], 1).nary(n),
        Space::new("long-terms", vec![x.clone(), bin(Op::Mul, &int(-2), &bin(Op::Mul, &x, &y)), bin(Op::Pow, &y, &int(2)), bin(Op::Log, &x, &y)], &[], 1).nary(n),
        Space::new("long-numbers", vec![int(2), int(-3), real(1.5), x.clone()], &[], 1).nary(n),
        Space::new("many-names", ["a", "b", "c", "x", "y", "z"].iter().map(|v| var(v)).collect(), &[], 1).nary(n.min(7)),
        Space::new("long-distribution", vec![bin(Op::Add, &x, &int(1)), bin(Op::Sub, &x, &y), y.clone()], &[], 1).nary(n.min(6)),
    ]
}
/// every integer of a range, and around the powers of two and ten, in every place
/// an integer can stand
pub fn literals() -> Space {
    let (x, y) = (x(), y());
    let mut ns: Vec<i64> = (-40..=70).collect();
    for k in [7, 8, 15, 16, 31, 32, 53] {
        ns.extend([(1i64 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k) - 1]);
    }
    for k in [100, 1000, 10000, 1000000] {
        ns.extend([k, k + 1, -k, 99 * k]);
    }
    let s = bin(Op::Add, &x, &y);
    let m = bin(Op::Mul, &x, &y);
    let mut l = vec![];
    for n in ns {
        let i = int(n);
        let big = n.abs() > 64;
        l.push(bin(Op::Mul, &i, &x));
        l.push(bin(Op::Add, &x, &i));
        l.push(bin(Op::Sub, &bin(Op::Mul, &i, &m), &x));
        l.push(bin(Op::Mul, &i, &s));
        l.push(bin(Op::Add, &bin(Op::Mul, &i, &x), &bin(Op::Mul, &int(3), &x)));
        l.push(bin(Op::Log, &x, &i));
        l.push(bin(Op::Log, &i, &x));
        l.push(bin(Op::Log, &i, &int(2)));
        l.push(bin(Op::Log, &i, &int(10)));
        // the same literal standing twice
        l.push(bin(Op::Log, &bin(Op::Pow, &x, &i), &i));
        l.push(bin(Op::Log, &bin(Op::Pow, &i, &x), &i));
        l.push(bin(Op::Mul, &i, &bin(Op::Pow, &x, &i)));
        l.push(bin(Op::Mul, &bin(Op::Add, &x, &i), &bin(Op::Sub, &x, &i)));
        l.push(bin(Op::Mul, &bin(Op::Pow, &i, &y), &i));
        l.push(bin(Op::Mul, &bin(Op::Pow, &i, &x), &bin(Op::Pow, &i, &bin(Op::Mul, &int(-1), &x))));
        l.push(bin(Op::Pow, &i, &x));
        l.push(bin(Op::Pow, &x, &i));
        l.push(bin(Op::Pow, &x, &bin(Op::Mul, &i, &y)));
        l.push(bin(Op::Mul, &i, &real(1.5)));
        l.push(bin(Op::Add, &real(-0.5), &i));
        if n != 0 {
            l.push(bin(Op::Div, &x, &i));
            l.push(bin(Op::Div, &s, &i));
            l.push(bin(Op::Div, &int(1), &bin(Op::Mul, &i, &x)));
            l.push(bin(Op::Div, &i, &int(12)));
            l.push(bin(Op::Log, &i, &bin(Op::Div, &int(1), &i)));
            l.push(bin(Op::Log, &bin(Op::Div, &int(1), &i), &i));
            l.push(bin(Op::Pow, &i, &bin(Op::Div, &x, &i)));
            l.push(bin(Op::Div, &bin(Op::Add, &x, &i), &i));
            l.push(bin(Op::Add, &bin(Op::Div, &i, &x), &bin(Op::Mul, &i, &x)));
            for (a, b) in [(1, 2), (1, 3), (2, 3), (-1, 2), (1, 5)] {
                l.push(bin(Op::Pow, &i, &bin(Op::Div, &int(a), &int(b))));
            }
            l.push(bin(Op::Div, &int(36), &i));
            l.push(bin(Op::Add, &bin(Op::Div, &x, &i), &bin(Op::Div, &x, &int(6))));
            l.push(bin(Op::Add, &bin(Op::Div, &int(5), &i), &bin(Op::Div, &int(-1), &int(4))));
            l.push(bin(Op::Mul, &bin(Op::Div, &x, &i), &bin(Op::Div, &y, &i)));
        }
        if !big {
            l.push(bin(Op::Pow, &i, &int(3)));
            if n != 0 {
                l.push(bin(Op::Pow, &i, &int(-2)));
            }
            l.push(bin(Op::Pow, &bin(Op::Mul, &int(2), &x), &i));
            l.push(bin(Op::Pow, &m, &i));
            l.push(bin(Op::Pow, &bin(Op::Pow, &x, &y), &i));
            l.push(bin(Op::Mul, &bin(Op::Pow, &x, &i), &bin(Op::Pow, &x, &int(5))));
            l.push(bin(Op::Mul, &bin(Op::Pow, &x, &i), &bin(Op::Pow, &x, &y)));
            if n.abs() < 9 {
                l.push(bin(Op::Pow, &s, &i));
                l.push(bin(Op::Mul, &x, &bin(Op::Pow, &s, &i)));
            }
        }
    }
    Space::new("literals", l, &[], 1)
}
/// reals of many sizes and lengths, in every place a real can stand
pub fn real_literals() -> Space {
    let (x, y) = (x(), y());
    let mut rs: Vec<f64> = (-12..=12).map(|k| k as f64 / 4.0).collect();
    for e in [1, 3, 6, 9, 12, 15, 16, 18, 21, 60] {
        let p = 2f64.powi(3 * e);
        rs.extend([p, -p, 1.0 / p, -1.0 / p]);
    }
    rs.extend([0.1, -0.7, 1.0 / 3.0, 123.456, 1e-7, 1e21, 1e22, 4503599627370497.5, 100.0, -1000.0, 0.015625, 7.0, 2.0 / 1048576.0]);
    let s = bin(Op::Add, &x, &y);
    let mut l = vec![];
    for r in rs {
        let i = real(r);
        l.push(bin(Op::Mul, &i, &x));
        l.push(bin(Op::Add, &x, &i));
        l.push(bin(Op::Sub, &x, &i));
        l.push(bin(Op::Sub, &i, &x));
        l.push(bin(Op::Mul, &i, &s));
        l.push(bin(Op::Mul, &i, &int(-3)));
        l.push(prod(&[int(3), i.clone(), x.clone()]));
        l.push(sum(&[int(-3), i.clone(), x.clone()]));
        l.push(bin(Op::Add, &bin(Op::Mul, &i, &x), &bin(Op::Mul, &int(2), &x)));
        l.push(bin(Op::Add, &i, &real(0.75)));
        l.push(bin(Op::Add, &i, &real(r / 4.0)));
        l.push(bin(Op::Sub, &real(r / 4.0), &i));
        l.push(sum(&[i.clone(), real(r * 2.0), bin(Op::Mul, &real(r / 2.0), &x)]));
        l.push(bin(Op::Add, &bin(Op::Mul, &i, &x), &bin(Op::Mul, &real(r / 4.0), &y)));
        l.push(bin(Op::Mul, &i, &real(-0.75)));
        l.push(bin(Op::Mul, &bin(Op::Mul, &i, &x), &bin(Op::Mul, &real(-2.0), &y)));
        if r != 0.0 {
            l.push(bin(Op::Div, &x, &i));
            l.push(bin(Op::Div, &bin(Op::Mul, &real(3.0), &x), &i));
            l.push(bin(Op::Div, &i, &real(-0.5)));
            l.push(bin(Op::Div, &i, &int(3)));
            l.push(bin(Op::Pow, &i, &int(2)));
            l.push(bin(Op::Pow, &i, &int(-3)));
            l.push(bin(Op::Pow, &bin(Op::Mul, &i, &x), &int(3)));
            l.push(bin(Op::Pow, &bin(Op::Mul, &i, &x), &int(-2)));
            l.push(bin(Op::Pow, &i, &x));
            l.push(bin(Op::Log, &i, &real(2.0)));
            l.push(bin(Op::Log, &real(8.0), &i));
        }
        if r.abs() < 40.0 {
            l.push(bin(Op::Pow, &x, &i));
            l.push(bin(Op::Pow, &real(2.0), &i));
            l.push(bin(Op::Pow, &int(2), &bin(Op::Mul, &i, &x)));
            l.push(bin(Op::Pow, &real(1.5), &bin(Op::Mul, &i, &x)));
            l.push(bin(Op::Mul, &bin(Op::Pow, &x, &i), &x));
            l.push(bin(Op::Mul, &bin(Op::Pow, &x, &i), &y));
            l.push(bin(Op::Mul, &bin(Op::Pow, &x, &real(0.5)), &bin(Op::Pow, &x, &real(r - 0.5))));
        }
        l.push(bin(Op::Log, &x, &i));
    }
    Space::new("real-literals", l, &[], 1)
}
/// the same one or two steps repeated, up to twelve deep
pub fn ladders(depth: usize) -> Space {
    let (x, y) = (x(), y());
    let step = |k: usize, e: &Arc<Term>| -> Arc<Term> {
        match k {
            0 => bin(Op::Add, e, &int(1)),
            1 => bin(Op::Mul, e, &y),
            2 => bin(Op::Div, &int(1), e),
            3 => bin(Op::Log, e, &x),
            4 => bin(Op::Log, &y, e),
            5 => bin(Op::Pow, &y, e),
            6 => bin(Op::Pow, e, &int(-1)),
            7 => bin(Op::Pow, e, &bin(Op::Div, &int(1), &int(2))),
            8 => bin(Op::Sub, &x, e),
            9 => bin(Op::Mul, &int(-2), e),
            10 => bin(Op::Div, e, &int(3)),
            11 => un(Un::Sin, e),
            12 => bin(Op::Mul, e, &bin(Op::Add, &x, &y)),
            _ => bin(Op::Pow, e, &int(2)),
        }
    };
    let mut l = vec![];
    for a in 0..14 {
        for b in 0..14 {
            let mut e = x.clone();
            for d in 0..depth {
                let k = if d % 2 == 0 { a } else { b };
                // powers tower and products of sums double: keep those shallow
                if (a == 5 || b == 5 || a == 13 || b == 13 || a == 12 || b == 12) && d > 5 {
                    break;
                }
                e = step(k, &e);
                l.push(e.clone());
            }
        }
    }
    let mut s = Space::new("ladders", l, &[], 1);
    s.max_xs = 60.0;
    s
}
/// names of many lengths and alphabets
pub fn labels() -> Space {
    let l: Vec<Arc<Term>> = LABELS.iter().map(|n| var(n)).chain([int(2), int(-1)]).collect();
    Space::new("labels", l, &[Op::Add, Op::Mul, Op::Pow, Op::Log], 2)
}
pub const LABELS: [&str; 32] = [
    "long_name_of_a_variablb",
    "king_name_of_a_variable",
    "long_nama_of_a_variable",
    "a_name_one_letter_longer",
    "t",
    "inform",
    "x11",
    "zero",
    "x", "X", "x1", "x2", "x10", "x_1", "xx", "xy", "_", "_x", "a", "A", "z", "Z", "alpha", "Alpha", "alphabet", "e", "pi", "sum", "long_name_of_a_variable", "long_name_of_a_variables", "v0", "ZZZ9",
];
/// coefficient arithmetic of like terms
pub fn coefficients() -> Space {
    let x = x();
    let mut l = vec![];
    for d in 1..=4 {
        for n in -5..=5i64 {
            if n != 0 && (d == 1 || gcd(n.unsigned_abs(), d) == 1) {
                l.push(bin(Op::Mul, &bin(Op::Div, &int(n), &int(d as i64)), &x));
            }
        }
    }
    l.push(bin(Op::Mul, &x, &y()));
    l.push(int(1));
    Space::new("coefficients", l, &FIELD, 2)
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// exponent arithmetic over one base
pub fn exponents() -> Space {
    let (x, y) = (x(), y());
    let mut l = vec![x.clone(), y.clone(), int(2)];
    for n in -7..=9 {
        if n != 0 && n != 1 {
            l.push(bin(Op::Pow, &x, &int(n)));
        }
        if n.abs() < 4 && n != 0 {
            l.push(bin(Op::Pow, &x, &bin(Op::Mul, &int(n), &y)));
            l.push(bin(Op::Pow, &x, &bin(Op::Add, &int(n), &y)));
            l.push(bin(Op::Pow, &x, &bin(Op::Div, &int(n), &int(2))));
            l.push(bin(Op::Pow, &x, &bin(Op::Div, &y, &int(n + 4))));
            l.push(bin(Op::Pow, &int(2), &bin(Op::Mul, &int(n), &x)));
        }
    }
    Space::new("exponents", l, &[Op::Mul, Op::Div, Op::Pow, Op::Log], 2)
}
/// more names than a few
pub fn crowd() -> Space {
    let v: Vec<Arc<Term>> = NAMES.iter().map(|n| var(n)).collect();
    let mut l = vec![x(), int(-2)];
    for k in [3, 5, 7, 10, 11, 12, 13, 15, 16, 17, 20, 24] {
        let s = sum(&v[..k]);
        let p = prod(&v[..k]);
        l.push(bin(Op::Div, &int(1), &s));
        l.push(bin(Op::Pow, &p, &int(2)));
        l.push(bin(Op::Log, &s, &p));
        l.push(s);
        l.push(p);
    }
    let mut s = Space::new("crowd", l, &RING, 2);
    s.max_xs = 130.0;
    s
}
/// products of two powers of the same base, for every kind of base and exponent
pub fn powers() -> Space {
    let (x, y, z) = (x(), y(), var("z"));
    let half = bin(Op::Div, &int(1), &int(2));
    let bases = vec![
        x.clone(),
        bin(Op::Add, &x, &y),
        bin(Op::Mul, &x, &y),
        bin(Op::Log, &x, &y),
        bin(Op::Div, &x, &y),
        un(Un::Sin, &x),
        int(2),
        int(12),
        real(2.0),
        real(0.5),
        real(-1.5),
        half.clone(),
        bin(Op::Div, &int(2), &int(3)),
        bin(Op::Mul, &int(-3), &x),
        bin(Op::Mul, &real(2.0), &x),
        bin(Op::Add, &bin(Op::Log, &x, &int(2)), &int(1)),
        bin(Op::Pow, &x, &half),
    ];
    let exps = vec![
        int(1),
        int(2),
        int(-1),
        int(-3),
        y.clone(),
        un(Un::Neg, &y),
        bin(Op::Mul, &int(2), &y),
        bin(Op::Add, &y, &int(1)),
        bin(Op::Sub, &int(1), &y),
        bin(Op::Mul, &y, &z),
        bin(Op::Add, &y, &z),
        half.clone(),
        bin(Op::Div, &int(-2), &int(3)),
        bin(Op::Div, &y, &int(3)),
        real(1.5),
        bin(Op::Mul, &real(0.5), &y),
        bin(Op::Log, &y, &z),
        bin(Op::Log, &y, &x),
        bin(Op::Pow, &y, &int(2)),
        bin(Op::Pow, &y, &int(-1)),
    ];
    let mut l = vec![];
    for b in &bases {
        for (i, e) in exps.iter().enumerate() {
            let p = bin(Op::Pow, b, e);
            for f in &exps[i..] {
                let q = bin(Op::Pow, b, f);
                l.push(bin(Op::Mul, &p, &q));
                l.push(bin(Op::Div, &p, &q));
            }
            for other in [int(3), int(-2), real(1.5), x.clone(), bin(Op::Div, &int(1), &int(3)), bin(Op::Pow, &y, e)] {
                l.push(bin(Op::Mul, &p, &other));
                l.push(bin(Op::Add, &p, &other));
            }
        }
    }
    let mut s = Space::new("powers", l, &[], 1);
    s.max_xs = 60.0;
    s
}
/// long lists which differ in one operand: each list, and pairs of them
pub fn tails(values: bool) -> Space {
    let v: Vec<Arc<Term>> = NAMES.iter().map(|n| var(n)).collect();
    let mut l = vec![];
    for k in [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20] {
        let mut lists: Vec<Vec<Arc<Term>>> = vec![];
        let base = v[..k].to_vec();
        lists.push(base.clone());
        for at in [0, k / 2, k - 1] {
            for with in [v[k].clone(), bin(Op::Mul, &int(2), &v[at]), bin(Op::Pow, &v[at], &int(2)), int(3), real(1.5)] {
                let mut n = base.clone();
                n[at] = with;
                lists.push(n);
            }
        }
        let mut both: Vec<Vec<Arc<Term>>> = vec![];
        both.push(lists.iter().map(|n| sum(n)).collect());
        both.push(lists.iter().map(|n| prod(n)).collect());
        for group in both {
            if values && (k < 10 || k == 16) {
                for a in &group {
                    l.push(bin(Op::Log, a, &group[0]));
                    l.push(bin(Op::Log, &group[0], a));
                    l.push(bin(Op::Sub, a, &group[0]));
                    l.push(bin(Op::Div, a, &group[0]));
                    l.push(bin(Op::Add, &un(Un::Sin, a), &un(Un::Sin, &group[0])));
                    l.push(bin(Op::Mul, &bin(Op::Pow, a, &v[0]), &bin(Op::Pow, &group[0], &v[0])));
                }
            }
            l.extend(group);
        }
    }
    let mut s = Space::new("tails", l, &[], 1);
    s.max_xs = 130.0;
    s
}
/// sums and products of many operands with reals and integers among them,
/// combined with something small
pub fn real_sizes() -> Space {
    let v: Vec<Arc<Term>> = NAMES.iter().map(|n| var(n)).collect();
    let mut big = vec![];
    for k in 2..=9 {
        let with = |e: &[Arc<Term>]| -> Vec<Arc<Term>> { v[..k].iter().cloned().chain(e.iter().cloned()).collect() };
        big.push(sum(&with(&[real(2.5)])));
        big.push(sum(&with(&[real(-2.5), int(3)])));
        big.push(sum(&with(&[int(-7)])));
        big.push(prod(&with(&[real(2.5)])));
        big.push(prod(&with(&[real(-2.5), int(3)])));
        big.push(prod(&with(&[bin(Op::Div, &int(-2), &int(7))])));
    }
    let small = [v[0].clone(), v[12].clone(), int(2), int(-3), real(1.5), real(-0.5), bin(Op::Div, &int(3), &int(14))];
    let mut l = vec![];
    for b in &big {
        for s in &small {
            for (a, b) in [(b, s), (s, b)] {
                for op in [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Log] {
                    l.push(bin(op, a, b));
                }
            }
        }
        for n in [-3, -2, -1, 2] {
            l.push(bin(Op::Pow, b, &int(n)));
        }
        l.push(bin(Op::Pow, b, &v[0]));
        l.push(bin(Op::Pow, b, &real(-1.0)));
    }
    let mut s = Space::new("real-sizes", l, &[], 1);
    s.max_xs = 130.0;
    s
}
/// sums to large powers: every exponent up to thirteen
pub fn towers_of_sums() -> Space {
    let (x, y) = (x(), y());
    let mut l = vec![];
    for (b, top) in [(bin(Op::Add, &x, &int(1)), 13), (bin(Op::Sub, &x, &y), 10)] {
        for n in 10..=top {
            l.push(bin(Op::Pow, &b, &int(n)));
            l.push(bin(Op::Pow, &b, &int(-n)));
        }
    }
    let mut s = Space::new("long-powers", l, &[], 1);
    s.max_xs = 17000.0;
    s
}
pub const NAMES: [&str; 24] = ["x", "y", "z", "a", "b", "c", "xy", "x1", "Z", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"];

/// Monomials with every sort of exponent over variables and logarithms.
pub fn terms(n: usize) -> Space {
    let (x, y, a) = (x(), y(), var("a"));
    let half = bin(Op::Div, &int(1), &int(2));
    let xs = [int(-1), int(2), int(-2), a.clone(), un(Un::Neg, &a), bin(Op::Add, &a, &int(1)), bin(Op::Mul, &int(2), &a), bin(Op::Sub, &int(1), &a), half.clone(), bin(Op::Div, &int(-2), &int(3)), bin(Op::Div, &a, &int(3))];
    let mut l: Vec<Arc<Term>> = xs.iter().map(|e| bin(Op::Pow, &x, e)).collect();
    let log = bin(Op::Log, &bin(Op::Add, &x, &int(1)), &y);
    l.extend([x, y.clone(), bin(Op::Pow, &y, &int(-1)), bin(Op::Pow, &log, &int(-1)), log, int(2), int(-1), half, a]);
    Space::new("terms", l, &ALL_OPS, n)
}

/// every sort of base to every sort of exponent, with whole and fractional
/// coefficients of both signs
pub fn exponent_terms() -> Space {
    let (x, y, z) = (x(), y(), var("z"));
    let bases = [
        bin(Op::Add, &x, &y),
        bin(Op::Sub, &x, &int(3)),
        bin(Op::Mul, &x, &y),
        bin(Op::Mul, &int(-2), &x),
        bin(Op::Log, &x, &y),
        bin(Op::Div, &int(1), &x),
        bin(Op::Pow, &x, &y),
        bin(Op::Add, &bin(Op::Mul, &x, &y), &int(1)),
        int(6),
        bin(Op::Div, &int(2), &int(3)),
        real(2.5),
    ];
    let mut l = vec![];
    for b in &bases {
        for n in (-7..=7).filter(|n| *n != 0) {
            let c = int(n);
            for e in [
                c.clone(),
                bin(Op::Mul, &c, &z),
                bin(Op::Mul, &c, &bin(Op::Mul, &y, &z)),
                bin(Op::Div, &c, &int(2)),
                bin(Op::Div, &c, &int(9)),
                bin(Op::Div, &bin(Op::Mul, &c, &z), &int(2)),
                bin(Op::Div, &c, &z),
                bin(Op::Add, &c, &z),
                bin(Op::Sub, &c, &bin(Op::Mul, &int(2), &z)),
                bin(Op::Mul, &c, &bin(Op::Add, &z, &int(1))),
                bin(Op::Mul, &c, &bin(Op::Log, &z, &int(3))),
                bin(Op::Mul, &c, &real(0.5)),
            ] {
                l.push(bin(Op::Pow, b, &e));
            }
        }
    }
    let mut s = Space::new("exponent-terms", l, &[], 1);
    s.max_xs = 130.0;
    s
}
/// sums to exponents too large to be written out, which stay as they are
pub fn beyond() -> Space {
    let (x, y) = (x(), y());
    let s = bin(Op::Add, &x, &y);
    let mut l = vec![];
    for h in ["9223372036854775809", "-9223372036854775810", "18446744073709551616", "-36893488147419103233"] {
        let p = bin(Op::Pow, &s, &bigs(h));
        let q = bin(Op::Pow, &s, &bin(Op::Mul, &bigs(h), &var("z")));
        for p in [p, q] {
            l.extend([bin(Op::Add, &p, &int(1)), bin(Op::Mul, &p, &x), bin(Op::Mul, &int(-3), &p), bin(Op::Log, &p, &y), bin(Op::Pow, &y, &p), bin(Op::Div, &p, &bin(Op::Add, &x, &int(1))), bin(Op::Mul, &p, &s), bin(Op::Pow, &p, &int(-1)), p]);
        }
    }
    let mut s = Space::new("beyond", l, &[], 1).undef();
    s.max_xs = f64::INFINITY;
    s
}
/// numbers that are next to each other, or far apart, around every word size
pub fn neighbours() -> Space {
    let mut l: Vec<Arc<Term>> = vec![];
    for k in [31u32, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, 1023, 1024] {
        for d in [-2i64, -1, 0, 1, 2] {
            for sign in [1i64, -1] {
                let n: num::BigInt = ((num::BigInt::from(1) << (k as usize)) + d) * sign;
                l.push(bigs(&n.to_string()));
            }
        }
    }
    for r in [1.0f64, 0.5, 3.0, 9007199254740992.0, 1e300, 1e-300, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308] {
        for b in [r.to_bits() - 1, r.to_bits(), r.to_bits() + 1] {
            let v = f64::from_bits(b);
            if v.is_finite() {
                l.extend([real(v), real(-v)]);
            }
        }
    }
    Space::new("neighbours", l, &[], 1).undef()
}
