//! One driver per property: which spaces are explored and which judge decides.
use crate::engine::*;
use crate::envhash;
use crate::judges;
use crate::spaces::*;
use crate::term::*;
use std::collections::HashSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub const IDS: [&str; 22] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"];

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C01" => c01(ctx),
        "C02" => {
            let f = |c: &Ctx, i: usize, s: &St| c.judge(i, "expand", "", &[s]);
            on_states(ctx, 1, &f);
            on_states_of(ctx, vec![raws(ctx.pick(2, 3)), towers_of_sums()], 1, &f)
        }
        "C03" => {
            let f = |c: &Ctx, i: usize, s: &St| c.judge(i, "simplify", "", &[s]);
            on_states(ctx, 1, &f);
            on_states_of(ctx, vec![raws(ctx.pick(2, 3))], 1, &f)
        }
        "C04" => c04(ctx),
        "C05" => c05(ctx),
        "C06" => c06(ctx),
        "C07" => c07(ctx),
        "C08" => on_states(ctx, 1, &|c, i, s| c.judge(i, "idempotent", "", &[s])),
        "C09" => c09(ctx),
        "C10" => c10(ctx),
        "C11" => c11(ctx),
        "C12" => c12(ctx),
        "C13" => c13(ctx),
        "C14" => c14(ctx),
        "C15" => c15(ctx),
        "C16" => {
            let f = |c: &Ctx, i: usize, s: &St| c.judge(i, "expanded", "", &[s]);
            on_states(ctx, 1, &f);
            on_states_of(ctx, vec![towers_of_sums()], 1, &f)
        }
        "C17" => c17(ctx),
        "C18" => c18(ctx),
        "C19" => c19(ctx),
        "C20" => on_states(ctx, 1, &|c, i, s| c.judge(i, "exact", "", &[s])),
        "C21" => c21(ctx),
        "C22" => c22(ctx),
        p => panic!("unknown property {}", p),
    }
}

const NONE: Watch = Watch { on_trans: None };

/// The spaces whose every state is expanded / simplified / rewritten.
/// Generated one after another, so that memory holds one at a time.
fn value_spaces(ctx: &Ctx) -> Vec<Space> {
    let mut v = vec![];
    v.push(all(3));
    v.push(reals(3));
    v.push(bigints(2));
    v.push(macros(2));
    v.push(macros_real(2));
    v.extend(wide(ctx.pick(4, 6)));
    v.push(high_powers());
    v.push(distribution());
    v.push(rat(4));
    v.push(poly(4));
    v.push(polyp(ctx.pick(3, 4)));
    v.push(names(ctx.pick(2, 3)));
    v.push(polyfrac(3));
    v.push(kinds(ctx.pick(3, 4)));
    v.push(towers(ctx.pick(4, 5)));
    v.push(magnitudes(3));
    v.push(huge_exponents());
    v.push(big_sums());
    // judges that simplify several times per state: fewer of the largest states
    let dear = ["C08", "C12", "C19", "C21"].contains(&ctx.prop.as_str()) && !ctx.thorough;
    v.push(if dear { Space { max_xs: 60.0, ..many_operands() } } else { many_operands() });
    v.push(sizes(if dear { 1 } else { 2 }));
    v.push(lookalikes(ctx.pick(2, 3)));
    v.push(twins(ctx.pick(1, 2)).nary(2));
    v.extend(sweeps());
    v.extend(long(ctx.pick(8, 12)));
    // start from states that rewriting produced
    v.push(all(2).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(polyp(3).unary(&[Un::Expand, Un::Simplify]));
    if ctx.thorough {
        v.push(deep(4));
        v.push(bigints(3));
        v.push(macros(1).nary(4));
        v.push(macros_real(1).nary(4));
        v.push(polyfrac(4));
        v.push(macros(2).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
        v.push(poly(5));
        v.push(rat(5));
    } else {
        v.push(deep(3).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
        v.push(macros(1).nary(3));
        v.push(macros_real(1).nary(2));
    }
    v
}

/// One quantity varied over a long range, everything else small.
fn sweeps() -> Vec<Space> {
    vec![literals(), real_literals(), ladders(12), labels(), coefficients(), exponents(), exponent_terms(), crowd(), powers(), tails(true), real_sizes()]
}

/// Generates the value spaces and judges every state that is inside the
/// expansion bound; states met in an earlier space are not judged again.
fn on_states(ctx: &Ctx, block: usize, f: &(dyn Fn(&Ctx, usize, &St) -> bool + Sync)) {
    on_states_of(ctx, value_spaces(ctx), block, f)
}
fn on_states_of(ctx: &Ctx, spaces: Vec<Space>, block: usize, f: &(dyn Fn(&Ctx, usize, &St) -> bool + Sync)) {
    let mut done: HashSet<String> = HashSet::new();
    for sp in spaces {
        if ctx.expired() {
            break;
        }
        let ex = explore(ctx, &sp, &NONE);
        let todo: Vec<usize> = (0..ex.states.len()).filter(|&i| ex.states[i].xs <= sp.max_xs && done.insert(ex.states[i].key())).collect();
        let bound = ex.states.iter().filter(|s| s.xs > sp.max_xs).count();
        if bound > 0 {
            ctx.count("states_beyond_expansion_bound", bound as u64);
        }
        judged_states(ctx, &ex, &todo, block, f);
    }
}
fn judged_states(ctx: &Ctx, ex: &Explored, todo: &[usize], block: usize, f: &(dyn Fn(&Ctx, usize, &St) -> bool + Sync)) {
    let n = ctx.par_count(todo.len(), block, |i| f(ctx, todo[i], &ex.states[todo[i]]));
    let mut s = ctx.stats.lock().unwrap();
    s.transitions += todo.len() as u64;
    *s.counters.entry("states_judged".into()).or_default() += n;
    ctx.trace(&format!("judged {} states", n));
    drop(s);
    ctx.phase.fetch_add(1, Ordering::Relaxed);
}

/// All pairs (i, j) of two state lists.
fn pairs(ctx: &Ctx, a: &[St], b: &[St], name: &str, param: &str) {
    // a judge that looks at both directions itself needs each unordered pair once
    let both = name == "compare" || name == "canonical-pair";
    let done = std::sync::atomic::AtomicU64::new(0);
    let n = ctx.par_count(a.len() * b.len(), 64, |k| {
        let (i, j) = (k / b.len(), k % b.len());
        if both && i > j {
            return false;
        }
        done.fetch_add(1, Ordering::Relaxed);
        ctx.judge(k, name, param, &[&a[i], &b[j]])
    });
    let mut s = ctx.stats.lock().unwrap();
    s.transitions += done.into_inner();
    *s.counters.entry(format!("{}_pairs_judged", name)).or_default() += n;
    ctx.trace(&format!("judged {} pairs {} {}", n, name, param));
    drop(s);
    ctx.phase.fetch_add(1, Ordering::Relaxed);
}

/// All multisets of `k` states.
fn bags(ctx: &Ctx, a: &[St], k: usize, name: &str, param: &str) {
    let ms = multisets(a.len(), k);
    let n = ctx.par_count(ms.len(), 16, |i| {
        let v: Vec<&St> = ms[i].iter().map(|&j| &a[j]).collect();
        ctx.judge(i, name, param, &v)
    });
    let mut s = ctx.stats.lock().unwrap();
    s.transitions += ms.len() as u64;
    *s.counters.entry(format!("{}_bags_judged", name)).or_default() += n;
    drop(s);
    ctx.phase.fetch_add(1, Ordering::Relaxed);
}

pub fn leaf_states(ctx: &Ctx, name: &str, ts: Vec<Arc<Term>>) -> Vec<St> {
    explore(ctx, &Space::new(name, ts, &[], 1).undef(), &NONE).states
}

// ---------------------------------------------------------------- C01
fn c01(ctx: &Ctx) {
    let f = |st: &St, want: &[Option<crate::eval::Ev>]| judges::same_value(ctx, "the operation", want, &st.e);
    let w = Watch { on_trans: Some(&f) };
    let mut v = vec![all(3), reals(3), bigints(ctx.pick(2, 3)), macros(2), macros_real(2)];
    v.extend(wide(ctx.pick(5, 7)));
    v.push(high_powers());
    v.push(distribution());
    v.push(names(ctx.pick(2, 3)));
    v.push(deep(ctx.pick(3, 4)));
    v.push(rat(4));
    v.push(poly(4));
    v.push(polyp(ctx.pick(3, 4)));
    v.push(polyfrac(3));
    v.push(kinds(ctx.pick(3, 4)));
    v.push(towers(ctx.pick(4, 5)));
    v.push(magnitudes(3));
    v.push(huge_exponents());
    v.push(big_sums());
    v.push(many_operands());
    v.push(sizes(2));
    v.push(lookalikes(ctx.pick(2, 3)));
    v.extend(long(ctx.pick(8, 12)));
    v.push(all(2).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(polyp(3).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(macros(1).nary(ctx.pick(3, 4)));
    v.push(macros_real(1).nary(ctx.pick(3, 4)));
    v.push(twins(ctx.pick(1, 2)).nary(2));
    v.extend(sweeps());
    v.push(towers_of_sums());
    if ctx.thorough {
        v.push(macros(2).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
        v.push(poly(5));
        v.push(rat(5));
    }
    for sp in v {
        if ctx.expired() {
            break;
        }
        explore(ctx, &sp, &w);
    }
}

// ---------------------------------------------------------------- C04
fn c04(ctx: &Ctx) {
    let f = |c: &Ctx, i: usize, s: &St| {
        let mut any = false;
        for r in judges::RULES {
            any |= c.judge(i, "rule", r, &[s]);
        }
        any
    };
    on_states_of(ctx, vec![raws(ctx.pick(2, 3))], 1, &f);
    on_states(ctx, 1, &f);
}

// ---------------------------------------------------------------- C05
fn c05(ctx: &Ctx) {
    let mut all_states: Vec<St> = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    let special = vec![
        real(f64::NAN),
        real(f64::INFINITY),
        real(f64::NEG_INFINITY),
        real(-0.0),
        real(0.0),
        real(f64::MIN_POSITIVE),
        real(1e300),
        real(-1e300),
        real(1.0),
        real(2.0),
        int(0),
        int(1),
        int(2),
        bigs("9223372036854775808"),
        bigs("-9223372036854775809"),
        bigs("18446744073709551616"),
        x(),
        y(),
        var("X"),
        var("xy"),
        var("x1"),
        var("x10"),
        var(""),
        un(Un::Sin, &x()),
        un(Un::Sin, &y()),
        un(Un::Cos, &x()),
        un(Un::Cos, &int(2)),
        un(Un::Sin, &real(0.0)),
        un(Un::Sin, &real(-0.0)),
        un(Un::Cos, &real(f64::NAN)),
        un(Un::Sin, &un(Un::Cos, &x())),
    ];
    let spaces = vec![
        Space::new("special", special, &[Op::Add, Op::Mul, Op::Pow, Op::Log], 2).undef(),
        Space { undef: true, ..all(2) },
        reals(2),
        macros(1),
        macros_real(1).nary(2),
        macros(ctx.pick(1, 2)).nary(2),
        lookalikes(2),
        Space { max_size: 1, ..labels() },
        neighbours(),
        tails(false),
        twins(1).nary(2),
        raws(1).nary(2),
        Space { max_size: 2, ..kinds(2) },
        polyp(3),
        deep(3),
        Space::new("wide", monomials(), &[], 1).nary(ctx.pick(3, 4)),
    ];
    let cap = ctx.pick(8000, 24000);
    for sp in spaces {
        for s in explore(ctx, &sp, &NONE).states {
            if seen.insert(s.key()) {
                all_states.push(s);
            }
        }
    }
    if all_states.len() > cap {
        // the bound on the matrix: states in the order they were reached, so
        // the smallest histories of every space come first
        all_states.sort_by_key(|s| s.size);
        ctx.count("states_beyond_matrix_bound", (all_states.len() - cap) as u64);
        all_states.truncate(cap);
    }
    let keys: Vec<String> = all_states.iter().map(|s| key(&s.e)).collect();
    let n = all_states.len();
    // every ordered pair, against a rebuilt copy of itself on the diagonal
    let judged = ctx.par_count(n, 4, |i| {
        let rebuilt = all_states[i].t.build();
        let rev = judges::reversed(&all_states[i].e);
        for j in 0..n {
            let (x, y) = (&all_states[i].e, &all_states[j].e);
            let case = || Case { judge: "pair-order".into(), param: String::new(), args: vec![all_states[i].t.sexp(), all_states[j].t.sexp()] };
            let r = if i == j {
                judges::pair_order(&rebuilt, &keys[i], x, &keys[i]).and_then(|_| judges::pair_order(&rev, &keys[i], x, &keys[i]))
            } else {
                judges::pair_order(x, &keys[i], y, &keys[j])
            };
            if let Err(m) = r {
                ctx.fail(i * n + j, case(), m);
                break;
            }
        }
        true
    });
    ctx.count("pairs_compared", judged * n as u64);
    ctx.stats.lock().unwrap().transitions += judged * n as u64;
    if ctx.failed() {
        return;
    }
    // transitivity over every triple: the order must agree with one ranking
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&a, &b| all_states[a].e.cmp(&all_states[b].e));
    ctx.phase.fetch_add(1, Ordering::Relaxed);
    ctx.par_count(n, 16, |i| {
        for j in i + 1..n {
            if all_states[idx[i]].e.cmp(&all_states[idx[j]].e) == std::cmp::Ordering::Greater {
                // find the third one that makes the cycle
                for k in i + 1..j + 1 {
                    let (a, b, c) = (&all_states[idx[i]], &all_states[idx[k]], &all_states[idx[j]]);
                    if a.e.cmp(&b.e) != std::cmp::Ordering::Greater && b.e.cmp(&c.e) != std::cmp::Ordering::Greater {
                        let case = Case { judge: "triple-order".into(), param: String::new(), args: vec![a.t.sexp(), b.t.sexp(), c.t.sexp()] };
                        ctx.fail(i * n + j, case, format!("{} <= {} <= {} but {} > {}", a.e, b.e, c.e, a.e, c.e));
                        return true;
                    }
                }
                let (a, c) = (&all_states[idx[i]], &all_states[idx[j]]);
                let case = Case { judge: "triple-order".into(), param: "inconsistent".into(), args: vec![a.t.sexp(), c.t.sexp()] };
                ctx.fail(i * n + j, case, format!("no ranking is consistent with the order of {} and {}", a.e, c.e));
                return true;
            }
        }
        true
    });
    ctx.count("triples_decided", (n as u64).pow(3));
}

// ---------------------------------------------------------------- C06
fn c06(ctx: &Ctx) {
    let k = ctx.pick(4, 5);
    // permutations: anything, reals included
    for (name, leaves, lim) in [
        ("permute-composite", macro_leaves(), 3),
        ("permute-real", macros_real(1).leaves, 3),
        ("permute-monomials", monomials(), k),
        ("permute-factors", factors(), k),
        ("permute-small", vec![x(), int(-1), int(2), int(3), real(2.5), real(-1.0)], k + 2 - ctx.pick(0, 1)),
        ("permute-signs", vec![x(), bin(Op::Add, &x(), &y()), int(-2), real(-2.5), bin(Op::Pow, &x(), &y()), bin(Op::Div, &int(1), &y())], 4),
        ("permute-neutral", vec![x(), int(0), int(1), real(0.0), real(1.0), int(-1), bin(Op::Div, &int(1), &int(2))], k),
    ] {
        let st = leaf_states(ctx, name, leaves);
        for s in ["sum", "prod"] {
            for n in 2..=lim + ctx.pick(0, 1) {
                bags(ctx, &st, n, "permute", s);
            }
        }
    }
    let st = explore(ctx, &all(2), &NONE).states;
    for s in ["sum", "prod"] {
        bags(ctx, &st, 2, "permute", s);
    }
    // groupings: exact operands
    for (name, leaves, lim) in [
        ("group-composite", macro_leaves(), 3),
        ("group-monomials", monomials(), ctx.pick(4, 5)),
        ("group-factors", factors(), ctx.pick(4, 5)),
        ("group-small", vec![x(), y(), int(-1), int(2), int(3), bin(Op::Div, &int(1), &int(2))], ctx.pick(4, 5)),
    ] {
        let st = leaf_states(ctx, name, leaves);
        for s in ["sum", "prod"] {
            for n in 2..=lim {
                bags(ctx, &st, n, "group", s);
            }
        }
    }
    let st = explore(ctx, &polyp(2), &NONE).states;
    for s in ["sum", "prod"] {
        bags(ctx, &st, 3, "group", s);
    }
    // the same, observed through expand and simplify
    let mut v = vec![Space::new("sums", monomials(), &[], 1).nary(ctx.pick(4, 5)), Space::new("products", factors(), &[], 1).nary(ctx.pick(3, 4)), macros(1).nary(2), macros(1).nary(3)];
    v.push(polyp(3));
    v.push(kinds(3));
    v.push(lookalikes(2));
    v.extend(long(ctx.pick(7, 10)));
    on_states_of(ctx, v, 4, &|c, i, s| c.judge(i, "reordered", "", &[s]));
}

// ---------------------------------------------------------------- C07
fn c07(ctx: &Ctx) {
    let mut v = vec![
        Space::new("sums", monomials(), &[], 1).nary(ctx.pick(4, 6)),
        Space::new("products", factors(), &[], 1).nary(ctx.pick(4, 5)),
        polyp(ctx.pick(3, 4)),
        macros(1).nary(ctx.pick(3, 4)),
        macros(2),
        macros_real(1).nary(ctx.pick(2, 3)),
        high_powers(),
        Space { nary: ctx.pick(3, 4), ..distribution() },
        all(3),
        reals(2),
        rat(ctx.pick(3, 4)),
        sizes(1),
    ];
    if ctx.thorough {
        v.extend([coefficients(), exponents(), exponent_terms(), crowd()]);
    }
    let param = ctx.pick("1 4", "2 4");
    if envhash::HOOKED {
        on_states_of(ctx, v.clone(), 1, &|c, i, s| {
            if s.xs > c.pick(80.0, 120.0) {
                return false;
            }
            c.judge(i, "hash-order", param, &[s])
        });
    } else {
        ctx.count("hook_missing", 1);
    }
    // every hash map of the run, library or not: a family of seeds
    let seeds = if envhash::HOOKED { ctx.pick("2", "16") } else { ctx.pick("8", "64") };
    let w = vec![Space::new("sums", monomials(), &[], 1).nary(ctx.pick(3, 4)), Space::new("products", factors(), &[], 1).nary(3), polyp(3), macros(1).nary(2)];
    on_states_of(ctx, w, 1, &|c, i, s| c.judge(i, "hash-seed", seeds, &[s]));
}

// ---------------------------------------------------------------- C09
fn c09(ctx: &Ctx) {
    // polynomials with exact coefficients: complete
    let p = explore(ctx, &polyfrac(ctx.pick(2, 3)), &NONE).states;
    let p: Vec<St> = p.into_iter().take(ctx.pick(400, 1500)).collect();
    pairs(ctx, &p, &p, "compare", "complete");
    let mut small = poly(3);
    if !ctx.thorough {
        small.leaves = vec![x(), y(), int(-1), int(2)];
    }
    let p3 = explore(ctx, &small, &NONE).states;
    pairs(ctx, &p3, &p3, "compare", "complete");
    // sums of monomials with any exponents
    let g = explore(ctx, &terms(2), &NONE).states;
    let g: Vec<St> = g.into_iter().filter(|s| crate::gpoly::of_term(&s.t).is_some()).take(ctx.pick(160, 900)).collect();
    pairs(ctx, &g, &g, "compare", "complete");
    // shifted by a constant
    let shifts = [bin(Op::Div, &int(1), &int(3)), int(-2), int(0), bigs("36893488147419103232")];
    let mut base = explore(ctx, &Space::new("wide", monomials(), &[], 1).nary(3), &NONE).states;
    base.extend(explore(ctx, &terms(2), &NONE).states);
    for s in &shifts {
        let moved: Vec<St> = leaf_states(ctx, "shifted", base.iter().map(|b| Arc::new(Term::Bin(Op::Add, b.t.clone(), s.clone()))).collect());
        let by_key: std::collections::HashMap<String, usize> = moved.iter().enumerate().map(|(i, m)| (m.t.sexp(), i)).collect();
        let n = ctx.par_count(base.len(), 8, |i| {
            let t = Term::Bin(Op::Add, base[i].t.clone(), s.clone()).sexp();
            match by_key.get(&t) {
                Some(&j) => ctx.judge(i, "compare", "complete", &[&base[i], &moved[j]]),
                None => false,
            }
        });
        ctx.count("shifted_pairs_judged", n);
        ctx.stats.lock().unwrap().transitions += n;
        ctx.phase.fetch_add(1, Ordering::Relaxed);
    }
    // numbers of every kind
    let mut nums = ctx.pick(vec![int(-3), int(2), int(6)], numbers(2).leaves);
    nums.extend(ctx.pick(vec![], vec![int(0), int(1), real(0.0), real(1.0), real(2.0)]));
    nums.extend(vec![
        real(-1.0),
        real(0.5),
        real(-0.25),
        real(1e18),
        bigs("9223372036854775808"),
        bigs("-9223372036854775809"),
        bigs("18446744073709551616"),
        bin(Op::Div, &int(1), &bigs("18446744073709551616")),
        bin(Op::Div, &bigs("18446744073709551617"), &bigs("18446744073709551616")),
    ]);
    let ns = explore(ctx, &Space::new("numbers", nums, &FIELD, 2), &NONE).states;
    let exact: Vec<St> = ns.into_iter().filter(|s| s.evs[0].is_some()).collect();
    pairs(ctx, &exact, &exact, "compare", "numbers");
    // anything: sound, consistent, antisymmetric
    let any = explore(ctx, &all(2), &NONE).states;
    pairs(ctx, &any, &any, "compare", "");
    let mac = explore(ctx, &macros(1).nary(ctx.pick(1, 2)), &NONE).states;
    let mac: Vec<St> = mac.into_iter().take(ctx.pick(200, 900)).collect();
    pairs(ctx, &mac, &mac, "compare", "");
    let mr = explore(ctx, &macros_real(1).nary(2), &NONE).states;
    let mr: Vec<St> = mr.into_iter().take(ctx.pick(250, 500)).collect();
    pairs(ctx, &mr, &mr, "compare", "");
    // every expression with itself
    on_states_of(ctx, vec![all(3), macros(2), reals(3), poly(4), terms(2), sizes(ctx.pick(1, 2)), literals(), real_literals(), labels(), Space::new("wide", monomials(), &[], 1).nary(4), distribution()], 4, &|c, i, s| c.judge(i, "compare-self", "", &[s]));
    // chains
    let k = ctx.pick(40, 90);
    let step = |v: &[St]| -> Vec<usize> { (0..v.len()).step_by((v.len() / k).max(1)).collect() };
    for v in [&exact, &p] {
        let ix = step(v);
        let m = ix.len();
        let n = ctx.par_count(m * m * m, 64, |i| ctx.judge(i, "compare-chain", "", &[&v[ix[i / m / m]], &v[ix[i / m % m]], &v[ix[i % m]]]));
        ctx.count("chains_judged", n);
        ctx.stats.lock().unwrap().transitions += (m * m * m) as u64;
        ctx.phase.fetch_add(1, Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------- C10
pub fn edge_integers() -> Vec<Arc<Term>> {
    let mut v: Vec<num::BigInt> = (-13..=13).map(num::BigInt::from).collect();
    for k in [4u32, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 96, 127, 128, 200] {
        let p = num::BigInt::from(1) << (k as usize);
        for d in [-1, 0, 1] {
            v.push(&p + num::BigInt::from(d));
            v.push(-(&p + num::BigInt::from(d)));
        }
    }
    for s in ["1000000007", "999999999999999999999999", "-123456789012345678901234567890", "600851475143", "2305843009213693951", "-2147483648"] {
        v.push(s.parse().unwrap());
    }
    v.sort_by_key(|n| (n.bits(), n.clone()));
    v.dedup();
    v.into_iter().map(|n| Arc::new(Term::Int(n))).collect()
}
fn c10(ctx: &Ctx) {
    let e = leaf_states(ctx, "edge-integers", edge_integers());
    for op in ["add", "sub", "mul", "div", "rem", "gcd", "lcm", "cmp", "unary"] {
        pairs(ctx, &e, &e, "int-op", op);
    }
    let exps = leaf_states(ctx, "exponents", (-3..=ctx.pick(20, 80)).map(int).collect());
    pairs(ctx, &e, &exps, "int-op", "pow");
    let small_bases = leaf_states(ctx, "small-bases", (-4..=4).chain([10, -10]).map(int).collect());
    let large_exps = leaf_states(ctx, "large-exponents", [31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024].map(int).to_vec());
    pairs(ctx, &small_bases, &large_exps, "int-op", "pow");
    pairs(ctx, &small_bases, &large_exps, "int-power", "");
    let units = leaf_states(ctx, "units", vec![int(0), int(1), int(-1)]);
    pairs(ctx, &units, &e, "int-op", "pow");
    pairs(ctx, &units, &e, "int-power", "");
    // small squares
    let n = ctx.pick(60, 300);
    let small = leaf_states(ctx, "small-integers", (-n..=n).map(int).collect());
    for op in ["add", "sub", "mul", "div", "rem", "gcd", "lcm"] {
        pairs(ctx, &small, &small, "int-op", op);
    }
    // integer arithmetic through expressions
    let m: Vec<usize> = (0..e.len()).step_by(ctx.pick(4, 2)).collect();
    let k = m.len();
    for o1 in ["add", "sub", "mul", "div"] {
        pairs(ctx, &e, &e, "int-expr", o1);
        for o2 in ["add", "sub", "mul", "div"] {
            let param = format!("{} {}", o1, o2);
            let n = ctx.par_count(k * k * k, 64, |i| ctx.judge(i, "int-expr", &param, &[&e[m[i / k / k]], &e[m[i / k % k]], &e[m[i % k]]]));
            ctx.count("integer_triples_judged", n);
            ctx.stats.lock().unwrap().transitions += (k * k * k) as u64;
            ctx.phase.fetch_add(1, Ordering::Relaxed);
        }
    }
    // powers and logarithms of integers
    let b = leaf_states(ctx, "bases", edge_integers().into_iter().step_by(2).collect());
    pairs(ctx, &b, &exps, "int-power", "");
}

// ---------------------------------------------------------------- C11
fn c11(ctx: &Ctx) {
    let lim = ctx.pick(9, 14);
    let nums: Vec<Arc<Term>> = (-(lim as i64)..=lim as i64).map(int).chain([bigs("9223372036854775808"), bigs("-36893488147419103232")]).collect();
    let dens: Vec<Arc<Term>> = (-(lim as i64)..=lim as i64).filter(|&d| d != 0).map(int).chain([bigs("18446744073709551616")]).collect();
    let ns = leaf_states(ctx, "numerators", nums);
    let ds = leaf_states(ctx, "denominators", dens);
    let (a, b) = (ns.len(), ds.len());
    for op in ["from", "eq", "add", "sub", "mul", "div"] {
        let total = a * b * a * b;
        let n = ctx.par_count(if op == "from" { a * b } else { total }, 128, |i| {
            let (l, r) = (i % (a * b), i / (a * b));
            ctx.judge(i, "rational-op", op, &[&ns[l / b], &ds[l % b], &ns[r / b], &ds[r % b]])
        });
        ctx.count("rational_tuples_judged", n);
        ctx.stats.lock().unwrap().transitions += n;
        ctx.phase.fetch_add(1, Ordering::Relaxed);
    }
    // one division builds the canonical fraction
    let k = ctx.pick(60, 250);
    let small = leaf_states(ctx, "small-integers", (-k..=k).map(int).collect());
    pairs(ctx, &small, &small, "const", "");
    let e = leaf_states(ctx, "edge-integers", edge_integers());
    pairs(ctx, &e, &e, "const", "");
    // histories over numbers
    let mut v = vec![numbers(4)];
    v.push(Space::new("number-sums", vec![int(1), bin(Op::Div, &int(1), &int(2)), bin(Op::Div, &int(-1), &int(3)), bin(Op::Div, &int(5), &int(6)), bin(Op::Div, &int(3), &int(4)), bin(Op::Div, &int(-7), &int(12))], &FIELD, 2).nary(ctx.pick(5, 7)));
    v.push(Space::new("number-powers", vec![int(-2), int(3), bin(Op::Div, &int(2), &int(3)), bin(Op::Div, &int(-1), &int(2)), int(-1), int(2)], &[Op::Add, Op::Mul, Op::Div, Op::Pow], 3));
    v.push(Space::new("number-big", vec![bigs("9223372036854775808"), bigs("-18446744073709551617"), int(6), int(-4), bin(Op::Div, &int(1), &bigs("9223372036854775807"))], &FIELD, 3));
    v.push(Space::new("number-products", vec![int(-2), int(4), bin(Op::Div, &int(1), &int(2)), bin(Op::Div, &int(1), &int(3)), bin(Op::Div, &int(-2), &int(3)), bin(Op::Div, &int(5), &bigs("18446744073709551616"))], &[], 1).nary(ctx.pick(6, 8)));
    on_states_of(ctx, v, 8, &|c, i, s| {
        let a = c.judge(i, "rational-expr", "", &[s]);
        let b = c.judge(i, "rational-read", "", &[s]);
        a || b
    });
}

// ---------------------------------------------------------------- C12
fn c12(ctx: &Ctx) {
    let mut v = vec![];
    for sp in value_spaces(ctx) {
        v.push(Space { undef: sp.max_size <= 2 || sp.leaves.len() <= 3, ..sp });
    }
    v.push(Space { undef: true, ..all(ctx.pick(2, 3)) });
    v.push(Space { undef: true, ..reals(2) });
    v.push(raws(ctx.pick(2, 3)));
    let extremes = vec![
        x(),
        real(f64::NAN),
        real(f64::INFINITY),
        real(f64::NEG_INFINITY),
        real(-0.0),
        real(1e308),
        real(5e-324),
        int(3),
        int(-1),
        bigs("36893488147419103232"),
        bin(Op::Div, &int(1), &int(3)),
        bigs(&format!("1{}", "0".repeat(400))),
    ];
    let ext = Space::new("extremes", extremes, &[Op::Add, Op::Sub, Op::Mul, Op::Log], 2).undef();
    v.push(ext.clone());
    v.push(beyond());
    on_states_of(ctx, v, 1, &|c, i, s| c.judge(i, "total", "", &[s]));
    let mut ps = explore(ctx, &Space { undef: true, ..macros(1) }, &NONE).states;
    ps.extend(explore(ctx, &Space { undef: true, ..macros_real(1) }, &NONE).states);
    ps.extend(explore(ctx, &Space { max_size: 1, ..ext }, &NONE).states);
    ps.extend(explore(ctx, &bigints(1), &NONE).states);
    pairs(ctx, &ps, &ps, "total-pair", "");
}

// ---------------------------------------------------------------- C13
fn c13(ctx: &Ctx) {
    let labels: Vec<Arc<Term>> = ["x", "x0", "x10", "x_1", "alpha", "Alpha", "pow", "sin", "e", "E2"].iter().map(|n| var(n)).chain([int(2), int(-1)]).collect();
    let trig: Vec<Arc<Term>> = vec![x(), un(Un::Sin, &x()), un(Un::Cos, &bin(Op::Add, &x(), &int(1))), un(Un::Sin, &un(Un::Cos, &y())), int(-2), real(0.5), bin(Op::Div, &int(1), &int(2))];
    let mut v = vec![Space::new("trig", trig, &ALL_OPS, ctx.pick(2, 3)).unary(&[Un::Sin, Un::Cos]), Space::new("labels", labels, &ALL_OPS, 2).undef(), raws(2), names(3), macros(2), macros_real(2), all(3), reals(3), bigints(ctx.pick(2, 3)), rat(4), polyp(ctx.pick(3, 4)), high_powers(), distribution()];
    v.extend(wide(ctx.pick(4, 6)));
    v.push(polyp(3).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(kinds(3));
    v.push(towers(ctx.pick(4, 5)));
    v.push(magnitudes(3));
    v.push(huge_exponents());
    v.push(big_sums());
    v.push(many_operands());
    v.push(sizes(1));
    v.push(lookalikes(ctx.pick(2, 3)));
    v.extend(long(ctx.pick(8, 12)));
    v.extend(sweeps());
    v.push(Space::new("odd-reals", vec![x(), real(1e300), real(-2.5e-7), real(3.0), real(-1.0), real(0.1), int(3)], &RINGP, 2));
    on_states_of(ctx, v, 8, &|c, i, s| c.judge(i, "display", "", &[s]));
}

// ---------------------------------------------------------------- C21
fn c21(ctx: &Ctx) {
    // names that mean something elsewhere, and every letter
    let mut names: Vec<String> = ('a'..='z').chain('A'..='Z').map(|c| c.to_string()).collect();
    names.extend(
        [
            "pi", "PI", "Pi", "\u{3c0}", "tau", "phi", "inf", "infinity", "nan", "NaN", "zero", "one", "two", "true", "null", "sin", "cos", "log", "ln", "exp", "pow", "x0", "x1", "x2", "x10", "x'", "0", "1", "2",
            "10", "-1", "1.5", "1e3", "\\e", "\\s", "x\\sy", "+", "*", "-", "/", "^", "_", "__", "-x", "x+y", "alpha", "theta", "\u{3b8}", "\u{e9}", "var", "variable", "tmp", "P", "delta", "dx", "xx", "aa", "ab", "long_name_of_a_variable",
            "LongNameOfAVariable",
        ]
        .map(String::from),
    );
    let mut small: Vec<St> = vec![];
    let mut done: HashSet<String> = HashSet::new();
    for sp in [raws(1), macros(1), all(2), twins(1), lookalikes(1), Space::new("few-monomials", monomials(), &[], 1).nary(2), macros(1).nary(2), Space { max_size: 1, ..kinds(1) }, ladders(2)] {
        for s in explore(ctx, &sp, &NONE).states {
            if done.insert(s.key()) {
                small.push(s);
            }
        }
    }
    let mut params: Vec<String> = vec![];
    for n in &names {
        params.extend([(n.as_str(), "y"), ("x", n.as_str())].iter().filter(|(a, b)| a != b).map(|(a, b)| format!("{} {}", a, b)));
    }
    let some: Vec<String> = names.iter().filter(|n| n.len() != 1 || "aexyzAXi".contains(n.as_str())).cloned().collect();
    sweep(ctx, &small, &params);
    // pairs of names
    let mut pairs: Vec<String> = vec![];
    for a in &some {
        for b in &some {
            if a != b {
                pairs.push(format!("{} {}", a, b));
            }
        }
    }
    let step = (small.len() / ctx.pick(24, 200)).max(1);
    let few: Vec<St> = small.into_iter().step_by(step).collect();
    sweep(ctx, &few, &pairs);
    on_states(ctx, 1, &|c, i, s| c.judge(i, "renamed", "", &[s]));
}
fn sweep(ctx: &Ctx, states: &[St], params: &[String]) {
    let n = ctx.par_count(states.len() * params.len(), 64, |k| ctx.judge(k, "named", &params[k % params.len()], &[&states[k / params.len()]]));
    ctx.count("renamings_judged", n);
    ctx.stats.lock().unwrap().transitions += n;
    ctx.trace(&format!("judged {} renamings of {} states", n, states.len()));
    ctx.phase.fetch_add(1, Ordering::Relaxed);
}

// ---------------------------------------------------------------- C14
fn c14(ctx: &Ctx) {
    let mut l = macro_leaves();
    l.extend(vec![int(0), int(1), real(2.5), real(-1.0), real(0.0), un(Un::Sin, &x()), un(Un::Cos, &y()), bin(Op::Pow, &int(2), &int(-1)), bin(Op::Pow, &real(2.0), &x()), real(f64::NAN), real(f64::INFINITY), real(-0.0), bigs("-18446744073709551617")]);
    // products of several fractions, alone and with something else
    let fr = |a: i64, b: i64| bin(Op::Div, &int(a), &int(b));
    l.push(prod(&[fr(1, 2), fr(1, 3)]));
    l.push(prod(&[fr(2, 3), fr(1, 5), fr(3, 7)]));
    l.push(prod(&[fr(2, 3), fr(1, 5), fr(3, 7), fr(1, 11)]));
    l.push(prod(&[fr(2, 3), fr(1, 5), fr(3, 7), x()]));
    l.push(prod(&[fr(1, 2), fr(1, 3), real(1.5)]));
    let st = leaf_states(ctx, "items", l);
    for n in 0..=3 {
        bags(ctx, &st, n, "assoc", "");
    }
    let small = leaf_states(
        ctx,
        "few-items",
        vec![x(), int(2), int(-3), bin(Op::Div, &int(1), &int(2)), bin(Op::Div, &int(-2), &int(3)), real(2.5), bin(Op::Div, &x(), &int(2)), bin(Op::Pow, &x(), &int(-1)), bin(Op::Add, &x(), &y())],
    );
    for n in 4..=ctx.pick(5, 7) {
        bags(ctx, &small, n, "assoc", "");
    }
    let few = leaf_states(ctx, "three-items", vec![x(), int(2), bin(Op::Div, &int(1), &int(2)), real(2.5)]);
    for n in 6..=ctx.pick(10, 16) {
        bags(ctx, &few, n, "assoc", "");
    }
    // the items of every sum and product that can be reached
    on_states_of(ctx, {
        let mut v = vec![all(3), reals(3), macros(2), rat(4), polyp(3), kinds(3), lookalikes(2), magnitudes(2)];
        v.extend(long(ctx.pick(8, 12)));
        v
    }, 8, &|c, i, s| c.judge(i, "assoc-state", "", &[s]));
}

// ---------------------------------------------------------------- C15
fn c15(ctx: &Ctx) {
    let mac = explore(ctx, &macros(1), &NONE).states;
    let mr = explore(ctx, &macros_real(1), &NONE).states;
    let al = explore(ctx, &all(2), &NONE).states;
    let rl = explore(ctx, &reals(2), &NONE).states;
    let bg = explore(ctx, &bigints(1), &NONE).states;
    let sz = explore(ctx, &sizes(1), &NONE).states;
    let al2: Vec<St> = al.into_iter().take(ctx.pick(160, 400)).collect();
    let rl2: Vec<St> = rl.into_iter().take(ctx.pick(160, 400)).collect();
    for v in [&mac, &mr, &bg, &al2, &rl2, &sz] {
        for op in ALL_OPS {
            let n = ctx.par_count(v.len() * v.len(), 64, |k| {
                let (a, b) = (&v[k / v.len()], &v[k % v.len()]);
                let sp = Space::new("", vec![], &ALL_OPS, 2);
                match transition(op, a, b, &ctx.pts, &sp) {
                    Some(_) => ctx.judge(k, "forms", op.name(), &[a, b]),
                    None => false,
                }
            });
            ctx.count("operator_form_pairs_judged", n);
            ctx.stats.lock().unwrap().transitions += n;
            ctx.phase.fetch_add(1, Ordering::Relaxed);
        }
    }
    let mut nums = edge_integers();
    nums.extend([0.0, -0.0, 1.0, -1.0, 2.5, -0.5, 1e300, -1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].iter().map(|&r| real(r)));
    let ns = leaf_states(ctx, "numbers", nums);
    pairs(ctx, &ns, &ns, "symbol-forms", "");
    pairs(ctx, &ns, &ns, "real-op", "");
}

// ---------------------------------------------------------------- C17
fn c17(ctx: &Ctx) {
    let mut v = vec![Space::new("sums", monomials(), &[], 1).nary(ctx.pick(5, 7)), polyfrac(3), poly(4), names(3), polyp(ctx.pick(3, 4)), distribution(), high_powers()];
    let many: Vec<Arc<Term>> = ["a", "b", "c", "x", "y", "z"].iter().map(|n| var(n)).chain([int(-2), bin(Op::Div, &int(1), &int(2)), bin(Op::Mul, &var("a"), &var("b"))]).collect();
    v.push(Space::new("many-variables", many.clone(), &RING, 2).nary(ctx.pick(4, 5)));
    v.push(Space::new("big-coefficients", vec![x(), y(), bigs("9223372036854775807"), bigs("-18446744073709551616"), bin(Op::Div, &int(1), &bigs("4294967296")), int(-1)], &RING, 3));
    v.push(polyfrac(2).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(Space::new("magnitudes", vec![x(), y(), int(12), int(-21), int(100), int(257), int(-1000), int(65536), int(9007199254740993)], &RING, 3));
    v.push(sizes(2));
    v.push(many_operands());
    v.extend(sweeps());
    v.extend(long(ctx.pick(8, 12)));
    if ctx.thorough {
        v.push(poly(5));
        v.push(polyfrac(4));
    }
    on_states_of(ctx, v, 4, &|c, i, s| c.judge(i, "canonical", "", &[s]));
    let p = explore(ctx, &poly(3), &NONE).states;
    let k = p.len().min(ctx.pick(500, 3000));
    pairs(ctx, &p[..k], &p[..k], "canonical-pair", "");
}

// ---------------------------------------------------------------- C22
fn c22(ctx: &Ctx) {
    let f = |c: &Ctx, i: usize, s: &St| c.judge(i, "collected", "", &[s]);
    let mut v = vec![terms(3), terms(1).nary(ctx.pick(4, 5)), terms(2).unary(&[Un::Neg, Un::Expand, Un::Simplify])];
    if ctx.thorough {
        v.push(terms(4));
    }
    on_states_of(ctx, v, 4, &f);
    on_states(ctx, 1, &f);
}

// ---------------------------------------------------------------- C18
fn c18(ctx: &Ctx) {
    let mut v = vec![all(3), reals(3), bigints(2), macros(2), macros_real(2), rat(4), poly(4), polyp(ctx.pick(3, 4)), high_powers(), names(ctx.pick(2, 3))];
    v.extend(wide(ctx.pick(4, 6)));
    v.push(polyp(3).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(all(2).unary(&[Un::Neg, Un::Expand, Un::Simplify]));
    v.push(kinds(3));
    v.push(towers(ctx.pick(4, 5)));
    v.push(magnitudes(3));
    v.push(huge_exponents());
    v.push(big_sums());
    v.push(many_operands());
    v.push(sizes(2));
    v.push(lookalikes(ctx.pick(2, 3)));
    v.extend(long(ctx.pick(8, 12)));
    v.push(macros(1).nary(ctx.pick(3, 4)));
    v.extend(sweeps());
    // neutral and absorbing operands anywhere in a list
    v.push(Space::new("neutral-lists", vec![x(), y(), int(0), int(1), int(-1), int(2), bin(Op::Add, &x(), &int(1)), bin(Op::Mul, &int(2), &x()), bin(Op::Div, &int(1), &int(2))], &[], 1).nary(ctx.pick(5, 6)));
    on_states_of(ctx, v, 8, &|c, i, s| {
        let a = c.judge(i, "shape", "", &[s]);
        let b = c.judge(i, "identity", "", &[s]);
        a || b
    });
    let m = explore(ctx, &macros(1), &NONE).states;
    let al: Vec<St> = explore(ctx, &all(2), &NONE).states.into_iter().take(ctx.pick(150, 400)).collect();
    for w in [&m, &al] {
        let n = ctx.par_count(w.len() * w.len(), 16, |k| {
            let (a, b) = (&w[k / w.len()], &w[k % w.len()]);
            let sp = Space::new("", vec![], &ALL_OPS, 2);
            if transition(Op::Pow, a, b, &ctx.pts, &sp).is_none() {
                return false;
            }
            ctx.judge(k, "identity-pair", "", &[a, b])
        });
        ctx.count("identity_pairs_judged", n);
        ctx.stats.lock().unwrap().transitions += n;
        ctx.phase.fetch_add(1, Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------- C19
fn c19(ctx: &Ctx) {
    on_states(ctx, 1, &|c, i, s| c.judge(i, "parts", "", &[s]));
    let mut v = vec![poly(ctx.pick(3, 4)), polyfrac(3), Space::new("wide-sums", monomials(), &[], 1).nary(ctx.pick(4, 6))];
    v.push(Space::new("many-variables", ["a", "b", "x", "y", "z"].iter().map(|n| var(n)).chain([int(-2), bin(Op::Div, &int(1), &int(2))]).collect(), &RING, 2).nary(3));
    on_states_of(ctx, v, 1, &|c, i, s| c.judge(i, "congruent", "", &[s]));
}
