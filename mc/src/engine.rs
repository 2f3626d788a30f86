//! The exploration engine: explicit-state search over the expressions that the
//! library's public operations can reach, with every transition executed on the
//! real code.
use crate::eval::*;
use crate::term::*;
use ncas::base::expression::Expression;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

pub const SLOT: u64 = 1 << 16;
pub const MAX_SLOTS: usize = 64;
const STACK: usize = 256 << 20;

/// One reached state: a real expression, the API history that built it, and its
/// reference values.
pub struct St {
    pub e: Expression,
    pub t: Arc<Term>,
    pub evs: Vec<Option<Ev>>,
    pub size: usize,
    pub xs: f64,
    /// see `is_stray`
    pub strays: bool,
}
fn holds_real(e: &Expression) -> bool {
    match e {
        Expression::Real(_) => true,
        Expression::Addition(c) | Expression::Multiplication(c) => c.items().iter().any(holds_real),
        Expression::Power(p) | Expression::Logarithm(p) => holds_real(&p.argument()) || holds_real(&p.modifier()),
        Expression::Sine(o) | Expression::Cossine(o) => holds_real(&o.argument()),
        _ => false,
    }
}
impl St {
    pub fn new(e: Expression, t: Arc<Term>, size: usize, pts: &[Point]) -> St {
        let evs = pts.iter().map(|p| ev(&e, p, false)).collect();
        let xs = expansion_size(&e);
        let mut st = St { e, t, evs, size, xs, strays: false };
        st.strays = st.is_stray(pts);
        st
    }
    /// The expression is not what its history says: another value, or a machine real out of exact
    /// numbers.  Never on sound code; on broken code such a state must not be merged with the state
    /// that rightly is this expression, because judges compare with the history.
    fn is_stray(&self, pts: &[Point]) -> bool {
        if holds_real(&self.e) && !self.t.has_real() {
            return true;
        }
        for (p, v) in pts.iter().zip(&self.evs) {
            if let Some(v) = v {
                let (a, b) = (v.v.f(), self.t.approx(p));
                return a.is_finite() && b.is_finite() && v.scale.is_finite() && (a - b).abs() > 1e-6 * a.abs().max(b.abs()).max(v.scale);
            }
        }
        false
    }
    pub fn key(&self) -> String {
        if self.strays {
            format!("{} from {}", state_key(&self.e), self.t.sexp())
        } else {
            state_key(&self.e)
        }
    }
    pub fn defined(&self) -> bool {
        self.evs.iter().any(|v| v.is_some())
    }
}

pub enum Verdict {
    Pass,
    Skip(&'static str),
    Fail(String),
}

/// Everything needed to run one judged case again.
#[derive(Clone, Debug)]
pub struct Case {
    pub judge: String,
    pub param: String,
    pub args: Vec<String>,
}
impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("judge {}\nparam {}\n", self.judge, self.param);
        for a in &self.args {
            s.push_str(&format!("arg {}\n", a));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut c = Case { judge: String::new(), param: String::new(), args: vec![] };
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("judge ") {
                c.judge = r.to_string();
            } else if let Some(r) = l.strip_prefix("param") {
                c.param = r.trim_start().to_string();
            } else if let Some(r) = l.strip_prefix("arg ") {
                c.args.push(r.to_string());
            }
        }
        if c.judge.is_empty() {
            None
        } else {
            Some(c)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub order: (usize, usize),
    pub case: Case,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub judged: u64,
    pub out_of_domain: u64,
    pub spaces: Vec<String>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub outcomes: HashSet<u64>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub start: Instant,
    pub deadline: Instant,
    pub capped: AtomicBool,
    pub slots: Option<File>,
    pub threads: usize,
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<Violation>>,
    pub phase: AtomicUsize,
    pub pts: Vec<Point>,
}

thread_local! {
    pub static SLOT_ID: Cell<usize> = Cell::new(0);
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// Points at which values are compared.
pub fn points() -> Vec<Point> {
    let rows: [[(i64, i64); 3]; 5] = [
        [(2, 1), (3, 1), (5, 1)],
        [(5, 1), (2, 1), (3, 4)],
        [(3, 2), (7, 3), (2, 1)],
        [(-3, 1), (4, 1), (-7, 2)],
        [(1, 3), (-1, 2), (7, 1)],
    ];
    let names = [["x", "y", "z"], ["a", "b", "c"], ["xy", "x1", "Z"]];
    let mut more = crate::spaces::LABELS.to_vec();
    more.extend(["d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"]);
    more.retain(|n| !names.iter().flatten().any(|m| m == n));
    rows.iter()
        .map(|r| {
            let mut p: Point = vec![];
            for (g, ns) in names.iter().enumerate() {
                for (i, n) in ns.iter().enumerate() {
                    let (a, b) = r[i];
                    let v = q(a, b) + q(g as i64 * 11, 7);
                    p.push((n.to_string(), v));
                }
            }
            for (i, n) in more.iter().enumerate() {
                let (a, b) = r[i % 3];
                p.push((n.to_string(), q(a, b) + q(i as i64 + 1, 13)));
            }
            p
        })
        .collect()
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, slots: Option<File>) -> Ctx {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, MAX_SLOTS - 1);
        let budget = if thorough { 3600 * 3 } else { 420 };
        let budget = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(budget);
        Ctx {
            prop: prop.to_string(),
            thorough,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(budget),
            capped: AtomicBool::new(false),
            slots,
            threads,
            stats: Mutex::new(Stats::default()),
            violations: Mutex::new(vec![]),
            phase: AtomicUsize::new(0),
            pts: points(),
        }
    }

    /// quick bound / thorough bound
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn expired(&self) -> bool {
        if Instant::now() > self.deadline {
            self.capped.store(true, Ordering::Relaxed);
            true
        } else {
            false
        }
    }

    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// progress on stderr when asked for
    pub fn trace(&self, what: &str) {
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("[{:7.2}] {}", self.start.elapsed().as_secs_f64(), what);
        }
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.stats.lock().unwrap().counters.entry(name.to_string()).or_default() += n;
    }

    pub fn sample(&self, s: String) {
        let mut st = self.stats.lock().unwrap();
        if st.samples.len() < 24 {
            st.samples.push(s);
        }
    }

    /// Records the case about to run, so that a crash or a hang can be traced
    /// back to it from outside.
    pub fn enter(&self, case: &Case) {
        if let Some(f) = &self.slots {
            let id = SLOT_ID.with(|s| s.get());
            let body = case.text();
            let mut buf = format!("{} {}\n", now_ms(), body.len()).into_bytes();
            buf.extend_from_slice(body.as_bytes());
            buf.truncate(SLOT as usize - 1);
            buf.push(0);
            let _ = f.write_all_at(&buf, id as u64 * SLOT);
        }
    }
    pub fn leave(&self) {
        if let Some(f) = &self.slots {
            let id = SLOT_ID.with(|s| s.get());
            let _ = f.write_all_at(b"0 0\n\0", id as u64 * SLOT);
        }
    }

    /// Runs `f` as the judged case `case`; a panic is a failure.
    pub fn guard<R>(&self, case: &Case, f: impl FnOnce() -> R) -> Result<R, String> {
        self.enter(case);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.leave();
        r.map_err(|_| format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))
    }

    pub fn fail(&self, ord: usize, case: Case, msg: String) {
        let order = (self.phase.load(Ordering::Relaxed), ord);
        self.violations.lock().unwrap().push(Violation { order, case, msg });
    }

    /// Runs a registered judge on states.
    pub fn judge(&self, ord: usize, name: &str, param: &str, args: &[&St]) -> bool {
        let case = Case { judge: name.to_string(), param: param.to_string(), args: args.iter().map(|s| s.t.sexp()).collect() };
        let f = crate::judges::lookup(name);
        match self.guard(&case, || f(self, args, param)) {
            Ok(Verdict::Pass) => true,
            Ok(Verdict::Skip(_)) => false,
            Ok(Verdict::Fail(m)) => {
                self.fail(ord, case, m);
                true
            }
            Err(m) => {
                self.fail(ord, case, m);
                true
            }
        }
    }

    /// Parallel loop over 0..n in blocks; stops early when the phase has
    /// failed a lot or the deadline has passed.
    pub fn par<R: Send>(&self, n: usize, block: usize, f: impl Fn(usize, &mut Vec<R>) + Sync) -> Vec<R> {
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, Vec<R>)>> = Mutex::new(vec![]);
        let nv = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for id in 0..self.threads {
                let (next, out, f, nv) = (&next, &out, &f, &nv);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        SLOT_ID.with(|s| s.set(id));
                        crate::envhash::thread_init();
                        loop {
                            let b = next.fetch_add(1, Ordering::Relaxed);
                            let lo = b * block;
                            if lo >= n {
                                break;
                            }
                            if self.expired() || nv.load(Ordering::Relaxed) > 200 {
                                break;
                            }
                            let mut v = vec![];
                            for i in lo..(lo + block).min(n) {
                                f(i, &mut v);
                            }
                            if !v.is_empty() {
                                out.lock().unwrap().push((b, v));
                            }
                            if b % 16 == 0 {
                                nv.store(self.violations.lock().unwrap().len() as u64, Ordering::Relaxed);
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        let mut o = out.into_inner().unwrap();
        o.sort_by_key(|x| x.0);
        o.into_iter().flat_map(|x| x.1).collect()
    }

    /// Same, collecting nothing; returns how many calls said "judged".
    pub fn par_count(&self, n: usize, block: usize, f: impl Fn(usize) -> bool + Sync) -> u64 {
        let c = AtomicU64::new(0);
        self.par(n, block, |i, _: &mut Vec<()>| {
            if f(i) {
                c.fetch_add(1, Ordering::Relaxed);
            }
        });
        let c = c.into_inner();
        self.stats.lock().unwrap().judged += c;
        c
    }
}

// ------------------------------------------------------------------ //
//  Reference result of a transition                                   //
// ------------------------------------------------------------------ //

pub fn want_bin(op: Op, a: &St, b: &St, i: usize) -> Option<Ev> {
    let (x, y) = (a.evs[i].as_ref()?, b.evs[i].as_ref()?);
    match op {
        Op::Add => add(x, y),
        Op::Sub => add(x, &neg(y)),
        Op::Mul => mul(x, y),
        Op::Div => div(x, y),
        Op::Pow => pow(x, y, is_pos_int_literal(&b.e), false),
        Op::Log => log(x, y),
    }
}

/// Static guard against results too large to handle (tower powers).
pub fn pow_bounded(b: &Expression, e: &Expression) -> bool {
    // no digits grow out of these
    if matches!(b, Expression::Real(_) | Expression::Variable(_) | Expression::Logarithm(_) | Expression::Sine(_) | Expression::Cossine(_)) {
        return true;
    }
    let bits = int_bits(b);
    let k = max_int(e);
    let inner = match b {
        Expression::Power(p) => max_int(&p.modifier()),
        Expression::Multiplication(m) => m
            .items()
            .iter()
            .map(|f| match f {
                Expression::Power(p) => max_int(&p.modifier()),
                _ => 1.0,
            })
            .fold(1.0, f64::max),
        _ => 1.0,
    };
    bits * k * inner <= MAX_BITS as f64
}

/// Reference values of a transition and whether it is inside the explored
/// space: None when nothing can be said about it anywhere.
pub fn transition(op: Op, a: &St, b: &St, pts: &[Point], sp: &Space) -> Option<Vec<Option<Ev>>> {
    if matches!(op, Op::Pow | Op::Log) && nodes(&a.e) + nodes(&b.e) > sp.max_pow_nodes {
        return None;
    }
    if op == Op::Pow && !pow_bounded(&a.e, &b.e) {
        return None;
    }
    let want: Vec<Option<Ev>> = (0..pts.len()).map(|i| want_bin(op, a, b, i)).collect();
    if want.iter().all(|w| w.is_none()) {
        if !sp.undef {
            return None;
        }
        // division by zero is outside every property's domain
        if op == Op::Div && b.evs.iter().all(|v| v.as_ref().map(|v| v.v.is_zero()).unwrap_or(true)) {
            return None;
        }
        if is_zero_div(op, b) {
            return None;
        }
    }
    Some(want)
}
fn is_zero_div(op: Op, b: &St) -> bool {
    op == Op::Div && matches!(&b.e, Expression::Integer(n) if n.data == num::BigInt::from(0))
}

// ------------------------------------------------------------------ //
//  Spaces                                                             //
// ------------------------------------------------------------------ //

#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub leaves: Vec<Arc<Term>>,
    pub ops: Vec<Op>,
    pub max_size: usize,
    /// also close every level under these
    pub unary: Vec<Un>,
    /// n-ary constructors over multisets of leaves up to this arity
    pub nary: usize,
    /// keep states whose value is undefined everywhere
    pub undef: bool,
    pub max_pow_nodes: usize,
    /// states whose full expansion has more summands than this are reached but
    /// not expanded or simplified
    pub max_xs: f64,
    /// from this size on, one of the two operands is one of the first
    /// `partners` leaves (0: any two states combine at every size)
    pub linear_from: usize,
    pub partners: usize,
}

impl Space {
    pub fn new(name: &str, leaves: Vec<Arc<Term>>, ops: &[Op], max_size: usize) -> Space {
        Space {
            name: name.into(),
            leaves,
            ops: ops.to_vec(),
            max_size,
            unary: vec![],
            nary: 0,
            undef: false,
            max_pow_nodes: 16,
            max_xs: 300.0,
            linear_from: 0,
            partners: 0,
        }
    }
    pub fn linear(mut self, from: usize, partners: usize) -> Space {
        self.linear_from = from;
        self.partners = partners;
        self
    }
    pub fn unary(mut self, u: &[Un]) -> Space {
        self.unary = u.to_vec();
        self
    }
    pub fn nary(mut self, n: usize) -> Space {
        self.nary = n;
        self
    }
    pub fn undef(mut self) -> Space {
        self.undef = true;
        self
    }
}

/// Multisets of size k over 0..n, as sorted index vectors.
pub fn multisets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, lo: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in lo..n {
            cur.push(i);
            go(n, k - 1, i, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    out
}

/// Every multiset in several orders: all of them up to three operands, beyond
/// that as it is, reversed and rotated.
fn ordered(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for m in multisets(n, k) {
        let mut rev = m.clone();
        rev.reverse();
        let mut o = vec![m.clone(), rev];
        for r in 1..k.min(if k <= 3 { 3 } else { 2 }) {
            let mut a = m.clone();
            a.rotate_left(r);
            o.push(a.clone());
            if k <= 3 {
                a.reverse();
                o.push(a);
            }
        }
        o.sort();
        o.dedup();
        out.extend(o);
    }
    out
}

pub struct Explored {
    pub states: Vec<St>,
}

/// What to check while a space is generated.
pub struct Watch<'a> {
    /// called on every transition with its reference values and result
    pub on_trans: Option<&'a (dyn Fn(&St, &[Option<Ev>]) -> Verdict + Sync)>,
}

struct New {
    k: String,
    st: St,
}

/// Generates every state of the space, level by level (level = number of
/// leaves in the history).  Transitions are executed on the real code and, if
/// asked, judged.  Deduplication is by the harness's own canonical key.
pub fn explore(ctx: &Ctx, sp: &Space, watch: &Watch) -> Explored {
    let pts = &ctx.pts;
    let mut seen: HashSet<String> = HashSet::new();
    let mut states: Vec<St> = vec![];
    // level k occupies states[bounds[k-1]..bounds[k]]
    let mut bounds = vec![0usize];
    let mut transitions = 0u64;
    let mut skipped = 0u64;
    let mut judged = 0u64;
    let mut ord_base = 0usize;

    let keep = |st: &St| sp.undef || st.defined();
    let verdict = |ord: usize, name: &str, param: &str, args: &[&Arc<Term>], want: &[Option<Ev>], st: &St| -> bool {
        if let Some(f) = watch.on_trans {
            let case = Case { judge: name.into(), param: param.into(), args: args.iter().map(|t| t.sexp()).collect() };
            match ctx.guard(&case, || f(st, want)) {
                Ok(Verdict::Fail(m)) | Err(m) => {
                    ctx.fail(ord, case, m);
                    true
                }
                Ok(Verdict::Pass) => true,
                Ok(Verdict::Skip(_)) => false,
            }
        } else {
            false
        }
    };

    for k in 1..=sp.max_size {
        let lo = *bounds.last().unwrap();
        // work items: (left index, right index) by split
        let mut fresh: Vec<New> = vec![];
        if k == 1 {
            if watch.on_trans.is_some() {
                let (n, j) = judged_steps(ctx, &sp.leaves, ord_base);
                transitions += n;
                judged += j;
            }
            for t in &sp.leaves {
                let case = Case { judge: "build".into(), param: String::new(), args: vec![t.sexp()] };
                match ctx.guard(&case, || t.build()) {
                    Ok(e) => {
                        let st = St::new(e, t.clone(), 1, pts);
                        if keep(&st) {
                            fresh.push(New { k: st.key(), st });
                        }
                    }
                    Err(m) => ctx.fail(ord_base, case, m),
                }
            }
        } else {
            // left operands of every size < k, paired with all rights of size k-|left|
            let lefts: Vec<usize> = (0..lo).collect();
            let tcount = AtomicU64::new(0);
            let scount = AtomicU64::new(0);
            let jcount = AtomicU64::new(0);
            let (statesr, seenr, boundsr) = (&states, &seen, &bounds);
            let news = ctx.par(lefts.len(), 1, |li, out: &mut Vec<New>| {
                let s1 = &statesr[li];
                let rk = k - s1.size;
                if rk < 1 {
                    return;
                }
                let linear = sp.linear_from > 0 && k >= sp.linear_from;
                if linear && s1.size > 1 && rk > 1 {
                    return;
                }
                let mut local: HashSet<String> = HashSet::new();
                for ri in boundsr[rk - 1]..boundsr[rk] {
                    // the partner is the leaf: the right one, or the left one
                    if linear && !((rk == 1 && ri < sp.partners) || (s1.size == 1 && li < sp.partners)) {
                        continue;
                    }
                    if ctx.expired() {
                        return;
                    }
                    let s2 = &statesr[ri];
                    for &op in &sp.ops {
                        let want = match transition(op, s1, s2, pts, sp) {
                            Some(w) => w,
                            None => {
                                scount.fetch_add(1, Ordering::Relaxed);
                                continue;
                            }
                        };
                        let t = Arc::new(Term::Bin(op, s1.t.clone(), s2.t.clone()));
                        let ord = ord_base + li * 64 + (ri & 31);
                        let case = Case { judge: "op".into(), param: op.name().into(), args: vec![s1.t.sexp(), s2.t.sexp()] };
                        tcount.fetch_add(1, Ordering::Relaxed);
                        let e = match ctx.guard(&case, || apply_bin(op, s1.e.clone(), s2.e.clone())) {
                            Ok(e) => e,
                            Err(m) => {
                                ctx.fail(ord, case, m);
                                continue;
                            }
                        };
                        let st = St::new(e, t, k, pts);
                        if verdict(ord, "op", op.name(), &[&s1.t, &s2.t], &want, &st) {
                            jcount.fetch_add(1, Ordering::Relaxed);
                        }
                        if !keep(&st) {
                            continue;
                        }
                        let ks = st.key();
                        if seenr.contains(&ks) || !local.insert(ks.clone()) {
                            continue;
                        }
                        out.push(New { k: ks, st });
                    }
                }
            });
            fresh.extend(news);
            transitions += tcount.into_inner();
            skipped += scount.into_inner();
            judged += jcount.into_inner();
        }
        // n-ary constructors over the leaves
        if k > 1 && k <= sp.nary {
            let ms = ordered(bounds[1], k);
            let tcount = AtomicU64::new(0);
            let jcount = AtomicU64::new(0);
            let (statesr, seenr) = (&states, &seen);
            let news = ctx.par(ms.len(), 8, |mi, out: &mut Vec<New>| {
                nary_one(ctx, &ms[mi], statesr, k, ord_base + mi, &verdict, &keep, seenr, &tcount, &jcount, out)
            });
            fresh.extend(news);
            transitions += tcount.into_inner();
            judged += jcount.into_inner();
        }
        for n in fresh {
            if seen.insert(n.k) {
                states.push(n.st);
            }
        }
        // unary closure of the new level (once)
        if !sp.unary.is_empty() {
            let hi = states.len();
            let tcount = AtomicU64::new(0);
            let jcount = AtomicU64::new(0);
            let (statesr, seenr) = (&states, &seen);
            let news = ctx.par(hi - lo, 4, |d, out: &mut Vec<New>| {
                let s = &statesr[lo + d];
                for &u in &sp.unary {
                    if matches!(u, Un::Expand | Un::Simplify) && s.xs > sp.max_xs {
                        continue;
                    }
                    let case = Case { judge: "un".into(), param: u.name().into(), args: vec![s.t.sexp()] };
                    tcount.fetch_add(1, Ordering::Relaxed);
                    match ctx.guard(&case, || apply_un(u, s.e.clone())) {
                        Ok(e) => {
                            let st = St::new(e, Arc::new(Term::Un(u, s.t.clone())), k, pts);
                            if u == Un::Neg {
                                let want: Vec<Option<Ev>> = s.evs.iter().map(|v| v.as_ref().map(neg)).collect();
                                if verdict(ord_base + lo + d, "un", u.name(), &[&s.t], &want, &st) {
                                    jcount.fetch_add(1, Ordering::Relaxed);
                                }
                            }
                            if keep(&st) {
                                let ks = st.key();
                                if !seenr.contains(&ks) {
                                    out.push(New { k: ks, st });
                                }
                            }
                        }
                        Err(m) => ctx.fail(ord_base + lo + d, case, m),
                    }
                }
            });
            transitions += tcount.into_inner();
            judged += jcount.into_inner();
            for n in news {
                if seen.insert(n.k) {
                    states.push(n.st);
                }
            }
        }
        bounds.push(states.len());
        ord_base += 1 << 24;
        if ctx.expired() {
            break;
        }
    }
    // arities beyond the binary levels
    for k in sp.max_size + 1..=sp.nary {
        let ms = ordered(bounds[1], k);
        let tcount = AtomicU64::new(0);
        let jcount = AtomicU64::new(0);
        let news = {
            let (statesr, seenr) = (&states, &seen);
            ctx.par(ms.len(), 8, |mi, out: &mut Vec<New>| {
                nary_one(ctx, &ms[mi], statesr, k, ord_base + mi, &verdict, &keep, seenr, &tcount, &jcount, out)
            })
        };
        transitions += tcount.into_inner();
        judged += jcount.into_inner();
        for n in news {
            if seen.insert(n.k) {
                states.push(n.st);
            }
        }
        ord_base += 1 << 24;
        if ctx.expired() {
            break;
        }
    }
    ctx.phase.fetch_add(1, Ordering::Relaxed);
    {
        let mut s = ctx.stats.lock().unwrap();
        s.states += states.len() as u64;
        s.transitions += transitions;
        s.out_of_domain += skipped;
        s.judged += judged;
        let per: Vec<String> = bounds.windows(2).map(|w| (w[1] - w[0]).to_string()).collect();
        s.spaces.push(format!(
            "{}: {} leaves, ops [{}], size<={}{}, n-ary<={}: {} states (new per size {}), {} transitions, {} pairs out of domain",
            sp.name,
            sp.leaves.len(),
            sp.ops.iter().map(|o| o.name()).collect::<Vec<_>>().join(" "),
            sp.max_size,
            if sp.linear_from > 0 { format!(" (from {} on with one of the first {} leaves)", sp.linear_from, sp.partners) } else { String::new() },
            sp.nary,
            states.len(),
            per.join("/"),
            transitions,
            skipped
        ));
        let n = states.len();
        for f in [0.31, 0.62, 0.97] {
            if n > 0 && s.samples.len() < 24 {
                let st = &states[((n - 1) as f64 * f) as usize];
                s.samples.push(format!("[{}] {}  =>  {}", sp.name, st.t.pretty(), st.e));
            }
        }
    }
    ctx.trace(&format!("{}: {} states", sp.name, states.len()));
    // every trace is replayed from scratch on the implementation
    validate_traces(ctx, &states);
    Explored { states }
}

/// Every call in the histories of the leaves, judged like a transition.
fn judged_steps(ctx: &Ctx, leaves: &[Arc<Term>], ord: usize) -> (u64, u64) {
    fn collect(t: &Arc<Term>, seen: &mut HashSet<String>, out: &mut Vec<Arc<Term>>) {
        let parts: Vec<Arc<Term>> = match &**t {
            Term::Bin(_, a, b) => vec![a.clone(), b.clone()],
            Term::Un(_, a) => vec![a.clone()],
            Term::Sum(v) | Term::Prod(v) | Term::Raw(_, v) => v.clone(),
            _ => return,
        };
        if !seen.insert(t.sexp()) {
            return;
        }
        for p in &parts {
            collect(p, seen, out);
        }
        out.push(t.clone());
    }
    let mut steps = vec![];
    let mut seen = HashSet::new();
    for t in leaves {
        collect(t, &mut seen, &mut steps);
    }
    let n = ctx.par_count(steps.len(), 8, |i| {
        let (judge, param, parts) = match &*steps[i] {
            Term::Bin(op, a, b) => ("op", op.name(), vec![a.clone(), b.clone()]),
            Term::Un(u, a) if matches!(u, Un::Neg | Un::Expand | Un::Simplify) => ("un", u.name(), vec![a.clone()]),
            Term::Sum(v) => ("nary", "sum", v.clone()),
            Term::Prod(v) => ("nary", "prod", v.clone()),
            _ => return false,
        };
        let mut st = vec![];
        for t in parts {
            let case = Case { judge: "build".into(), param: String::new(), args: vec![t.sexp()] };
            match ctx.guard(&case, || t.build()) {
                Ok(e) => st.push(St::new(e, t, 1, &ctx.pts)),
                Err(m) => {
                    ctx.fail(ord + i, case, m);
                    return false;
                }
            }
        }
        ctx.judge(ord + i, judge, param, &st.iter().collect::<Vec<_>>())
    });
    (steps.len() as u64, n)
}

#[allow(clippy::too_many_arguments)]
fn nary_one(
    ctx: &Ctx,
    idx: &[usize],
    states: &[St],
    k: usize,
    ord: usize,
    verdict: &(dyn Fn(usize, &str, &str, &[&Arc<Term>], &[Option<Ev>], &St) -> bool + Sync),
    keep: &(dyn Fn(&St) -> bool + Sync),
    seen: &HashSet<String>,
    tcount: &AtomicU64,
    jcount: &AtomicU64,
    out: &mut Vec<New>,
) {
    let pts = &ctx.pts;
    let ops: Vec<&St> = idx.iter().map(|&i| &states[i]).collect();
    let ts: Vec<Arc<Term>> = ops.iter().map(|s| s.t.clone()).collect();
    for sum in [true, false] {
        let want: Vec<Option<Ev>> = (0..pts.len())
            .map(|p| {
                let mut acc = Ev::exact(if sum { q(0, 1) } else { q(1, 1) });
                for s in &ops {
                    let v = s.evs[p].as_ref()?;
                    acc = if sum { add(&acc, v)? } else { mul(&acc, v)? };
                }
                Some(acc)
            })
            .collect();
        let t = Arc::new(if sum { Term::Sum(ts.clone()) } else { Term::Prod(ts.clone()) });
        let case = Case { judge: "build".into(), param: String::new(), args: vec![t.sexp()] };
        tcount.fetch_add(1, Ordering::Relaxed);
        let v: Vec<Expression> = ops.iter().map(|s| s.e.clone()).collect();
        let e = match ctx.guard(&case, || if sum { Expression::addition(v) } else { Expression::multiplication(v) }) {
            Ok(e) => e,
            Err(m) => {
                ctx.fail(ord, case, m);
                continue;
            }
        };
        let st = St::new(e, t, k, pts);
        let args: Vec<&Arc<Term>> = ts.iter().collect();
        if verdict(ord, "nary", if sum { "sum" } else { "prod" }, &args, &want, &st) {
            jcount.fetch_add(1, Ordering::Relaxed);
        }
        if keep(&st) {
            let ks = st.key();
            if !seen.contains(&ks) {
                out.push(New { k: ks, st });
            }
        }
    }
}

/// Replays the API history of every state from scratch and demands the same
/// state: the explored graph is the implementation's own behaviour, and the
/// harness owns all of its nondeterminism.
fn validate_traces(ctx: &Ctx, states: &[St]) {
    let n = AtomicU64::new(0);
    ctx.par(states.len(), 32, |i, _: &mut Vec<()>| {
        let s = &states[i];
        let case = Case { judge: "trace".into(), param: String::new(), args: vec![s.t.sexp()] };
        match ctx.guard(&case, || key(&s.t.build()) == key(&s.e)) {
            Ok(true) => {
                n.fetch_add(1, Ordering::Relaxed);
            }
            Ok(false) => ctx.fail(i, case, "replaying the same operations gave a different expression".into()),
            Err(m) => ctx.fail(i, case, m),
        }
    });
    ctx.stats.lock().unwrap().traces += n.into_inner();
    ctx.phase.fetch_add(1, Ordering::Relaxed);
}

// ------------------------------------------------------------------ //
//  Leaf helpers                                                       //
// ------------------------------------------------------------------ //
pub fn int(n: i64) -> Arc<Term> {
    Arc::new(Term::Int(n.into()))
}
pub fn bigs(s: &str) -> Arc<Term> {
    Arc::new(Term::Int(s.parse().unwrap()))
}
pub fn var(s: &str) -> Arc<Term> {
    Arc::new(Term::Var(s.into()))
}
pub fn real(r: f64) -> Arc<Term> {
    Arc::new(Term::Real(r))
}
pub fn bin(op: Op, a: &Arc<Term>, b: &Arc<Term>) -> Arc<Term> {
    Arc::new(Term::Bin(op, a.clone(), b.clone()))
}
pub fn un(u: Un, a: &Arc<Term>) -> Arc<Term> {
    Arc::new(Term::Un(u, a.clone()))
}
