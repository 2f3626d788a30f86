//! The environment's choices: in which order a hash map is iterated.
//!
//! Two seams.  (1) With `--cfg ncas_verif` the library's hash maps ask the
//! explorer for a permutation at every iteration: the choices are enumerated.
//! (2) Any other std hash map is seeded through `getrandom`, which this binary
//! overrides: nothing in a run depends on real randomness, and the seed can be
//! varied.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static THREAD_SEED: Cell<u64> = Cell::new(0);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.load(Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15) ^ THREAD_SEED.try_with(|t| t.get()).unwrap_or(0);
    for i in 0..len {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *buf.add(i) = (z ^ (z >> 31)) as u8;
    }
    len as isize
}

pub const HOOKED: bool = cfg!(ncas_verif);

pub fn thread_init() {
    set_order(None);
}

#[cfg(ncas_verif)]
pub fn set_order(f: Option<Box<dyn FnMut(usize) -> Vec<usize>>>) {
    ncas::verif_hooks::set_iteration_order(f);
}
#[cfg(not(ncas_verif))]
pub fn set_order(_f: Option<Box<dyn FnMut(usize) -> Vec<usize>>>) {}

/// Runs `f` answering the i-th iteration with permutation `script[i]`
/// (identity beyond the script); returns the result and the number of items at
/// each iteration.
pub fn scripted<R>(script: &[Vec<usize>], f: impl FnOnce() -> R) -> (R, Vec<usize>) {
    let trace: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(vec![]));
    let tr = trace.clone();
    let sc: Vec<Vec<usize>> = script.to_vec();
    set_order(Some(Box::new(move |n| {
        let i = tr.borrow().len();
        tr.borrow_mut().push(n);
        match sc.get(i) {
            // an empty script entry is the default answer
            Some(p) if !p.is_empty() => {
                assert_eq!(p.len(), n, "divergence while replaying an order script");
                p.clone()
            }
            _ => (0..n).collect(),
        }
    })));
    let r = f();
    set_order(None);
    let t = trace.borrow().clone();
    (r, t)
}

/// Runs `f` in a fresh thread whose std hash maps are seeded with `seed`.
pub fn seeded<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                THREAD_SEED.with(|t| t.set(seed.wrapping_mul(0xD1342543DE82EF95)));
                f()
            })
            .unwrap()
            .join()
    })
    .unwrap_or_else(|p| std::panic::resume_unwind(p))
}

/// The non-identity answers considered at an iteration over n items: all
/// permutations up to n = `full`, beyond that the reversal, all rotations and
/// all transpositions.
pub fn alternatives(n: usize, full: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut out: Vec<Vec<usize>> = vec![];
    if n <= full {
        permutations(n, &mut |p| {
            if p != id {
                out.push(p.to_vec())
            }
        });
        return out;
    }
    let mut push = |p: Vec<usize>| {
        if p != id && !out.contains(&p) {
            out.push(p)
        }
    };
    push((0..n).rev().collect());
    for r in 1..n {
        push((0..n).map(|i| (i + r) % n).collect());
    }
    for i in 0..n {
        for j in i + 1..n {
            let mut p = id.clone();
            p.swap(i, j);
            push(p);
        }
    }
    out
}

pub fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, n, f);
                cur.pop();
                used[i] = false;
            }
        }
    }
    go(&mut vec![], &mut vec![false; n], n, f);
}
