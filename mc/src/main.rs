//! mc check <ID> --tier quick|thorough    explore and decide one property
//! mc replay <file>                       run one recorded case again
//! mc worker / mc one                     internal
mod checks;
mod display;
mod engine;
mod envhash;
mod eval;
mod gpoly;
mod judges;
mod poly;
mod report;
mod spaces;
mod term;

use engine::*;
use report::*;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};
use term::Term;

const WORKER_MEM: u64 = 22 << 30;
const ONE_MEM: u64 = 6 << 30;
/// a case still running after this long is looked at
const STALE_MS: u64 = 25_000;
/// ... and hangs if a process of its own does not finish it in this time
const ONE_LIMIT: Duration = Duration::from_secs(90);

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}
fn limit_memory(bytes: u64) {
    let l = RLimit { cur: bytes, max: bytes };
    unsafe {
        setrlimit(9, &l);
    }
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "check" => {
            let thorough = a.windows(2).any(|w| w[0] == "--tier" && w[1] == "thorough");
            if !checks::IDS.contains(&arg(2)) {
                eprintln!("unknown property {:?}", arg(2));
                return ExitCode::from(2);
            }
            ExitCode::from(supervise(arg(2), thorough))
        }
        "worker" => {
            limit_memory(WORKER_MEM);
            ExitCode::from(worker(arg(2), arg(3) == "thorough", Path::new(arg(4))))
        }
        "one" => {
            limit_memory(ONE_MEM);
            ExitCode::from(one(Path::new(arg(2))))
        }
        "selftest" => {
            // the seeds reach std's hash maps, and nothing else does
            let order = |seed: u64| envhash::seeded(seed, || (0..9).map(|i| (i, i)).collect::<std::collections::HashMap<i32, i32>>().into_keys().collect::<Vec<_>>());
            let orders: Vec<_> = (1..=8).map(order).collect();
            let again: Vec<_> = (1..=8).map(order).collect();
            let distinct: std::collections::HashSet<_> = orders.iter().collect();
            println!("hash seeds: reproducible={} distinct orders={}", orders == again, distinct.len());
            ExitCode::from(if orders == again && distinct.len() > 1 { 0 } else { 1 })
        }
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).unwrap_or_default();
            let case = match Case::parse(&text) {
                Some(c) => c,
                None => {
                    eprintln!("no case in {}", arg(2));
                    return ExitCode::from(2);
                }
            };
            let tmp = Scratch::new();
            match confirm(&case, &tmp.0.join("one"), Duration::from_secs(120)) {
                Some(m) => {
                    println!("FAILS: {}", m);
                    ExitCode::from(1)
                }
                None => {
                    println!("holds");
                    ExitCode::from(0)
                }
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> --tier quick|thorough | mc replay <file>");
            ExitCode::from(2)
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("ncas-mc-{}-{}", std::process::id(), now_ms()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Explores in this process and reports; runs as a child so that an abort or a
/// hang of the code under test is itself an observation.
fn worker(id: &str, thorough: bool, slots: &Path) -> u8 {
    install_panic_hook();
    let f = File::options().read(true).write(true).open(slots).expect("slots");
    let ctx = Arc::new(Ctx::new(id, thorough, Some(f)));
    let t0 = Instant::now();
    let c = ctx.clone();
    // the driver itself needs a deep stack too
    let r = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            SLOT_ID.with(|s| s.set(MAX_SLOTS - 1));
            checks::run(&c)
        })
        .expect("driver")
        .join();
    if r.is_err() && !ctx.failed() {
        eprintln!("the harness itself failed");
        return 2;
    }
    let found = std::mem::take(&mut *ctx.violations.lock().unwrap());
    let stats = ctx.stats.lock().unwrap();
    let cov = Coverage::from(&stats, ctx.capped.load(Ordering::Relaxed));
    conclude(id, thorough, found, cov, t0.elapsed().as_secs_f64())
}

fn one(path: &Path) -> u8 {
    install_panic_hook();
    let text = std::fs::read_to_string(path).expect("case");
    let case = Case::parse(&text).expect("case");
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || -> Result<Verdict, String> {
            let ctx = Ctx::new("", false, None);
            envhash::thread_init();
            ctx.guard(&case, || {
                let st: Vec<St> = case
                    .args
                    .iter()
                    .map(|s| {
                        let t = Arc::new(Term::parse(s).expect("term"));
                        St::new(t.build(), t, 1, &ctx.pts)
                    })
                    .collect();
                let refs: Vec<&St> = st.iter().collect();
                judges::lookup(&case.judge)(&ctx, &refs, &case.param)
            })
        })
        .expect("thread")
        .join();
    match r {
        Ok(Ok(Verdict::Pass)) | Ok(Ok(Verdict::Skip(_))) => 0,
        Ok(Ok(Verdict::Fail(m))) | Ok(Err(m)) => {
            println!("{}", m);
            1
        }
        Err(_) => {
            println!("panicked");
            1
        }
    }
}

/// Runs one case in a process of its own; Some(why) if it fails, dies or does
/// not finish.
fn confirm(case: &Case, path: &Path, limit: Duration) -> Option<String> {
    std::fs::write(path, case.text()).expect("case file");
    let exe = std::env::current_exe().expect("exe");
    let out = path.with_extension("out");
    let mut ch = Command::new(exe).arg("one").arg(path).stdout(File::create(&out).expect("out")).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            let msg = std::fs::read_to_string(&out).unwrap_or_default().trim().to_string();
            return match s.code() {
                Some(0) => None,
                Some(1) => Some(msg),
                Some(c) => Some(format!("exit code {} {}", c, msg)),
                None => Some(format!("the process was killed by signal {} (stack overflow or out of memory)", s.signal().unwrap_or(0))),
            };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some(format!("does not terminate within {} s", limit.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn read_slots(f: &File) -> Vec<(u64, Case)> {
    let mut v = vec![];
    for i in 0..MAX_SLOTS {
        let mut buf = vec![0u8; SLOT as usize];
        let n = f.read_at(&mut buf, i as u64 * SLOT).unwrap_or(0);
        buf.truncate(n);
        let end = buf.iter().position(|&b| b == 0).unwrap_or(buf.len());
        let text = String::from_utf8_lossy(&buf[..end]).to_string();
        let mut it = text.splitn(2, '\n');
        let head = it.next().unwrap_or("");
        let mut h = head.split(' ');
        let (t, len): (u64, usize) = match (h.next().and_then(|x| x.parse().ok()), h.next().and_then(|x| x.parse().ok())) {
            (Some(t), Some(l)) => (t, l),
            _ => continue,
        };
        let body = it.next().unwrap_or("");
        if t == 0 || body.len() != len {
            continue;
        }
        if let Some(c) = Case::parse(body) {
            v.push((t, c));
        }
    }
    v
}

fn supervise(id: &str, thorough: bool) -> u8 {
    let t0 = Instant::now();
    let tmp = Scratch::new();
    let slots = tmp.0.join("slots");
    let f = File::options().create(true).read(true).write(true).truncate(true).open(&slots).expect("slots");
    f.set_len(SLOT * MAX_SLOTS as u64).expect("slots");
    let tier = if thorough { "thorough" } else { "quick" };
    let mut cmd = Command::new(std::env::current_exe().expect("exe"));
    cmd.arg("worker").arg(id).arg(tier).arg(&slots);
    unsafe {
        cmd.pre_exec(|| {
            extern "C" {
                fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
            }
            prctl(1, 9, 0, 0, 0); // die with the supervisor
            Ok(())
        });
    }
    let mut ch = cmd.spawn().expect("worker");
    let mut looked: std::collections::HashMap<String, u32> = Default::default();
    loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            if let Some(c) = s.code() {
                if c <= 1 {
                    return c as u8;
                }
                eprintln!("worker ended with code {}", c);
            }
            // it died: one of the cases under way killed it
            let mut found = vec![];
            let mut cases = read_slots(&f);
            cases.sort_by_key(|c| c.0);
            for (i, (_, case)) in cases.iter().enumerate() {
                if let Some(m) = confirm(case, &tmp.0.join("one"), ONE_LIMIT) {
                    found.push(Violation { order: (0, i), case: case.clone(), msg: m });
                }
            }
            if found.is_empty() {
                eprintln!("the worker died ({:?}) and none of the cases under way explains it", s);
                return 2;
            }
            return conclude(id, thorough, found, Coverage::none("the code under test killed the exploring process"), t0.elapsed().as_secs_f64());
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 5 { 20 } else { 250 }));
        let now = now_ms();
        for (t, case) in read_slots_if_stale(&f, now) {
            let k = format!("{} {}", t, case.text());
            if looked.contains_key(&k) {
                continue;
            }
            looked.insert(k, 1);
            if let Some(m) = confirm(&case, &tmp.0.join("one"), ONE_LIMIT) {
                let _ = ch.kill();
                let _ = ch.wait();
                let v = Violation { order: (0, 0), case, msg: m };
                return conclude(id, thorough, vec![v], Coverage::none("a case under way did not finish"), t0.elapsed().as_secs_f64());
            }
        }
    }
}
fn read_slots_if_stale(f: &File, now: u64) -> Vec<(u64, Case)> {
    // cheap look at the time stamps first
    let mut any = false;
    for i in 0..MAX_SLOTS {
        let mut b = [0u8; 24];
        let n = f.read_at(&mut b, i as u64 * SLOT).unwrap_or(0);
        let head = String::from_utf8_lossy(&b[..n]).to_string();
        if let Some(t) = head.split(' ').next().and_then(|x| x.parse::<u64>().ok()) {
            if t > 0 && now > t + STALE_MS {
                any = true;
            }
        }
    }
    if !any {
        return vec![];
    }
    read_slots(f).into_iter().filter(|(t, _)| now > t + STALE_MS).collect()
}
