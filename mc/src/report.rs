//! Evidence, replay files, known findings, exit status.
use crate::engine::*;
use crate::term::*;
use std::fmt::Write;
use std::path::PathBuf;

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

pub struct Coverage {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub judged: u64,
    pub out_of_domain: u64,
    pub spaces: Vec<String>,
    pub samples: Vec<String>,
    pub counters: Vec<(String, u64)>,
    pub exhaustive: bool,
    pub note: String,
}
impl Coverage {
    pub fn from(s: &Stats, capped: bool) -> Coverage {
        Coverage {
            states: s.states,
            transitions: s.transitions,
            traces: s.traces,
            judged: s.judged,
            out_of_domain: s.out_of_domain,
            spaces: s.spaces.clone(),
            samples: s.samples.clone(),
            counters: s.counters.iter().map(|(k, v)| (k.clone(), *v)).collect(),
            exhaustive: !capped,
            note: if capped { "the time budget ended before the last spaces were complete".into() } else { "every listed space was enumerated completely".into() },
        }
    }
    pub fn none(note: &str) -> Coverage {
        Coverage {
            states: 0,
            transitions: 0,
            traces: 0,
            judged: 0,
            out_of_domain: 0,
            spaces: vec![],
            samples: vec![note.to_string()],
            counters: vec![],
            exhaustive: false,
            note: note.into(),
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

/// Rust statements that make the same calls, for whoever reads the replay.
fn rust(t: &Term) -> String {
    match t {
        Term::Int(n) => {
            if num::ToPrimitive::to_isize(n).is_some() {
                format!("Symbol::integer({}).expr()", n)
            } else {
                format!("Expression::Integer(Symbol {{ data: \"{}\".parse().unwrap() }})", n)
            }
        }
        Term::Real(r) => format!("Symbol::real({:?}).expr()", r),
        Term::Var(v) => format!("Symbol::variable({:?}).expr()", v),
        Term::Bin(op, a, b) => {
            let (a, b) = (rust(a), rust(b));
            match op {
                Op::Add => format!("({} + {})", a, b),
                Op::Sub => format!("({} - {})", a, b),
                Op::Mul => format!("({} * {})", a, b),
                Op::Div => format!("({} / {})", a, b),
                Op::Pow => format!("{}.pow({})", a, b),
                Op::Log => format!("{}.log({})", a, b),
            }
        }
        Term::Un(u, a) => {
            let a = rust(a);
            match u {
                Un::Neg => format!("(-{})", a),
                Un::Expand => format!("{}.expand()", a),
                Un::Simplify => format!("{}.simplify()", a),
                Un::Sin => format!("Expression::Sine(Operation::new({}))", a),
                Un::Cos => format!("Expression::Cossine(Operation::new({}))", a),
            }
        }
        Term::Sum(v) => format!("Expression::addition(vec![{}])", v.iter().map(|t| rust(t)).collect::<Vec<_>>().join(", ")),
        Term::Prod(v) => format!("Expression::multiplication(vec![{}])", v.iter().map(|t| rust(t)).collect::<Vec<_>>().join(", ")),
        Term::Raw(k, v) => {
            let a = v.iter().map(|t| rust(t)).collect::<Vec<_>>().join(", ");
            match k {
                Raw::Sum => format!("Expression::Addition(CommutativeAssociation::new(vec![{}]))", a),
                Raw::Prod => format!("Expression::Multiplication(CommutativeAssociation::new(vec![{}]))", a),
                Raw::Pow => format!("Expression::Power(AssociativeOperation::new({}))", a),
                Raw::Log => format!("Expression::Logarithm(AssociativeOperation::new({}))", a),
            }
        }
    }
}

fn known(id: &str) -> Vec<String> {
    // one finding per line: known: property=<id> judge=<name> param=<param> args=<sexp> | <sexp> ...
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines().filter(|l| l.starts_with(&format!("known: property={} ", id))).map(|l| l.to_string()).collect()
}
fn known_line(id: &str, c: &Case) -> String {
    format!("known: property={} judge={} param={} args={}", id, c.judge, c.param, c.args.join(" | "))
}

pub fn conclude(id: &str, thorough: bool, mut found: Vec<Violation>, cov: Coverage, wall: f64) -> u8 {
    let listed = known(id);
    found.sort_by(|a, b| a.order.cmp(&b.order).then_with(|| a.case.args.join(" ").len().cmp(&b.case.args.join(" ").len())));
    let mut fresh: Vec<Violation> = vec![];
    let mut kn = 0;
    for v in found {
        if listed.contains(&known_line(id, &v.case)) {
            println!("KNOWN-FINDING: property={} {} ({})", id, v.msg.replace('\n', " "), v.case.args.join(" | "));
            kn += 1;
        } else {
            fresh.push(v);
        }
    }
    let total = fresh.len();
    // evidence
    let mut e = String::new();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    write!(
        e,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": {},\n  \"exhaustive\": {},\n  \"cases_judged\": {},\n  \"pairs_out_of_domain\": {},\n  \"iteration_order_hook\": {},\n  \"spaces\": {},\n  \"counters\": {{{}}},\n  \"explanation\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(id),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        cov.states,
        cov.transitions,
        cov.traces,
        jl(&cov.samples),
        cov.exhaustive && total == 0,
        cov.judged,
        cov.out_of_domain,
        crate::envhash::HOOKED,
        jl(&cov.spaces),
        cov.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
        js(&cov.note),
        jl(&[
            "values are compared at five rational points; exact where the value is rational, otherwise to a relative tolerance of 1e-9".to_string(),
            "histories whose value is undefined at every point (division by zero, logarithm or fractional power outside the positive reals) are outside the domain".to_string(),
        ]),
        wall,
        total
    )
    .unwrap();
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), e).expect("evidence");
    println!(
        "{} {}: {} states, {} transitions, {} traces replayed, {} cases judged, {:.1} s, {} violation(s), {} known, exhaustive={}",
        id,
        if thorough { "thorough" } else { "quick" },
        cov.states,
        cov.transitions,
        cov.traces,
        cov.judged,
        wall,
        total,
        kn,
        cov.exhaustive
    );
    // replays
    let rdir = root().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut shown = std::collections::HashMap::new();
    let mut n = 0;
    for v in &fresh {
        let c = shown.entry(format!("{} {}", v.case.judge, v.case.param)).or_insert(0);
        *c += 1;
        if *c > 2 || n >= 6 {
            continue;
        }
        n += 1;
        let path = rdir.join(format!("{}-{}.txt", id, n));
        let mut t = format!("property {}\n{}message {}\n\n# run again with: mc/target/release/mc replay {}\n", id, v.case.text(), v.msg.replace('\n', " "), path.display());
        for (i, a) in v.case.args.iter().enumerate() {
            if let Ok(term) = Term::parse(a) {
                let _ = writeln!(t, "# let e{} = {};", i, rust(&term));
            }
        }
        std::fs::write(&path, t).expect("replay");
        let args: Vec<String> = v.case.args.iter().map(|a| Term::parse(a).map(|t| t.pretty()).unwrap_or_else(|_| a.clone())).collect();
        println!("  {} {} [{}]: {}", v.case.judge, v.case.param, args.join("; "), v.msg);
        println!("VIOLATION property={} replay={}", id, path.display());
    }
    if total > 0 {
        1
    } else {
        0
    }
}
