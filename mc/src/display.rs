//! Reader of the displayed text of an expression, written from the displayed
//! notation alone: `(a + b)`, `(a * b)`, `pow(a, b)`, `log(a, b)`, `sin(a)`,
//! `cos(a)`, names and decimal numbers.
use crate::term::key;
use ncas::base::expression::Expression;

#[derive(Debug, Clone)]
pub enum D {
    Num(String),
    Name(String),
    Sum(Vec<D>),
    Prod(Vec<D>),
    Call(String, Vec<D>),
}

pub fn parse(s: &str) -> Result<D, String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let d = item(&b, &mut i)?;
    if i != b.len() {
        return Err(format!("text left at {}", i));
    }
    Ok(d)
}
fn eat(b: &[char], i: &mut usize, s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    if b.len() >= *i + c.len() && b[*i..*i + c.len()] == c[..] {
        *i += c.len();
        true
    } else {
        false
    }
}
fn item(b: &[char], i: &mut usize) -> Result<D, String> {
    if eat(b, i, "(") {
        let mut v = vec![item(b, i)?];
        let mut op: Option<&str> = None;
        while !eat(b, i, ")") {
            let o = if eat(b, i, " + ") {
                "+"
            } else if eat(b, i, " * ") {
                "*"
            } else {
                return Err(format!("operator or ) expected at {}", i));
            };
            if op.map(|p| p != o).unwrap_or(false) {
                return Err("mixed operators".into());
            }
            op = Some(o);
            v.push(item(b, i)?);
        }
        return match op {
            Some("+") => Ok(D::Sum(v)),
            Some(_) => Ok(D::Prod(v)),
            None => Err("parentheses around a single item".into()),
        };
    }
    for f in ["pow", "log", "sin", "cos"] {
        let mut j = *i;
        if eat(b, &mut j, f) && eat(b, &mut j, "(") {
            let mut v = vec![item(b, &mut j)?];
            while eat(b, &mut j, ", ") {
                v.push(item(b, &mut j)?);
            }
            if !eat(b, &mut j, ")") {
                return Err(format!(") expected at {}", j));
            }
            *i = j;
            return Ok(D::Call(f.into(), v));
        }
    }
    let st = *i;
    while *i < b.len() && (b[*i].is_alphanumeric() || matches!(b[*i], '.' | '-' | '_')) {
        *i += 1;
    }
    let w: String = b[st..*i].iter().collect();
    if w.is_empty() {
        return Err(format!("item expected at {}", st));
    }
    if w.parse::<f64>().is_ok() {
        Ok(D::Num(w))
    } else {
        Ok(D::Name(w))
    }
}

/// Does the text denote this expression?  (The sign of a zero and the
/// difference between 2 and 2.0 are not displayed.)
pub fn matches(d: &D, e: &Expression) -> Result<(), String> {
    let no = || Err(format!("{:?} vs {}", d, key(e)));
    match (d, e) {
        (D::Num(w), Expression::Integer(n)) => {
            if w.parse::<num::BigInt>().ok().as_ref() == Some(&n.data) {
                Ok(())
            } else {
                no()
            }
        }
        (D::Num(w), Expression::Real(r)) => {
            let x: f64 = w.parse().map_err(|_| "not a number".to_string())?;
            if x == r.data || (x.is_nan() && r.data.is_nan()) {
                Ok(())
            } else {
                no()
            }
        }
        (D::Name(w), Expression::Variable(v)) => {
            if w == &v.data {
                Ok(())
            } else {
                no()
            }
        }
        (D::Sum(v), Expression::Addition(a)) => bag(v, a.items()),
        (D::Prod(v), Expression::Multiplication(a)) => bag(v, a.items()),
        (D::Call(f, v), Expression::Power(p)) if f == "pow" && v.len() == 2 => {
            matches(&v[0], &p.argument())?;
            matches(&v[1], &p.modifier())
        }
        (D::Call(f, v), Expression::Logarithm(p)) if f == "log" && v.len() == 2 => {
            matches(&v[0], &p.argument())?;
            matches(&v[1], &p.modifier())
        }
        (D::Call(f, v), Expression::Sine(o)) if f == "sin" && v.len() == 1 => matches(&v[0], &o.argument()),
        (D::Call(f, v), Expression::Cossine(o)) if f == "cos" && v.len() == 1 => matches(&v[0], &o.argument()),
        _ => no(),
    }
}
/// The displayed operands are the expression's operands, in whatever order.
fn bag(v: &[D], items: Vec<Expression>) -> Result<(), String> {
    if v.len() != items.len() {
        return Err(format!("{} operands displayed, {} held", v.len(), items.len()));
    }
    let mut used = vec![false; items.len()];
    'next: for d in v {
        for (i, e) in items.iter().enumerate() {
            if !used[i] && matches(d, e).is_ok() {
                used[i] = true;
                continue 'next;
            }
        }
        return Err(format!("{:?} is displayed but not held", d));
    }
    Ok(())
}
