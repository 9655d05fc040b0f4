//! Shared oracles.
use crate::gen::*;
use crate::run::{Case, Out};
use crate::term::*;
use ncas::base::expression::Expression;
use std::collections::BTreeSet;

pub const MAX_SPAN: f64 = 600.0;

/// Valuations at which the term is defined and safely representable.
pub fn valuations(t: &T, dom: Dom, want: usize) -> Vec<(Valuation, Val)> {
    let real = t.has_real();
    let mut out = vec![];
    if fold_bits(t) > MAX_FOLD {
        return out;
    }
    for i in 0..(want as u64 * 2) {
        let v = Valuation { seed: i * 7919 + 5, dom };
        if real && span(t, &v) > MAX_SPAN {
            continue;
        }
        if let Ok(x) = eval_t(t, &v) {
            out.push((v, x));
            if out.len() == want {
                break;
            }
        }
    }
    out
}

pub fn free_vars(e: &Expression) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    n_of(e).vars(&mut s);
    s
}

/// The library value `e` must denote the same number as the term at every
/// valuation listed, and mention no variable the term does not.
pub fn agree(t: &T, e: &Expression, vals: &[(Valuation, Val)]) -> Out {
    let mut tv = vec![];
    t.vars(&mut tv);
    for v in free_vars(e) {
        if !tv.contains(&v) {
            return Out::Fail(format!("the result {} mentions the variable {} which the input does not", show_e(e), v));
        }
    }
    let tol = t.has_real();
    let mut undecided = None;
    for (v, x) in vals {
        match eval_e(e, v) {
            Ok(y) => match same_val(x, &y, tol) {
                Some(true) => {}
                Some(false) => {
                    return Out::Fail(format!(
                        "value changed: expected {} but the result {} is {} (at {})",
                        show_val(x),
                        show_e(e),
                        show_val(&y),
                        show_at(&tv, v)
                    ))
                }
                None => undecided = Some("ill-conditioned after rounding"),
            },
            Err(Bad::Undef(u)) => {
                if tol && (u.starts_with("zero to") || u.starts_with("negative base") || u.starts_with("logarithm")) {
                    undecided = Some("ill-conditioned after rounding");
                } else {
                    return Out::Fail(format!(
                        "the input is defined (value {}) but the result {} is not: {} (at {})",
                        show_val(x),
                        show_e(e),
                        u,
                        show_at(&tv, v)
                    ));
                }
            }
            Err(Bad::Skip(k)) => undecided = Some(k),
        }
    }
    match undecided {
        Some(k) => Out::Unknown(k),
        None => Out::Pass,
    }
}

pub fn show_val(v: &Val) -> String {
    match &v.q {
        Some(q) => {
            let s = format!("{}", q);
            if s.len() > 120 {
                format!("{:e}", v.f)
            } else {
                s
            }
        }
        None => format!("{:e}", v.f),
    }
}

pub fn show_at(vars: &[String], v: &Valuation) -> String {
    vars.iter().map(|n| format!("{}={}", n, v.get(n))).collect::<Vec<_>>().join(" ")
}

pub struct LaneOpts {
    pub kind: Kind,
    pub big: bool,
    pub reals: bool,
    pub trig: bool,
    pub hist: bool,
    pub max: f64,
}

pub fn lane(kind: Kind, flags: &str) -> Lane {
    let mut l = Lane::new(kind);
    l.big = flags.contains('B');
    l.reals = flags.contains('R');
    l.trig = flags.contains('T');
    l.hist = flags.contains('H');
    l
}

/// value preservation of `f` applied to a generated term
pub fn value_case(c: &mut Case, lane: Lane, f: &dyn Fn(&T) -> Expression) -> Out {
    let dom = lane.dom();
    let t = {
        let mut g = G::new(c.s, lane);
        g.term()
    };
    value_of(c, t, dom, f)
}

pub fn value_of(c: &mut Case, t: T, dom: Dom, f: &dyn Fn(&T) -> Expression) -> Out {
    let vals = valuations(&t, dom, 4);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    classify(c, &t);
    let nt = t.size() >= 3;
    c.begin(t.show(), nt);
    let e = f(&t);
    agree(&t, &e, &vals)
}

pub fn classify(c: &mut Case, t: &T) {
    if t.has_real() {
        c.class("has a real literal");
    }
    if t.any(&|x| matches!(x, T::Div(_, _, _))) {
        c.class("has a division");
    }
    if t.any(&|x| matches!(x, T::Pow(_, _, _))) {
        c.class("has a power");
    }
    if t.any(&|x| matches!(x, T::Log(_, _, _))) {
        c.class("has a logarithm");
    }
    if t.any(&|x| matches!(x, T::Sin(_) | T::Cos(_))) {
        c.class("has a trigonometric node");
    }
    if t.any(&|x| matches!(x, T::Expand(_) | T::Simplify(_))) {
        c.class("has expand/simplify inside");
    }
    if t.any(&|x| matches!(x, T::Sum(v) | T::Prod(v) if v.len() >= 4)) {
        c.class("has an n-ary node of 4 or more");
    }
    if t.any(&|x| matches!(x, T::Int(n) if n.bits() > 63)) {
        c.class("has an integer beyond 64 bits");
    }
    let d = t.depth();
    if d >= 8 {
        c.class("depth 8 or more");
    }
}

/// all values the same structure
pub fn all_same(items: &[(&str, Expression)]) -> Option<String> {
    let first = n_of(&items[0].1);
    for (k, e) in &items[1..] {
        let n = n_of(e);
        if n != first {
            return Some(format!("{} gives {} but {} gives {}", items[0].0, first.show(), k, n.show()));
        }
    }
    None
}

pub fn hash_e(e: &Expression) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

/// structurally equal by an independent comparison, and the library agrees in
/// ==, hash, order and text
pub fn identical(a: &Expression, b: &Expression) -> Result<(), String> {
    let (na, nb) = (n_of(a), n_of(b));
    if na != nb {
        return Err(format!("{} and {} differ", na.show(), nb.show()));
    }
    if !(a == b) || !(b == a) || a != b {
        return Err(format!("equal structures {} but == says different", na.show()));
    }
    if hash_e(a) != hash_e(b) {
        return Err(format!("equal structures {} hash differently", na.show()));
    }
    if a.cmp(b) != std::cmp::Ordering::Equal {
        return Err(format!("equal structures {} are not Ordering::Equal", na.show()));
    }
    if format!("{}", a) != format!("{}", b) {
        return Err(format!("equal structures {} print differently: {} and {}", na.show(), a, b));
    }
    Ok(())
}

pub fn ok(r: Result<(), String>) -> Out {
    match r {
        Ok(()) => Out::Pass,
        Err(m) => Out::Fail(m),
    }
}

#[macro_export]
macro_rules! sub {
    ($name:expr, $q:expr, $t:expr, $rule:expr, $f:expr) => {
        $crate::run::Sub { name: $name, quick: $q, thorough: $t, f: $f, rule: $rule }
    };
}
