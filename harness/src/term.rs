//! Terms (programs over the public API), their construction through the
//! library, and an independent evaluator for terms and for library values.
use crate::engine::{hash_str, mix};
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use num::bigint::{BigInt, Sign};
use num::rational::BigRational;
use num::traits::{One, Signed, ToPrimitive, Zero};

pub type Q = BigRational;

#[derive(Clone, Debug)]
pub enum T {
    Int(BigInt),
    Real(f64),
    Var(String),
    Add(Box<T>, Box<T>, u8),
    Sub(Box<T>, Box<T>, u8),
    Mul(Box<T>, Box<T>, u8),
    Div(Box<T>, Box<T>, u8),
    Neg(Box<T>, u8),
    Sum(Vec<T>),
    Prod(Vec<T>),
    Pow(Box<T>, Box<T>, u8),
    Log(Box<T>, Box<T>, u8),
    Sin(Box<T>),
    Cos(Box<T>),
    Expand(Box<T>),
    Simplify(Box<T>),
}
use T::*;

pub fn int(n: i64) -> T {
    Int(BigInt::from(n))
}
pub fn var(s: &str) -> T {
    Var(s.to_string())
}
pub fn bx(t: T) -> Box<T> {
    Box::new(t)
}

impl T {
    pub fn children(&self) -> Vec<&T> {
        match self {
            Int(_) | Real(_) | Var(_) => vec![],
            Add(a, b, _) | Sub(a, b, _) | Mul(a, b, _) | Div(a, b, _) | Pow(a, b, _) | Log(a, b, _) => {
                vec![a, b]
            }
            Neg(a, _) | Sin(a) | Cos(a) | Expand(a) | Simplify(a) => vec![a],
            Sum(v) | Prod(v) => v.iter().collect(),
        }
    }
    pub fn any(&self, f: &dyn Fn(&T) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn has_real(&self) -> bool {
        self.any(&|t| matches!(t, Real(_)))
    }
    pub fn vars(&self, out: &mut Vec<String>) {
        if let Var(v) = self {
            if !out.contains(v) {
                out.push(v.clone());
            }
        }
        for c in self.children() {
            c.vars(out);
        }
    }
    pub fn show(&self) -> String {
        let l = |v: &Vec<T>| v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ");
        match self {
            Int(n) => format!("{}", n),
            Real(r) => format!("{:?}f", r),
            Var(v) => v.clone(),
            Add(a, b, h) => format!("(+{} {} {})", h, a.show(), b.show()),
            Sub(a, b, h) => format!("(-{} {} {})", h, a.show(), b.show()),
            Mul(a, b, h) => format!("(*{} {} {})", h, a.show(), b.show()),
            Div(a, b, h) => format!("(/{} {} {})", h, a.show(), b.show()),
            Neg(a, h) => format!("(neg{} {})", h, a.show()),
            Sum(v) => format!("(addition {})", l(v)),
            Prod(v) => format!("(multiplication {})", l(v)),
            Pow(a, b, h) => format!("(pow{} {} {})", h, a.show(), b.show()),
            Log(a, b, h) => format!("(log{} {} {})", h, a.show(), b.show()),
            Sin(a) => format!("(Sine {})", a.show()),
            Cos(a) => format!("(Cossine {})", a.show()),
            Expand(a) => format!("(expand {})", a.show()),
            Simplify(a) => format!("(simplify {})", a.show()),
        }
    }

    /// Build the library value through the public API.
    pub fn build(&self) -> Expression {
        match self {
            Int(n) => int_expr(n),
            Real(r) => Symbol::real(*r).expr(),
            Var(v) => Symbol::variable(v).expr(),
            Add(a, b, h) => {
                let (a, b) = (a.build(), b.build());
                match h % 5 {
                    0 => a + b,
                    1 => a + &b,
                    2 => &a + &b,
                    3 => &a + b,
                    _ => Expression::addition(vec![a, b]),
                }
            }
            Sub(a, b, h) => {
                let (a, b) = (a.build(), b.build());
                match h % 5 {
                    0 => a - b,
                    1 => a - &b,
                    2 => &a - &b,
                    3 => &a - b,
                    _ => Expression::subtraction(a, b),
                }
            }
            Mul(a, b, h) => {
                let (a, b) = (a.build(), b.build());
                match h % 5 {
                    0 => a * b,
                    1 => a * &b,
                    2 => &a * &b,
                    3 => &a * b,
                    _ => Expression::multiplication(vec![a, b]),
                }
            }
            Div(a, b, h) => {
                let (a, b) = (a.build(), b.build());
                match h % 5 {
                    0 => a / b,
                    1 => a / &b,
                    2 => &a / &b,
                    3 => &a / b,
                    _ => Expression::division(a, b),
                }
            }
            Neg(a, h) => {
                let a = a.build();
                if h % 2 == 0 {
                    -a
                } else {
                    -&a
                }
            }
            Sum(v) => Expression::addition(v.iter().map(|x| x.build()).collect()),
            Prod(v) => Expression::multiplication(v.iter().map(|x| x.build()).collect()),
            Pow(a, b, h) => {
                let (a, b) = (a.build(), b.build());
                if h % 2 == 0 {
                    a.pow(b)
                } else {
                    Expression::power(a, b)
                }
            }
            Log(a, b, h) => {
                let (a, b) = (a.build(), b.build());
                if h % 2 == 0 {
                    a.log(b)
                } else {
                    Expression::logarithm(a, b)
                }
            }
            Sin(a) => Expression::Sine(Operation::new(a.build())),
            Cos(a) => Expression::Cossine(Operation::new(a.build())),
            Expand(a) => a.build().expand(),
            Simplify(a) => a.build().simplify(),
        }
    }
}

pub fn int_expr(n: &BigInt) -> Expression {
    match n.to_i64() {
        Some(v) => Symbol::integer(v as isize).expr(),
        None => Expression::Integer(Symbol { data: n.clone() }),
    }
}
#[allow(dead_code)]
pub fn raw_pow(a: Expression, b: Expression) -> Expression {
    Expression::Power(AssociativeOperation::new(a, b))
}

// ------------------------------------------------------------------ values

#[derive(Clone, Debug)]
pub struct Val {
    pub q: Option<Q>,
    pub f: f64,
    /// magnitude bound used for the rounding tolerance
    pub m: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// mathematically undefined at this valuation
    Undef(&'static str),
    /// too large or too ill conditioned to evaluate here
    Skip(&'static str),
}

pub fn qi(n: i64) -> Q {
    Q::from_integer(BigInt::from(n))
}

/// f64 approximation of a big integer without intermediate overflow: (mantissa, exponent)
fn big_frexp(n: &BigInt) -> (f64, i64) {
    let bits = n.bits() as i64;
    if bits <= 1000 {
        return (n.to_f64().unwrap_or(0.0), 0);
    }
    let sh = (bits - 64) as usize;
    ((n >> sh).to_f64().unwrap(), sh as i64)
}

pub fn q_f64(q: &Q) -> f64 {
    let (a, ea) = big_frexp(q.numer());
    let (b, eb) = big_frexp(q.denom());
    let mut v = a / b;
    let mut e = ea - eb;
    while e > 0 && v.is_finite() && v != 0.0 {
        let s = e.min(1000);
        v *= 2f64.powi(s as i32);
        e -= s;
    }
    while e < 0 && v != 0.0 {
        let s = (-e).min(1000);
        v /= 2f64.powi(s as i32);
        e += s;
    }
    v
}

/// natural logarithm of a positive rational
fn q_ln(q: &Q) -> f64 {
    let (a, ea) = big_frexp(q.numer());
    let (b, eb) = big_frexp(q.denom());
    if ea == 0 && eb == 0 {
        return (a / b).ln();
    }
    a.ln() - b.ln() + ((ea - eb) as f64) * std::f64::consts::LN_2
}

impl Val {
    pub fn q(q: Q) -> Val {
        let f = q_f64(&q);
        Val { m: f.abs(), f, q: Some(q) }
    }
    fn f(f: f64, m: f64) -> Result<Val, Bad> {
        if !f.is_finite() || !m.is_finite() {
            return Err(Bad::Skip("float overflow"));
        }
        Ok(Val { q: None, f, m: m.max(f.abs()) })
    }
}

const MAX_BITS: u64 = 60_000;

fn capped(q: Q) -> Result<Q, Bad> {
    if q.numer().bits() as u64 > MAX_BITS || q.denom().bits() as u64 > MAX_BITS {
        Err(Bad::Skip("rational too large"))
    } else {
        Ok(q)
    }
}

pub fn v_add(xs: Vec<Val>) -> Result<Val, Bad> {
    let m: f64 = xs.iter().map(|x| x.m).sum();
    if xs.iter().all(|x| x.q.is_some()) {
        let mut acc = Q::zero();
        for x in &xs {
            acc = acc + x.q.as_ref().unwrap();
        }
        let mut v = Val::q(capped(acc)?);
        v.m = m.max(v.m);
        return Ok(v);
    }
    Val::f(xs.iter().map(|x| x.f).sum(), m)
}

pub fn v_mul(xs: Vec<Val>) -> Result<Val, Bad> {
    let m: f64 = xs.iter().map(|x| x.m).product();
    if xs.iter().all(|x| x.q.is_some()) {
        let mut acc = Q::one();
        for x in &xs {
            acc = capped(acc * x.q.as_ref().unwrap())?;
        }
        let mut v = Val::q(acc);
        v.m = if m.is_nan() { f64::INFINITY } else { m.max(v.m) };
        return Ok(v);
    }
    Val::f(xs.iter().map(|x| x.f).product(), m)
}

pub fn q_powi(b: &Q, e: i64) -> Result<Q, Bad> {
    let n = e.unsigned_abs();
    let bits = (b.numer().bits().max(b.denom().bits())) as u64;
    if bits > 1 && bits.saturating_mul(n) > MAX_BITS {
        return Err(Bad::Skip("power too large"));
    }
    let n = if bits <= 1 { n % 2 + 2 } else { n } as usize;
    let num = num::pow::pow(b.numer().clone(), n);
    let den = num::pow::pow(b.denom().clone(), n);
    Ok(if e >= 0 { Q::new(num, den) } else { Q::new(den, num) })
}

fn exact_root(q: &Q, d: u32) -> Option<Q> {
    let r = |n: &BigInt| -> Option<BigInt> {
        let x = n.nth_root(d);
        if num::pow::pow(x.clone(), d as usize) == *n {
            Some(x)
        } else {
            None
        }
    };
    Some(Q::new(r(q.numer())?, r(q.denom())?))
}

pub fn v_pow(b: Val, e: Val) -> Result<Val, Bad> {
    if let (Some(bq), Some(eq)) = (&b.q, &e.q) {
        if eq.is_integer() {
            if bq.is_zero() {
                return if eq.is_positive() {
                    // a cancelled sum is only zero up to its own rounding
                    let m = b.m.powf(eq.to_f64().unwrap_or(1.0).min(1.0)).max(b.m) * (1.0 + e.m);
                    Ok(Val { m, ..Val::q(Q::zero()) })
                } else {
                    Err(Bad::Undef("zero to a non-positive power"))
                };
            }
            if bq.is_one() {
                return Ok(Val { m: b.m.max(1.0) * (1.0 + e.m), ..Val::q(Q::one()) });
            }
            let k = match eq.to_integer().to_i64() {
                Some(k) => k,
                None => return Err(Bad::Skip("exponent too large")),
            };
            let mut v = Val::q(q_powi(bq, k)?);
            let kk = k.unsigned_abs() as f64;
            let rel = b.m / b.f.abs();
            let base = if k >= 0 { b.m } else { b.m / (b.f * b.f) };
            let sens = if e.m > e.f.abs() { 1.0 + e.m * (b.f.abs().ln().abs() + 1.0) } else { 1.0 };
            if !(rel < 1e6) {
                // exact in exact arithmetic, meaningless after rounding
                v.m = f64::INFINITY;
                return Ok(v);
            }
            v.m = v.m.max(base.powf(kk) * sens * (1.0 + kk));
            if v.m.is_nan() {
                v.m = f64::INFINITY;
            }
            return Ok(v);
        }
        if bq.is_zero() {
            return if eq.is_positive() {
                Ok(Val::q(Q::zero()))
            } else {
                Err(Bad::Undef("zero to a non-positive power"))
            };
        }
        if bq.is_negative() {
            return Err(Bad::Undef("negative base, non-integer exponent"));
        }
        if bq.is_one() {
            return Ok(Val { m: b.m.max(1.0) * (1.0 + e.m), ..Val::q(Q::one()) });
        }
        if let (Some(n), Some(d)) = (eq.numer().to_i64(), eq.denom().to_u32()) {
            if d <= 12 {
                if let Some(r) = exact_root(bq, d) {
                    if let Ok(v) = q_powi(&r, n) {
                        let mut v = Val::q(v);
                        v.m = pow_m(&b, &e, v.f);
                        return Ok(v);
                    }
                }
            }
        }
    }
    if let Some(bq) = &b.q {
        if bq.is_zero() {
            return if e.f > 1e-6 * e.m {
                Ok(Val::q(Q::zero()))
            } else {
                Err(Bad::Skip("zero base"))
            };
        }
    }
    if b.f.abs() <= 1e-6 * b.m {
        return Err(Bad::Skip("ill-conditioned base"));
    }
    let eint = e.q.as_ref().map(|q| q.is_integer()).unwrap_or(false);
    if b.f < 0.0 && !eint {
        return Err(if b.q.is_some() && e.q.is_some() {
            Bad::Undef("negative base, non-integer exponent")
        } else {
            Bad::Skip("negative base")
        });
    }
    let f = b.f.powf(e.f);
    if f == 0.0 || f.abs() < 1e-290 {
        return Err(Bad::Skip("float underflow"));
    }
    Val::f(f, pow_m(&b, &e, f))
}

fn pow_m(b: &Val, e: &Val, f: f64) -> f64 {
    let rel = b.m / b.f.abs();
    let m = f.abs() * rel.powf(e.f.abs().max(1.0)) * (1.0 + e.m) * (2.0 + e.m * (b.f.abs().ln().abs() + 1.0));
    if m.is_nan() {
        f64::INFINITY
    } else {
        m
    }
}

pub fn v_log(a: Val, b: Val) -> Result<Val, Bad> {
    if let (Some(aq), Some(bq)) = (&a.q, &b.q) {
        if !aq.is_positive() || !bq.is_positive() || bq.is_one() {
            return Err(Bad::Undef("logarithm outside its domain"));
        }
        if aq.is_one() {
            return Ok(Val { m: 1.0 + a.m + b.m, ..Val::q(Q::zero()) });
        }
        let k = q_ln(aq) / q_ln(bq);
        for d in 1..=6i64 {
            let n = (k * d as f64).round();
            if n.abs() < 5000.0 {
                if let (Ok(x), Ok(y)) = (q_powi(bq, n as i64), q_powi(aq, d)) {
                    if x == y {
                        let mut v = Val::q(Q::new(BigInt::from(n as i64), BigInt::from(d)));
                        v.m = log_m(&a, &b, v.f);
                        return Ok(v);
                    }
                }
            }
        }
        let f = k;
        return Val::f(f, log_m(&a, &b, f));
    }
    if a.f <= 1e-7 * a.m || b.f <= 1e-7 * b.m || (b.f - 1.0).abs() < 1e-5 * (1.0 + b.m) {
        return Err(Bad::Skip("ill-conditioned logarithm"));
    }
    let f = a.f.ln() / b.f.ln();
    Val::f(f, log_m(&a, &b, f))
}

fn log_m(a: &Val, b: &Val, f: f64) -> f64 {
    let lb = match &b.q {
        Some(q) => q_ln(q).abs(),
        None => b.f.ln().abs(),
    };
    let ra = if a.f.is_finite() && a.f != 0.0 { a.m / a.f.abs() } else { 1.0 };
    let rb = if b.f.is_finite() && b.f != 0.0 { b.m / b.f.abs() } else { 1.0 };
    f.abs() + (1.0 + ra) / lb + (1.0 + f.abs()) * (1.0 + rb) / lb
}

/// Trigonometric nodes are opaque to the algebra: an uninterpreted function of
/// the exact value of the argument.
pub fn v_opaque(tag: &str, a: Val) -> Result<Val, Bad> {
    match a.q {
        Some(q) => {
            let h = mix(hash_str(tag), hash_str(&format!("{}", q)));
            let n = 2 + (h % 89) as i64;
            let d = 1 + ((h >> 8) % 13) as i64;
            let s = if (h >> 20) % 2 == 0 { 1 } else { -1 };
            Ok(Val::q(Q::new(BigInt::from(n * s), BigInt::from(d))))
        }
        None => Err(Bad::Skip("inexact opaque argument")),
    }
}

// --------------------------------------------------------------- valuation

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dom {
    /// non-zero rationals of either sign
    Signed,
    /// small non-zero integers of either sign
    IntSigned,
    /// small integers >= 2
    PosInt,
    /// positive rationals
    Pos,
}

#[derive(Clone, Copy, Debug)]
pub struct Valuation {
    pub seed: u64,
    pub dom: Dom,
}

impl Valuation {
    pub fn get(&self, name: &str) -> Q {
        let h = mix(self.seed, hash_str(name));
        let r = |k: u32, n: u64| -> i64 { ((h >> k) % n) as i64 };
        match self.dom {
            Dom::Signed => {
                let n = 2 + r(3, 61);
                let d = [1, 1, 2, 3, 5, 7][r(20, 6) as usize];
                Q::new(BigInt::from(if r(40, 2) == 0 { n } else { -n }), BigInt::from(d))
            }
            Dom::IntSigned => qi([2, 3, -2, 4, -3, 5, -1, 1][r(3, 8) as usize]),
            Dom::PosInt => qi(2 + r(3, 5)),
            Dom::Pos => {
                let (n, d) = [(2, 1), (3, 1), (5, 2), (7, 3), (1, 2), (4, 3), (5, 1), (3, 4), (9, 4), (11, 5)]
                    [r(3, 10) as usize];
                Q::new(BigInt::from(n), BigInt::from(d))
            }
        }
    }
}

pub fn eval_t(t: &T, v: &Valuation) -> Result<Val, Bad> {
    let l = |xs: &Vec<T>| -> Result<Vec<Val>, Bad> { xs.iter().map(|x| eval_t(x, v)).collect() };
    match t {
        Int(n) => Ok(Val::q(Q::from_integer(n.clone()))),
        Real(r) => match Q::from_float(*r) {
            Some(q) => Ok(Val { m: r.abs().max(1e-300), ..Val::q(q) }),
            None => Err(Bad::Undef("non-finite real")),
        },
        Var(n) => Ok(Val::q(v.get(n))),
        Add(a, b, _) => v_add(vec![eval_t(a, v)?, eval_t(b, v)?]),
        Sub(a, b, _) => {
            let (a, b) = (eval_t(a, v)?, eval_t(b, v)?);
            v_add(vec![a, v_neg(b)])
        }
        Mul(a, b, _) => v_mul(vec![eval_t(a, v)?, eval_t(b, v)?]),
        Div(a, b, _) => {
            let (a, b) = (eval_t(a, v)?, eval_t(b, v)?);
            v_mul(vec![a, v_pow(b, Val::q(qi(-1)))?])
        }
        Neg(a, _) => Ok(v_neg(eval_t(a, v)?)),
        Sum(xs) => v_add(l(xs)?),
        Prod(xs) => v_mul(l(xs)?),
        Pow(a, b, _) => {
            let (x, y) = (eval_t(a, v)?, eval_t(b, v)?);
            // splitting 0^(p+q) into 0^p * 0^q is legitimate but not defined here
            if x.q.as_ref().map(|q| q.is_zero()).unwrap_or(false) && b.any(&|t| matches!(t, Var(_))) {
                return Err(Bad::Skip("zero base under a symbolic exponent"));
            }
            v_pow(x, y)
        }
        Log(a, b, _) => {
            let (a, b) = (eval_t(a, v)?, eval_t(b, v)?);
            v_log(a, b)
        }
        Sin(a) => v_opaque("sin", eval_t(a, v)?),
        Cos(a) => v_opaque("cos", eval_t(a, v)?),
        Expand(a) | Simplify(a) => eval_t(a, v),
    }
}

/// Bits of the largest integer that folding the numbers of this term, in any
/// order, could produce.
pub fn fold_bits(t: &T) -> f64 {
    match t {
        Int(n) => n.bits() as f64,
        Real(_) | Var(_) | Sin(_) | Cos(_) => 0.0,
        Add(a, b, _) | Sub(a, b, _) => fold_bits(a) + fold_bits(b) + 1.0,
        Mul(a, b, _) | Div(a, b, _) => fold_bits(a) + fold_bits(b),
        Neg(a, _) | Expand(a) | Simplify(a) => fold_bits(a),
        Sum(xs) => xs.iter().map(|x| fold_bits(x) + 1.0).sum(),
        Prod(xs) => xs.iter().map(fold_bits).sum(),
        Pow(a, b, _) => {
            let base = fold_bits(a);
            match &**b {
                Int(n) if base > 0.0 => base * q_f64(&Q::from_integer(n.abs())).max(1.0),
                _ if base > 0.0 => base * 2f64.powf(fold_bits(b)).max(1.0) + fold_bits(b),
                b => fold_bits(b),
            }
        }
        Log(a, b, _) => fold_bits(a) + fold_bits(b),
    }
}

/// Beyond this, numbers stop being workable.
pub const MAX_FOLD: f64 = 150_000.0;

/// Upper bound on |log2| of every intermediate the library could form while
/// folding this term in floating point, in any order.
pub fn span(t: &T, v: &Valuation) -> f64 {
    let lg = |q: &Q| -> f64 {
        if q.is_zero() {
            0.0
        } else {
            (q_ln(&q.abs()) / std::f64::consts::LN_2).abs()
        }
    };
    match t {
        Int(n) => lg(&Q::from_integer(n.clone())),
        Real(r) => {
            if *r == 0.0 {
                0.0
            } else {
                r.abs().log2().abs()
            }
        }
        Var(n) => lg(&v.get(n)),
        Add(a, b, _) | Sub(a, b, _) => span(a, v) + span(b, v) + 1.0,
        Mul(a, b, _) | Div(a, b, _) => span(a, v) + span(b, v),
        Neg(a, _) | Expand(a) | Simplify(a) => span(a, v),
        Sum(xs) => xs.iter().map(|x| span(x, v) + 1.0).sum(),
        Prod(xs) => xs.iter().map(|x| span(x, v)).sum(),
        Pow(a, b, _) => {
            let se = span(b, v);
            span(a, v) * 2f64.powf(se.min(60.0)).max(1.0) + se
        }
        Log(a, b, _) => span(a, v) + span(b, v) + 12.0,
        Sin(_) | Cos(_) => 8.0,
    }
}

fn v_neg(a: Val) -> Val {
    Val { q: a.q.map(|q| -q), f: -a.f, m: a.m }
}

pub fn eval_e(e: &Expression, v: &Valuation) -> Result<Val, Bad> {
    match e {
        Expression::Integer(n) => Ok(Val::q(Q::from_integer(n.data.clone()))),
        Expression::Real(r) => match Q::from_float(r.data) {
            Some(q) => Ok(Val { m: r.data.abs().max(1e-300), ..Val::q(q) }),
            None => Err(Bad::Undef("non-finite real")),
        },
        Expression::Variable(s) => Ok(Val::q(v.get(&s.data))),
        Expression::Addition(a) => v_add(a.items().iter().map(|x| eval_e(x, v)).collect::<Result<_, _>>()?),
        Expression::Multiplication(a) => {
            v_mul(a.items().iter().map(|x| eval_e(x, v)).collect::<Result<_, _>>()?)
        }
        Expression::Power(p) => {
            let (a, b) = (eval_e(&p.argument(), v)?, eval_e(&p.modifier(), v)?);
            v_pow(a, b)
        }
        Expression::Logarithm(p) => {
            let (a, b) = (eval_e(&p.argument(), v)?, eval_e(&p.modifier(), v)?);
            v_log(a, b)
        }
        Expression::Sine(a) => v_opaque("sin", eval_e(&a.argument(), v)?),
        Expression::Cossine(a) => v_opaque("cos", eval_e(&a.argument(), v)?),
    }
}

/// Same value? `tolerant` allows for the rounding of the library's own f64 arithmetic.
/// None: cannot tell.
pub fn same_val(a: &Val, b: &Val, tolerant: bool) -> Option<bool> {
    if let (Some(x), Some(y)) = (&a.q, &b.q) {
        if x == y {
            return Some(true);
        }
        if !tolerant {
            return Some(false);
        }
    }
    let m = a.m.max(b.m);
    if !m.is_finite() || !a.f.is_finite() || !b.f.is_finite() {
        return None;
    }
    let tol = m * 2f64.powi(-34) + 1e-280;
    let diff = (a.f - b.f).abs();
    if diff > tol {
        return Some(false);
    }
    // agreement within a tolerance much wider than the value decides nothing
    if tol > 1e-3 * a.f.abs().max(b.f.abs()) && tol > 1e-6 {
        return None;
    }
    Some(true)
}

// ------------------------------------------------- independent structure

/// The library value as an independent tree with its own order and equality.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum N {
    Int(BigInt),
    Real(u64),
    Var(String),
    Mul(Vec<N>),
    Add(Vec<N>),
    Pow(Box<N>, Box<N>),
    Log(Box<N>, Box<N>),
    Sin(Box<N>),
    Cos(Box<N>),
}

pub fn norm_bits(r: f64) -> u64 {
    if r == 0.0 {
        0
    } else if r.is_nan() {
        f64::NAN.to_bits()
    } else {
        r.to_bits()
    }
}

pub fn n_of(e: &Expression) -> N {
    let l = |v: Vec<Expression>| {
        let mut r: Vec<N> = v.iter().map(n_of).collect();
        r.sort();
        r
    };
    match e {
        Expression::Integer(n) => N::Int(n.data.clone()),
        Expression::Real(r) => N::Real(norm_bits(r.data)),
        Expression::Variable(s) => N::Var(s.data.clone()),
        Expression::Multiplication(a) => N::Mul(l(a.items())),
        Expression::Addition(a) => N::Add(l(a.items())),
        Expression::Power(p) => N::Pow(Box::new(n_of(&p.argument())), Box::new(n_of(&p.modifier()))),
        Expression::Logarithm(p) => N::Log(Box::new(n_of(&p.argument())), Box::new(n_of(&p.modifier()))),
        Expression::Sine(a) => N::Sin(Box::new(n_of(&a.argument()))),
        Expression::Cossine(a) => N::Cos(Box::new(n_of(&a.argument()))),
    }
}

impl N {
    pub fn kids(&self) -> Vec<&N> {
        match self {
            N::Int(_) | N::Real(_) | N::Var(_) => vec![],
            N::Mul(v) | N::Add(v) => v.iter().collect(),
            N::Pow(a, b) | N::Log(a, b) => vec![a, b],
            N::Sin(a) | N::Cos(a) => vec![a],
        }
    }
    pub fn show(&self) -> String {
        let l = |v: &Vec<N>| v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ");
        match self {
            N::Int(n) => format!("{}", n),
            N::Real(r) => format!("{:?}f", f64::from_bits(*r)),
            N::Var(v) => v.clone(),
            N::Mul(v) => format!("(* {})", l(v)),
            N::Add(v) => format!("(+ {})", l(v)),
            N::Pow(a, b) => format!("(^ {} {})", a.show(), b.show()),
            N::Log(a, b) => format!("(log {} {})", a.show(), b.show()),
            N::Sin(a) => format!("(sin {})", a.show()),
            N::Cos(a) => format!("(cos {})", a.show()),
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<String>) {
        if let N::Var(v) = self {
            out.insert(v.clone());
        }
        for k in self.kids() {
            k.vars(out);
        }
    }
}

pub fn show_e(e: &Expression) -> String {
    n_of(e).show()
}

#[allow(dead_code)]
pub fn is_neg(n: &BigInt) -> bool {
    n.sign() == Sign::Minus
}
