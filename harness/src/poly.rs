//! Reference algebra: polynomials with rational coefficients over Laurent
//! monomials, computed independently of the library, and readers that
//! recognise the canonical shapes in the library's output.
use crate::term::*;
use num::bigint::BigInt;
use num::traits::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

pub type Mono = BTreeMap<String, i128>;
#[derive(Clone, Debug, PartialEq)]
pub struct Poly(pub BTreeMap<Vec<(String, i128)>, Q>);

fn key(m: &Mono) -> Vec<(String, i128)> {
    m.iter().filter(|(_, e)| **e != 0).map(|(k, e)| (k.clone(), *e)).collect()
}

impl Poly {
    pub fn zero() -> Poly {
        Poly(BTreeMap::new())
    }
    pub fn constant(q: Q) -> Poly {
        let mut p = Poly::zero();
        p.push(vec![], q);
        p
    }
    pub fn push(&mut self, k: Vec<(String, i128)>, q: Q) {
        let e = self.0.entry(k.clone()).or_insert_with(Q::zero);
        *e = &*e + &q;
        if e.is_zero() {
            self.0.remove(&k);
        }
    }
    pub fn add(&self, o: &Poly, sign: i64) -> Poly {
        let mut r = self.clone();
        for (k, q) in &o.0 {
            r.push(k.clone(), q * qi(sign));
        }
        r
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (k1, q1) in &self.0 {
            for (k2, q2) in &o.0 {
                let mut m: Mono = k1.iter().cloned().collect();
                for (v, e) in k2 {
                    *m.entry(v.clone()).or_insert(0) += e;
                }
                r.push(key(&m), q1 * q2);
            }
        }
        r
    }
    /// inverse of a single term
    pub fn inv(&self) -> Option<Poly> {
        if self.0.len() != 1 {
            return None;
        }
        let (k, q) = self.0.iter().next().unwrap();
        let mut p = Poly::zero();
        p.push(k.iter().map(|(v, e)| (v.clone(), -e)).collect(), q.recip());
        Some(p)
    }
    /// None when that is not a polynomial, or too long to work out
    pub fn powi(&self, n: &BigInt) -> Option<Poly> {
        if self.0.len() == 1 {
            let (k, q) = self.0.iter().next().unwrap();
            let e = n.to_i128().filter(|e| e.abs() < 1 << 100)?;
            let bits = q.numer().bits().max(q.denom().bits()) as i128;
            let unit = q.is_one() || (-q).is_one();
            if !unit && e.abs() * bits > 20_000 {
                return None;
            }
            let m = if unit { e.abs() % 2 } else { e.abs() } as usize;
            let c = num::pow::pow(q.clone(), m);
            let c = if e < 0 { c.recip() } else { c };
            let mut p = Poly::zero();
            let mut r = vec![];
            for (v, x) in k {
                r.push((v.clone(), x.checked_mul(e).filter(|y| y.abs() < 1 << 110)?));
            }
            r.retain(|x| x.1 != 0);
            p.push(r, c);
            return Some(p);
        }
        let n = n.to_i64().filter(|n| n.abs() <= 64)?;
        let base = if n < 0 { self.inv()? } else { self.clone() };
        let mut r = Poly::constant(Q::one());
        for _ in 0..n.abs() {
            r = r.mul(&base);
        }
        Some(r)
    }
    pub fn as_constant(&self) -> Option<Q> {
        if self.0.is_empty() {
            return Some(Q::zero());
        }
        if self.0.len() == 1 {
            return self.0.get(&vec![]).cloned();
        }
        None
    }
    pub fn show(&self) -> String {
        self.0
            .iter()
            .map(|(k, q)| {
                format!("{}{}", q, k.iter().map(|(v, e)| format!("*{}^{}", v, e)).collect::<String>())
            })
            .collect::<Vec<_>>()
            .join(" + ")
    }
}

/// The polynomial a term denotes, when it denotes one.
pub fn poly_of(t: &T) -> Option<Poly> {
    Some(match t {
        T::Int(n) => Poly::constant(Q::from_integer(n.clone())),
        T::Real(_) => return None,
        T::Var(v) => {
            let mut p = Poly::zero();
            p.push(vec![(v.clone(), 1)], Q::one());
            p
        }
        T::Add(a, b, _) => poly_of(a)?.add(&poly_of(b)?, 1),
        T::Sub(a, b, _) => poly_of(a)?.add(&poly_of(b)?, -1),
        T::Mul(a, b, _) => poly_of(a)?.mul(&poly_of(b)?),
        T::Div(a, b, _) => poly_of(a)?.mul(&poly_of(b)?.inv()?),
        T::Neg(a, _) => Poly::zero().add(&poly_of(a)?, -1),
        T::Sum(v) => {
            let mut r = Poly::zero();
            for x in v {
                r = r.add(&poly_of(x)?, 1);
            }
            r
        }
        T::Prod(v) => {
            let mut r = Poly::constant(Q::one());
            for x in v {
                r = r.mul(&poly_of(x)?);
            }
            r
        }
        T::Pow(a, b, _) => {
            let k = poly_of(b)?.as_constant()?;
            if !k.is_integer() {
                return None;
            }
            poly_of(a)?.powi(&k.to_integer())?
        }
        T::Log(_, _, _) | T::Sin(_) | T::Cos(_) => return None,
        T::Expand(a) | T::Simplify(a) => poly_of(a)?,
    })
}

fn read_power(n: &N) -> Result<(String, i128), String> {
    match n {
        N::Var(v) => Ok((v.clone(), 1)),
        N::Pow(b, e) => match (&**b, &**e) {
            (N::Var(v), N::Int(k)) => {
                let k = k.to_i128().ok_or("huge exponent")?;
                if k == 0 || k == 1 {
                    return Err(format!("power with neutral exponent: {}", n.show()));
                }
                Ok((v.clone(), k))
            }
            _ => Err(format!("not a power of a variable: {}", n.show())),
        },
        _ => Err(format!("not a power of a variable: {}", n.show())),
    }
}

/// a number in lowest terms, as written by the library
pub fn read_rational(n: &N) -> Result<Q, String> {
    match n {
        N::Int(k) => Ok(Q::from_integer(k.clone())),
        N::Pow(b, e) => match (&**b, &**e) {
            (N::Int(d), N::Int(k)) if *k == BigInt::from(-1) => {
                if *d <= BigInt::one() {
                    return Err(format!("denominator not above 1: {}", n.show()));
                }
                Ok(Q::new(BigInt::one(), d.clone()))
            }
            _ => Err(format!("not a number: {}", n.show())),
        },
        N::Mul(v) if v.len() == 2 => {
            let (num, den) = match (&v[0], &v[1]) {
                (N::Int(a), N::Pow(b, e)) => match (&**b, &**e) {
                    (N::Int(d), N::Int(k)) if *k == BigInt::from(-1) => (a.clone(), d.clone()),
                    _ => return Err(format!("not a number: {}", n.show())),
                },
                _ => return Err(format!("not a number: {}", n.show())),
            };
            if den <= BigInt::one() {
                return Err(format!("denominator not above 1: {}", n.show()));
            }
            let q = Q::new(num.clone(), den.clone());
            if *q.numer() != num || *q.denom() != den || num.is_zero() || num.is_one() {
                return Err(format!("fraction not in lowest terms: {}", n.show()));
            }
            Ok(q)
        }
        _ => Err(format!("not a number: {}", n.show())),
    }
}

/// one monomial with a reduced rational coefficient
pub fn read_monomial(n: &N) -> Result<(Vec<(String, i128)>, Q), String> {
    if let Ok(q) = read_rational(n) {
        return Ok((vec![], q));
    }
    let items: Vec<N> = match n {
        N::Mul(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut nums: Vec<N> = vec![];
    let mut m: Mono = Mono::new();
    for x in &items {
        let numeric = match x {
            N::Int(_) => true,
            N::Pow(b, _) => matches!(**b, N::Int(_)),
            _ => false,
        };
        if numeric {
            nums.push(x.clone());
            continue;
        }
        let (v, e) = read_power(x)?;
        if m.insert(v.clone(), e).is_some() {
            return Err(format!("variable {} occurs twice in the product {}", v, n.show()));
        }
    }
    let q = match nums.len() {
        0 => Q::one(),
        1 => {
            let q = read_rational(&nums[0])?;
            if q.is_one() || q.is_zero() {
                return Err(format!("neutral or absorbing factor kept: {}", n.show()));
            }
            q
        }
        _ => read_rational(&N::Mul(nums))?,
    };
    Ok((key(&m), q))
}

/// a sum of distinct monomials
pub fn read_poly(n: &N) -> Result<Poly, String> {
    let items: Vec<N> = match n {
        N::Add(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut p = Poly::zero();
    for x in &items {
        let (k, q) = read_monomial(x)?;
        if q.is_zero() && items.len() > 1 {
            return Err(format!("zero addend kept: {}", n.show()));
        }
        if p.0.contains_key(&k) {
            return Err(format!("like terms not collected: {}", n.show()));
        }
        if !q.is_zero() {
            p.0.insert(k, q);
        }
    }
    Ok(p)
}

#[allow(dead_code)]
pub fn sign(q: &Q) -> i32 {
    if q.is_zero() {
        0
    } else if q.is_negative() {
        -1
    } else {
        1
    }
}

/// the polynomial an output tree denotes, when it denotes one
pub fn poly_of_n(n: &N) -> Option<Poly> {
    Some(match n {
        N::Int(k) => Poly::constant(Q::from_integer(k.clone())),
        N::Var(v) => {
            let mut p = Poly::zero();
            p.push(vec![(v.clone(), 1)], Q::one());
            p
        }
        N::Add(v) => {
            let mut r = Poly::zero();
            for x in v {
                r = r.add(&poly_of_n(x)?, 1);
            }
            r
        }
        N::Mul(v) => {
            let mut r = Poly::constant(Q::one());
            for x in v {
                r = r.mul(&poly_of_n(x)?);
            }
            r
        }
        N::Pow(b, e) => {
            let k = match &**e {
                N::Int(k) => k,
                _ => return None,
            };
            poly_of_n(b)?.powi(k)?
        }
        _ => return None,
    })
}
