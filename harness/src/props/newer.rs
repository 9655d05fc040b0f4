//! Families of cases shared by several properties: chains that differ only at
//! the bottom, exponents full of logarithms, rules applied again and again,
//! rules on exponents of any size, long sums of fractions.
use super::contracts::raw;
use super::manip::*;
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::poly::read_rational;
use crate::run::{Case, Out};
use crate::term::*;
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::traits::{One, Signed, Zero};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashSet};

// ------------------------------------------------------------------ twins

fn leaf_pair(s: &mut Src) -> (Expression, Expression) {
    let v = |n: &str| var(n).build();
    match s.usize(8) {
        0 => (int(1).build(), T::Real(1.0).build()),
        1 => (int(1).build(), int(2).build()),
        2 => (Expression::Sine(Operation::new(v("a"))), Expression::Cossine(Operation::new(v("a")))),
        3 => (T::Real(1.5).build(), T::Real(1.5 + f64::EPSILON * 2.0).build()),
        4 => (int_expr(&(BigInt::one() << 70usize)), int_expr(&((BigInt::one() << 70usize) + BigInt::from(1)))),
        5 => (
            Expression::Power(AssociativeOperation::new(v("a"), v("b"))),
            Expression::Logarithm(AssociativeOperation::new(v("a"), v("b"))),
        ),
        _ => (v("a"), v("b")),
    }
}

fn link(which: usize, e: Expression, v: Expression) -> Expression {
    let two = AssociativeOperation::new;
    match which {
        0 => Expression::Power(two(v, e)),
        1 => Expression::Power(two(e, v)),
        2 => Expression::Logarithm(two(e, v)),
        3 => Expression::Logarithm(two(v, e)),
        4 => Expression::Sine(Operation::new(e)),
        5 => Expression::Cossine(Operation::new(e)),
        6 => Expression::Addition(CommutativeAssociation::new(vec![e, v])),
        7 => Expression::Multiplication(CommutativeAssociation::new(vec![v, e])),
        8 => Expression::Multiplication(CommutativeAssociation::new(vec![int(-1).build(), e])),
        _ => Expression::Addition(CommutativeAssociation::new(vec![v.clone(), e, v])),
    }
}

/// two chains of operations, one inside the other, that are alike or differ in
/// one place far down
pub fn twins(c: &mut Case, most: usize) -> Out {
    let (a, b, n, what) = {
        let s = &mut *c.s;
        let n = match s.usize(4) {
            0 => 1 + s.usize(16),
            1 => 16 + s.usize(30),
            2 => 20 + s.usize(80),
            _ => 30 + s.usize(most),
        };
        let only = s.usize(10);
        let few = s.chance(2, 3);
        // the difference is at the bottom, at some link, or nowhere
        let place = match s.usize(4) {
            0 => None,
            1 => Some(1 + s.usize(n)),
            _ => Some(0),
        };
        let (x, y) = leaf_pair(s);
        let y = if place == Some(0) { y } else { x.clone() };
        let (mut a, mut b) = if s.chance(1, 2) { (x, y) } else { (y, x) };
        let mut links = vec![];
        for i in 1..=n {
            let which = if few && s.chance(9, 10) { only } else { s.usize(10) };
            let v = var(["x", "y", "z"][s.usize(3)]).build();
            let w = if place == Some(i) { var("w").build() } else { v.clone() };
            links.push(which);
            a = link(which, a, v);
            b = link(which, b, w);
        }
        (a, b, n, format!("{} links {:?}, differing at {:?}", n, links, place))
    };
    c.class(if n >= 30 { "30 links or more" } else { "fewer than 30 links" });
    let same = n_of(&a) == n_of(&b);
    c.begin(format!("{}: {} ? {}", what, show_e(&a), show_e(&b)), true);
    if (a == b) != same || (b == a) != same || (a != b) == same {
        return Out::Fail(format!("== says {} / {}", a == b, b == a));
    }
    let (o, p) = (a.cmp(&b), b.cmp(&a));
    if o != p.reverse() || (o == Ordering::Equal) != same || a.partial_cmp(&b) != Some(o) || (a < b) != (o == Ordering::Less) {
        return Out::Fail(format!("the order is {:?} one way and {:?} the other", o, p));
    }
    if same && hash_e(&a) != hash_e(&b) {
        return Out::Fail("equal but hashed differently".into());
    }
    let (f, g) = (format!("{}", a), format!("{}", b));
    if same && f != g {
        return Out::Fail("equal but printed differently".into());
    }
    if f.is_empty() || f != format!("{}", a.clone()) {
        return Out::Fail("a copy prints differently".into());
    }
    let mut v = vec![a.clone(), b.clone(), a.clone(), b.clone()];
    v.sort();
    let h: HashSet<Expression> = v.iter().cloned().collect();
    v.dedup();
    let want = if same { 1 } else { 2 };
    if v.len() != want || h.len() != want {
        return Out::Fail(format!("sorting tells {} apart, hashing {}, expected {}", v.len(), h.len(), want));
    }
    Out::Pass
}

// ------------------------------------------------- logarithms in exponents

fn log_item(s: &mut Src, base: &T, pool: &mut Vec<T>) -> T {
    if !pool.is_empty() && s.chance(1, 5) {
        return pool[s.usize(pool.len())].clone();
    }
    let arg = |s: &mut Src| match s.usize(8) {
        0 => int(s.range(2, 9)),
        1 => T::Add(bx(var("b")), bx(int(1)), 0),
        2 => T::Pow(bx(var("b")), bx(int(s.range(-2, 3))), 0),
        3 => T::Pow(bx(base.clone()), bx(int(s.range(-2, 3))), 0),
        4 => T::Mul(bx(var("b")), bx(base.clone()), 0),
        5 => base.clone(),
        _ => var(["a", "b", "c", "d"][s.usize(4)]),
    };
    let t = match s.weighted(&[40, 8, 8, 14, 10, 8, 5]) {
        0 => T::Log(bx(arg(s)), bx(base.clone()), 0),
        1 => T::Log(bx(arg(s)), bx(int(s.range(2, 5))), 0),
        2 => T::Log(bx(base.clone()), bx(int(s.range(2, 5))), 0),
        3 => int(s.range(-3, 4)),
        4 => var(["m", "n"][s.usize(2)]),
        5 => T::Div(bx(int(1)), bx(int(s.range(2, 4))), 0),
        _ => T::Pow(bx(T::Log(bx(arg(s)), bx(base.clone()), 0)), bx(int([2, -1][s.usize(2)])), 0),
    };
    pool.push(t.clone());
    t
}

/// how much an exponent may grow by such a factor
fn weight(t: &T) -> f64 {
    match t {
        T::Int(k) => k.abs().to_string().parse::<f64>().unwrap().max(1.0),
        T::Log(x, _, _) => weight(x),
        T::Pow(x, e, _) => weight(x).powf(weight(e)) * weight(e),
        T::Add(..) => 2.0,
        T::Mul(..) => 2.0,
        T::Var(_) => 1.0,
        _ => 2.0,
    }
}

/// a power whose exponent holds logarithms to its base
pub fn log_exponents(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let t = {
        let s = &mut *c.s;
        let base = match s.usize(6) {
            0 => T::Add(bx(var("a")), bx(int(1)), 0),
            1 => int(s.range(2, 10)),
            2 => T::Mul(bx(var("a")), bx(var("b")), 0),
            3 => T::Pow(bx(int(2)), bx(var("a")), 0),
            _ => var("a"),
        };
        let mut pool = vec![];
        let n = 1 + s.usize(4);
        let mut v: Vec<T> = (0..n).map(|_| log_item(s, &base, &mut pool)).collect();
        // a sum to a large power has too many terms
        let sum = matches!(&base, T::Add(..));
        let mut w: f64 = v.iter().map(weight).product();
        if sum && w > 4.0 {
            v = vec![log_item(s, &var("a"), &mut vec![])];
            w = weight(&v[0]);
            if w > 8.0 {
                v = vec![int(2)];
                w = 2.0;
            }
        }
        let n = v.len();
        let e = match s.usize(4) {
            0 => T::Sum(v),
            1 if n > 1 => {
                let w = v.split_off(n / 2);
                T::Sum(vec![T::Prod(v), T::Prod(w)])
            }
            _ => T::Prod(v),
        };
        let p = T::Pow(bx(base.clone()), bx(e), s.below(2) as u8);
        match s.usize(6) {
            0 => T::Log(bx(p), bx(base), s.below(2) as u8),
            1 => T::Mul(bx(p), bx(base), 0),
            2 => {
                let x = log_item(s, &base, &mut pool);
                if sum && w * weight(&x) > 8.0 {
                    p
                } else {
                    T::Pow(bx(p), bx(x), 0)
                }
            }
            3 if !sum || w <= 4.0 => T::Log(bx(T::Mul(bx(p.clone()), bx(p), 0)), bx(base), 0),
            _ => p,
        }
    };
    value_of(c, t, Dom::Pos, f)
}

// ------------------------------------------------------------ rules, again

/// a rule applied to the same expression many times
pub fn rules_again(c: &mut Case) -> Out {
    let i = c.s.usize(RULES.len());
    let e = match c.s.usize(6) {
        0 => {
            let b = 2 + c.s.usize(14);
            by_hand(c.s, b, false)
        }
        1 => {
            let n = 1 + c.s.usize(16);
            raw(c.s, n)
        }
        k => {
            let kind = [(Kind::Rat, "T"), (Kind::SymExp, ""), (Kind::Pos, "")][c.s.usize(3)];
            let l = lane(kind.0, kind.1);
            let dom = l.dom();
            let t = {
                let mut g = G::new(c.s, l);
                match k {
                    2 => addends_term(&mut g),
                    3 if kind.0 != Kind::Pos => factors_term(&mut g, kind.0 == Kind::SymExp),
                    4 => {
                        // a number or sign, sums and other factors
                        let n = 1 + g.s.usize(3);
                        let mut v: Vec<T> = (0..n).map(|_| if g.s.chance(1, 2) { sum_factor(&mut g) } else { g.var() }).collect();
                        v.push(int(g.s.range(-3, 3)));
                        let n = v.len();
                        if g.s.chance(1, 2) {
                            v[n - 1] = int(-1);
                        }
                        if g.s.chance(1, 2) {
                            T::Prod(v)
                        } else {
                            T::Sum(v)
                        }
                    }
                    _ => g.term(),
                }
            };
            if est(&t) > 60.0 || valuations(&t, dom, 1).is_empty() {
                return Out::Discard("undefined or too large");
            }
            t.build()
        }
    };
    if rough(&e) > 60.0 {
        return Out::Discard("too large");
    }
    // rational rules expect numbers worked out
    if (i == 3 || i == 4) && !rationals_ok(&e) {
        return Out::Discard("not an input of the rational rules");
    }
    c.class(RULES[i]);
    let first = match std::panic::catch_unwind(|| apply_rule(i, &e).1) {
        Ok(x) => x,
        Err(_) => return Out::Discard("not an input of the rule"),
    };
    c.begin(format!("{} {}", RULES[i], show_e(&e)), true);
    let text = format!("{}", first);
    for _ in 0..24 {
        let x = apply_rule(i, &e).1;
        if let Err(m) = identical(&first, &x) {
            return Out::Fail(m);
        }
        if format!("{}", x) != text {
            return Out::Fail("the same result prints differently".into());
        }
    }
    Out::Pass
}

/// no raw power of an integer to anything but -1, and no zero denominators
fn rationals_ok(e: &Expression) -> bool {
    fn ok(n: &N) -> bool {
        match n {
            N::Pow(b, e) => match (&**b, &**e) {
                (N::Int(b), N::Int(k)) => !b.is_zero() && *k == BigInt::from(-1),
                _ => true,
            },
            N::Mul(v) | N::Add(v) => v.iter().all(ok),
            _ => true,
        }
    }
    ok(&n_of(e))
}

// ------------------------------------------------- exponents of any size

fn power_map(n: &N, k: &BigInt, m: &mut BTreeMap<String, BigInt>) -> bool {
    match n {
        N::Var(v) => {
            *m.entry(v.clone()).or_insert_with(BigInt::zero) += k;
            true
        }
        N::Int(x) => x.is_one(),
        N::Mul(v) => v.iter().all(|x| power_map(x, k, m)),
        N::Pow(b, e) => match &**e {
            N::Int(j) => power_map(b, &(j * k), m),
            _ => false,
        },
        _ => false,
    }
}

/// each rule on a product of variable powers with exponents of any size
pub fn rule_huge(c: &mut Case) -> Out {
    let i = c.s.usize(RULES.len());
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, "B"));
        let p = |g: &mut G| {
            let v = g.var();
            let k = if g.s.chance(1, 3) { BigInt::from(g.s.range(-3, 4)) } else { gen_huge_exponent(g.s) };
            let k = if g.s.chance(1, 2) { -k } else { k };
            T::Pow(bx(v), bx(T::Int(k)), 0)
        };
        let n = 1 + g.s.usize(5);
        let v: Vec<T> = (0..n).map(|_| p(&mut g)).collect();
        let t = T::Prod(v);
        if g.s.chance(1, 4) {
            let k = gen_huge_exponent(g.s);
            T::Pow(bx(t), bx(T::Int(k)), 0)
        } else {
            t
        }
    };
    let e = t.build();
    let mut want = BTreeMap::new();
    if !power_map(&n_of(&e), &BigInt::one(), &mut want) {
        return Out::Discard("not a product of powers");
    }
    want.retain(|_, k| !k.is_zero());
    c.class(RULES[i]);
    c.begin(format!("{} {}", RULES[i], t.show()), true);
    let r = apply_rule(i, &e).1;
    let mut got = BTreeMap::new();
    if !power_map(&n_of(&r), &BigInt::one(), &mut got) {
        return Out::Fail(format!("{} is no product of powers", show_e(&r)));
    }
    got.retain(|_, k| !k.is_zero());
    if got == want {
        Out::Pass
    } else {
        Out::Fail(format!("expected the exponents {:?} but got {}", want, show_e(&r)))
    }
}

// ------------------------------------------------ long sums of fractions

/// a sum or product of up to 900 fractions, the result with thousands of bits
pub fn long_fractions(c: &mut Case) -> Out {
    let (t, want, what) = {
        let s = &mut *c.s;
        let n = 3 + match s.usize(4) {
            0 => s.usize(30),
            1 => s.usize(120),
            2 => s.usize(300),
            _ => s.usize(900),
        };
        let style = s.usize(6);
        let sum = s.chance(3, 4);
        let step = s.range(1, 6);
        let signs = s.usize(3);
        let mut want = if sum { BigRational::zero() } else { BigRational::one() };
        let mut v = vec![];
        for i in 1..=n as i64 {
            let d = match style {
                0 => BigInt::from(i),
                1 => BigInt::from(i * step + 1),
                2 => BigInt::from(s.range(1, 1 << 16)),
                3 => num::pow::pow(BigInt::from(step + 1), (i % 300) as usize),
                4 => BigInt::from(i) * BigInt::from(i + 1),
                _ => gen_bigint(s, 40).abs() + BigInt::from(1),
            };
            let p = if style == 4 || s.chance(1, 2) { 1 } else { s.range(1, 30) };
            let p = match signs {
                0 => p,
                1 => {
                    if i % 2 == 0 {
                        -p
                    } else {
                        p
                    }
                }
                _ => {
                    if s.chance(1, 2) {
                        -p
                    } else {
                        p
                    }
                }
            };
            let q = BigRational::new(BigInt::from(p), d.clone());
            if sum {
                want = want + q;
            } else {
                want = want * q;
            }
            v.push(T::Div(bx(int(p)), bx(T::Int(d)), 0));
        }
        // flat, or in chunks
        let wrap = |v: Vec<T>| if sum { T::Sum(v) } else { T::Prod(v) };
        let t = if s.chance(1, 3) {
            let k = 1 + s.usize(40);
            wrap(v.chunks(k).map(|x| wrap(x.to_vec())).collect())
        } else {
            wrap(v)
        };
        (t, want, format!("{} fractions, style {}, sum {}, step {}, signs {}", n, style, sum, step, signs))
    };
    c.class(if want.denom().bits() > 1024 { "denominator beyond 2^1024" } else { "shorter" });
    c.begin(format!("{}: {}", what, t.show()), true);
    let n = n_of(&t.build().simplify());
    match read_rational(&n) {
        Ok(x) if x == want => Out::Pass,
        Ok(x) => Out::Fail(format!("expected {} but got {}", want, x)),
        Err(m) => Out::Fail(format!("expected {} in lowest terms but got {}: {}", want, n.show(), m)),
    }
}

// ------------------------------------------------------- long products

/// a product of up to ten powers of different variables
pub fn wide_monomial(s: &mut Src, names: &[&str]) -> T {
    let n = 3 + s.usize(8);
    let mut v = vec![];
    for i in 0..n {
        let name = if s.chance(3, 4) { names[i % names.len()] } else { names[s.usize(names.len())] };
        v.push(if s.chance(1, 4) { T::Pow(bx(var(name)), bx(int(s.range(2, 4))), 0) } else { var(name) });
    }
    if s.chance(1, 4) {
        let k = s.usize(v.len());
        v[k] = T::Div(bx(int(1)), bx(v[k].clone()), 0);
    }
    T::Prod(v)
}

/// a sum of multiples of few long products
pub fn long_products(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let t = {
        let s = &mut *c.s;
        let names = ["a", "b", "c", "d", "m", "n", "t", "x", "y", "z"];
        let keys: Vec<T> = (0..1 + s.usize(3)).map(|_| wide_monomial(s, &names)).collect();
        let n = 2 + s.usize(7);
        let v: Vec<T> = (0..n)
            .map(|_| {
                let k = keys[s.usize(keys.len())].clone();
                match s.usize(7) {
                    0 | 1 => k,
                    2 | 3 => T::Neg(bx(k), s.below(2) as u8),
                    4 => T::Mul(bx(int(s.range(-5, 5))), bx(k), s.below(5) as u8),
                    5 => T::Div(bx(k), bx(int(s.range(2, 6))), 0),
                    _ => match s.usize(3) {
                        0 => int(s.range(-3, 3)),
                        1 => var(names[s.usize(names.len())]),
                        _ => T::Mul(bx(var(names[s.usize(names.len())])), bx(k), 0),
                    },
                }
            })
            .collect();
        match s.usize(4) {
            0 => {
                let mut it = v.into_iter();
                let x = it.next().unwrap();
                it.fold(x, |a, b| T::Add(bx(a), bx(b), 0))
            }
            1 => {
                let mut it = v.into_iter();
                let x = it.next().unwrap();
                it.fold(x, |a, b| T::Sub(bx(a), bx(b), 0))
            }
            _ => T::Sum(v),
        }
    };
    value_of(c, t, Dom::Signed, f)
}

// -------------------------------------------------- sums further inside

fn inner_sum(s: &mut Src, depth: usize) -> T {
    let names = ["a", "b", "c", "m", "n", "x"];
    let leaf = |s: &mut Src| if s.chance(3, 4) { var(names[s.usize(names.len())]) } else { int(s.range(1, 5)) };
    let sum = |s: &mut Src| {
        let n = 2 + s.usize(2);
        let mut v = vec![var(names[s.usize(names.len())])];
        for _ in 1..n {
            v.push(match s.usize(4) {
                0 => T::Mul(bx(int(s.range(2, 5))), bx(leaf(s)), 0),
                1 => T::Pow(bx(leaf(s)), bx(int(s.range(2, 3))), 0),
                _ => leaf(s),
            });
        }
        T::Sum(v)
    };
    let x = match s.usize(6) {
        0 => T::Mul(bx(sum(s)), bx(leaf(s)), 0),
        1 => T::Prod(vec![sum(s), sum(s)]),
        2 => T::Mul(bx(sum(s)), bx(T::Pow(bx(sum(s)), bx(int(2)), 0)), 0),
        3 => T::Add(bx(T::Pow(bx(sum(s)), bx(int(s.range(2, 3))), 0)), bx(leaf(s)), 0),
        _ => T::Pow(bx(sum(s)), bx(int(s.range(2, 4))), s.below(2) as u8),
    };
    if depth == 0 {
        return x;
    }
    let base = match s.usize(5) {
        0 => int(s.range(2, 5)),
        1 => sum(s),
        2 => T::Mul(bx(leaf(s)), bx(leaf(s)), 0),
        _ => var(names[s.usize(names.len())]),
    };
    let x = if depth > 1 { inner_sum(s, depth - 1) } else { x };
    match s.usize(8) {
        0 => T::Log(bx(x), bx(base), s.below(2) as u8),
        1 => T::Log(bx(base), bx(x), 0),
        2 => T::Add(bx(T::Pow(bx(base), bx(x), 0)), bx(leaf(s)), 0),
        3 => T::Mul(bx(leaf(s)), bx(T::Pow(bx(base), bx(x), 0)), 0),
        4 => T::Div(bx(leaf(s)), bx(T::Pow(bx(base), bx(x), 0)), 0),
        _ => T::Pow(bx(base), bx(x), s.below(2) as u8),
    }
}

/// powers and products of sums inside exponents and logarithms
pub fn inner_sums(c: &mut Case) -> T {
    let d = 1 + c.s.usize(3);
    let t = inner_sum(c.s, d);
    if c.s.chance(2, 3) {
        return t;
    }
    // among many plain items
    let n = 2 + c.s.usize(30);
    let sum = c.s.chance(2, 3);
    let mut v = vec![];
    for i in 0..n {
        let x = var(&format!("p{}", i));
        v.push(match c.s.usize(4) {
            0 => T::Pow(bx(x), bx(int(c.s.range(2, 4))), 0),
            1 if sum => T::Mul(bx(int(c.s.range(2, 5))), bx(x), 0),
            _ => x,
        });
    }
    let i = c.s.usize(v.len() + 1);
    v.insert(i, t);
    if c.s.chance(1, 3) {
        let t = inner_sum(c.s, 1);
        v.push(t);
    }
    if sum {
        T::Sum(v)
    } else {
        T::Prod(v)
    }
}

pub fn inner_value(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let t = inner_sums(c);
    if est(&t) > 300.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, Dom::Pos, f)
}

pub fn inner_complete(c: &mut Case) -> Out {
    let t = inner_sums(c);
    if est(&t) > 300.0 {
        return Out::Discard("too large");
    }
    c.begin(t.show(), true);
    let e = t.build().expand();
    match unexpanded(&n_of(&e)) {
        Some(x) => Out::Fail(format!("not expanded: {} in {}", x, show_e(&e))),
        None => Out::Pass,
    }
}
