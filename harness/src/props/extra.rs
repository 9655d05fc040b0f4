//! C26 arithmetic of real literals, C27 opaque functions behave as variables.
use super::manip::*;
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use num::traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            subs: vec![
                sub!("pair", 1_500_000, 20_000_000, "two real literals of any magnitude and one operation, every spelling", real_pair),
                sub!("chain", 400_000, 6_000_000, "up to 20 operations on real literals, one after the other", real_chain),
                sub!("function", 400_000, 6_000_000, "power and logarithm of real and integer literals", real_function),
                sub!("many", 400_000, 5_000_000, "a sum or product of dyadic literals whose f64 result does not depend on the order", real_many),
                sub!("beside", 400_000, 5_000_000, "two real literals inside a sum or product with other items", real_beside),
            ],
        },
        Prop {
            id: "C27",
            subs: vec![
                sub!("build", 40_000, 600_000, "a polynomial with opaque functions in place of variables, built", |c| atoms(c, 0)),
                sub!("expand", 12_000, 500_000, "the same, expanded", |c| atoms(c, 1)),
                sub!("simplify", 15_000, 500_000, "the same, simplified", |c| atoms(c, 2)),
                sub!("compare", 2_000, 200_000, "the same, compared with an equivalent form plus a number", |c| atoms(c, 3)),
                sub!("factors", 40_000, 500_000, "a product of powers of variables with opaque functions in their place, simplified", |c| atoms(c, 4)),
            ],
        },
    ]
}

// ------------------------------------------------------------------- C26

fn any_real(s: &mut Src) -> f64 {
    match s.weighted(&[45, 30, 25]) {
        0 => gen_real(s),
        1 => wide_real(s),
        _ => loop {
            let r = f64::from_bits((s.below(1 << 32) << 32) | s.below(1 << 32));
            if r.is_finite() {
                return r;
            } else if s.taken.len() > 80 {
                return 1.5;
            }
        },
    }
}

/// the f64 a variable-free result stands for: a number, a number with its sign
/// split off, or a sum of two of those (a negative real in a sum stays apart)
fn as_f64(e: &Expression) -> Option<f64> {
    fn single(e: &Expression) -> Option<f64> {
        use num::traits::ToPrimitive;
        match e {
            Expression::Real(r) => Some(r.data),
            Expression::Integer(n) => n.data.to_f64().filter(|f| f.abs() < 9e15),
            Expression::Multiplication(m) => match m.items().as_slice() {
                [Expression::Real(r), Expression::Integer(n)] | [Expression::Integer(n), Expression::Real(r)] if n.data == (-1).into() => {
                    Some(-r.data)
                }
                _ => None,
            },
            _ => None,
        }
    }
    match e {
        Expression::Addition(a) => match a.items().as_slice() {
            [x, y] => Some(single(x)? + single(y)?),
            _ => None,
        },
        _ => single(e),
    }
}

fn op2(which: usize, a: f64, b: f64) -> f64 {
    match which {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        _ => a / b,
    }
}

fn op2_t(which: usize, a: T, b: T, h: u8) -> T {
    let (a, b) = (bx(a), bx(b));
    match which {
        0 => T::Add(a, b, h),
        1 => T::Sub(a, b, h),
        2 => T::Mul(a, b, h),
        _ => T::Div(a, b, h),
    }
}

fn same_f64(e: &Expression, want: f64) -> Out {
    match as_f64(e) {
        Some(x) if x == want => Out::Pass,
        _ => Out::Fail(format!("f64 arithmetic gives {:?} but the result is {}", want, show_e(e))),
    }
}

fn real_pair(c: &mut Case) -> Out {
    let which = c.s.usize(4);
    let h = c.s.below(5) as u8;
    let (a, b) = (any_real(c.s), any_real(c.s));
    let b = match c.s.usize(8) {
        0 => a,
        1 => -a,
        2 => f64::from_bits(a.to_bits() ^ 1),
        _ => b,
    };
    let want = op2(which, a, b);
    if !b.is_finite() || !want.is_finite() || (which == 3 && b == 0.0) {
        return Out::Discard("not finite");
    }
    let t = op2_t(which, T::Real(a), T::Real(b), h);
    c.begin(t.show(), a != 0.0 && b != 0.0);
    same_f64(&t.build(), want)
}

fn real_chain(c: &mut Case) -> Out {
    let n = 2 + c.s.usize(19);
    let mut steps: Vec<(usize, f64, bool, u8)> = vec![];
    let first = gen_real(c.s);
    for _ in 0..n {
        let w = c.s.usize(5);
        let r = if c.s.chance(1, 5) { any_real(c.s) } else { gen_real(c.s) };
        steps.push((w, r, c.s.chance(1, 2), c.s.below(5) as u8));
    }
    let text = steps
        .iter()
        .map(|(w, r, back, _)| format!("{}{}{:?}", if *back { "~" } else { "" }, ["+", "-", "*", "/", "neg"][*w], r))
        .collect::<Vec<_>>()
        .join(" ");
    c.begin(format!("{:?} {}", first, text), true);
    let mut x = first;
    let mut e = Symbol::real(first).expr();
    for (i, (w, r, back, h)) in steps.iter().enumerate() {
        let (y, f) = if *w == 4 {
            (-x, if h % 2 == 0 { -e.clone() } else { -&e })
        } else {
            let (p, q) = if *back { (*r, x) } else { (x, *r) };
            // the inverse, and the quotient, have to be normal numbers
            if *w == 3 && !(1e-290..1e290).contains(&q.abs()) || *w == 3 && p != 0.0 && (p / q).abs() < 1e-290 {
                continue;
            }
            let lit = Symbol::real(*r).expr();
            let (l, m) = if *back { (lit, e.clone()) } else { (e.clone(), lit) };
            let f = match (w, h % 2) {
                (0, 0) => l + m,
                (0, _) => &l + &m,
                (1, 0) => l - m,
                (1, _) => &l - &m,
                (2, 0) => l * m,
                (2, _) => &l * &m,
                (_, 0) => l / m,
                (_, _) => &l / &m,
            };
            (op2(*w, p, q), f)
        };
        if !y.is_finite() {
            break;
        }
        match as_f64(&f) {
            // dividing with a sign split off may multiply by the inverse, rounded twice
            Some(z) if z == y => {}
            Some(z) if *w == 3 && (z - y).abs() <= 2.0 * f64::EPSILON * y.abs() => {}
            _ => return Out::Fail(format!("after step {} f64 arithmetic gives {:?} but the result is {}", i + 1, y, show_e(&f))),
        }
        // an open sum, or an exact 0 or 1 that became an integer, would not fold on
        x = as_f64(&f).unwrap();
        e = if matches!(f, Expression::Integer(_) | Expression::Addition(_)) { Symbol::real(x).expr() } else { f };
    }
    Out::Pass
}

fn real_function(c: &mut Case) -> Out {
    let which = c.s.usize(5);
    if which == 4 {
        return real_near_one(c);
    }
    let a = any_real(c.s);
    let b = match c.s.usize(3) {
        0 => any_real(c.s),
        _ => [2.0, 0.5, 3.0, -1.0, -2.0, 1.5, 10.0, -0.5, 4.0, 0.25][c.s.usize(10)],
    };
    let k = c.s.range(-12, 12);
    let h = c.s.below(2) as u8;
    let (t, want) = match which {
        0 => (T::Pow(bx(T::Real(a.abs())), bx(T::Real(b)), h), a.abs().powf(b)),
        1 => (T::Pow(bx(T::Real(a)), bx(int(k)), h), a.powf(k as f64)),
        2 => (T::Pow(bx(int(k.abs())), bx(T::Real(b)), h), (k.abs() as f64).powf(b)),
        _ => (T::Log(bx(T::Real(a.abs())), bx(T::Real(b.abs())), h), a.abs().ln() / b.abs().ln()),
    };
    let zero = match which {
        0 | 1 => a == 0.0,
        2 => k == 0,
        _ => a == 0.0 || b == 0.0 || (b.abs() - 1.0).abs() < 1e-3,
    };
    if zero || !want.is_finite() || want.abs() < 1e-290 {
        return Out::Discard("not finite");
    }
    c.begin(t.show(), true);
    let e = t.build();
    match as_f64(&e) {
        // the functions themselves are correctly rounded only almost
        Some(x) if (x - want).abs() <= 16.0 * f64::EPSILON * (want.abs() + if which == 3 { 1e-16 } else { 0.0 }) => Out::Pass,
        _ => Out::Fail(format!("f64 arithmetic gives {:?} but the result is {}", want, show_e(&e))),
    }
}

/// a base of either sign next to one, or a small one, to a whole exponent of any size
fn real_near_one(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let sign = if s.chance(1, 2) { -1.0 } else { 1.0 };
    let up = [7u32, 8, 15, 16, 24, 31, 32, 33, 40, 52][s.usize(10)];
    let (base, k) = if s.chance(1, 4) {
        ([2.0, 1.5, 3.0, 0.5, 10.0][s.usize(5)], s.range(-60, 60))
    } else {
        let d = 1.0 + (s.range(-8, 8) as f64) * 2f64.powi(-(up.min(50) as i32));
        (d, (1i64 << up) + s.range(-5, 5))
    };
    let base = sign * base;
    let k = if s.chance(1, 2) { -k } else { k };
    if base == 0.0 || base.abs() == 1.0 && k == 0 {
        return Out::Discard("not finite");
    }
    let want = base.powf(k as f64);
    if !want.is_finite() || want.abs() < 1e-290 {
        return Out::Discard("not finite");
    }
    let h = s.below(2) as u8;
    let t = if s.chance(1, 2) {
        T::Pow(bx(T::Real(base)), bx(T::Real(k as f64)), h)
    } else {
        T::Pow(bx(T::Real(base)), bx(int(k)), h)
    };
    c.begin(t.show(), true);
    let e = t.build();
    match as_f64(&e) {
        Some(x) if (x - want).abs() <= 16.0 * f64::EPSILON * want.abs() => Out::Pass,
        _ => Out::Fail(format!("f64 arithmetic gives {:?} but the result is {}", want, show_e(&e))),
    }
}

/// multiples of 1/64 below 2^20: sums are exact; powers of two: products are
fn real_many(c: &mut Case) -> Out {
    let sum = c.s.chance(1, 2);
    let n = 2 + c.s.usize(15);
    let mut q = if sum { Q::zero() } else { Q::one() };
    let mut items = vec![];
    for _ in 0..n {
        let r = if sum {
            (c.s.range(0, 1 << 20) - (1 << 19)) as f64 / 64.0
        } else {
            let m = [1.0, 2.0, 0.5, -1.0, 4.0, -0.25, -8.0, 3.0][c.s.usize(8)];
            m
        };
        let x = Q::from_float(r).unwrap();
        q = if sum { q + x } else { q * x };
        items.push(T::Real(r));
    }
    let t = if sum { T::Sum(items) } else { T::Prod(items) };
    c.begin(t.show(), n >= 3);
    let e = t.build();
    match as_f64(&e).and_then(Q::from_float) {
        Some(x) if x == q => Out::Pass,
        _ => Out::Fail(format!("the exact result is {} but the result is {}", q, show_e(&e))),
    }
}

/// the two literals combine the same with other items around
fn real_beside(c: &mut Case) -> Out {
    let sum = c.s.chance(1, 2);
    let (a, b) = (any_real(c.s), any_real(c.s));
    let want = if sum { a + b } else { a * b };
    let others: Vec<T> = {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        let n = 1 + g.s.usize(4);
        (0..n)
            .map(|_| match g.s.usize(3) {
                0 => g.var(),
                1 => T::Pow(bx(g.var()), bx(int(2)), 0),
                _ => T::Sin(bx(g.var())),
            })
            .collect()
    };
    let (i, j) = (c.s.usize(others.len() + 1), c.s.usize(others.len() + 2));
    let mut v = others.clone();
    v.insert(i, T::Real(a));
    v.insert(j, T::Real(b));
    if !want.is_finite() || want == 0.0 || (!sum && (a == 0.0 || b == 0.0)) {
        return Out::Discard("not finite");
    }
    // left to right, another item between two literals does not matter
    let t = if c.s.chance(1, 2) {
        if sum {
            T::Sum(v)
        } else {
            T::Prod(v)
        }
    } else {
        let mut it = v.into_iter();
        let mut acc = it.next().unwrap();
        for x in it {
            acc = if sum { T::Add(bx(acc), bx(x), 0) } else { T::Mul(bx(acc), bx(x), 0) };
        }
        acc
    };
    c.begin(t.show(), true);
    let e = t.build();
    // a negative literal is a sign and its magnitude
    let mut real = if sum { 0.0 } else { 1.0 };
    let mut reals = 0;
    let n = n_of(&e);
    let items = match &n {
        N::Add(v) if sum => v.clone(),
        N::Mul(v) if !sum => v.clone(),
        x => vec![x.clone()],
    };
    for x in &items {
        match x {
            N::Real(r) => {
                reals += 1;
                real = if sum { real + f64::from_bits(*r) } else { real * f64::from_bits(*r) };
            }
            N::Int(k) if !sum && *k == (-1).into() => real = -real,
            // -1.0 is -1 and a dropped 1.0
            N::Int(k) if sum && (*k == (-1).into() || *k == (-2).into()) => {
                reals += 1;
                real += num::ToPrimitive::to_f64(k).unwrap();
            }
            N::Mul(w) if sum => match w.as_slice() {
                [N::Int(k), N::Real(r)] if *k == (-1).into() => {
                    reals += 1;
                    real -= f64::from_bits(*r);
                }
                _ => {}
            },
            _ => {}
        }
    }
    // a negative literal may stay apart in a sum
    let limit = if sum && (a < 0.0 || b < 0.0) { 2 } else { 1 };
    if reals <= limit && real == want {
        Out::Pass
    } else {
        Out::Fail(format!("f64 arithmetic gives {:?} but the result is {}", want, n.show()))
    }
}

// ------------------------------------------------------------------- C27

type Map = BTreeMap<String, (T, N)>;

fn subst_t(t: &T, m: &Map) -> T {
    let f = |x: &T| bx(subst_t(x, m));
    match t {
        T::Var(v) => m.get(v).map(|x| x.0.clone()).unwrap_or_else(|| t.clone()),
        T::Int(_) | T::Real(_) => t.clone(),
        T::Add(a, b, h) => T::Add(f(a), f(b), *h),
        T::Sub(a, b, h) => T::Sub(f(a), f(b), *h),
        T::Mul(a, b, h) => T::Mul(f(a), f(b), *h),
        T::Div(a, b, h) => T::Div(f(a), f(b), *h),
        T::Pow(a, b, h) => T::Pow(f(a), f(b), *h),
        T::Log(a, b, h) => T::Log(f(a), f(b), *h),
        T::Neg(a, h) => T::Neg(f(a), *h),
        T::Sin(a) => T::Sin(f(a)),
        T::Cos(a) => T::Cos(f(a)),
        T::Expand(a) => T::Expand(f(a)),
        T::Simplify(a) => T::Simplify(f(a)),
        T::Sum(v) => T::Sum(v.iter().map(|x| subst_t(x, m)).collect()),
        T::Prod(v) => T::Prod(v.iter().map(|x| subst_t(x, m)).collect()),
    }
}

fn subst_n(n: &N, m: &Map) -> N {
    let f = |x: &N| Box::new(subst_n(x, m));
    let l = |v: &Vec<N>| {
        let mut r: Vec<N> = v.iter().map(|x| subst_n(x, m)).collect();
        r.sort();
        r
    };
    match n {
        N::Var(v) => m.get(v).map(|x| x.1.clone()).unwrap_or_else(|| n.clone()),
        N::Int(_) | N::Real(_) => n.clone(),
        N::Mul(v) => N::Mul(l(v)),
        N::Add(v) => N::Add(l(v)),
        N::Pow(a, b) => N::Pow(f(a), f(b)),
        N::Log(a, b) => N::Log(f(a), f(b)),
        N::Sin(a) => N::Sin(f(a)),
        N::Cos(a) => N::Cos(f(a)),
    }
}

/// an expression no identity looks into
fn atom(g: &mut G) -> T {
    let arg = |g: &mut G| match g.s.usize(5) {
        0 => g.var(),
        1 => T::Add(bx(g.var()), bx(int(g.s.range(1, 5))), 0),
        2 => T::Mul(bx(int(g.s.range(2, 5))), bx(g.var()), 0),
        3 => T::Pow(bx(g.var()), bx(int(g.s.range(2, 5))), 0),
        _ if g.s.chance(1, 4) => T::Int(gen_bigint(g.s, 120).abs() + BigInt::from(2)),
        _ => int(g.s.range(1, 9)),
    };
    match g.s.weighted(&[35, 35, 30]) {
        0 => T::Sin(bx(arg(g))),
        1 => T::Cos(bx(arg(g))),
        _ => {
            if g.s.chance(1, 6) {
                // to an integer base, or of an integer
                let k = if g.s.chance(1, 2) { int(g.s.range(2, 12)) } else { T::Int(gen_bigint(g.s, 120).abs() + BigInt::from(2)) };
                let v = var(["lx", "ly"][g.s.usize(2)]);
                return if g.s.chance(2, 3) { T::Log(bx(v), bx(k), 0) } else { T::Log(bx(k), bx(v), 0) };
            }
            let (x, y) = (g.s.usize(4), g.s.usize(3));
            let names = ["lx", "ly", "lz", "lw"];
            if g.s.chance(1, 2) {
                // argument and base from the same names: log(x, y) and log(y, x)
                return T::Log(bx(var(names[x])), bx(var(names[(x + 1 + y) % 4])), 0);
            }
            T::Log(bx(var(names[x])), bx(var(["bx", "by", "bz"][y])), 0)
        }
    }
}

fn atoms(c: &mut Case, work: usize) -> Out {
    let (t, u) = if work == 4 {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        let b = 1 + g.s.usize(12);
        (laurent_term(&mut g, b), int(0))
    } else {
        let t = poly_case(c, false);
        let u = if work == 3 {
            let u = rewrite(c.s, &t, 0);
            let k = T::Int(gen_small(c.s));
            match c.s.usize(4) {
                0 => poly_case(c, false),
                1 => T::Mul(bx(u), bx(k), 0),
                _ => T::Add(bx(u), bx(k), 0),
            }
        } else {
            int(0)
        };
        (t, u)
    };
    if !poly_ok(&t) || !poly_ok(&u) || est(&t) + est(&u) > 250.0 {
        return Out::Discard("undefined or too large");
    }
    let mut vars = vec![];
    t.vars(&mut vars);
    u.vars(&mut vars);
    let mut m: Map = BTreeMap::new();
    {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        for v in &vars {
            if g.s.chance(1, 5) {
                continue;
            }
            for _ in 0..4 {
                let mut a = atom(&mut g);
                if g.s.chance(1, 4) && !m.is_empty() {
                    // one that is related to another
                    let k = g.s.usize(m.len());
                    let other = m.values().nth(k).map(|x| x.0.clone());
                    let next = |x: &T| match x {
                        T::Int(k) => Some(bx(T::Int(k + BigInt::from(1)))),
                        _ => None,
                    };
                    let close = match &other {
                        Some(T::Sin(x)) => next(x).map(T::Sin),
                        Some(T::Cos(x)) => next(x).map(T::Cos),
                        Some(T::Log(x, y, h)) => match (next(x), next(y)) {
                            (Some(x), _) => Some(T::Log(x, y.clone(), *h)),
                            (_, Some(y)) => Some(T::Log(x.clone(), y, *h)),
                            _ => None,
                        },
                        _ => None,
                    };
                    a = match other {
                        _ if close.is_some() => close.unwrap(),
                        Some(T::Sin(x)) => match g.s.usize(3) {
                            0 => T::Cos(x),
                            1 => T::Sin(bx(T::Neg(x, 0))),
                            _ => T::Sin(bx(T::Mul(bx(int(2)), x, 0))),
                        },
                        Some(T::Cos(x)) => match g.s.usize(3) {
                            0 => T::Sin(x),
                            1 => T::Cos(bx(T::Neg(x, 0))),
                            _ => T::Cos(bx(T::Mul(bx(int(2)), x, 0))),
                        },
                        Some(T::Log(x, y, h)) => T::Log(y, x, h),
                        _ => a,
                    };
                }
                if m.values().all(|(x, _)| x.show() != a.show()) {
                    m.insert(v.clone(), (a, N::Var(String::new())));
                    break;
                }
            }
        }
    }
    if m.is_empty() {
        return Out::Discard("no variable");
    }
    c.begin(
        format!(
            "{} ? {} with {}",
            t.show(),
            u.show(),
            m.iter().map(|(v, a)| format!("{}:={}", v, a.0.show())).collect::<Vec<_>>().join(" ")
        ),
        t.size() >= 3,
    );
    for (_, a) in m.iter_mut() {
        a.1 = n_of(&a.0.build());
    }
    let seen: std::collections::BTreeSet<N> = m.values().map(|a| a.1.clone()).collect();
    if seen.len() < m.len() {
        return Out::Discard("two atoms coincide");
    }
    let (t2, u2) = (subst_t(&t, &m), subst_t(&u, &m));
    let (a, b) = (t.build(), t2.build());
    if work == 3 {
        let (p, q) = (u.build(), u2.build());
        let f = |a: &Expression, p: &Expression| {
            (a.comparable(p), a.equal(p), a.not_equal(p), a.greater(p), a.lesser(p), a.greater_equal(p), a.lesser_equal(p))
        };
        let (x, y) = (f(&a, &p), f(&b, &q));
        return if x == y {
            Out::Pass
        } else {
            Out::Fail(format!("the comparisons are {:?} for variables and {:?} for opaque functions", x, y))
        };
    }
    let (x, y) = match work {
        0 => (a, b),
        1 => (a.expand(), b.expand()),
        _ => (a.simplify(), b.simplify()),
    };
    let (want, got) = (subst_n(&n_of(&x), &m), n_of(&y));
    if want == got {
        Out::Pass
    } else {
        Out::Fail(format!("with variables it would be {} but with opaque functions it is {}", want.show(), got.show()))
    }
}
