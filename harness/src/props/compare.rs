//! C13 sound and coherent comparisons, C14 comparisons that must be decided.
use super::arith::{shape, shuffle};
use super::manip::*;
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::poly::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::expression::Expression;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::traits::{Signed, Zero};
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            subs: vec![
                sub!("exact", 10_000, 900_000, "two terms over integers, quotients and variables", |c| sound(c, Kind::Rat, "B")),
                sub!("opaque", 4_000, 300_000, "the same with trigonometric nodes and histories", |c| sound(c, Kind::Rat, "TH")),
                sub!("symbolic-exponent", 6_000, 400_000, "the same with symbolic exponents", |c| sound(c, Kind::SymExp, "")),
                sub!("real", 8_000, 700_000, "the same with real literals", |c| sound(c, Kind::Rat, "R")),
                sub!("positive", 6_000, 400_000, "positive terms with any exponent and logarithms", |c| sound(c, Kind::Pos, "R")),
                sub!("nonfinite", 20_000, 300_000, "two terms with infinities, NaN and extreme literals: the seven answers agree", nonfinite),
                sub!("symmetric", 2_000, 700_000, "two integer polynomials or numbers compared both ways", symmetric),
                sub!("chain", 400, 500_000, "three terms differing by numbers", chain),
            ],
        },
        Prop {
            id: "C14",
            subs: vec![
                sub!("numbers", 15_000, 1_200_000, "two closed terms over integers and quotients", numbers),
                sub!("near", 25_000, 900_000, "two numbers equal or differing by little", near),
                sub!("hidden", 25_000, 900_000, "a number taken apart into sums, products, quotients and inverses, against itself or one next to it", hidden_numbers),
                sub!("reals", 20_000, 900_000, "closed terms with real literals", reals),
                sub!("huge", 20_000, 600_000, "two integers or quotients of up to 3400 bits, apart or close", huge_numbers),
                sub!("literals", 60_000, 900_000, "two real or integer literals, equal, adjacent or apart, of any magnitude", literals),
                sub!("polynomials", 2_500, 700_000, "an integer polynomial against an equivalent form plus a constant", polynomials),
                sub!("incomparable", 2_500, 600_000, "two integer polynomials with a non-constant difference", incomparable),
                sub!("by-hand", 20_000, 400_000, "polynomials as trees made node by node, not in the form the constructors give", by_hand),
                sub!("itself", 10_000, 700_000, "a term against itself, re-built or permuted", itself),
            ],
        },
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Flags {
    cmp: bool,
    eq: bool,
    ne: bool,
    gt: bool,
    lt: bool,
    ge: bool,
    le: bool,
}

fn flags(a: &Expression, b: &Expression) -> Flags {
    Flags {
        cmp: a.comparable(b),
        eq: a.equal(b),
        ne: a.not_equal(b),
        gt: a.greater(b),
        lt: a.lesser(b),
        ge: a.greater_equal(b),
        le: a.lesser_equal(b),
    }
}

impl Flags {
    fn of(o: Option<Ordering>) -> Flags {
        let (l, e, g) = match o {
            None => (false, false, false),
            Some(Ordering::Less) => (true, false, false),
            Some(Ordering::Equal) => (false, true, false),
            Some(Ordering::Greater) => (false, false, true),
        };
        Flags { cmp: l || e || g, eq: e, ne: l || g, gt: g, lt: l, ge: e || g, le: e || l }
    }
    fn ordering(&self) -> Result<Option<Ordering>, String> {
        for o in [None, Some(Ordering::Less), Some(Ordering::Equal), Some(Ordering::Greater)] {
            if Flags::of(o) == *self {
                return Ok(o);
            }
        }
        Err(format!("the comparison predicates contradict one another: {:?}", self))
    }
}

fn rev(o: Option<Ordering>) -> Option<Ordering> {
    o.map(|x| x.reverse())
}

/// a second operand related to the first
fn related(g: &mut G, a: &T) -> T {
    let k = |g: &mut G| -> T {
        match g.s.usize(3) {
            0 => T::Int(gen_small(g.s)),
            1 => {
                let p = g.s.range(-9, 9);
                T::Div(bx(int(p)), bx(int(g.s.range(2, 9))), 0)
            }
            _ => {
                if g.lane.reals {
                    T::Real([0.5, 1.0, 2.0, -1.5, 0.25, -0.125][g.s.usize(6)])
                } else {
                    let b = g.lane.big;
                    T::Int(gen_int(g.s, b))
                }
            }
        }
    };
    match g.s.usize(6) {
        0 => T::Add(bx(a.clone()), bx(k(g)), 0),
        1 => T::Sub(bx(k(g)), bx(T::Neg(bx(a.clone()), 0)), 0),
        2 => T::Sub(bx(a.clone()), bx(k(g)), 0),
        3 => T::Mul(bx(a.clone()), bx(k(g)), 0),
        4 => T::Sub(bx(T::Add(bx(a.clone()), bx(a.clone()), 0)), bx(a.clone()), 0),
        _ => T::Simplify(bx(a.clone())),
    }
}

fn sound(c: &mut Case, kind: Kind, fl: &str) -> Out {
    let l = lane(kind, fl);
    let dom = l.dom();
    let (a, b) = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 40.0;
        let n = 1 + g.s.usize(10);
        let a = if g.s.chance(1, 4) { shape(&mut g) } else { g.any(n) };
        let a = g.cap(a);
        let b = if g.s.chance(2, 3) {
            related(&mut g, &a)
        } else {
            let n = 1 + g.s.usize(10);
            let b = g.any(n);
            g.cap(b)
        };
        if g.s.chance(1, 2) {
            (a, b)
        } else {
            (b, a)
        }
    };
    let d = T::Sub(bx(a.clone()), bx(b.clone()), 0);
    if est(&d) > 150.0 {
        return Out::Discard("too large");
    }
    let vals = valuations(&d, dom, 4);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    classify(c, &d);
    c.begin(format!("{} ? {}", a.show(), b.show()), d.size() >= 4);
    let (x, y) = (a.build(), b.build());
    let (nx, ny) = (n_of(&x), n_of(&y));
    let f = flags(&x, &y);
    if n_of(&x) != nx || n_of(&y) != ny {
        return Out::Fail("an operand changed".into());
    }
    let o = match f.ordering() {
        Ok(o) => o,
        Err(m) => return Out::Fail(m),
    };
    let o = match o {
        Some(o) => o,
        None => return Out::Pass,
    };
    let tol = d.has_real();
    for (v, x) in &vals {
        let wrong = if tol {
            let t = x.m * 2f64.powi(-34) + 1e-280;
            if !t.is_finite() {
                return Out::Unknown("ill-conditioned after rounding");
            }
            match o {
                Ordering::Less => x.f > t,
                Ordering::Equal => x.f.abs() > t,
                Ordering::Greater => x.f < -t,
            }
        } else {
            match &x.q {
                Some(q) => match o {
                    Ordering::Less => !q.is_negative(),
                    Ordering::Equal => !q.is_zero(),
                    Ordering::Greater => !q.is_positive(),
                },
                None => {
                    let t = x.m * 2f64.powi(-34) + 1e-280;
                    match o {
                        Ordering::Less => x.f > t,
                        Ordering::Equal => x.f.abs() > t,
                        Ordering::Greater => x.f < -t,
                    }
                }
            }
        };
        if wrong {
            let mut tv = vec![];
            d.vars(&mut tv);
            return Out::Fail(format!(
                "reported {:?}, but the difference is {} (at {})",
                o,
                show_val(x),
                show_at(&tv, v)
            ));
        }
    }
    Out::Pass
}

fn symmetric(c: &mut Case) -> Out {
    let (a, b) = match c.s.usize(3) {
        0 => {
            let big = c.s.chance(1, 3);
            let (n, m) = (1 + c.s.usize(6), 1 + c.s.usize(6));
            (rat_term(c.s, n, big), rat_term(c.s, m, big))
        }
        _ => {
            let a = poly_case(c, false);
            let mut g = G::new(c.s, lane(Kind::Poly, ""));
            let b = if g.s.chance(3, 4) { related_int(&mut g, &a) } else { ipoly(&mut g, 5) };
            (a, b)
        }
    };
    let d = T::Sub(bx(a.clone()), bx(b.clone()), 0);
    if !poly_ok(&d) || est(&d) > 300.0 || poly_of(&d).is_none() {
        return Out::Discard("undefined or too large");
    }
    c.begin(format!("{} ? {}", a.show(), b.show()), d.size() >= 4);
    let (x, y) = (a.build(), b.build());
    let (p, q) = (flags(&x, &y).ordering(), flags(&y, &x).ordering());
    match (p, q) {
        (Ok(p), Ok(q)) => {
            if p == rev(q) {
                Out::Pass
            } else {
                Out::Fail(format!("one way {:?}, the other way {:?}", p, q))
            }
        }
        (Err(m), _) | (_, Err(m)) => Out::Fail(m),
    }
}

fn related_int(g: &mut G, a: &T) -> T {
    let k = T::Int(gen_small(g.s));
    match g.s.usize(3) {
        0 => T::Add(bx(a.clone()), bx(k), 0),
        1 => T::Sub(bx(k), bx(T::Neg(bx(a.clone()), 0)), 0),
        _ => T::Mul(bx(a.clone()), bx(k), 0),
    }
}

fn chain(c: &mut Case) -> Out {
    let base = poly_case(c, false);
    let n = 3 + c.s.usize(3);
    let mut ks: Vec<T> = vec![];
    for _ in 0..n {
        let m = 1 + c.s.usize(2);
        ks.push(rat_term(c.s, m, false));
    }
    if !poly_ok(&base) || est(&base) > 60.0 {
        return Out::Discard("undefined or too large");
    }
    let mut qs = vec![];
    for k in &ks {
        match poly_of(k).and_then(|p| p.as_constant()) {
            Some(q) if poly_ok(k) => qs.push(q),
            _ => return Out::Discard("undefined"),
        }
    }
    let ts: Vec<T> = ks.iter().map(|k| T::Add(bx(base.clone()), bx(k.clone()), 0)).collect();
    c.begin(format!("{} ++ {}", base.show(), ks.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")), true);
    let es: Vec<Expression> = ts.iter().map(|t| t.build()).collect();
    for i in 0..n {
        for j in 0..n {
            let o = match flags(&es[i], &es[j]).ordering() {
                Ok(o) => o,
                Err(m) => return Out::Fail(m),
            };
            if let Some(o) = o {
                if o != qs[i].cmp(&qs[j]) {
                    return Out::Fail(format!("{} against {}: reported {:?}", ts[i].show(), ts[j].show(), o));
                }
            }
        }
    }
    Out::Pass
}

// ------------------------------------------------------------------- C14

fn expect(a: &Expression, b: &Expression, o: Option<Ordering>) -> Out {
    let f = flags(a, b);
    if f == Flags::of(o) {
        Out::Pass
    } else {
        let k = match o {
            None => "the difference is not a number".to_string(),
            Some(o) => format!("the first is {:?} the second", o),
        };
        Out::Fail(format!("{}, but the predicates say {:?} for {} and {}", k, f, show_e(a), show_e(b)))
    }
}

fn numbers(c: &mut Case) -> Out {
    let big = c.s.chance(1, 3);
    let (n, m) = (1 + c.s.usize(10), 1 + c.s.usize(6));
    let a = rat_term(c.s, n, big);
    let b = rat_term(c.s, m, big);
    let b = match c.s.usize(5) {
        0 => T::Sum(vec![a.clone(), b.clone(), T::Neg(bx(b), 0)]),
        1 => T::Add(bx(a.clone()), bx(int(c.s.range(-2, 2))), 0),
        2 => {
            // the number itself, as a literal or fraction, or one next to it
            let v = Valuation { seed: 1, dom: Dom::Signed };
            match eval_t(&a, &v) {
                Ok(Val { q: Some(q), .. }) => {
                    let (x, y) = (q.numer().clone(), q.denom().clone());
                    let x = x + BigInt::from([0, 0, 0, 1, -1][c.s.usize(5)]);
                    if y == BigInt::from(1) {
                        T::Int(x)
                    } else {
                        T::Div(bx(T::Int(x)), bx(T::Int(y)), 0)
                    }
                }
                _ => b,
            }
        }
        _ => b,
    };
    let (a, b) = if c.s.chance(1, 2) { (a, b) } else { (b, a) };
    two_numbers(c, a, b)
}

fn two_numbers(c: &mut Case, a: T, b: T) -> Out {
    let v = Valuation { seed: 1, dom: Dom::Signed };
    let (p, q) = match (eval_t(&a, &v), eval_t(&b, &v)) {
        (Ok(Val { q: Some(p), .. }), Ok(Val { q: Some(q), .. })) => (p, q),
        _ => return Out::Discard("undefined or too large"),
    };
    let o = p.cmp(&q);
    c.class(match o {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    c.begin(format!("{} ? {}", a.show(), b.show()), true);
    expect(&a.build(), &b.build(), Some(o))
}

fn near(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let big = s.chance(1, 2);
    let p = gen_int(s, big);
    let mut q = gen_int(s, big);
    if q.is_zero() {
        q = BigInt::from(3);
    }
    let a = T::Div(bx(T::Int(p.clone())), bx(T::Int(q.clone())), s.below(5) as u8);
    let k = BigInt::from([1i64, -1, 2, 3, -7, 10][s.usize(6)]);
    let b = match s.usize(6) {
        0 => T::Div(bx(T::Int(&p * &k)), bx(T::Int(&q * &k)), 0),
        1 => T::Div(bx(T::Int(&p * &k + BigInt::from(1))), bx(T::Int(&q * &k)), 0),
        2 => T::Div(bx(T::Int(p.clone() - BigInt::from(1))), bx(T::Int(q.clone())), 0),
        3 => T::Div(bx(T::Int(-&p)), bx(T::Int(-&q)), 0),
        4 => T::Int(num::Integer::div_floor(&p, &q)),
        _ => T::Add(bx(a.clone()), bx(T::Div(bx(int(1)), bx(T::Int(&q * &q + BigInt::from(1))), 0)), 0),
    };
    let (a, b) = if s.chance(1, 2) { (a, b) } else { (b, a) };
    two_numbers(c, a, b)
}

fn hidden_numbers(c: &mut Case) -> Out {
    let q = any_fraction(c.s);
    let r = match c.s.usize(4) {
        0 => &q + any_fraction(c.s),
        1 => BigRational::new(q.numer() + BigInt::from(1), q.denom().clone()),
        _ => q.clone(),
    };
    let b = 1 + c.s.usize(6);
    let a = hidden(c.s, &q, b);
    let b = if c.s.chance(1, 2) { 0 } else { 1 + c.s.usize(5) };
    let b = hidden(c.s, &r, b);
    let (a, b) = if c.s.chance(1, 2) { (a, b) } else { (b, a) };
    if est(&a) + est(&b) > 1000.0 {
        return Out::Discard("too large");
    }
    two_numbers(c, a, b)
}

fn reals(c: &mut Case) -> Out {
    let (a, b) = {
        let mut l = lane(Kind::Rat, "R");
        l.vars = false;
        let mut g = G::new(c.s, l);
        let (n, m) = (1 + g.s.usize(6), 1 + g.s.usize(6));
        // dyadic literals so that sums stay exact more often
        let a = g.any(n);
        let b = match g.s.usize(3) {
            0 => T::Add(bx(a.clone()), bx(T::Real([0.5, -0.5, 1.0, -2.0, 0.125][g.s.usize(5)])), 0),
            1 => T::Add(bx(a.clone()), bx(int(g.s.range(-2, 2))), 0),
            _ => g.any(m),
        };
        (a, b)
    };
    let d = T::Sub(bx(a.clone()), bx(b.clone()), 0);
    let vals = valuations(&d, Dom::Signed, 1);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable");
    }
    let x = &vals[0].1;
    let t = x.m * 2f64.powi(-30) + 1e-280;
    c.begin(format!("{} ? {}", a.show(), b.show()), d.has_real());
    let (ea, eb) = (a.build(), b.build());
    let f = flags(&ea, &eb);
    let o = match f.ordering() {
        Ok(o) => o,
        Err(m) => return Out::Fail(m),
    };
    if o.is_none() {
        return Out::Fail(format!("two numbers are reported as not comparable: {} and {}", show_e(&ea), show_e(&eb)));
    }
    if x.f.abs() <= t || !t.is_finite() {
        return Out::Unknown("closer than the rounding tolerance");
    }
    expect(&ea, &eb, Some(if x.f < 0.0 { Ordering::Less } else { Ordering::Greater }))
}

/// two literals compare as the numbers they are
fn huge_numbers(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let one = |s: &mut Src| {
        let bits = [70, 400, 1100, 3400][s.usize(4)];
        let n = gen_bigint(s, bits);
        if s.chance(1, 2) {
            -n
        } else {
            n
        }
    };
    let a = one(s);
    let b = match s.usize(5) {
        0 => &a + BigInt::from(s.range(-2, 2)),
        1 => -&a,
        2 => gen_int(s, false),
        _ => one(s),
    };
    let (x, y) = match s.usize(4) {
        0 => {
            let (d, e) = (s.range(2, 40), s.range(2, 40));
            (T::Div(bx(T::Int(a)), bx(int(d)), 0), T::Div(bx(T::Int(b)), bx(int(e)), 0))
        }
        1 => {
            let d = one(s).abs() + BigInt::from(2);
            (T::Div(bx(T::Int(a)), bx(T::Int(d.clone())), 0), T::Div(bx(T::Int(b)), bx(T::Int(d)), 0))
        }
        _ => (T::Int(a), T::Int(b)),
    };
    two_numbers(c, x, y)
}

fn literals(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let any = |s: &mut Src| -> f64 {
        match s.usize(4) {
            0 => gen_real(s),
            1 => wide_real(s),
            2 => s.range(-2000, 2000) as f64,
            _ => loop {
                let r = f64::from_bits((s.below(1 << 32) << 32) | s.below(1 << 32));
                if r.is_finite() {
                    return r;
                } else if s.taken.len() > 60 {
                    return 1.0;
                }
            },
        }
    };
    let a = any(s);
    let b = match s.usize(7) {
        0 => a,
        1 => -a,
        2 => f64::from_bits(a.to_bits().wrapping_add(1)),
        3 => f64::from_bits(a.to_bits().wrapping_add(s.below(8))),
        4 => a + 2f64.powi(-(s.range(0, 60) as i32)),
        5 => a.round(),
        _ => any(s),
    };
    if !a.is_finite() || !b.is_finite() {
        return Out::Discard("not finite");
    }
    let lit = |s: &mut Src, r: f64| -> T {
        if r == r.trunc() && r.abs() < 9e15 && s.chance(1, 2) {
            int(r as i64)
        } else {
            T::Real(r)
        }
    };
    let (x, y) = (lit(s, a), lit(s, b));
    let o = a.partial_cmp(&b).unwrap();
    c.class(match o {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    if a != b && (a - b).abs() <= 4.0 * f64::EPSILON * a.abs() {
        c.class("within four units of the last place");
    }
    c.begin(format!("{} ? {}", x.show(), y.show()), a != b);
    expect(&x.build(), &y.build(), Some(o))
}

fn polynomials(c: &mut Case) -> Out {
    let t = poly_case(c, false);
    let u = rewrite(c.s, &t, 0);
    let k = match c.s.usize(3) {
        0 => T::Int(gen_small(c.s)),
        1 => T::Int(gen_int(c.s, true)),
        _ => int(0),
    };
    let u = if c.s.chance(1, 2) { T::Add(bx(u), bx(k), 0) } else { T::Sub(bx(u), bx(k), 0) };
    let (a, b) = if c.s.chance(1, 2) { (t, u) } else { (u, t) };
    if !poly_ok(&a) || !poly_ok(&b) || est(&a) + est(&b) > 500.0 {
        return Out::Discard("undefined or too large");
    }
    let (p, q) = match (poly_of(&a), poly_of(&b)) {
        (Some(p), Some(q)) => (p, q),
        _ => return Out::Discard("not a polynomial"),
    };
    let d = match p.add(&q, -1).as_constant() {
        Some(d) => d,
        None => panic!("difference not constant"),
    };
    let o = d.cmp(&Q::zero());
    c.class(match o {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    c.begin(format!("{} ? {}", a.show(), b.show()), a.size() + b.size() >= 8);
    expect(&a.build(), &b.build(), Some(o))
}

fn incomparable(c: &mut Case) -> Out {
    let a = poly_case(c, false);
    let b = match c.s.usize(4) {
        0 => poly_case(c, false),
        1 => T::Add(bx(rewrite(c.s, &a, 0)), bx(T::Var("x".into())), 0),
        2 => T::Mul(bx(rewrite(c.s, &a, 0)), bx(int([2, -1, 3][c.s.usize(3)])), 0),
        _ => {
            let mut g = G::new(c.s, lane(Kind::Poly, ""));
            let m = monomial(&mut g);
            T::Sub(bx(rewrite(g.s, &a, 0)), bx(m), 0)
        }
    };
    if !poly_ok(&a) || !poly_ok(&b) || est(&a) + est(&b) > 500.0 {
        return Out::Discard("undefined or too large");
    }
    let (p, q) = match (poly_of(&a), poly_of(&b)) {
        (Some(p), Some(q)) => (p, q),
        _ => return Out::Discard("not a polynomial"),
    };
    if p.add(&q, -1).as_constant().is_some() {
        return Out::Discard("the difference is a constant");
    }
    c.begin(format!("{} ? {}", a.show(), b.show()), a.size() + b.size() >= 6);
    expect(&a.build(), &b.build(), None)
}

fn itself(c: &mut Case) -> Out {
    let l = match c.s.usize(3) {
        0 => lane(Kind::Rat, "B"),
        1 => lane(Kind::Rat, "T"),
        _ => lane(Kind::Poly, "B"),
    };
    let dom = l.dom();
    let (t, u) = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 40.0;
        let n = 1 + g.s.usize(12);
        let t = g.any(n);
        let t = g.cap(t);
        let u = match (&t, g.s.usize(2)) {
            (T::Sum(v), 1) => T::Sum(shuffle(g.s, v)),
            (T::Prod(v), 1) => T::Prod(shuffle(g.s, v)),
            (T::Add(a, b, h), 1) => T::Add(b.clone(), a.clone(), *h),
            (T::Mul(a, b, h), 1) => T::Mul(b.clone(), a.clone(), *h),
            _ => t.clone(),
        };
        (t, u)
    };
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(format!("{} ? {}", t.show(), u.show()), t.size() >= 3);
    expect(&t.build(), &u.build(), Some(Ordering::Equal))
}

/// the seven answers agree whatever the literals
fn nonfinite(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let num = |s: &mut Src| match s.usize(4) {
        0 => int(s.range(-4, 4)),
        1 => T::Real([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, 5e-324, -0.0][s.usize(7)]),
        2 => T::Real([0.5, -1.5, 3.0, 1e300, -1e-300][s.usize(5)]),
        _ => T::Div(bx(int(s.range(-4, 4))), bx(int(s.range(2, 5))), 0),
    };
    let mut side = |s: &mut Src| {
        let x = T::Var(["x", "y"][s.usize(2)].into());
        match s.usize(6) {
            0 | 1 => num(s),
            2 => T::Mul(bx(num(s)), bx(num(s)), 0),
            3 => T::Add(bx(num(s)), bx(num(s)), 0),
            4 => T::Add(bx(x), bx(num(s)), 0),
            _ => T::Mul(bx(num(s)), bx(x), 0),
        }
    };
    let a = side(s);
    let b = match s.usize(3) {
        0 => T::Add(bx(a.clone()), bx(num(s)), 0),
        _ => side(s),
    };
    c.begin(format!("{} ? {}", a.show(), b.show()), true);
    match flags(&a.build(), &b.build()).ordering() {
        Ok(_) => Out::Pass,
        Err(m) => Out::Fail(m),
    }
}

fn by_hand(c: &mut Case) -> Out {
    match super::manip::compared_by_hand(c) {
        Some((a, b, d)) => {
            let o = d.cmp(&Q::zero());
            match expect(&a, &b, Some(o)) {
                Out::Pass => expect(&b, &a, Some(o.reverse())),
                x => x,
            }
        }
        None => Out::Discard("not polynomials that differ by a number"),
    }
}
