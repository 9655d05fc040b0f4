//! C17 rationals, C18 symbols.
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use ncas::manipulation::simplification_rules::rational::rationals::Rational;
use num::bigint::BigInt;
use num::traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            subs: vec![
                sub!("from", 400_000, 4_000_000, "a numerator and a non-zero denominator", from),
                sub!("history", 60_000, 1_500_000, "up to 30 chained additions, subtractions, multiplications and divisions", chain),
                sub!("equality", 400_000, 3_000_000, "two quotients, equal, scaled or close", equality),
                sub!("expression", 200_000, 2_000_000, "a rational turned into an expression and back", expression),
                sub!("recognise", 300_000, 3_000_000, "a flat tree of integers, inverses and other items", recognise),
            ],
        },
        Prop {
            id: "C18",
            subs: vec![
                sub!("integers", 400_000, 3_000_000, "two integers of any size", integers),
                sub!("utilities", 400_000, 3_000_000, "two integers of any size", utilities),
                sub!("history", 60_000, 800_000, "up to 40 chained operations on integer symbols", int_chain),
                sub!("reals", 400_000, 4_000_000, "two f64 including infinities, NaN, signed zeros and subnormals", reals),
                sub!("names", 100_000, 1_000_000, "two variable names including non-ASCII", names),
            ],
        },
    ]
}

fn sym(n: &BigInt) -> Symbol<BigInt> {
    match int_expr(n) {
        Expression::Integer(s) => s,
        _ => panic!("not an integer"),
    }
}

fn nonzero(s: &mut Src) -> BigInt {
    let n = gen_int(s, true);
    if n.is_zero() {
        BigInt::one()
    } else {
        n
    }
}

/// two integers, often sharing a factor
fn pair(s: &mut Src) -> (BigInt, BigInt) {
    let (a, b) = (gen_int(s, true), nonzero(s));
    if s.chance(1, 2) {
        let k = nonzero(s);
        (a * &k, b * k)
    } else {
        (a, b)
    }
}

fn rat(n: &BigInt, d: &BigInt) -> Rational {
    Rational::from(sym(n), sym(d))
}

fn printed(q: &Q) -> String {
    format!("{} / {}", q.numer(), q.denom())
}

fn check_rational(r: &Rational, q: &Q) -> Result<(), String> {
    let s = format!("{}", r);
    if s != printed(q) {
        return Err(format!("expected {} but the rational prints as {}", printed(q), s));
    }
    Ok(())
}

fn from(c: &mut Case) -> Out {
    let (n, d) = pair(c.s);
    c.begin(format!("from({}, {})", n, d), !n.is_zero());
    let q = Q::new(n.clone(), d.clone());
    let r = rat(&n, &d);
    if let Err(m) = check_rational(&r, &q) {
        return Out::Fail(m);
    }
    ok(check_rational(&r.clone(), &q))
}

fn chain(c: &mut Case) -> Out {
    let steps = 1 + c.s.usize(30);
    let (n, d) = pair(c.s);
    let mut q = Q::new(n.clone(), d.clone());
    let mut script = vec![];
    let mut text = format!("{}/{}", n, d);
    // the plan is drawn first, the library runs afterwards
    for _ in 0..steps {
        let (n, d) = pair(c.s);
        let o = Q::new(n.clone(), d.clone());
        let mut op = c.s.usize(4);
        let rev = c.s.chance(1, 3);
        if op == 3 && (if rev { q.is_zero() } else { o.is_zero() }) {
            op = 0;
        }
        let (x, y) = if rev { (o.clone(), q.clone()) } else { (q.clone(), o.clone()) };
        let z = match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        };
        if z.numer().bits() > 6000 || z.denom().bits() > 6000 {
            break;
        }
        q = z;
        text += &format!(" {}{} {}/{}", if rev { "rev" } else { "" }, ["+", "-", "*", "/"][op], n, d);
        script.push((n, d, op, rev, q.clone()));
    }
    c.begin(text, script.len() >= 2);
    let mut r = rat(&n, &d);
    for (i, (n, d, op, rev, want)) in script.iter().enumerate() {
        let o = rat(n, d);
        let (x, y) = if *rev { (o, r) } else { (r, o) };
        r = match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        };
        if let Err(m) = check_rational(&r, want) {
            return Out::Fail(format!("after step {}: {}", i + 1, m));
        }
    }
    Out::Pass
}

fn equality(c: &mut Case) -> Out {
    let (a, b) = pair(c.s);
    let k = nonzero(c.s);
    let (p, q) = match c.s.usize(6) {
        0 => (&a * &k, &b * &k),
        1 => (&a * &k + BigInt::one(), &b * &k),
        2 => (-&a, b.clone()),
        3 => (-&a, -&b),
        4 => {
            if a.is_zero() {
                (a.clone(), k)
            } else {
                (b.clone(), a.clone())
            }
        }
        _ => pair(c.s),
    };
    c.begin(format!("{}/{} == {}/{}", a, b, p, q), true);
    let want = Q::new(a.clone(), b.clone()) == Q::new(p.clone(), q.clone());
    let (x, y) = (rat(&a, &b), rat(&p, &q));
    if (x == y) != want || (y == x) != want || (x != y) == want {
        return Out::Fail(format!("{} == {} should be {}", x, y, want));
    }
    if !(x == x.clone()) {
        return Out::Fail(format!("{} is not equal to itself", x));
    }
    Out::Pass
}

fn expression(c: &mut Case) -> Out {
    let (n, d) = pair(c.s);
    c.begin(format!("from({}, {}).expr()", n, d), !n.is_zero());
    let q = Q::new(n.clone(), d.clone());
    let r = rat(&n, &d);
    let e = r.clone().expr();
    let v = match eval_e(&e, &Valuation { seed: 1, dom: Dom::Signed }) {
        Ok(v) => v,
        Err(_) => return Out::Fail(format!("{}.expr() = {} has no value", r, show_e(&e))),
    };
    if v.q.as_ref() != Some(&q) {
        return Out::Fail(format!("{}.expr() = {} is not {}", r, show_e(&e), printed(&q)));
    }
    if q.is_integer() && n_of(&e) != N::Int(q.to_integer()) {
        return Out::Fail(format!("{}.expr() = {} should be an integer", r, show_e(&e)));
    }
    match Rational::from_expression(e.clone()) {
        None => Out::Fail(format!("from_expression does not recognise {}", show_e(&e))),
        Some(b) => {
            if !(b == r) {
                return Out::Fail(format!("from_expression(({}).expr()) = {}", r, b));
            }
            ok(check_rational(&b, &q))
        }
    }
}

fn inverse(n: &BigInt) -> Expression {
    raw_pow(int_expr(n), Symbol::integer(-1).expr())
}

/// something that is neither an integer nor the inverse of one
fn not_rational(s: &mut Src) -> Expression {
    match s.usize(8) {
        0 => Symbol::variable(&gen_name(s)).expr(),
        1 => Symbol::real(gen_real(s)).expr(),
        2 => raw_pow(Symbol::variable(&gen_name(s)).expr(), Symbol::integer(-1).expr()),
        3 => raw_pow(int_expr(&nonzero(s)), Symbol::variable(&gen_name(s)).expr()),
        4 => raw_pow(Symbol::real(2.0).expr(), Symbol::integer(-1).expr()),
        5 => raw_pow(int_expr(&nonzero(s)), inverse(&BigInt::from(2))),
        6 => Expression::Addition(CommutativeAssociation::new(vec![
            Symbol::variable(&gen_name(s)).expr(),
            int_expr(&nonzero(s)),
        ])),
        _ => raw_pow(int_expr(&nonzero(s)), Symbol::real(-1.0).expr()),
    }
}

fn recognise(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let (e, want): (Expression, Option<Q>) = match s.weighted(&[10, 10, 60, 20]) {
        0 => {
            let n = gen_int(s, true);
            (int_expr(&n), Some(Q::from_integer(n)))
        }
        1 => {
            let n = nonzero(s);
            (inverse(&n), Some(Q::new(BigInt::one(), n)))
        }
        2 => {
            let k = s.usize(8);
            let mut v = vec![];
            let mut q = Q::one();
            for _ in 0..k {
                if s.chance(1, 2) {
                    let n = nonzero(s);
                    v.push(inverse(&n));
                    q = q / Q::from_integer(n);
                } else {
                    let n = gen_int(s, true);
                    v.push(int_expr(&n));
                    q = q * Q::from_integer(n);
                }
            }
            let mut r = Some(q);
            if s.chance(1, 3) {
                let i = s.usize(v.len() + 1);
                v.insert(i, not_rational(s));
                r = None;
            }
            (Expression::Multiplication(CommutativeAssociation::new(v)), r)
        }
        _ => (not_rational(s), None),
    };
    c.begin(show_e(&e), true);
    c.class(if want.is_some() { "rational" } else { "not rational" });
    match (Rational::from_expression(e.clone()), want) {
        (None, None) => Out::Pass,
        (Some(r), Some(q)) => ok(check_rational(&r, &q)),
        (Some(r), None) => Out::Fail(format!("{} is taken for the rational {}", show_e(&e), r)),
        (None, Some(q)) => Out::Fail(format!("{} is not recognised as {}", show_e(&e), printed(&q))),
    }
}

// ------------------------------------------------------------------- C18

fn all4<A: PartialEq + std::fmt::Debug, S: Clone>(
    a: &S,
    b: &S,
    want: &A,
    what: &str,
    get: &dyn Fn(&S) -> A,
    f: [&dyn Fn(S, S) -> S; 4],
) -> Result<(), String> {
    for (i, g) in f.iter().enumerate() {
        let r = get(&g(a.clone(), b.clone()));
        if r != *want {
            return Err(format!(
                "{} ({}) should be {:?} but is {:?}",
                what,
                ["value, value", "value, reference", "reference, reference", "reference, value"][i],
                want,
                r
            ));
        }
    }
    Ok(())
}

fn integers(c: &mut Case) -> Out {
    let (a, b) = match c.s.usize(3) {
        0 => pair(c.s),
        1 => (gen_int(c.s, true), gen_int(c.s, true)),
        _ => {
            let a = gen_int(c.s, true);
            let k = BigInt::from(c.s.range(-2, 2));
            (a.clone(), a + k)
        }
    };
    c.begin(format!("{} , {}", a, b), true);
    let (x, y) = (sym(&a), sym(&b));
    let get = |s: &Symbol<BigInt>| s.data.clone();
    type S = Symbol<BigInt>;
    let r = (|| {
        all4(&x, &y, &(&a + &b), "a + b", &get, [&|p: S, q: S| p + q, &|p: S, q: S| p + &q, &|p: S, q: S| &p + &q, &|p: S, q: S| &p + q])?;
        all4(&x, &y, &(&a - &b), "a - b", &get, [&|p: S, q: S| p - q, &|p: S, q: S| p - &q, &|p: S, q: S| &p - &q, &|p: S, q: S| &p - q])?;
        all4(&x, &y, &(&a * &b), "a * b", &get, [&|p: S, q: S| p * q, &|p: S, q: S| p * &q, &|p: S, q: S| &p * &q, &|p: S, q: S| &p * q])?;
        if !b.is_zero() {
            // quotient rounded toward zero, remainder with the sign of the dividend
            let m = &a.abs() / &b.abs();
            let quo = if a.is_negative() != b.is_negative() { -m } else { m };
            let rem = &a - &quo * &b;
            all4(&x, &y, &quo, "a / b", &get, [&|p: S, q: S| p / q, &|p: S, q: S| p / &q, &|p: S, q: S| &p / &q, &|p: S, q: S| &p / q])?;
            all4(&x, &y, &rem, "a % b", &get, [&|p: S, q: S| p % q, &|p: S, q: S| p % &q, &|p: S, q: S| &p % &q, &|p: S, q: S| &p % q])?;
        }
        let o = a.cmp(&b);
        if x.cmp(&y) != o || x.partial_cmp(&y) != Some(o) || y.cmp(&x) != o.reverse() {
            return Err(format!("ordering should be {:?}", o));
        }
        if (x == y) != (a == b) || (x != y) == (a == b) {
            return Err("== is not equality of the integers".into());
        }
        if (x < y) != (o == Ordering::Less) || (x > y) != (o == Ordering::Greater) {
            return Err("< or > is not the order of the integers".into());
        }
        Ok(())
    })();
    ok(r)
}

fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}

fn utilities(c: &mut Case) -> Out {
    let (a, b) = if c.s.chance(1, 2) { pair(c.s) } else { (gen_int(c.s, true), gen_int(c.s, true)) };
    let k = match c.s.usize(4) {
        0 => c.s.range(0, 3),
        1 => c.s.range(0, 40),
        2 => -c.s.range(1, 40),
        _ => c.s.range(0, 9),
    };
    let bigneg = c.s.chance(1, 10);
    c.begin(format!("{} , {} , {}", a, b, k), true);
    let (x, y) = (sym(&a), sym(&b));
    let r = (|| -> Result<(), String> {
        let g = gcd(&a, &b);
        let got = Symbol::gcd(&x, &y).data;
        if got != g {
            return Err(format!("gcd should be {} but is {}", g, got));
        }
        if !(a.is_zero() && b.is_zero()) {
            let l = (&a / &g * &b).abs();
            let got = Symbol::lcm(&x, &y).data;
            if got != l {
                return Err(format!("lcm should be {} but is {}", l, got));
            }
        }
        if x.opposite().data != -&a {
            return Err(format!("opposite should be {} but is {}", -&a, x.opposite().data));
        }
        if x.is_negative() != a.is_negative() {
            return Err("is_negative is wrong".into());
        }
        if x.value() != a.to_isize() {
            return Err(format!("value() should be {:?} but is {:?}", a.to_isize(), x.value()));
        }
        if x.label() != format!("{}", a) {
            return Err(format!("label() is {}", x.label()));
        }
        match x.clone().expr() {
            Expression::Integer(n) if n.data == a => {}
            e => return Err(format!("expr() is {}", show_e(&e))),
        }
        match x.pow(&Symbol::integer(k as isize)) {
            None => {
                if k >= 0 {
                    return Err(format!("pow({}) gives nothing", k));
                }
            }
            Some(p) => {
                if k < 0 {
                    return Err(format!("pow({}) should give nothing but gives {}", k, p.data));
                }
                let want = (0..k).fold(BigInt::one(), |m, _| m * &a);
                if p.data != want {
                    return Err(format!("pow({}) should be {} but is {}", k, want, p.data));
                }
            }
        }
        if bigneg {
            let e = sym(&-(b.abs() + BigInt::one()));
            if x.pow(&e).is_some() {
                return Err(format!("pow({}) should give nothing", e.data));
            }
        }
        Ok(())
    })();
    ok(r)
}

fn int_chain(c: &mut Case) -> Out {
    let a = gen_int(c.s, true);
    let n = 1 + c.s.usize(40);
    let mut cur = a.clone();
    let mut plan = vec![];
    let mut text = format!("{}", a);
    for _ in 0..n {
        let b = gen_int(c.s, true);
        let k = c.s.range(0, 3);
        let op = c.s.usize(9);
        let r = match op {
            0 => &cur + &b,
            1 => &cur - &b,
            2 => &b - &cur,
            3 => &cur * &b,
            4 if !b.is_zero() => &cur / &b,
            5 if !b.is_zero() => &cur % &b,
            6 => -&cur,
            7 => num::pow::pow(cur.clone(), k as usize),
            8 => gcd(&cur, &b),
            _ => continue,
        };
        if r.bits() > 4000 {
            break;
        }
        text += &format!(" ; op{} {} {}", op, b, k);
        plan.push((op, b, k, r.clone()));
        cur = r;
    }
    c.begin(text, plan.len() >= 2);
    let mut x = sym(&a);
    for (i, (op, b, k, want)) in plan.iter().enumerate() {
        let y = sym(b);
        x = match op {
            0 => x + &y,
            1 => &x - &y,
            2 => y - x,
            3 => x * &y,
            4 => x / &y,
            5 => x % &y,
            6 => x.opposite(),
            7 => match x.pow(&Symbol::integer(*k as isize)) {
                Some(p) => p,
                None => return Out::Fail(format!("step {}: pow({}) gives nothing", i + 1, k)),
            },
            _ => Symbol::gcd(&x, &y),
        };
        if x.data != *want {
            return Out::Fail(format!("after step {}: expected {} but got {}", i + 1, want, x.data));
        }
    }
    Out::Pass
}

fn any_real(s: &mut Src) -> f64 {
    match s.weighted(&[50, 25, 25]) {
        0 => gen_real(s),
        1 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1e300][s.usize(10)],
        _ => f64::from_bits(s.below(u64::MAX)),
    }
}

fn reals(c: &mut Case) -> Out {
    let (a, b) = (any_real(c.s), any_real(c.s));
    c.begin(format!("{:?} , {:?}", a, b), true);
    let (x, y) = (Symbol::real(a), Symbol::real(b));
    let bits = |r: f64| if r.is_nan() { f64::NAN.to_bits() } else { r.to_bits() };
    let get = |s: &Symbol<f64>| bits(s.data);
    type S = Symbol<f64>;
    let r = (|| -> Result<(), String> {
        all4(&x, &y, &bits(a + b), "a + b", &get, [&|p: S, q: S| p + q, &|p: S, q: S| p + &q, &|p: S, q: S| &p + &q, &|p: S, q: S| &p + q])?;
        all4(&x, &y, &bits(a - b), "a - b", &get, [&|p: S, q: S| p - q, &|p: S, q: S| p - &q, &|p: S, q: S| &p - &q, &|p: S, q: S| &p - q])?;
        all4(&x, &y, &bits(a * b), "a * b", &get, [&|p: S, q: S| p * q, &|p: S, q: S| p * &q, &|p: S, q: S| &p * &q, &|p: S, q: S| &p * q])?;
        all4(&x, &y, &bits(a / b), "a / b", &get, [&|p: S, q: S| p / q, &|p: S, q: S| p / &q, &|p: S, q: S| &p / &q, &|p: S, q: S| &p / q])?;
        match x.value() {
            Some(v) if bits(v) == bits(a) => {}
            v => return Err(format!("value() is {:?}", v)),
        }
        if !a.is_nan() {
            match x.label().parse::<f64>() {
                Ok(v) if bits(v) == bits(a) => {}
                _ => return Err(format!("label() {} of {:?} does not read back", x.label(), a)),
            }
        }
        match x.clone().expr() {
            Expression::Real(r) if bits(r.data) == bits(a) => {}
            e => return Err(format!("expr() is {}", show_e(&e))),
        }
        if !a.is_nan() && !b.is_nan() {
            if (x == y) != (a == b) || (x < y) != (a < b) || (x > y) != (a > b) {
                return Err("comparison differs from that of the numbers".into());
            }
        }
        Ok(())
    })();
    ok(r)
}

fn any_name(s: &mut Src) -> String {
    match s.usize(3) {
        0 => gen_name(s),
        1 => {
            let n = s.usize(9);
            (0..n).map(|_| *s.pick(&['a', 'b', 'Z', '_', '0', ' ', 'é', '本', '\u{1F600}', '*', '(', '\n'])).collect()
        }
        _ => {
            let mut n = gen_name(s);
            n.push(*s.pick(&['a', '1', '_', 'A']));
            n
        }
    }
}

fn names(c: &mut Case) -> Out {
    let a = any_name(c.s);
    let b = match c.s.usize(4) {
        0 => a.clone(),
        1 => any_name(c.s),
        2 => any_name(c.s) + &a,
        _ => any_name(c.s),
    };
    let (a, b) = if c.s.chance(1, 3) {
        let v = super::names::alike(c.s, 2);
        (v[0].clone(), v[v.len() - 1].clone())
    } else {
        (a, b)
    };
    c.begin(format!("{:?} , {:?}", a, b), true);
    let (x, y) = (Symbol::variable(&a), Symbol::variable(&b));
    if x.label() != a || x.data != a {
        return Out::Fail(format!("label() is {:?}", x.label()));
    }
    if x.value().is_some() {
        return Out::Fail("a variable has a value".into());
    }
    match x.clone().expr() {
        Expression::Variable(v) if v.data == a => {}
        e => return Out::Fail(format!("expr() is {}", show_e(&e))),
    }
    if (x == y) != (a == b) || (x != y) == (a == b) {
        return Out::Fail("== is not equality of names".into());
    }
    if (x.cmp(&y) == Ordering::Equal) != (a == b) || x.cmp(&y) != y.cmp(&x).reverse() || x.partial_cmp(&y) != Some(x.cmp(&y)) {
        return Out::Fail("the order of names is not consistent".into());
    }
    Out::Pass
}
