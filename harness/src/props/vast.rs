//! Nodes of hundreds to thousands of items, shared by several properties.
use super::util::*;
use crate::engine::Src;
use crate::poly::*;
use crate::run::{Case, Out};
use crate::term::*;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Build,
    Orders,
    Expand,
    Complete,
    Simplify,
    Canonical,
    Merged,
    Closed,
    Print,
    Accessors,
    Normal,
    Repeat,
    Everything,
    Interchange,
    Equality,
}

/// how many items; often next to a round number
fn count(s: &mut Src, most: usize) -> usize {
    let n = match s.usize(4) {
        0 | 1 => (([100usize, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048][s.usize(10)] as i64) + s.range(-1, 2)) as usize,
        2 => 100 + s.usize(500),
        _ if s.chance(1, 8) => (([3000usize, 4000, 4096][s.usize(3)] as i64) + s.range(-1, 2)) as usize,
        _ => 300 + s.usize(2200),
    };
    n.min(most)
}

fn names(s: &mut Src, n: usize) -> Vec<T> {
    let k = match s.usize(4) {
        0 => 1 + s.usize(4),
        1 => 1 + s.usize(60),
        2 => 100 + s.usize(300),
        _ => n,
    };
    (0..k).map(|i| var(&format!("v{}", i))).collect()
}

fn addends(s: &mut Src, n: usize) -> Vec<T> {
    let names = names(s, n);
    let style = s.usize(4);
    let mut v: Vec<T> = Vec::with_capacity(n);
    for i in 0..n {
        let x = if names.len() == n && style != 1 { names[i].clone() } else { names[s.usize(names.len())].clone() };
        v.push(match (style, s.usize(8)) {
            (0, _) | (_, 0) | (_, 1) => x,
            (1, 2) | (_, 2) if !v.is_empty() => v[s.usize(v.len())].clone(),
            (_, 3) => T::Mul(bx(int(s.range(-9, 10))), bx(x), 0),
            (_, 4) => T::Mul(bx(x), bx(names[s.usize(names.len())].clone()), 0),
            (_, 5) => T::Pow(bx(x), bx(int(s.range(2, 5))), 0),
            (_, 6) => int(s.range(-9, 10)),
            _ => T::Neg(bx(x), 0),
        });
    }
    v
}

fn factors(s: &mut Src, n: usize) -> Vec<T> {
    let names = names(s, n);
    let style = s.usize(3);
    (0..n)
        .map(|i| {
            let x = if names.len() == n && style != 1 { names[i].clone() } else { names[s.usize(names.len())].clone() };
            match (style, s.usize(6)) {
                (0, _) | (_, 0) | (_, 1) => x,
                (_, 2) => T::Pow(bx(x), bx(int(s.range(-4, 5))), 0),
                (_, 3) => T::Pow(bx(x), bx(int(-1)), 0),
                (_, 4) if s.chance(1, 4) => int([-1, 2, -1, 1, 3][s.usize(5)]),
                _ => T::Pow(bx(x), bx(int(s.range(2, 5))), 0),
            }
        })
        .collect()
}

fn fractions(s: &mut Src, n: usize) -> Vec<T> {
    let d: Vec<i64> = if s.chance(1, 2) { vec![2, 3, 4, 6, 12] } else { (2..40).collect() };
    (0..n).map(|_| T::Div(bx(int(s.range(-20, 21))), bx(int(d[s.usize(d.len())])), 0)).collect()
}

fn chunked(s: &mut Src, v: Vec<T>, sum: bool) -> T {
    let mut parts: Vec<T> = vec![];
    let most = [3usize, 20, 300][s.usize(3)];
    let mut it = v.into_iter().peekable();
    while it.peek().is_some() {
        let k = 1 + s.usize(most);
        let mut p: Vec<T> = it.by_ref().take(k).collect();
        parts.push(match (p.len(), sum) {
            (1, _) => p.pop().unwrap(),
            (_, true) => T::Sum(p),
            (_, false) => T::Prod(p),
        });
    }
    if sum {
        T::Sum(parts)
    } else {
        T::Prod(parts)
    }
}

/// the polynomial of a flat or chunked sum
fn total(t: &T) -> Option<Poly> {
    match t {
        T::Sum(v) => {
            let mut p = Poly::zero();
            for x in v {
                for (k, q) in total(x)?.0 {
                    p.push(k, q);
                }
            }
            Some(p)
        }
        x => poly_of(x),
    }
}

/// the single term of a flat or chunked product
fn monomial(t: &T, m: &mut std::collections::BTreeMap<String, i128>, q: &mut Q) -> Option<()> {
    match t {
        T::Prod(v) => v.iter().try_for_each(|x| monomial(x, m, q)).into(),
        x => {
            let p = poly_of(x)?;
            let (k, c) = p.0.iter().next()?;
            *q = &*q * c;
            for (n, e) in k {
                *m.entry(n.clone()).or_insert(0) += e;
            }
            Some(())
        }
    }
}

fn wanted(t: &T) -> Option<Poly> {
    match t {
        T::Prod(_) => {
            let (mut m, mut q) = (Default::default(), qi(1));
            monomial(t, &mut m, &mut q)?;
            let mut p = Poly::zero();
            p.push(m.into_iter().filter(|(_, e)| *e != 0).collect(), q);
            Some(p)
        }
        t => total(t),
    }
}

pub fn vast(c: &mut Case, what: What) -> Out {
    let most = match what {
        What::Everything => 2600,
        What::Closed => 4100,
        What::Repeat | What::Interchange | What::Equality => 4100,
        _ => 30000,
    };
    let n = count(c.s, most);
    let sum = match what {
        What::Merged => false,
        What::Canonical | What::Complete => true,
        _ => c.s.chance(2, 3),
    };
    // the exact value of a product is as long as the product
    let n = if !sum && matches!(what, What::Build | What::Expand | What::Simplify) { n.min(400) } else { n };
    let v = match (what, sum) {
        (What::Closed, _) => fractions(c.s, n),
        (_, true) => addends(c.s, n),
        _ => factors(c.s, n),
    };
    let t = match (what, c.s.usize(3)) {
        (What::Closed, 0 | 1) => T::Sum(v.clone()),
        (What::Closed, _) => chunked(c.s, v.clone(), true),
        (_, 0) => chunked(c.s, v.clone(), sum),
        _ if sum => T::Sum(v.clone()),
        _ => T::Prod(v.clone()),
    };
    c.begin(t.show(), true);
    if n >= 1000 {
        c.class("1000 items or more");
    }
    let want = match wanted(&t) {
        Some(p) => p,
        None => return Out::Discard("not a polynomial"),
    };
    let e = t.build();
    match what {
        What::Build => agree_fast(&t, &e),
        What::Expand => agree_fast(&t, &e.expand()),
        What::Simplify => agree_fast(&t, &e.simplify()),
        What::Orders => {
            let w = super::arith::shuffle(c.s, &v);
            let u = chunked(c.s, w, sum);
            ok(identical(&e, &u.build()))
        }
        What::Complete => super::manip::complete(&t, &want),
        What::Canonical => ok(super::manip::expect_poly(&e.simplify(), &want)),
        What::Closed => {
            let n = n_of(&e.simplify());
            match (read_rational(&n), want.as_constant()) {
                (Ok(x), Some(q)) if x == q => Out::Pass,
                (r, q) => Out::Fail(format!("expected {:?} but got {} ({:?})", q.map(|q| q.to_string()), n.show(), r.map(|q| q.to_string()))),
            }
        }
        What::Merged => {
            let n = n_of(&e.simplify());
            match read_monomial(&n) {
                Ok((k, q)) => {
                    let mut p = Poly::zero();
                    p.push(k, q);
                    if p == want {
                        Out::Pass
                    } else {
                        Out::Fail(format!("expected {} but got {}", want.show(), n.show()))
                    }
                }
                Err(m) => Out::Fail(format!("expected {} but got {}: {}", want.show(), n.show(), m)),
            }
        }
        What::Print => super::contracts::faithful(&e),
        What::Accessors => {
            let items: Vec<Expression> = v.iter().map(|x| x.build()).collect();
            let a = CommutativeAssociation::new(items.clone());
            ok(super::contracts::check_accessors(&a, Some(&items)))
        }
        What::Normal => {
            for (k, x) in [("", e.clone()), ("after expand(): ", e.clone().expand()), ("after simplify(): ", e.simplify())] {
                if let Err(m) = super::contracts::normal_form(&n_of(&x)) {
                    return Out::Fail(format!("{}{}", k, m));
                }
            }
            Out::Pass
        }
        What::Repeat => {
            let first = e.clone().simplify();
            for _ in 0..2 {
                if let Err(m) = identical(&first, &e.clone().simplify()) {
                    return Out::Fail(format!("simplified again: {}", m));
                }
            }
            let other = t.clone();
            match std::thread::Builder::new().stack_size(1 << 28).spawn(move || other.build().simplify()).unwrap().join() {
                Ok(x) => ok(identical(&first, &x).map_err(|m| format!("on another thread: {}", m))),
                Err(_) => Out::Fail("panicked on another thread".into()),
            }
        }
        What::Everything => super::large::put_through(c, &t, false, true),
        What::Interchange => {
            let mut seed = c.s.below(1 << 30);
            let f = super::names::reassemble(&mut seed, &e);
            if let Err(m) = identical(&e, &f) {
                return Out::Fail(m);
            }
            if !(e.equal(&f)) {
                return Out::Fail("the two are not equal()".into());
            }
            for (k, x, y) in [("expand()", e.clone().expand(), f.clone().expand()), ("simplify()", e.simplify(), f.simplify())] {
                if let Err(m) = identical(&x, &y) {
                    return Out::Fail(format!("{}: {}", k, m));
                }
            }
            Out::Pass
        }
        What::Equality => {
            let mut items: Vec<Expression> = v.iter().map(|x| x.build()).collect();
            let mk = |v: &Vec<Expression>| {
                let a = CommutativeAssociation::new(v.clone());
                if sum {
                    Expression::Addition(a)
                } else {
                    Expression::Multiplication(a)
                }
            };
            let a = mk(&items);
            let w = super::arith::shuffle(c.s, &items);
            if let Err(m) = identical(&a, &mk(&w)) {
                return Out::Fail(m);
            }
            // one item changed, doubled or dropped
            let at = c.s.usize(items.len());
            match c.s.usize(3) {
                0 => items[at] = var("w").build(),
                1 => items.push(items[at].clone()),
                _ => {
                    items.remove(at);
                }
            }
            let b = mk(&items);
            ok(super::contracts::pair_laws(&a, &b))
        }
    }
}

fn agree_fast(t: &T, e: &Expression) -> Out {
    let vals = valuations(t, Dom::Signed, 2);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    agree(t, e, &vals)
}
