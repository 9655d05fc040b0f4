//! Long chains and wide nodes, shared by several properties.
use super::manip::apply_rule;
use super::manip::RULES;
use super::util::*;
use crate::gen::*;
use crate::run::{Case, Out};
use crate::term::*;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;

/// a chain of operations, one inside the other; few monomials after expansion
pub fn deep_term(g: &mut G, n: usize, pos: bool) -> T {
    let mut t = g.var();
    // monomials the expansion of t has, about
    let mut m = 1.0f64;
    // distributing over a sum copies what is inside
    let mut copies = 1;
    for _ in 0..n {
        let k = g.s.range(1, 6);
        let h = g.s.below(5) as u8;
        let v = g.var();
        let w = [14u64, 14, if pos { 0 } else { 10 }, 10, if pos { 0 } else { 12 }, 8, 8, if pos { 12 } else { 0 }, if pos { 10 } else { 0 }, if pos { 5 } else { 0 }];
        let which = g.s.weighted(&w);
        if which == 6 && copies >= 16 {
            continue;
        }
        let (u, um) = match which {
            0 => (T::Add(bx(T::Mul(bx(t.clone()), bx(v), h)), bx(int(k)), h), m + 1.0),
            1 => (T::Div(bx(int(k)), bx(T::Add(bx(t.clone()), bx(int(g.s.range(1, 6))), h)), h), 1.0),
            2 => (T::Sub(bx(int(k)), bx(t.clone()), h), m + 1.0),
            3 => (T::Div(bx(t.clone()), bx(v), h), m),
            4 => {
                let x = T::Add(bx(T::Mul(bx(t.clone()), bx(int(k)), h)), bx(v), h);
                (if g.s.chance(1, 2) { T::Sin(bx(x)) } else { T::Cos(bx(x)) }, 1.0)
            }
            5 => (T::Sum(vec![v.clone(), t.clone(), T::Mul(bx(v), bx(int(k)), h)]), m + 2.0),
            6 => (T::Prod(vec![int(k), t.clone(), T::Add(bx(v), bx(int(1)), h)]), 2.0 * m),
            7 => {
                let b = 1 + k;
                (T::Log(bx(T::Add(bx(t.clone()), bx(int(k)), h)), bx(int(b)), h % 2), 1.0)
            }
            8 => (T::Pow(bx(t.clone()), bx(T::Div(bx(int(1)), bx(int(2 + k)), 0)), h % 2), 1.0),
            _ => (T::Log(bx(T::Add(bx(v), bx(int(1)), h)), bx(T::Add(bx(t.clone()), bx(int(2)), h)), h % 2), 1.0),
        };
        if um <= 40.0 {
            if which == 6 {
                copies *= 2;
            }
            t = u;
            m = um;
        }
    }
    t
}

/// a tall chain of logarithms, powers, quotients and functions; positive
pub fn tall_term(g: &mut G, n: usize) -> T {
    let mut t = g.var();
    let few = g.s.chance(1, 2);
    let only = g.s.usize(8);
    for _ in 0..n {
        let k = g.s.range(1, 6);
        let h = g.s.below(5) as u8;
        let v = g.var();
        let which = if few && g.s.chance(7, 8) { only } else { g.s.usize(9) };
        t = match which {
            0 => T::Log(bx(T::Add(bx(t), bx(int(k)), h)), bx(int(1 + k)), h % 2),
            1 => T::Log(bx(T::Add(bx(v), bx(int(1)), h)), bx(T::Add(bx(t), bx(int(2)), h)), h % 2),
            2 => T::Pow(bx(T::Add(bx(t), bx(int(k)), h)), bx(T::Div(bx(int(1)), bx(int(1 + k)), 0)), h % 2),
            3 => T::Pow(bx(v), bx(T::Log(bx(T::Add(bx(t), bx(int(k)), h)), bx(int(7)), 0)), h % 2),
            4 => T::Div(bx(int(k)), bx(T::Add(bx(t), bx(int(k)), h)), h),
            5 => T::Log(bx(T::Prod(vec![T::Add(bx(t), bx(int(1)), h), v, int(k)])), bx(int(3)), h % 2),
            6 => T::Log(bx(T::Add(bx(T::Sin(bx(t))), bx(int(300)), h)), bx(int(1 + k)), 0),
            7 => T::Pow(bx(int(1 + k)), bx(T::Log(bx(T::Add(bx(t), bx(v), h)), bx(int(9)), 0)), h % 2),
            _ => T::Add(bx(T::Cos(bx(T::Mul(bx(t), bx(v), h)))), bx(int(100 + k)), h),
        };
    }
    t
}

pub fn deep(c: &mut Case, most: usize, f: &dyn Fn(&T) -> Expression) -> Out {
    let pos = c.s.chance(1, 3);
    let l = lane(if pos { Kind::Pos } else { Kind::Rat }, "T");
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        let n = 3 + g.s.usize(most);
        deep_term(&mut g, n, pos)
    };
    if t.depth() >= 20 {
        c.class("depth 20 or more");
    }
    value_of(c, t, dom, f)
}

/// one sum or product of many items over few variables
pub fn wide_term(g: &mut G, most: usize) -> T {
    let n = match g.s.weighted(&[60, 30, 10]) {
        0 => 2 + g.s.usize(30),
        1 => 20 + g.s.usize(60),
        _ => 60 + g.s.usize(most),
    };
    let sum = g.s.chance(1, 2);
    let mut sums = 0;
    let items: Vec<T> = (0..n)
        .map(|_| {
            let h = g.s.below(5) as u8;
            if sum {
                let k = g.s.range(-9, 9);
                match g.s.usize(6) {
                    0 => int(k),
                    1 => g.var(),
                    2 => T::Mul(bx(int(k)), bx(g.var()), h),
                    3 => T::Mul(bx(T::Pow(bx(g.var()), bx(int(k.rem_euclid(4))), 0)), bx(g.var()), h),
                    4 => T::Div(bx(int(k)), bx(int(g.s.range(2, 9))), h),
                    _ => T::Div(bx(g.var()), bx(g.var()), h),
                }
            } else {
                match g.s.usize(6) {
                    0 => int([2, 3, -1, -2, 1, 5][g.s.usize(6)]),
                    1 => g.var(),
                    2 => T::Pow(bx(g.var()), bx(int(g.s.range(-4, 4))), 0),
                    3 => T::Div(bx(int(1)), bx(g.var()), h),
                    4 => T::Div(bx(int([1, 2, 3][g.s.usize(3)])), bx(int([2, 3, 4, 6][g.s.usize(4)])), h),
                    _ => {
                        sums += 1;
                        let (a, b) = (g.var(), g.var());
                        if sums <= 4 {
                            T::Add(bx(a), bx(b), h)
                        } else {
                            T::Neg(bx(a), h)
                        }
                    }
                }
            }
        })
        .collect();
    if sum {
        T::Sum(items)
    } else {
        T::Prod(items)
    }
}

pub fn wide(c: &mut Case, most: usize, f: &dyn Fn(&T) -> Expression) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        wide_term(&mut g, most)
    };
    if t.children().len() >= 60 {
        c.class("60 items or more");
    }
    value_of(c, t, Dom::Signed, f)
}

/// everything, on a long chain or a wide node
pub fn everything(c: &mut Case, deep: bool) -> Out {
    let pos = c.s.chance(1, 3);
    let l = lane(if pos && deep { Kind::Pos } else { Kind::Rat }, "T");
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        if deep {
            let n = 6 + g.s.usize(15);
            deep_term(&mut g, n, pos)
        } else {
            wide_term(&mut g, 200)
        }
    };
    if maybe_undefined(&t, dom) {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(t.show(), true);
    put_through(c, &t, pos, true)
}

/// a tall chain: everything that is cheap at any height, the rest while short
pub fn tall(c: &mut Case) -> Out {
    let (t, n) = {
        let mut g = G::new(c.s, lane(Kind::Pos, "T"));
        let n = 6 + g.s.usize(60);
        (tall_term(&mut g, n), n)
    };
    if maybe_undefined(&t, Dom::Pos) {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    if n >= 30 {
        c.class("30 operations or more");
    }
    c.begin(t.show(), true);
    let (e, f) = (t.build(), t.build());
    if let Err(m) = identical(&e, &f) {
        return Out::Fail(format!("built twice: {}", m));
    }
    let n0 = n_of(&e);
    let text = format!("{}", e);
    if text != format!("{}", e.clone()) || text.is_empty() {
        return Out::Fail("a copy prints differently".into());
    }
    let g = &e + Symbol::integer(1).expr();
    if g == e || e.cmp(&g) == std::cmp::Ordering::Equal || format!("{}", g) == text {
        return Out::Fail(format!("{} is not told apart from itself plus one", n0.show()));
    }
    if n <= 30 {
        let x = e.clone().expand();
        let s = e.clone().simplify();
        let _ = (format!("{} {}", x, s).len(), hash_e(&x));
        for i in 0..RULES.len() {
            let _ = apply_rule(i, &e);
        }
    }
    if n_of(&e) != n0 {
        return Out::Fail("an operand changed".into());
    }
    if n <= 14 {
        return put_through(c, &t, true, false);
    }
    Out::Pass
}

pub fn put_through(c: &mut Case, t: &T, pos: bool, products: bool) -> Out {
    let e = t.build();
    let n = n_of(&e);
    let x = e.clone().expand();
    let s = e.clone().simplify();
    let _ = (format!("{} {} {}", e, x, s).len(), hash_e(&e), hash_e(&x));
    if !e.equal(&e.clone()) && !pos {
        // a difference of equal values that does not cancel is no crash
        c.class("not equal to itself");
    }
    let _ = (e.comparable(&s), e.lesser(&x), e.cmp(&s), e == s);
    for i in 0..RULES.len() {
        let _ = apply_rule(i, &e);
        let _ = apply_rule(i, &s);
    }
    if products {
        let _ = (&e * &s, &e - &x, (&x + &s).simplify());
    }
    if n_of(&e) != n {
        return Out::Fail("an operand changed".into());
    }
    Out::Pass
}

/// for chains whose exact value is too long, an approximate look is enough
fn maybe_undefined(t: &T, dom: Dom) -> bool {
    (0..4u64).all(|i| {
        let v = Valuation { seed: i * 7919 + 5, dom };
        matches!(eval_t(t, &v), Err(Bad::Undef(_)))
    })
}
