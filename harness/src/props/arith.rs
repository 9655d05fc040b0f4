//! C01 value of the arithmetic constructors, C02 spellings and purity,
//! C03 exact integers, C04 order and grouping, C05 powers, C06 logarithms.
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use num::integer::Integer;
use num::traits::{One, Signed, Zero};

const R: &str = "a term tree over the public constructors and operators; non-trivial: 3 or more nodes";

fn build(t: &T) -> Expression {
    t.build()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            subs: vec![
                sub!("polynomial", 80_000, 1_500_000, R, |c| value_case(c, lane(Kind::Poly, "B"), &build)),
                sub!("rational", 80_000, 1_500_000, R, |c| value_case(c, lane(Kind::Rat, "B"), &build)),
                sub!("real", 60_000, 1_500_000, R, |c| value_case(c, lane(Kind::Rat, "R"), &build)),
                sub!("opaque", 25_000, 400_000, R, |c| value_case(c, lane(Kind::Rat, "T"), &build)),
                sub!("history", 20_000, 300_000, "as above, with expand() and simplify() applied inside", |c| {
                    value_case(c, lane(Kind::Rat, "HR"), &build)
                }),
                sub!("wide", 30_000, 600_000, "one n-ary sum or product of up to 40 mixed items", wide),
                sub!("deep", 15_000, 300_000, "a chain of up to 33 operations, one inside the other", |c| super::large::deep(c, 30, &build)),
                sub!("closed", 60_000, 900_000, "a variable-free term mixing integers, fractions and reals", closed),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Build)),
                sub!("pairs", 80_000, 900_000, "one binary operation on two operands drawn from a catalogue of shapes", pairs),
            ],
        },
        Prop {
            id: "C02",
            subs: vec![
                sub!("binary", 80_000, 1_200_000, "two operands and an operation, every spelling", spell_binary),
                sub!("unary", 25_000, 300_000, "one operand, every spelling of negation and of re-building", spell_unary),
            ],
        },
        Prop {
            id: "C03",
            subs: vec![
                sub!("ring", 200_000, 1_200_000, "closed + - * neg ^ over integers up to 200 bits", int_ring),
                sub!("quotient", 200_000, 1_200_000, "quotient of two integers", int_quotient),
                sub!("power", 50_000, 600_000, "integer to an integer", int_power),
            ],
        },
        Prop {
            id: "C04",
            subs: vec![
                sub!("sum-order", 80_000, 800_000, "3 or more addends, permuted and re-grouped", |c| order(c, true)),
                sub!("product-order", 80_000, 800_000, "3 or more factors, permuted and re-grouped", |c| order(c, false)),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Orders)),
            ],
        },
        Prop {
            id: "C05",
            subs: vec![
                sub!("identity", 80_000, 600_000, "an arbitrary base or exponent and a neutral partner", pow_identity),
                sub!("nested", 60_000, 600_000, "(b^m)^n against b^(m*n)", pow_nested),
                sub!("tower", 60_000, 600_000, "a variable or opaque term raised to several exponents in turn, of any size", pow_tower),
                sub!("symbolic-exponent", 40_000, 900_000, "power with an integer-valued symbolic exponent, bases of either sign", |c| {
                    pow_value(c, Kind::SymExp, "B")
                }),
                sub!("symbolic-exponent-real", 40_000, 600_000, "the same with real literals", |c| pow_value(c, Kind::SymExp, "R")),
                sub!("positive-base", 60_000, 900_000, "power of a positive base to any exponent", |c| pow_value(c, Kind::Pos, "")),
                sub!("positive-base-real", 40_000, 600_000, "the same with real literals", |c| pow_value(c, Kind::Pos, "R")),
                sub!("root", 60_000, 900_000, "a fractional power of an integer at or next to a perfect power", |c| root(c, &["power", "expand()", "simplify()"])),
                sub!("number-base", 60_000, 900_000, "number to a product exponent", pow_number_base),
                sub!("logarithms", 40_000, 600_000, "a power whose exponent holds logarithms to its base", |c| super::newer::log_exponents(c, &build)),
            ],
        },
        Prop {
            id: "C06",
            subs: vec![
                sub!("value", 60_000, 900_000, "a logarithm of positive terms", |c| log_value(c, "")),
                sub!("value-real", 40_000, 600_000, "the same with real literals", |c| log_value(c, "R")),
                sub!("signed", 25_000, 600_000, "logarithms of even powers and products of variables of either sign", |c| signed_logs(c, &build)),
                sub!("exponents", 40_000, 600_000, "a power whose exponent holds logarithms to its base", |c| super::newer::log_exponents(c, &build)),
                sub!("inverse", 80_000, 700_000, "log_b(b^x) and b^(log_b x)", log_inverse),
                sub!("integer", 80_000, 900_000, "log of b^k or of a near miss, base b", log_integer),
                sub!("real", 40_000, 300_000, "log of one positive real to another", log_real),
            ],
        },
    ]
}

pub fn shuffle<A: Clone>(s: &mut Src, v: &[A]) -> Vec<A> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        let j = i - s.usize(i + 1);
        v.swap(i, j);
    }
    v
}

// ------------------------------------------------------------------- C01

/// an atom or a small composite, used as an item of sums and products
pub fn item(g: &mut G) -> T {
    match g.s.weighted(&[25, 20, if g.lane.reals { 20 } else { 0 }, 10, 10, 8, 7]) {
        0 => {
            let b = g.lane.big;
            T::Int(gen_int(g.s, b))
        }
        1 => g.var(),
        2 => T::Real(gen_real(g.s)),
        3 => {
            let p = g.s.range(1, 12);
            let q = g.s.range(2, 12);
            let n = if g.s.chance(1, 2) { -p } else { p };
            T::Div(bx(int(n)), bx(int(q)), g.s.below(5) as u8)
        }
        4 => {
            let v = g.var();
            let k = [2, -1, 3, -2, 5][g.s.usize(5)];
            T::Pow(bx(v), bx(int(k)), 0)
        }
        5 => {
            let n = 2 + g.s.usize(3);
            T::Sum((0..n).map(|_| g.any(1)).collect())
        }
        _ => {
            let n = 2 + g.s.usize(3);
            T::Prod((0..n).map(|_| g.any(1)).collect())
        }
    }
}

fn wide(c: &mut Case) -> Out {
    let flags = ["B", "R", ""][c.s.usize(3)];
    let l = lane(Kind::Rat, flags);
    let t = {
        let mut g = G::new(c.s, l);
        let n = match g.s.weighted(&[50, 30, 20]) {
            0 => 2 + g.s.usize(6),
            1 => 6 + g.s.usize(12),
            _ => 12 + g.s.usize(29),
        };
        let sum = g.s.chance(1, 2);
        let mut v: Vec<T> = vec![];
        for i in 0..n {
            if i > 0 && g.s.chance(1, 6) {
                let k = g.s.usize(v.len());
                let d = v[k].clone();
                v.push(d);
            } else {
                v.push(item(&mut g));
            }
        }
        if sum {
            T::Sum(v)
        } else {
            T::Prod(v)
        }
    };
    value_of(c, t, Dom::Signed, &build)
}

fn closed(c: &mut Case) -> Out {
    let flags = ["R", "BR", "B"][c.s.usize(3)];
    let mut l = lane(Kind::Rat, flags);
    l.vars = false;
    value_case(c, l, &build)
}

/// one operand of a catalogued shape
pub fn shape(g: &mut G) -> T {
    let neg = g.s.chance(1, 3);
    let r = if g.lane.reals { 1 } else { 0 };
    let t = match g.s.weighted(&[14, 10, 10 * r, 8, 8, 8 * r, 8, 8 * r, 8, 6 * r, 6 * r, 6]) {
        0 => {
            let b = g.lane.big;
            T::Int(gen_int_short(g.s, b))
        }
        1 => g.var(),
        2 => T::Real(gen_real(g.s)),
        3 => T::Div(bx(int(g.s.range(1, 30))), bx(int(g.s.range(2, 30))), 0),
        4 => {
            let n = gen_int(g.s, false);
            T::Mul(bx(T::Int(n)), bx(g.var()), 0)
        }
        5 => {
            let r = gen_real(g.s);
            T::Mul(bx(T::Real(r)), bx(g.var()), 0)
        }
        6 => {
            let n = gen_int(g.s, false);
            T::Add(bx(T::Int(n)), bx(g.var()), 0)
        }
        7 => {
            let r = gen_real(g.s);
            T::Add(bx(T::Real(r)), bx(g.var()), 0)
        }
        8 => {
            let k = g.s.range(-4, 4);
            T::Pow(bx(g.var()), bx(int(k)), 0)
        }
        9 => {
            let r = gen_real(g.s);
            let n = gen_int(g.s, false);
            T::Prod(vec![T::Int(n), T::Real(r), g.var()])
        }
        10 => {
            let r = gen_real(g.s);
            let n = gen_int(g.s, false);
            T::Sum(vec![T::Int(n), T::Real(r), g.var()])
        }
        _ => {
            let q = g.s.range(2, 30);
            let v = g.var();
            T::Div(bx(v), bx(int(q)), 0)
        }
    };
    if neg {
        T::Neg(bx(t), 0)
    } else {
        t
    }
}

fn pairs(c: &mut Case) -> Out {
    let flags = ["R", "BR"][c.s.usize(2)];
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, flags));
        let (a, b) = (shape(&mut g), shape(&mut g));
        let b = if g.s.chance(1, 10) { a.clone() } else { b };
        let h = g.s.below(5) as u8;
        match g.s.usize(4) {
            0 => T::Add(bx(a), bx(b), h),
            1 => T::Sub(bx(a), bx(b), h),
            2 => T::Mul(bx(a), bx(b), h),
            _ => T::Div(bx(a), bx(b), h),
        }
    };
    value_of(c, t, Dom::Signed, &build)
}

// ------------------------------------------------------------------- C02

fn spell_binary(c: &mut Case) -> Out {
    let op = c.s.usize(6);
    // a non-integer exponent or a logarithm asks for positive operands
    let which = if op == 5 { 3 } else { c.s.usize(4) };
    let l = match which {
        0 => lane(Kind::Rat, if c.s.chance(1, 3) { "BR" } else { "B" }),
        1 => lane(Kind::Rat, "RT"),
        2 => lane(Kind::SymExp, ""),
        _ => lane(Kind::Pos, "R"),
    };
    let dom = l.dom();
    let (a, b) = {
        let mut g = G::new(c.s, l);
        let simple = g.s.chance(1, 3);
        let pos = which == 3 && op >= 4;
        let n = 1 + g.s.usize(10);
        let a = if pos {
            g.pos(n)
        } else if simple {
            shape(&mut g)
        } else {
            g.term()
        };
        let b = if simple && op != 5 {
            shape(&mut g)
        } else if op == 5 {
            g.pos(4)
        } else {
            g.term()
        };
        let b = if g.s.chance(1, 12) { a.clone() } else { b };
        let b = if op == 4 && which != 3 {
            let k = g.s.range(-3, 4);
            if est(&a) > 6.0 || which == 1 {
                int(k.clamp(-1, 2))
            } else {
                int(k)
            }
        } else {
            b
        };
        (a, b)
    };
    // the operation must be inside its domain at some valuation
    let t = match op {
        0 => T::Add(bx(a.clone()), bx(b.clone()), 0),
        1 => T::Sub(bx(a.clone()), bx(b.clone()), 0),
        2 => T::Mul(bx(a.clone()), bx(b.clone()), 0),
        3 => T::Div(bx(a.clone()), bx(b.clone()), 0),
        4 => T::Pow(bx(a.clone()), bx(b.clone()), 0),
        _ => T::Log(bx(a.clone()), bx(b.clone()), 0),
    };
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    let vals = valuations(&t, dom, 2);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.class(["add", "sub", "mul", "div", "pow", "log"][op]);
    c.begin(t.show(), true);
    let (x, y) = (a.build(), b.build());
    let (x0, y0) = (n_of(&x), n_of(&y));
    let (xt, yt) = (format!("{}", x), format!("{}", y));
    let rs: Vec<(&str, Expression)> = match op {
        0 => vec![
            ("a + b", x.clone() + y.clone()),
            ("a + &b", x.clone() + &y),
            ("&a + &b", &x + &y),
            ("&a + b", &x + y.clone()),
            ("addition(a, b)", Expression::addition(vec![x.clone(), y.clone()])),
            ("&a + &b again", &x + &y),
        ],
        1 => vec![
            ("a - b", x.clone() - y.clone()),
            ("a - &b", x.clone() - &y),
            ("&a - &b", &x - &y),
            ("&a - b", &x - y.clone()),
            ("subtraction(a, b)", Expression::subtraction(x.clone(), y.clone())),
            ("&a - &b again", &x - &y),
        ],
        2 => vec![
            ("a * b", x.clone() * y.clone()),
            ("a * &b", x.clone() * &y),
            ("&a * &b", &x * &y),
            ("&a * b", &x * y.clone()),
            ("multiplication(a, b)", Expression::multiplication(vec![x.clone(), y.clone()])),
            ("&a * &b again", &x * &y),
        ],
        3 => vec![
            ("a / b", x.clone() / y.clone()),
            ("a / &b", x.clone() / &y),
            ("&a / &b", &x / &y),
            ("&a / b", &x / y.clone()),
            ("division(a, b)", Expression::division(x.clone(), y.clone())),
            ("&a / &b again", &x / &y),
        ],
        4 => vec![
            ("a.pow(b)", x.clone().pow(y.clone())),
            ("power(a, b)", Expression::power(x.clone(), y.clone())),
            ("a.pow(b) again", x.clone().pow(y.clone())),
        ],
        _ => vec![
            ("a.log(b)", x.clone().log(y.clone())),
            ("logarithm(a, b)", Expression::logarithm(x.clone(), y.clone())),
            ("a.log(b) again", x.clone().log(y.clone())),
        ],
    };
    if let Some(m) = all_same(&rs) {
        return Out::Fail(m);
    }
    for (k, e) in &rs[1..] {
        if let Err(m) = identical(&rs[0].1, e) {
            return Out::Fail(format!("{} against {}: {}", rs[0].0, k, m));
        }
    }
    if n_of(&x) != x0 || n_of(&y) != y0 || format!("{}", x) != xt || format!("{}", y) != yt {
        return Out::Fail("an operand changed".into());
    }
    agree(&t, &rs[0].1, &vals)
}

fn spell_unary(c: &mut Case) -> Out {
    let l = match c.s.usize(3) {
        0 => lane(Kind::Rat, "B"),
        1 => lane(Kind::Rat, "RT"),
        _ => lane(Kind::Pos, "R"),
    };
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        if g.s.chance(1, 3) {
            shape(&mut g)
        } else {
            g.term()
        }
    };
    let n = T::Neg(bx(t.clone()), 0);
    let vals = valuations(&n, dom, 2);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(n.show(), t.size() >= 2);
    let x = t.build();
    let x0 = n_of(&x);
    let rs = vec![
        ("-a", -x.clone()),
        ("-&a", -&x),
        ("-1 * a", Symbol::integer(-1).expr() * &x),
        ("multiplication(a, -1)", Expression::multiplication(vec![x.clone(), Symbol::integer(-1).expr()])),
    ];
    if let Some(m) = all_same(&rs) {
        return Out::Fail(m);
    }
    let again = t.build();
    if let Err(m) = identical(&x, &again) {
        return Out::Fail(format!("building twice: {}", m));
    }
    if n_of(&x) != x0 {
        return Out::Fail("the operand changed".into());
    }
    if let Err(m) = identical(&x, &x.clone()) {
        return Out::Fail(format!("clone: {}", m));
    }
    agree(&n, &rs[0].1, &vals)
}

// ------------------------------------------------------------------- C03

fn int_term(s: &mut Src, b: usize) -> T {
    if b <= 1 {
        return T::Int(gen_int(s, true));
    }
    let l = 1 + s.usize(b - 1);
    let h = s.below(5) as u8;
    match s.weighted(&[24, 20, 24, 8, 8, 8, 8]) {
        0 => T::Add(bx(int_term(s, l)), bx(int_term(s, b - l)), h),
        1 => T::Sub(bx(int_term(s, l)), bx(int_term(s, b - l)), h),
        2 => T::Mul(bx(int_term(s, l)), bx(int_term(s, b - l)), h),
        3 => T::Neg(bx(int_term(s, b - 1)), h % 2),
        4 => {
            let n = s.usize(6);
            T::Sum((0..n).map(|_| int_term(s, b / (n + 1))).collect())
        }
        5 => {
            let n = s.usize(6);
            T::Prod((0..n).map(|_| int_term(s, b / (n + 1))).collect())
        }
        _ => {
            let k = s.range(1, 5);
            T::Pow(bx(int_term(s, (b - 1).min(3))), bx(int(k)), h % 2)
        }
    }
}

fn int_ring(c: &mut Case) -> Out {
    let b = 1 + c.s.usize(14);
    let t = int_term(c.s, b);
    let v = match eval_t(&t, &Valuation { seed: 0, dom: Dom::Signed }) {
        Ok(v) => v.q.unwrap(),
        Err(_) => return Out::Discard("too large"),
    };
    if v.numer().bits() > 64 {
        c.class("result beyond 64 bits");
    }
    c.begin(t.show(), t.size() >= 3);
    match t.build() {
        Expression::Integer(n) => {
            if n.data == *v.numer() {
                if n.label() != v.numer().to_string() {
                    return Out::Fail(format!("label {} for the integer {}", n.label(), v.numer()));
                }
                Out::Pass
            } else {
                Out::Fail(format!("expected {} but got {}", v, n.data))
            }
        }
        e => Out::Fail(format!("expected the integer {} but got {}", v, show_e(&e))),
    }
}

fn expect_fraction(e: &Expression, q: &Q) -> Out {
    let n = n_of(e);
    match crate::poly::read_rational(&n) {
        Ok(x) => {
            if x == *q {
                Out::Pass
            } else {
                Out::Fail(format!("expected {} but got {}", q, n.show()))
            }
        }
        Err(m) => Out::Fail(format!("expected {} in lowest terms but got {}: {}", q, n.show(), m)),
    }
}

fn int_quotient(c: &mut Case) -> Out {
    let (p, q, h) = {
        let s = &mut *c.s;
        let g = if s.chance(1, 2) { BigInt::one() } else { gen_int(s, true).abs().max(BigInt::one()) };
        let p = gen_int(s, true) * &g;
        let q = match s.usize(4) {
            0 => p.clone(),
            _ => gen_int(s, true) * &g,
        };
        (p, q, s.below(5) as u8)
    };
    if q.is_zero() {
        return Out::Discard("zero divisor");
    }
    c.class(if p.is_multiple_of(&q) { "exact quotient" } else { "proper fraction" });
    let t = T::Div(bx(T::Int(p.clone())), bx(T::Int(q.clone())), h);
    c.begin(t.show(), !q.is_one());
    expect_fraction(&t.build(), &Q::new(p, q))
}

fn int_power(c: &mut Case) -> Out {
    let b = gen_int(c.s, true);
    if b.abs() <= BigInt::one() && c.s.chance(1, 2) {
        return unit_power(c, b);
    }
    let lim = if b.bits() <= 1 { 400 } else { (20_000 / b.bits() as i64).clamp(1, 60) };
    let k = match c.s.weighted(&[50, 49, 1]) {
        0 => c.s.range(0, lim.min(6)),
        1 => c.s.range(0, lim),
        // any machine-sized count, as far as the result stays workable
        _ => {
            let lim = (150_000 / b.bits().max(1) as i64).max(1);
            let k = [255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000][c.s.usize(10)];
            if k <= lim {
                k
            } else {
                c.s.range(0, lim)
            }
        }
    };
    let k = if c.s.chance(2, 5) { -k } else { k };
    let h = c.s.below(2) as u8;
    if b.is_zero() && k <= 0 {
        return Out::Discard("zero to a non-positive power");
    }
    c.class(if k < 0 { "negative exponent" } else { "non-negative exponent" });
    let t = T::Pow(bx(T::Int(b.clone())), bx(int(k)), h);
    c.begin(t.show(), k.abs() >= 2);
    if k.abs() > 60 {
        c.class("exponent above 60");
    }
    let p = num::pow::pow(b, k.unsigned_abs() as usize);
    let q = if k < 0 { Q::new_raw(BigInt::one(), p) } else { Q::new_raw(p, BigInt::one()) };
    let q = if q.denom().is_negative() { Q::new_raw(-q.numer(), -q.denom()) } else { q };
    expect_fraction(&t.build(), &q)
}

/// zero and plus or minus one to any integer at all
fn unit_power(c: &mut Case, b: BigInt) -> Out {
    let k = if c.s.chance(1, 2) { gen_huge_exponent(c.s) } else { gen_boundary(c.s) };
    let k = if c.s.chance(2, 5) { -k } else { k };
    if b.is_zero() && !k.is_positive() {
        return Out::Discard("zero to a non-positive power");
    }
    let t = T::Pow(bx(T::Int(b.clone())), bx(T::Int(k.clone())), 0);
    c.class("base of zero or one");
    c.begin(t.show(), true);
    let want = if k.is_odd() || !b.is_negative() { b } else { BigInt::one() };
    let want = if k.is_zero() { BigInt::one() } else { want };
    expect_fraction(&t.build(), &Q::from_integer(want))
}

// ------------------------------------------------------------------- C04

fn order(c: &mut Case, sum: bool) -> Out {
    let reals = c.s.chance(1, 3);
    // without negative integers, regrouping is exact even next to reals
    let flags = if reals { "" } else { "B" };
    let (v, flat, grouped, dup) = {
        let mut g = G::new(c.s, lane(Kind::Rat, flags));
        let n = if !reals && g.s.chance(1, 80) { 40 + g.s.usize(260) } else { 2 + g.s.usize(7) };
        let mut v: Vec<T> = vec![];
        for i in 0..n {
            let t = match g.s.weighted(&[20, 25, if reals { 30 } else { 0 }, 12, 13, 14, 12]) {
                6 => match g.s.usize(5) {
                    // inverses of integers, functions and symbolic powers
                    0 | 1 => {
                        let k = 2 + g.s.usize(11) as i64;
                        let d = T::Pow(bx(int(k)), bx(int(-1)), 0);
                        if sum && g.s.chance(1, 2) {
                            T::Mul(bx(g.var()), bx(d), 0)
                        } else {
                            d
                        }
                    }
                    2 => T::Log(bx(g.var()), bx(g.var()), 0),
                    3 => T::Sin(bx(g.var())),
                    _ => T::Pow(bx(g.var()), bx(g.var()), 0),
                },
                0 => {
                    let k = gen_int(g.s, !reals);
                    T::Int(if reals { k.abs() } else { k })
                }
                1 => g.var(),
                2 => T::Real([0.5, 1.0, 2.0, 1.5, 0.25, 3.0, 4.0, 2.5][g.s.usize(8)]),
                3 => {
                    let b = 1 + g.s.usize(3);
                    let k = [2, 3, -1, -2][g.s.usize(4)];
                    let x = if b == 1 { g.var() } else { T::Add(bx(g.var()), bx(g.var()), 0) };
                    T::Pow(bx(x), bx(int(k)), 0)
                }
                4 => {
                    let (x, y) = (g.var(), g.var());
                    if sum {
                        T::Mul(bx(x), bx(y), 0)
                    } else {
                        T::Add(bx(x), bx(y), 0)
                    }
                }
                _ => {
                    if i > 0 {
                        let k = g.s.usize(v.len());
                        match &v[k] {
                            // an opposite or an inverse
                            T::Var(_) | T::Log(..) | T::Sin(_) | T::Pow(..) | T::Add(..) | T::Mul(..) if g.s.chance(1, 2) => {
                                if sum {
                                    T::Neg(bx(v[k].clone()), g.s.below(2) as u8)
                                } else {
                                    T::Div(bx(int(1)), bx(v[k].clone()), 0)
                                }
                            }
                            x => x.clone(),
                        }
                    } else {
                        g.var()
                    }
                }
            };
            v.push(t);
        }
        let flat = shuffle(g.s, &v);
        // random binary / n-ary regrouping of another permutation
        let mut q = shuffle(g.s, &v);
        while q.len() > 1 {
            let k = (2 + g.s.usize(3)).min(q.len());
            let at = g.s.usize(q.len() - k + 1);
            let part: Vec<T> = q.drain(at..at + k).collect();
            let joined = if k == 2 && g.s.chance(2, 3) {
                let h = g.s.below(4) as u8;
                let mut p = part.into_iter();
                let (x, y) = (p.next().unwrap(), p.next().unwrap());
                if sum {
                    T::Add(bx(x), bx(y), h)
                } else {
                    T::Mul(bx(x), bx(y), h)
                }
            } else if sum {
                T::Sum(part)
            } else {
                T::Prod(part)
            };
            q.insert(at, joined);
        }
        let dup = g.s.chance(1, 4);
        (v, flat, q.pop().unwrap(), dup)
    };
    let mk = |v: Vec<T>| if sum { T::Sum(v) } else { T::Prod(v) };
    let (a, b) = (mk(v), mk(flat));
    // a zero factor makes a product's other factors irrelevant; keep division out of it
    if valuations(&a, Dom::Signed, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    if reals {
        c.class("with reals");
    }
    let k = a.children().len();
    if k >= 40 {
        c.class("40 items or more");
    }
    c.begin(format!("{} | {} | {}", a.show(), b.show(), grouped.show()), k >= 3);
    let (x, y, z) = (a.build(), b.build(), grouped.build());
    if let Err(m) = identical(&x, &y) {
        return Out::Fail(format!("another order: {}", m));
    }
    if let Err(m) = identical(&x, &z) {
        return Out::Fail(format!("another grouping: {}", m));
    }
    if dup {
        // neutral elements anywhere change nothing
        let neutral = if sum { Symbol::integer(0).expr() } else { Symbol::integer(1).expr() };
        let w = if sum { Expression::addition(vec![neutral.clone(), x.clone(), neutral]) } else { Expression::multiplication(vec![neutral.clone(), x.clone(), neutral]) };
        if let Err(m) = identical(&x, &w) {
            return Out::Fail(format!("with neutral elements: {}", m));
        }
    }
    let vals = valuations(&a, Dom::Signed, 2);
    agree(&a, &z, &vals)
}

// ------------------------------------------------------------------- C05

fn pow_identity(c: &mut Case) -> Out {
    let which = c.s.usize(7);
    let l = match c.s.usize(3) {
        0 => lane(Kind::Rat, "B"),
        1 => lane(Kind::Rat, "RT"),
        _ => lane(Kind::Pos, "R"),
    };
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        if g.s.chance(1, 3) {
            shape(&mut g)
        } else {
            g.term()
        }
    };
    let (text, exp) = match which {
        0 => (T::Pow(bx(t.clone()), bx(int(1)), 0), t.clone()),
        1 => (T::Pow(bx(t.clone()), bx(T::Real(1.0)), 1), t.clone()),
        2 => (T::Pow(bx(t.clone()), bx(int(0)), 0), int(1)),
        3 => (T::Pow(bx(t.clone()), bx(T::Real(0.0)), 1), int(1)),
        4 => (T::Pow(bx(int(1)), bx(t.clone()), 0), int(1)),
        5 => (T::Pow(bx(T::Real(1.0)), bx(t.clone()), 0), T::Real(1.0)),
        _ => (T::Pow(bx(int(0)), bx(t.clone()), 0), int(0)),
    };
    if valuations(&text, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(text.show(), t.size() >= 2);
    let (x, y) = (text.build(), exp.build());
    // 0 ^ e and 1 ^ e: the number's own kind may be kept
    let (nx, ny) = (n_of(&x), n_of(&y));
    if nx == ny {
        return Out::Pass;
    }
    if which >= 2 {
        let v = Valuation { seed: 1, dom };
        if let (Ok(p), Ok(q)) = (eval_e(&x, &v), eval_e(&y, &v)) {
            if p.q.is_some() && p.q == q.q && matches!(x, Expression::Integer(_) | Expression::Real(_)) {
                return Out::Pass;
            }
        }
    }
    Out::Fail(format!("expected {} but got {}", ny.show(), nx.show()))
}

fn pow_nested(c: &mut Case) -> Out {
    let (b, m, n) = {
        let mut g = G::new(c.s, lane(Kind::Pos, ""));
        let bud = 1 + g.s.usize(5);
        let b = g.pos(bud);
        let mut e = |g: &mut G| match g.s.usize(4) {
            0 => int(g.s.range(-4, 5)),
            1 => g.var(),
            2 => T::Mul(bx(int(g.s.range(-3, 4))), bx(g.var()), 0),
            _ => T::Add(bx(int(g.s.range(-3, 4))), bx(g.var()), 0),
        };
        let m = e(&mut g);
        let n = e(&mut g);
        (b, m, n)
    };
    let lhs = T::Pow(bx(T::Pow(bx(b.clone()), bx(m.clone()), 0)), bx(n.clone()), 1);
    let rhs = T::Pow(bx(b.clone()), bx(T::Mul(bx(m), bx(n), 0)), 0);
    if est(&lhs) > 4000.0 {
        return Out::Discard("too large");
    }
    let vals = valuations(&lhs, Dom::Pos, 3);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(lhs.show(), true);
    let (x, y) = (lhs.build(), rhs.build());
    if let Out::Fail(m) = agree(&lhs, &x, &vals) {
        return Out::Fail(m);
    }
    agree(&lhs, &y, &vals)
}

/// a base no identity applies to
pub fn plain_base(g: &mut G) -> T {
    match g.s.weighted(&[50, 15, 20, 15]) {
        0 => g.var(),
        1 => {
            let v = g.var();
            if g.s.chance(1, 2) {
                T::Sin(bx(v))
            } else {
                T::Cos(bx(v))
            }
        }
        2 => T::Add(bx(g.var()), bx(T::Int(BigInt::from(g.s.range(1, 9)))), 0),
        _ => {
            let (x, y) = (g.var(), g.var());
            if x.show() == y.show() {
                x
            } else {
                T::Mul(bx(x), bx(y), 0)
            }
        }
    }
}

/// ((b^m)^n)^.. is b^(m*n*..), exactly
fn pow_tower(c: &mut Case) -> Out {
    let (b, es) = {
        let mut g = G::new(c.s, lane(Kind::Rat, "B"));
        let b = plain_base(&mut g);
        let n = 2 + g.s.usize(3);
        let symbolic = g.s.chance(1, 4);
        let es: Vec<T> = (0..n)
            .map(|_| {
                if symbolic && g.s.chance(1, 2) {
                    g.var()
                } else {
                    T::Int(gen_int(g.s, true))
                }
            })
            .collect();
        (b, es)
    };
    let mut l = b.clone();
    for e in &es {
        l = T::Pow(bx(l), bx(e.clone()), c.s.below(2) as u8);
    }
    // zero exponents leave nothing to compare
    if es.iter().any(|e| matches!(e, T::Int(k) if k.is_zero())) {
        return Out::Discard("neutral exponent");
    }
    c.begin(l.show(), true);
    let r = T::Pow(bx(b.clone()), bx(T::Prod(es.clone())), 0);
    let (x, y) = (l.build(), r.build());
    if let Err(m) = identical(&x, &y) {
        return Out::Fail(format!("a power of powers is not the power to the product: {}", m));
    }
    // and the product of integers is exact
    let mut k = BigInt::one();
    for e in &es {
        match e {
            T::Int(n) => k *= n,
            _ => return Out::Pass,
        }
    }
    let nb = n_of(&b.build());
    let want = if k.is_one() { nb } else { N::Pow(bx_n(nb), bx_n(N::Int(k))) };
    let got = n_of(&x);
    if got == want {
        Out::Pass
    } else {
        Out::Fail(format!("expected {} but got {}", want.show(), got.show()))
    }
}

fn bx_n(n: N) -> Box<N> {
    Box::new(n)
}

fn pow_value(c: &mut Case, kind: Kind, flags: &str) -> Out {
    let l = lane(kind, flags);
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        let b = g.budget();
        let t = if kind == Kind::Pos {
            g.pos_power(b)
        } else {
            g.sym_power(b)
        };
        let t = match g.s.usize(4) {
            0 => {
                let x = g.any(3);
                T::Mul(bx(t), bx(x), 0)
            }
            1 => {
                let k = g.s.range(-2, 3);
                T::Pow(bx(t), bx(int(k)), 0)
            }
            _ => t,
        };
        g.cap(t)
    };
    value_of(c, t, dom, &build)
}

pub fn root(c: &mut Case, works: &[&str]) -> Out {
    let (t, n, p, d) = {
        let s = &mut *c.s;
        let d = [2i64, 2, 2, 3, 3, 4, 5, 7][s.usize(8)];
        let p = [1i64, 1, 1, 1, -1, 2, 3, -2][s.usize(8)];
        let bits = [3u64, 8, 20, 32, 60, 100][s.usize(6)];
        let k = gen_bigint(s, bits).abs() + BigInt::from(2);
        let delta = [0i64, 0, 1, -1, 2, -2, 7][s.usize(7)];
        let n = if s.chance(1, 8) { gen_int(s, true).abs() } else { num::pow::pow(k, d as usize) + BigInt::from(delta) };
        let h = s.below(2) as u8;
        let e = if p == 1 && s.chance(1, 2) {
            T::Pow(bx(int(d)), bx(int(-1)), 0)
        } else {
            T::Div(bx(int(p)), bx(int(d)), s.below(5) as u8)
        };
        (T::Pow(bx(T::Int(n.clone())), bx(e), h), n, p, d)
    };
    if n <= BigInt::one() {
        return Out::Discard("a root of zero, one or less");
    }
    let vals = valuations(&t, Dom::Pos, 1);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    let exact = {
        let r = n.nth_root(d as u32);
        num::pow::pow(r, d as usize) == n
    };
    c.class(if exact { "a perfect power" } else { "not a perfect power" });
    c.begin(t.show(), true);
    let want = {
        let x = num::pow::pow(Q::from_integer(n.clone()), p.unsigned_abs() as usize);
        if p < 0 {
            x.recip()
        } else {
            x
        }
    };
    for what in works {
        let e = match *what {
            "power" => t.build(),
            "expand()" => t.build().expand(),
            _ => t.build().simplify(),
        };
        if let Ok(Val { q: Some(q), .. }) = eval_e(&e, &vals[0].0) {
            if num::pow::pow(q.clone(), d as usize) != want {
                return Out::Fail(format!("{} gives {} = {}, whose power {} is not {}", what, show_e(&e), q, d, want));
            }
        }
        match agree(&t, &e, &vals) {
            Out::Pass => {}
            o => return o,
        }
    }
    Out::Pass
}

fn pow_number_base(c: &mut Case) -> Out {
    let reals = c.s.chance(1, 2);
    let (t, dom) = {
        let mut g = G::new(c.s, lane(Kind::SymExp, if reals { "R" } else { "" }));
        let signed = g.s.chance(1, 2);
        let base = match g.s.usize(4) {
            0 => int(g.s.range(2, 9)),
            1 => {
                let n = g.s.range(2, 9);
                int(if signed { -n } else { n })
            }
            2 if reals => T::Real([2.0, 0.5, 1.5, 2.5, 0.25, 3.0][g.s.usize(6)]),
            _ => T::Div(bx(int(g.s.range(1, 9))), bx(int(g.s.range(2, 9))), 0),
        };
        let n = 1 + g.s.usize(3);
        let mut f: Vec<T> = vec![];
        for _ in 0..n {
            f.push(match g.s.weighted(&[40, 50, if reals && !signed { 20 } else { 0 }]) {
                0 => int(g.s.range(-4, 5)),
                1 => g.var(),
                _ => T::Real([0.5, 2.0, -0.5, 1.5, -1.0, 3.0][g.s.usize(6)]),
            });
        }
        let e = T::Prod(f);
        let t = T::Pow(bx(base), bx(e), 0);
        let dom = if signed || !reals { Dom::IntSigned } else { Dom::Pos };
        let t = if g.s.chance(1, 4) { T::Mul(bx(t), bx(g.var()), 0) } else { t };
        (t, dom)
    };
    value_of(c, t, dom, &build)
}

// ------------------------------------------------------------------- C06

fn log_value(c: &mut Case, flags: &str) -> Out {
    let l = lane(Kind::Pos, flags);
    let t = {
        let mut g = G::new(c.s, l);
        let b = g.budget();
        let t = g.log(b);
        let t = match g.s.usize(5) {
            0 => {
                let x = g.any(3);
                T::Add(bx(t), bx(x), 0)
            }
            1 => {
                let x = g.any(3);
                T::Mul(bx(t), bx(x), 0)
            }
            _ => t,
        };
        g.cap(t)
    };
    value_of(c, t, Dom::Pos, &build)
}

/// logarithms whose argument is positive although parts of it need not be
pub fn signed_logs(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        let k = 1 + g.s.usize(2);
        let v: Vec<T> = (0..k).map(|_| signed_log(&mut g)).collect();
        match g.s.usize(4) {
            0 => {
                let x = g.any(3);
                T::Add(bx(T::Sum(v)), bx(x), 0)
            }
            1 => {
                let x = g.any(2);
                T::Mul(bx(T::Prod(v)), bx(x), 0)
            }
            2 => T::Pow(bx(T::Sum(v)), bx(int([2, -1, 3][g.s.usize(3)])), 0),
            _ => T::Prod(v),
        }
    };
    if est(&t) > 200.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, Dom::Signed, f)
}

fn signed_log(g: &mut G) -> T {
    let even = |g: &mut G| {
        let x = if g.s.chance(1, 2) { g.var() } else { g.any(3) };
        let k = [2, 2, 4, -2, 6][g.s.usize(5)];
        T::Pow(bx(x), bx(int(k)), g.s.below(2) as u8)
    };
    let a = match g.s.usize(8) {
        0 | 1 => even(g),
        2 => T::Mul(bx(even(g)), bx(even(g)), 0),
        3 => T::Mul(bx(g.var()), bx(g.var()), 0),
        4 => T::Div(bx(g.var()), bx(g.var()), 0),
        5 => T::Add(bx(even(g)), bx(int(g.s.range(0, 5))), 0),
        6 => T::Prod(vec![int(g.s.range(1, 5)), even(g), g.var(), g.var()]),
        _ => {
            let x = g.any(4);
            T::Neg(bx(x), 0)
        }
    };
    let b = match g.s.usize(6) {
        0 => g.var(),
        1 => T::Add(bx(even(g)), bx(int(1)), 0),
        _ => int(g.s.range(2, 12)),
    };
    T::Log(bx(a), bx(b), g.s.below(2) as u8)
}

fn log_inverse(c: &mut Case) -> Out {
    let (b, x, up) = {
        let mut g = G::new(c.s, lane(Kind::Pos, "R"));
        // a base whose powers stay powers
        let b = match g.s.usize(4) {
            0 => g.var(),
            1 => T::Add(bx(g.var()), bx(T::Int(BigInt::from(g.s.range(1, 9)))), 0),
            2 => {
                let v = g.var();
                let w = g.pos(2);
                T::Add(bx(v), bx(w), 0)
            }
            _ => {
                let v = g.var();
                T::Mul(bx(v), bx(T::Add(bx(g.var()), bx(int(2)), 0)), 0)
            }
        };
        let up = g.s.chance(1, 2);
        let k = 1 + g.s.usize(8);
        let x = if up { g.pos(k) } else { g.any(k) };
        (b, x, up)
    };
    if est(&x) > 60.0 {
        return Out::Discard("too large");
    }
    let v0 = valuations(&x, Dom::Pos, 1);
    if v0.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    if up {
        // b ^ (log_b x) is x
        let t = T::Pow(bx(b.clone()), bx(T::Log(bx(x.clone()), bx(b.clone()), 0)), 1);
        if valuations(&t, Dom::Pos, 1).is_empty() {
            return Out::Discard("undefined or unrepresentable at every valuation tried");
        }
        c.class("power of logarithm");
        c.begin(t.show(), true);
        let (l, r) = (t.build(), x.build());
        // log_b x itself may have been resolved to a number or an exponent
        if n_of(&l) == n_of(&r) {
            return Out::Pass;
        }
        let vals = valuations(&t, Dom::Pos, 3);
        let lg = T::Log(bx(x.clone()), bx(b.clone()), 0).build();
        if matches!(lg, Expression::Logarithm(_)) {
            return Out::Fail(format!("expected {} but got {}", show_e(&r), show_e(&l)));
        }
        agree(&t, &l, &vals)
    } else {
        let t = T::Log(bx(T::Pow(bx(b.clone()), bx(x.clone()), 0)), bx(b.clone()), 1);
        // a neutral exponent removes the power
        if let Ok(v) = eval_t(&x, &v0[0].0) {
            if v.f.abs() < 1e-9 || (v.f - 1.0).abs() < 1e-9 {
                return Out::Discard("neutral exponent");
            }
        }
        c.class("logarithm of power");
        c.begin(t.show(), true);
        let (l, r) = (t.build(), x.build());
        match n_of(&r) {
            N::Int(k) if k.is_zero() || k.is_one() => return Out::Discard("neutral exponent"),
            N::Real(k) if f64::from_bits(k) == 0.0 || f64::from_bits(k) == 1.0 => {
                return Out::Discard("neutral exponent")
            }
            _ => {}
        }
        if n_of(&l) == n_of(&r) {
            Out::Pass
        } else {
            Out::Fail(format!("expected {} but got {}", show_e(&r), show_e(&l)))
        }
    }
}

fn log_integer(c: &mut Case) -> Out {
    let (b, n) = {
        let s = &mut *c.s;
        let b = match s.weighted(&[60, 25, 15]) {
            0 => BigInt::from(s.range(2, 12)),
            1 => BigInt::from(s.range(2, 2000)),
            _ => gen_int(s, true).abs(),
        };
        let lim = (600 / (b.bits().max(1) as i64)).max(1);
        let k = s.range(0, lim);
        let n = match s.weighted(&[50, 25, 15, 10]) {
            0 => num::pow::pow(b.clone(), k as usize),
            1 => num::pow::pow(b.clone(), k as usize) + BigInt::from([1, -1, 2, -2, 3][s.usize(5)]),
            2 => num::pow::pow(b.clone(), k as usize) * BigInt::from(s.range(2, 9)),
            _ => gen_int(s, true).abs(),
        };
        (b, n)
    };
    if b <= BigInt::one() || !n.is_positive() {
        return Out::Discard("logarithm outside its domain");
    }
    // reference: the exponent, if n is a power of b
    let mut k = 0i64;
    let mut p = BigInt::one();
    while p < n {
        p = p * &b;
        k += 1;
    }
    let exact = p == n;
    c.class(if exact { "exact power" } else { "not a power" });
    let t = T::Log(bx(T::Int(n.clone())), bx(T::Int(b.clone())), c.s.below(2) as u8);
    c.begin(t.show(), true);
    let e = t.build();
    match (&e, exact) {
        (Expression::Integer(x), true) => {
            if x.data == BigInt::from(k) {
                Out::Pass
            } else {
                Out::Fail(format!("expected {} but got {}", k, x.data))
            }
        }
        (Expression::Integer(x), false) => Out::Fail(format!("not a power of the base, yet the result is the integer {}", x.data)),
        (_, true) => Out::Fail(format!("expected {} but got {}", k, show_e(&e))),
        (_, false) => {
            let v = valuations(&t, Dom::Pos, 1);
            agree(&t, &e, &v)
        }
    }
}

fn log_real(c: &mut Case) -> Out {
    let p = |c: &mut Case| loop {
        let r = gen_real(c.s).abs();
        if r > 1e-4 {
            return r;
        } else if c.s.taken.len() > 60 {
            return 2.0;
        }
    };
    let (a, b) = (p(c), p(c));
    if (b - 1.0).abs() < 1e-3 || b < 1e-4 {
        return Out::Discard("base near one");
    }
    let t = T::Log(bx(T::Real(a)), bx(T::Real(b)), c.s.below(2) as u8);
    c.begin(t.show(), true);
    match t.build() {
        Expression::Real(r) => {
            let want = a.ln() / b.ln();
            if (r.data - want).abs() <= 1e-11 * (1.0 + want.abs()) {
                Out::Pass
            } else {
                Out::Fail(format!("expected {} but got {}", want, r.data))
            }
        }
        e => {
            let v = valuations(&t, Dom::Pos, 1);
            agree(&t, &e, &v)
        }
    }
}
