//! C07/C08 expansion, C09–C12 simplification, C19 the public rewrite rules.
use super::arith::shape;
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::poly::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::expression::Expression;
use ncas::manipulation::expansion_rules::{
    multiplicative_distributive::MultiplicativeDistributive, power_distributive_addition::PowerDistributiveAddition,
    power_distributive_multiplication::PowerDistributiveMultiplication, rule::Rule as ExpansionRule,
};
use ncas::manipulation::simplification_rules::{
    factoring::{
        additive_common_addend::AdditiveCommonAddend, multiplicative_common_factor::MultiplicativeCommonFactor,
        single_algebraic_denominator::SingleAlgebraicDenominator,
    },
    identities::inverse_power_log::InversePowerLog,
    rational::{rationals_addition::RationalsAddition, rationals_multiplication::RationalsMultiplication},
    rule::Rule as SimplificationRule,
};
use num::bigint::BigInt;
use num::rational::BigRational;
use num::traits::{One, Signed, Zero};
use std::collections::BTreeMap;

const R: &str = "a term tree over the public constructors and operators; non-trivial: 3 or more nodes";

fn expand(t: &T) -> Expression {
    t.build().expand()
}
fn simplify(t: &T) -> Expression {
    t.build().simplify()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            subs: vec![
                sub!("polynomial", 20_000, 1_200_000, R, |c| value_case(c, lane(Kind::Poly, "B"), &expand)),
                sub!("rational", 20_000, 1_200_000, R, |c| value_case(c, lane(Kind::Rat, "B"), &expand)),
                sub!("real", 20_000, 1_000_000, R, |c| value_case(c, lane(Kind::Rat, "R"), &expand)),
                sub!("opaque", 10_000, 400_000, R, |c| value_case(c, lane(Kind::Rat, "T"), &expand)),
                sub!("symbolic-exponent", 25_000, 700_000, R, |c| value_case(c, lane(Kind::SymExp, "B"), &expand)),
                sub!("positive", 25_000, 700_000, R, |c| value_case(c, lane(Kind::Pos, "R"), &expand)),
                sub!("history", 10_000, 400_000, "with expand() and simplify() applied inside", |c| {
                    value_case(c, lane(Kind::Rat, "HT"), &expand)
                }),
                sub!("deep", 4_000, 200_000, "a chain of up to 42 operations, one inside the other", |c| super::large::deep(c, 40, &expand)),
                sub!("large", 3_000, 60_000, "one sum or product of up to 160 items", |c| super::large::wide(c, 100, &expand)),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Expand)),
                sub!("repeats", 15_000, 400_000, "a positive term in which the same parts come back, inverted or raised", |c| repeats(c, &expand)),
                sub!("by-hand", 60_000, 1_200_000, "a tree made node by node, not in the form the constructors give", |c| hand_value(c, "expand", true, &|e| e.clone().expand())),
                sub!("roots", 40_000, 700_000, "a fractional power of an integer at or next to a perfect power", |c| super::arith::root(c, &["expand()"])),
                sub!("signed-logs", 12_000, 400_000, "logarithms of even powers and products of variables of either sign", |c| super::arith::signed_logs(c, &expand)),
                sub!("logarithms", 12_000, 400_000, "a power whose exponent holds logarithms to its base", |c| super::newer::log_exponents(c, &expand)),
                sub!("inside", 8_000, 300_000, "powers and products of sums inside exponents and logarithms", |c| super::newer::inner_value(c, &expand)),
                sub!("long-products", 20_000, 400_000, "a sum of multiples of few products of up to ten powers", |c| super::newer::long_products(c, &expand)),
                sub!("powers-of-sums", 5_000, 500_000, "a power of a sum, inside a product or a sum", |c| power_of_sum(c, &expand)),
                sub!("products-of-sums", 4_000, 500_000, "a product of 2 to 5 sums and other factors", |c| product_of_sums(c, &expand)),
                sub!("high-powers", 160, 4_000, "a power of a short sum, up to 2^10 terms multiplied out", |c| high_power(c, 1100.0, &expand)),
            ],
        },
        Prop {
            id: "C08",
            subs: vec![
                sub!("complete-polynomial", 20_000, 1_200_000, R, |c| expand_complete(c, Kind::Poly, "B")),
                sub!("complete-rational", 20_000, 1_200_000, R, |c| expand_complete(c, Kind::Rat, "RT")),
                sub!("complete-positive", 20_000, 700_000, "positive terms with any exponent and logarithms", |c| expand_complete(c, Kind::Pos, "R")),
                sub!("complete-symbolic", 10_000, 400_000, "with symbolic exponents", |c| expand_complete(c, Kind::SymExp, "")),
                sub!("complete-history", 10_000, 400_000, "with expand() and simplify() applied inside", |c| {
                    expand_complete(c, Kind::Rat, "H")
                }),
                sub!("monomials", 40_000, 1_200_000, "an integer polynomial in factored or nested form", expand_monomials),
                sub!("high-powers", 200, 5_000, "a power of a short sum, up to 2^10 terms multiplied out", |c| high_power_complete(c, 1100.0)),
                sub!("wide", 120, 3_000, "a product of sums of up to 120 addends, up to 6000 products", |c| wide_product(c, 0)),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Complete)),
                sub!("by-hand", 60_000, 900_000, "a tree made node by node, not in the form the constructors give", complete_by_hand),
                sub!("nested", 1_500, 40_000, "an integer polynomial as a chain of up to 58 sums and products, one inside the other", nested_complete),
                sub!("inside", 10_000, 300_000, "powers and products of sums inside exponents and logarithms", super::newer::inner_complete),
                sub!("idempotent", 12_000, 900_000, R, expand_idempotent),
            ],
        },
        Prop {
            id: "C09",
            subs: vec![
                sub!("polynomial", 20_000, 1_200_000, R, |c| value_case(c, lane(Kind::Poly, "B"), &simplify)),
                sub!("rational", 20_000, 1_200_000, R, |c| value_case(c, lane(Kind::Rat, "B"), &simplify)),
                sub!("real", 15_000, 1_000_000, R, |c| value_case(c, lane(Kind::Rat, "R"), &simplify)),
                sub!("opaque", 10_000, 400_000, R, |c| value_case(c, lane(Kind::Rat, "T"), &simplify)),
                sub!("symbolic-exponent", 20_000, 700_000, R, |c| value_case(c, lane(Kind::SymExp, "B"), &simplify)),
                sub!("symbolic-exponent-real", 15_000, 400_000, R, |c| value_case(c, lane(Kind::SymExp, "R"), &simplify)),
                sub!("positive", 25_000, 700_000, R, |c| value_case(c, lane(Kind::Pos, "R"), &simplify)),
                sub!("history", 10_000, 400_000, "with expand() and simplify() applied inside", |c| {
                    value_case(c, lane(Kind::Rat, "HT"), &simplify)
                }),
                sub!("deep", 4_000, 200_000, "a chain of up to 42 operations, one inside the other", |c| super::large::deep(c, 40, &simplify)),
                sub!("large", 3_000, 60_000, "one sum or product of up to 160 items", |c| super::large::wide(c, 100, &simplify)),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Simplify)),
                sub!("repeats", 15_000, 400_000, "a positive term in which the same parts come back, inverted or raised", |c| repeats(c, &simplify)),
                sub!("by-hand", 60_000, 1_200_000, "a tree made node by node, not in the form the constructors give", |c| hand_value(c, "simplify", true, &|e| e.clone().simplify())),
                sub!("roots", 40_000, 700_000, "a fractional power of an integer at or next to a perfect power", |c| super::arith::root(c, &["simplify()"])),
                sub!("signed-logs", 12_000, 400_000, "logarithms of even powers and products of variables of either sign", |c| super::arith::signed_logs(c, &simplify)),
                sub!("logarithms", 12_000, 400_000, "a power whose exponent holds logarithms to its base", |c| super::newer::log_exponents(c, &simplify)),
                sub!("inside", 8_000, 300_000, "powers and products of sums inside exponents and logarithms", |c| super::newer::inner_value(c, &simplify)),
                sub!("long-products", 20_000, 400_000, "a sum of multiples of few products of up to ten powers", |c| super::newer::long_products(c, &simplify)),
                sub!("like-addends", 20_000, 600_000, "a sum of multiples of few products", |c| like_addends(c, &simplify)),
                sub!("like-factors", 20_000, 600_000, "a product of powers of few bases", |c| like_factors(c, &simplify)),
                sub!("products-of-sums", 3_000, 400_000, "a product of 2 to 5 sums and other factors", |c| product_of_sums(c, &simplify)),
                sub!("high-powers", 160, 3_000, "a power of a short sum, up to 2^9 terms multiplied out", |c| high_power(c, 520.0, &simplify)),
            ],
        },
        Prop {
            id: "C10",
            subs: vec![
                sub!("reference", 30_000, 1_500_000, "an integer polynomial in factored or nested form", canonical),
                sub!("rewritten", 12_000, 900_000, "an integer polynomial and an equivalent form of it", rewritten),
                sub!("stages", 6_000, 600_000, "an integer polynomial, expanded or simplified beforehand or inside", stages),
                sub!("high-powers", 160, 3_000, "a power of a short sum, up to 2^9 terms multiplied out", |c| high_power_canonical(c, 520.0)),
                sub!("by-hand", 60_000, 900_000, "a tree made node by node, not in the form the constructors give", canonical_by_hand),
                sub!("nested", 1_500, 40_000, "an integer polynomial as a chain of up to 58 sums and products, one inside the other", nested_canonical),
                sub!("wide", 96, 2_000, "a product of sums of up to 120 addends, up to 6000 products", |c| wide_product(c, 1)),
                sub!("many", 6_000, 100_000, "a sum of up to 120 terms in up to 40 variables, many of which cancel or come back", many_addends),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Canonical)),
                sub!("identities", 10_000, 600_000, "binomial and factoring identities with polynomial arguments", identities),
            ],
        },
        Prop {
            id: "C11",
            subs: vec![
                sub!("laurent", 150_000, 1_200_000, "a product of integer powers of variables, in any nesting", laurent),
                sub!("huge", 80_000, 800_000, "a product or quotient of variable powers with exponents of any size", huge),
                sub!("symbolic", 80_000, 1_000_000, "a product of powers of few bases with polynomial exponents", merged),
                sub!("many", 15_000, 200_000, "a product of up to 70 powers of up to 40 variables, many of which cancel or come back", many_factors),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Merged)),
                sub!("cancel", 60_000, 600_000, "a product times its own inverse", cancel),
            ],
        },
        Prop {
            id: "C12",
            subs: vec![
                sub!("closed", 120_000, 1_500_000, "a variable-free term over integers and quotients", rational_closed),
                sub!("long", 160, 4_000, "a sum or product of up to 900 fractions, the result up to thousands of bits long", super::newer::long_fractions),
                sub!("hidden", 60_000, 900_000, "a number taken apart into sums, products, quotients and inverses", rational_hidden),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Closed)),
                sub!("constant-part", 50_000, 900_000, "rational constants next to integer polynomial addends", rational_constant_part),
                sub!("coefficient", 80_000, 900_000, "rational factors next to powers of variables", rational_coefficient),
            ],
        },
        Prop {
            id: "C19",
            subs: vec![
                sub!("value", 35_000, 1_500_000, "each rule on a matching or arbitrary expression", rule_value),
                sub!("value-real", 25_000, 700_000, "the same with real literals", rule_value_real),
                sub!("like-addends", 20_000, 600_000, "the common-addend rule on sums of multiples", rule_addends),
                sub!("like-factors", 20_000, 600_000, "the common-factor rule on products of powers", rule_factors),
                sub!("rationals", 20_000, 600_000, "the rational rules on sums and products", rule_rationals),
                sub!("denominator", 20_000, 600_000, "the single-denominator rule on products of powers", rule_denominator),
                sub!("huge", 40_000, 600_000, "each rule on a product of variable powers with exponents of any size", super::newer::rule_huge),
                sub!("expansion", 10_000, 600_000, "the expansion rules on products and powers of sums", rule_expansion),
                sub!("inverse", 20_000, 500_000, "the power/logarithm rule on raw nodes", rule_inverse),
                sub!("by-hand", 100_000, 1_200_000, "each rule on a tree made node by node, not in the form the constructors give", rule_by_hand),
                sub!("repeats", 40_000, 900_000, "each rule on a positive term in which the same parts come back, inverted or raised", rule_repeats),
            ],
        },
    ]
}

// -------------------------------------------------------------- generators

/// a monomial over the lane's variables (possibly a plain number)
pub fn monomial(g: &mut G) -> T {
    let n = g.s.usize(4);
    let mut f: Vec<T> = vec![];
    for _ in 0..n {
        let v = g.var();
        f.push(if g.lane.huge && g.s.chance(1, 2) {
            T::Pow(bx(v), bx(T::Int(gen_huge_exponent(g.s))), 0)
        } else if g.s.chance(1, 3) {
            T::Pow(bx(v), bx(int(g.s.range(2, 4))), 0)
        } else {
            v
        });
    }
    if g.s.chance(1, 2) || f.is_empty() {
        let b = g.lane.big && g.s.chance(1, 5);
        f.insert(0, T::Int(gen_int_short(g.s, b)));
    }
    if f.len() == 1 {
        return f.pop().unwrap();
    }
    if f.len() == 2 {
        let y = f.pop().unwrap();
        let x = f.pop().unwrap();
        return T::Mul(bx(x), bx(y), g.s.below(5) as u8);
    }
    T::Prod(f)
}

/// an integer polynomial whose powers have bases the library distributes over
pub fn ipoly(g: &mut G, b: usize) -> T {
    if b <= 1 {
        return if g.s.chance(3, 5) {
            g.var()
        } else {
            let big = g.lane.big;
            T::Int(gen_int_short(g.s, big))
        };
    }
    let l = 1 + g.s.usize(b - 1);
    let r = b - l;
    let h = g.s.below(5) as u8;
    let max = g.lane.max_monomials;
    match g.s.weighted(&[22, 18, 24, 5, 9, 7, 12, 5, if g.lane.hist { 6 } else { 0 }]) {
        0 => T::Add(bx(ipoly(g, l)), bx(ipoly(g, r)), h),
        1 => T::Sub(bx(ipoly(g, l)), bx(ipoly(g, r)), h),
        2 => {
            let (x, y) = (ipoly(g, l), ipoly(g, r));
            if est(&x) * est(&y) > max {
                T::Add(bx(x), bx(y), h)
            } else {
                T::Mul(bx(x), bx(y), h)
            }
        }
        3 => T::Neg(bx(ipoly(g, b - 1)), h % 2),
        4 => {
            let n = g.s.usize(6);
            T::Sum((0..n).map(|_| ipoly(g, b / (n + 1))).collect())
        }
        5 => {
            let n = g.s.usize(5);
            let v: Vec<T> = (0..n).map(|_| ipoly(g, b / (n + 1))).collect();
            if v.iter().map(est).product::<f64>() > max {
                T::Sum(v)
            } else {
                T::Prod(v)
            }
        }
        6 => {
            let base = match g.s.usize(5) {
                0 => g.var(),
                1 => {
                    let x = g.var();
                    let y = ipoly(g, l.min(6));
                    T::Add(bx(y), bx(x), h)
                }
                2 => {
                    let x = g.var();
                    let y = ipoly(g, l.min(6));
                    T::Sub(bx(x), bx(y), h)
                }
                3 => {
                    let n = 2 + g.s.usize(3);
                    let mut v = vec![g.var()];
                    for _ in 0..n {
                        v.push(monomial(g));
                    }
                    T::Sum(v)
                }
                _ => int(g.s.range(-3, 4)),
            };
            if g.lane.huge && matches!(base, T::Var(_)) {
                return T::Pow(bx(base), bx(T::Int(gen_huge_exponent(g.s))), h % 2);
            }
            // a zero base under exponent 0 is kept out by the domain
            g.int_power(base, false)
        }
        7 => monomial(g),
        _ => {
            let x = ipoly(g, b - 1);
            if g.s.chance(1, 2) {
                T::Expand(bx(x))
            } else {
                T::Simplify(bx(x))
            }
        }
    }
}

pub fn poly_case(c: &mut Case, hist: bool) -> T {
    let mut l = lane(Kind::Poly, if c.s.chance(1, 4) { "B" } else { "" });
    l.hist = hist;
    l.max_monomials = 120.0;
    l.huge = c.s.chance(1, 8);
    if l.huge {
        c.class("exponents of any size");
    }
    if c.s.chance(1, 60) {
        c.class("deeply nested");
        let mut g = G::new(c.s, l);
        let n = 6 + g.s.usize(24);
        return nested_poly(&mut g, n, 14.0);
    }
    let mut g = G::new(c.s, l);
    let b = g.budget();
    let t = ipoly(&mut g, b);
    let mut t = t;
    while est(&t) > 2.0 * g.lane.max_monomials {
        t = t.children().into_iter().max_by(|a, b| a.size().cmp(&b.size())).unwrap().clone();
    }
    t
}

/// an integer polynomial as a long chain of steps, one inside the other
pub fn nested_poly(g: &mut G, n: usize, most: f64) -> T {
    let mut t = g.var();
    for _ in 0..n {
        let h = g.s.below(5) as u8;
        let v = g.var();
        let k = int(g.s.range(1, 6));
        let u = match g.s.weighted(&[20, 12, 12, 10, 8, 8, 6, 6]) {
            0 => T::Add(bx(T::Mul(bx(t.clone()), bx(v), h)), bx(k), h),
            1 => T::Sub(bx(k), bx(t.clone()), h),
            2 => T::Mul(bx(T::Sub(bx(t.clone()), bx(k), h)), bx(v), h),
            3 => T::Add(bx(T::Mul(bx(k), bx(t.clone()), h)), bx(monomial(g)), h),
            4 => T::Sum(vec![v.clone(), t.clone(), T::Neg(bx(v), 0), k]),
            5 => T::Prod(vec![v, t.clone(), k]),
            6 => T::Neg(bx(T::Sub(bx(t.clone()), bx(v), h)), h % 2),
            _ => T::Mul(bx(T::Add(bx(v), bx(k), h)), bx(t.clone()), h),
        };
        // the terms multiplied out, before any are collected
        if est(&u) <= most {
            t = u;
        }
    }
    t
}

/// 0^0 and the like make the polynomial meaningless
pub fn poly_ok(t: &T) -> bool {
    !t.any(&|x| match x {
        T::Pow(b, e, _) => {
            let zero = |t: &T| poly_of(t).map(|p| p.0.is_empty()).unwrap_or(true);
            zero(b) && zero(e)
        }
        _ => false,
    })
}

pub fn sum_factor(g: &mut G) -> T {
    let n = 2 + g.s.usize(3);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        v.push(match g.s.usize(4) {
            0 => g.var(),
            1 => monomial(g),
            2 => shape(g),
            _ => g.any(2),
        });
    }
    if v.len() == 2 {
        let y = v.pop().unwrap();
        let x = v.pop().unwrap();
        return if g.s.chance(1, 2) { T::Add(bx(x), bx(y), 0) } else { T::Sub(bx(x), bx(y), 0) };
    }
    T::Sum(v)
}

fn power_of_sum(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let flags = ["", "R", "T", "B"][c.s.usize(4)];
    let sym = c.s.chance(1, 4);
    let l = lane(if sym { Kind::SymExp } else { Kind::Rat }, flags);
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        let base = sum_factor(&mut g);
        let p = if sym {
            let e = match g.s.usize(3) {
                0 => T::Mul(bx(int([2, 3, -1, -2][g.s.usize(4)])), bx(g.var()), 0),
                1 => T::Add(bx(g.var()), bx(int(g.s.range(-2, 3))), 0),
                _ => T::Prod(vec![g.var(), int(g.s.range(2, 3)), g.var()]),
            };
            T::Pow(bx(base), bx(e), 0)
        } else {
            let neg = g.s.chance(1, 3);
            g.int_power(base, neg)
        };
        match g.s.usize(5) {
            0 => T::Mul(bx(p), bx(sum_factor(&mut g)), 0),
            1 => T::Mul(bx(g.any(2)), bx(p), 0),
            2 => T::Add(bx(p), bx(g.any(3)), 0),
            3 => {
                let b2 = sum_factor(&mut g);
                let p2 = if sym { T::Pow(bx(b2), bx(g.var()), 0) } else { g.int_power(b2, false) };
                T::Prod(vec![p, p2, g.any(1)])
            }
            _ => p,
        }
    };
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, dom, f)
}

fn product_of_sums(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let flags = ["", "R", "T", "B"][c.s.usize(4)];
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, flags));
        let n = 2 + g.s.usize(4);
        let mut v: Vec<T> = vec![];
        for _ in 0..n {
            if !v.is_empty() && g.s.chance(1, 5) {
                let i = g.s.usize(v.len());
                let d = v[i].clone();
                v.push(d);
            } else if g.s.chance(2, 3) {
                v.push(sum_factor(&mut g));
            } else {
                v.push(shape(&mut g));
            }
        }
        T::Prod(v)
    };
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, Dom::Signed, f)
}

/// a power of a short sum, up to `limit` terms when multiplied out
fn high_power_term(g: &mut G, limit: f64, neg: bool, sym: bool) -> T {
    let n = 2 + g.s.weighted(&[6, 3, 1]);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        v.push(match g.s.usize(6) {
            0 => int(g.s.range(-3, 4)),
            1 => T::Neg(bx(g.var()), 0),
            2 => monomial(g),
            3 if !v.is_empty() => v[g.s.usize(v.len())].clone(),
            _ => g.var(),
        });
    }
    let base = if g.s.chance(1, 3) {
        T::Sum(v)
    } else {
        let mut it = v.into_iter();
        let mut acc = it.next().unwrap();
        for x in it {
            acc = if g.s.chance(1, 3) { T::Sub(bx(acc), bx(x), 0) } else { T::Add(bx(acc), bx(x), 0) };
        }
        acc
    };
    let top = (limit.ln() / (n as f64).ln() + 1e-9) as i64;
    let k = top - g.s.usize((top - 1).min(6) as usize) as i64;
    let e = if neg && g.s.chance(1, 3) { int(-k) } else { int(k) };
    let e = if sym && g.s.chance(1, 4) { T::Mul(bx(e), bx(g.var()), 0) } else { e };
    let p = T::Pow(bx(base), bx(e), g.s.below(2) as u8);
    match g.s.usize(8) {
        0 => T::Mul(bx(p), bx(monomial(g)), 0),
        1 => T::Add(bx(p), bx(monomial(g)), 0),
        2 => T::Sub(bx(g.var()), bx(p), 0),
        _ => p,
    }
}

fn high_power(c: &mut Case, limit: f64, f: &dyn Fn(&T) -> Expression) -> Out {
    let sym = c.s.chance(1, 3);
    let l = lane(if sym { Kind::SymExp } else { Kind::Rat }, "");
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        high_power_term(&mut g, limit, true, sym)
    };
    value_of(c, t, dom, f)
}

/// the same, completely distributed and monomial by monomial
fn high_power_complete(c: &mut Case, limit: f64) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Poly, ""));
        high_power_term(&mut g, limit, false, false)
    };
    let want = match poly_of(&t) {
        Some(p) if poly_ok(&t) => p,
        _ => return Out::Discard("not a polynomial"),
    };
    c.begin(t.show(), true);
    complete(&t, &want)
}

/// a chain of sums and products, completely distributed and monomial by monomial
fn nested_complete(c: &mut Case) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Poly, ""));
        g.lane.huge = g.s.chance(1, 8);
        let n = 8 + g.s.usize(50);
        nested_poly(&mut g, n, 30.0)
    };
    let want = match poly_of(&t) {
        Some(p) => p,
        _ => return Out::Discard("not a polynomial"),
    };
    if t.depth() >= 40 {
        c.class("depth 40 or more");
    }
    c.begin(t.show(), t.depth() >= 15);
    complete(&t, &want)
}

pub fn complete(t: &T, want: &Poly) -> Out {
    let n = n_of(&t.build().expand());
    if let Some(x) = unexpanded(&n) {
        return Out::Fail(format!("not expanded: {} in {}", x, n.show()));
    }
    let items = match &n {
        N::Add(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut sum = Poly::zero();
    for x in &items {
        match read_loose_monomial(x) {
            Ok(p) => p.0.into_iter().for_each(|(k, q)| sum.push(k, q)),
            Err(m) => return Out::Fail(format!("not a sum of monomials: {} in {}", m, n.show())),
        }
    }
    if sum == *want {
        Out::Pass
    } else {
        Out::Fail(format!("expected {} but the expansion amounts to {}", want.show(), sum.show()))
    }
}

fn nested_canonical(c: &mut Case) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Poly, ""));
        g.lane.huge = g.s.chance(1, 8);
        let n = 8 + g.s.usize(50);
        nested_poly(&mut g, n, 30.0)
    };
    let want = match poly_of(&t) {
        Some(p) => p,
        _ => return Out::Discard("not a polynomial"),
    };
    if t.depth() >= 40 {
        c.class("depth 40 or more");
    }
    c.begin(t.show(), t.depth() >= 15);
    ok(expect_poly(&t.build().simplify(), &want))
}

fn high_power_canonical(c: &mut Case, limit: f64) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Poly, ""));
        high_power_term(&mut g, limit, false, false)
    };
    let want = match poly_of(&t) {
        Some(p) if poly_ok(&t) => p,
        _ => return Out::Discard("not a polynomial"),
    };
    // a power of a product is not taken apart
    let sums = |t: &T| !t.any(&|x| matches!(x, T::Pow(b, _, _) if matches!(b.build(), Expression::Multiplication(_))));
    if !sums(&t) {
        return Out::Discard("a power of a product");
    }
    c.begin(t.show(), true);
    ok(expect_poly(&t.build().simplify(), &want))
}

/// two variables, and the bases that look related
fn related_base(g: &mut G, x: &T, y: &T) -> T {
    let b = |t: &T| bx(t.clone());
    match g.s.usize(24) {
        16 => T::Div(b(x), b(y), 0),
        17 => T::Div(b(y), b(x), 0),
        18 => T::Div(bx(int([1, 2, 3, -1, -2][g.s.usize(5)])), b(x), 0),
        19 => T::Div(b(x), bx(int([2, 3, -1, -2][g.s.usize(4)])), 0),
        20 => T::Mul(bx(int([2, 3, -1, -2][g.s.usize(4)])), b(x), 0),
        21 => T::Div(bx(int([1, 2, 3, 4][g.s.usize(4)])), bx(int([2, 3, 4][g.s.usize(3)])), 0),
        22 => int([2, 4, 8, 3, 9, 6][g.s.usize(6)]),
        23 => T::Div(bx(int([1, 2][g.s.usize(2)])), bx(T::Mul(b(x), b(y), 0)), 0),
        0 | 1 => T::Add(b(x), b(y), 0),
        2 | 3 => T::Sub(b(x), b(y), 0),
        4 | 5 => T::Sub(b(y), b(x), 0),
        6 => T::Sub(bx(T::Neg(b(x), 0)), b(y), 0),
        7 => T::Add(bx(T::Mul(bx(int(2)), b(x), 0)), bx(T::Mul(bx(int(2)), b(y), 0)), 0),
        8 => T::Mul(b(x), b(y), 0),
        9 => T::Sub(bx(T::Pow(b(x), bx(int(2)), 0)), bx(T::Pow(b(y), bx(int(2)), 0)), 0),
        10 => T::Sum(vec![x.clone(), y.clone(), int(1)]),
        11 => T::Sub(bx(int(1)), b(x), 0),
        12 => T::Sub(b(x), bx(int(1)), 0),
        13 => T::Add(b(x), b(x), 0),
        14 => T::Neg(b(x), 0),
        _ => x.clone(),
    }
}

/// a sum of multiples of few products
pub fn addends_term(g: &mut G) -> T {
    let k = 1 + g.s.usize(4);
    let mut keys: Vec<T> = vec![];
    for _ in 0..k {
        keys.push(match g.s.weighted(&[3, 3, 2, 1, 1]) {
            0 => g.var(),
            1 => monomial(g),
            2 => {
                let (x, y) = (g.var(), g.var());
                T::Div(bx(x), bx(y), 0)
            }
            3 => int(1),
            _ => shape(g),
        });
    }
    let n = 2 + g.s.usize(9);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let key = keys[g.s.usize(k)].clone();
        let big = g.lane.big && g.s.chance(1, 4);
        v.push(match g.s.usize(6) {
            0 => key,
            1 => T::Neg(bx(key), 0),
            2 => T::Mul(bx(T::Int(gen_int_short(g.s, big))), bx(key), 0),
            3 => T::Mul(bx(key), bx(T::Int(gen_small(g.s))), 1),
            4 => {
                let d = g.s.range(2, 9);
                T::Div(bx(key), bx(int(d)), 0)
            }
            _ => {
                let n = gen_small(g.s);
                let x = T::Mul(bx(T::Int(n)), bx(key), 0);
                T::Neg(bx(x), 1)
            }
        });
    }
    // left-nested, or one n-ary node, or balanced halves
    match g.s.usize(3) {
        0 => T::Sum(v),
        1 => {
            let mut it = v.into_iter();
            let mut acc = it.next().unwrap();
            for x in it {
                acc = if g.s.chance(1, 3) { T::Sub(bx(acc), bx(x), 0) } else { T::Add(bx(acc), bx(x), 0) };
            }
            acc
        }
        _ => {
            let r = v.split_off(v.len() / 2);
            T::Sub(bx(T::Sum(v)), bx(T::Sum(r)), 0)
        }
    }
}

fn like_addends(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let flags = ["", "R", "T", "B"][c.s.usize(4)];
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, flags));
        addends_term(&mut g)
    };
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, Dom::Signed, f)
}

/// a product of powers of few bases
pub fn factors_term(g: &mut G, sym: bool) -> T {
    let k = 1 + g.s.usize(4);
    let mut keys: Vec<T> = vec![];
    let (x, y) = (g.var(), g.var());
    let related = g.s.chance(1, 3);
    for _ in 0..k {
        if related {
            let b = related_base(g, &x, &y);
            keys.push(if g.lane.trig && g.s.chance(1, 3) { T::Sin(bx(b)) } else { b });
            continue;
        }
        keys.push(match g.s.weighted(&[5, 2, 2, if g.lane.trig { 2 } else { 0 }]) {
            0 => g.var(),
            1 => T::Add(bx(g.var()), bx(int(g.s.range(1, 4))), 0),
            2 => T::Int(BigInt::from(g.s.range(2, 7))),
            _ => T::Sin(bx(g.var())),
        });
    }
    let n = 2 + g.s.usize(8);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let key = keys[g.s.usize(k)].clone();
        v.push(match g.s.weighted(&[2, 3, 2, if sym { 4 } else { 0 }]) {
            0 => key,
            1 => T::Pow(bx(key), bx(int(g.s.range(-3, 4))), 0),
            2 => T::Div(bx(int(1)), bx(key), 0),
            _ => {
                let e = match g.s.usize(4) {
                    0 => g.var(),
                    1 => T::Neg(bx(g.var()), 0),
                    2 => T::Mul(bx(int(g.s.range(-3, 4))), bx(g.var()), 0),
                    _ => T::Sub(bx(g.var()), bx(int(g.s.range(-3, 4))), 0),
                };
                T::Pow(bx(key), bx(e), 0)
            }
        });
    }
    match g.s.usize(3) {
        0 => T::Prod(v),
        1 => {
            let mut it = v.into_iter();
            let mut acc = it.next().unwrap();
            for x in it {
                acc = if g.s.chance(1, 3) { T::Div(bx(acc), bx(x), 0) } else { T::Mul(bx(acc), bx(x), 0) };
            }
            acc
        }
        _ => {
            let r = v.split_off(v.len() / 2);
            T::Div(bx(T::Prod(v)), bx(T::Prod(r)), 0)
        }
    }
}

fn like_factors(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let sym = c.s.chance(1, 2);
    let flags = ["", "T"][c.s.usize(2)];
    let l = lane(if sym { Kind::SymExp } else { Kind::Rat }, flags);
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        factors_term(&mut g, sym)
    };
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, dom, f)
}

// ------------------------------------------------------------------- C08

/// a product that still contains a sum, or a positive integer power of a sum
pub fn unexpanded(n: &N) -> Option<String> {
    match n {
        N::Mul(v) => {
            if v.iter().any(|x| matches!(x, N::Add(_))) {
                return Some(n.show());
            }
        }
        N::Pow(b, e) => {
            if let (N::Add(_), N::Int(k)) = (&**b, &**e) {
                if k.is_positive() {
                    return Some(n.show());
                }
            }
        }
        // arguments of trigonometric nodes are left alone
        N::Sin(_) | N::Cos(_) => return None,
        _ => {}
    }
    n.kids().into_iter().find_map(unexpanded)
}

fn expand_complete(c: &mut Case, kind: Kind, flags: &str) -> Out {
    let l = lane(kind, flags);
    let dom = l.dom();
    let shape_kind = c.s.usize(4);
    let t = {
        let mut g = G::new(c.s, l);
        match shape_kind {
            0 => {
                let b = sum_factor(&mut g);
                let p = g.int_power(b, false);
                let x = sum_factor(&mut g);
                T::Mul(bx(p), bx(x), 0)
            }
            1 => {
                let n = 2 + g.s.usize(3);
                T::Prod((0..n).map(|_| sum_factor(&mut g)).collect())
            }
            _ => g.term(),
        }
    };
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    let e0 = std::panic::catch_unwind(|| n_of(&t.build()));
    let had = match &e0 {
        Ok(n) => unexpanded(n).is_some(),
        Err(_) => false,
    };
    if had {
        c.class("had something to expand");
    }
    c.begin(t.show(), had);
    let e = t.build().expand();
    match unexpanded(&n_of(&e)) {
        Some(x) => Out::Fail(format!("not expanded: {} in {}", x, show_e(&e))),
        None => Out::Pass,
    }
}

/// product of numbers and positive powers of variables, not collected
fn read_loose_monomial(n: &N) -> Result<Poly, String> {
    match n {
        N::Int(k) => Ok(Poly::constant(Q::from_integer(k.clone()))),
        N::Var(_) => Ok(poly_of_n(n).unwrap()),
        N::Pow(b, e) => match (&**b, &**e) {
            (N::Var(_), N::Int(k)) if k.is_positive() => Ok(poly_of_n(n).ok_or("power")?),
            // a power of a product stays closed
            (N::Mul(_), N::Int(k)) if k.is_positive() => {
                read_loose_monomial(b)?;
                Ok(poly_of_n(n).ok_or("power")?)
            }
            _ => Err(format!("not a monomial factor: {}", n.show())),
        },
        N::Mul(v) => {
            let mut p = Poly::constant(Q::one());
            for x in v {
                if matches!(x, N::Mul(_) | N::Add(_)) {
                    return Err(format!("not a monomial factor: {}", x.show()));
                }
                p = p.mul(&read_loose_monomial(x)?);
            }
            Ok(p)
        }
        _ => Err(format!("not a monomial: {}", n.show())),
    }
}

fn expand_monomials(c: &mut Case) -> Out {
    let hist = c.s.chance(1, 5);
    let t = poly_case(c, hist);
    // powers of anything, also of products
    let t = match c.s.usize(8) {
        0 => T::Pow(bx(t), bx(int(c.s.range(0, 4))), 0),
        1 => {
            let m = monomial(&mut G::new(c.s, lane(Kind::Poly, "")));
            let p = T::Pow(bx(m), bx(int(c.s.range(2, 6))), 0);
            if c.s.chance(1, 2) {
                T::Mul(bx(t), bx(p), 0)
            } else {
                T::Add(bx(t), bx(p), 0)
            }
        }
        _ => t,
    };
    if !poly_ok(&t) {
        return Out::Discard("zero to the zero");
    }
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("not a polynomial"),
    };
    if want.0.len() > 5 {
        c.class("more than 5 monomials");
    }
    c.begin(t.show(), t.size() >= 5);
    let e = t.build().expand();
    let n = n_of(&e);
    let items = match &n {
        N::Add(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut sum = Poly::zero();
    for x in &items {
        match read_loose_monomial(x) {
            Ok(p) => p.0.into_iter().for_each(|(k, q)| sum.push(k, q)),
            Err(m) => return Out::Fail(format!("not a sum of monomials: {} in {}", m, n.show())),
        }
    }
    if sum == want {
        Out::Pass
    } else {
        Out::Fail(format!("expected {} but the expansion {} amounts to {}", want.show(), n.show(), sum.show()))
    }
}

fn expand_idempotent(c: &mut Case) -> Out {
    let l = match c.s.usize(5) {
        0 => lane(Kind::Poly, "B"),
        1 => lane(Kind::Rat, "T"),
        2 => lane(Kind::Rat, "H"),
        3 => lane(Kind::SymExp, ""),
        _ => lane(Kind::Pos, ""),
    };
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        g.term()
    };
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(t.show(), t.size() >= 3);
    let once = t.build().expand();
    let twice = once.clone().expand();
    ok(identical(&once, &twice).map_err(|m| format!("expanding again changes the result: {}", m)))
}

// ------------------------------------------------------------------- C10

pub fn expect_poly(e: &Expression, want: &Poly) -> Result<(), String> {
    let n = n_of(e);
    match read_poly(&n) {
        Ok(p) if p == *want => Ok(()),
        Ok(p) => Err(format!("expected {} but got {} = {}", want.show(), n.show(), p.show())),
        Err(m) => Err(format!("expected {} as a sum of distinct monomials but got {}: {}", want.show(), n.show(), m)),
    }
}

fn canonical(c: &mut Case) -> Out {
    let t = poly_case(c, false);
    if !poly_ok(&t) {
        return Out::Discard("zero to the zero");
    }
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("not a polynomial"),
    };
    if want.0.is_empty() {
        c.class("cancels to zero");
    } else if want.as_constant().is_some() {
        c.class("cancels to a constant");
    }
    if want.0.len() >= 6 {
        c.class("6 or more monomials");
    }
    c.begin(t.show(), t.size() >= 5);
    let e = t.build().simplify();
    ok(expect_poly(&e, &want))
}

/// an equivalent form of the polynomial
pub fn rewrite(s: &mut Src, t: &T, depth: usize) -> T {
    let t = match t {
        T::Int(_) | T::Var(_) | T::Real(_) => t.clone(),
        T::Add(a, b, h) => {
            let (a, b) = (rewrite(s, a, depth + 1), rewrite(s, b, depth + 1));
            match s.usize(4) {
                0 => T::Add(bx(a), bx(b), *h),
                1 => T::Add(bx(b), bx(a), *h),
                2 => T::Sub(bx(a), bx(T::Neg(bx(b), 0)), *h),
                _ => T::Sum(vec![b, int(0), a]),
            }
        }
        T::Sub(a, b, h) => {
            let (a, b) = (rewrite(s, a, depth + 1), rewrite(s, b, depth + 1));
            match s.usize(4) {
                0 => T::Sub(bx(a), bx(b), *h),
                1 => T::Add(bx(a), bx(T::Mul(bx(int(-1)), bx(b), 0)), *h),
                2 => T::Neg(bx(T::Sub(bx(b), bx(a), *h)), 0),
                _ => T::Sum(vec![T::Neg(bx(b), 1), a]),
            }
        }
        T::Mul(a, b, h) => {
            let (a, b) = (rewrite(s, a, depth + 1), rewrite(s, b, depth + 1));
            match (s.usize(4), &a) {
                (0, _) => T::Mul(bx(a), bx(b), *h),
                (1, _) => T::Mul(bx(b), bx(a), *h),
                (2, T::Add(x, y, _)) => T::Add(
                    bx(T::Mul(x.clone(), bx(b.clone()), 0)),
                    bx(T::Mul(bx(b), y.clone(), 0)),
                    0,
                ),
                (2, T::Sub(x, y, _)) => T::Sub(
                    bx(T::Mul(x.clone(), bx(b.clone()), 0)),
                    bx(T::Mul(bx(b), y.clone(), 0)),
                    0,
                ),
                _ => T::Prod(vec![int(1), b, a]),
            }
        }
        T::Neg(a, h) => {
            let a = rewrite(s, a, depth + 1);
            match s.usize(3) {
                0 => T::Neg(bx(a), *h),
                1 => T::Sub(bx(int(0)), bx(a), 0),
                _ => T::Mul(bx(a), bx(int(-1)), 0),
            }
        }
        T::Sum(v) => {
            let mut v: Vec<T> = v.iter().map(|x| rewrite(s, x, depth + 1)).collect();
            v.reverse();
            if v.len() >= 2 && s.chance(1, 2) {
                let y = v.pop().unwrap();
                T::Add(bx(T::Sum(v)), bx(y), 0)
            } else {
                T::Sum(v)
            }
        }
        T::Prod(v) => {
            let mut v: Vec<T> = v.iter().map(|x| rewrite(s, x, depth + 1)).collect();
            v.reverse();
            if v.len() >= 2 && s.chance(1, 2) {
                let y = v.pop().unwrap();
                T::Mul(bx(T::Prod(v)), bx(y), 0)
            } else {
                T::Prod(v)
            }
        }
        T::Pow(a, e, h) => match (s.usize(3), &**e) {
            // base kept as it is: its shape decides whether it is distributed
            (1, T::Int(k)) if *k >= BigInt::from(2) && *k <= BigInt::from(4) => {
                let k: usize = k.to_string().parse().unwrap();
                let v: Vec<T> = (0..k).map(|_| (**a).clone()).collect();
                T::Prod(v)
            }
            (2, T::Int(k)) if *k >= BigInt::from(2) => {
                T::Mul(a.clone(), bx(T::Pow(a.clone(), bx(T::Int(k - 1)), *h)), 0)
            }
            _ => t.clone(),
        },
        x => x.clone(),
    };
    // local insertions
    if s.chance(1, 6) && est(&t) < 30.0 {
        match s.usize(4) {
            0 => {
                let k = int(s.range(1, 9));
                T::Sub(bx(T::Add(bx(t), bx(k.clone()), 0)), bx(k), 0)
            }
            1 => T::Neg(bx(T::Neg(bx(t), 0)), 1),
            2 => T::Sub(bx(T::Add(bx(t.clone()), bx(t.clone()), 0)), bx(t), 0),
            _ => T::Sub(bx(T::Mul(bx(int(3)), bx(t.clone()), 0)), bx(T::Mul(bx(t), bx(int(2)), 0)), 0),
        }
    } else {
        t
    }
}

fn rewritten(c: &mut Case) -> Out {
    let t = poly_case(c, false);
    let u = rewrite(c.s, &t, 0);
    if !poly_ok(&t) || !poly_ok(&u) {
        return Out::Discard("zero to the zero");
    }
    if est(&u) > 600.0 {
        return Out::Discard("too large");
    }
    match (poly_of(&t), poly_of(&u)) {
        (Some(p), Some(q)) => {
            if p != q {
                panic!("rewrite changed the polynomial: {} {}", t.show(), u.show());
            }
        }
        _ => return Out::Discard("not a polynomial"),
    }
    c.begin(format!("{} | {}", t.show(), u.show()), t.show() != u.show());
    let (x, y) = (t.build().simplify(), u.build().simplify());
    ok(identical(&x, &y).map_err(|m| format!("equivalent forms simplify differently: {}", m)))
}

fn stages(c: &mut Case) -> Out {
    let hist = c.s.chance(1, 2);
    let t = poly_case(c, hist);
    if !poly_ok(&t) {
        return Out::Discard("zero to the zero");
    }
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("not a polynomial"),
    };
    c.begin(t.show(), t.size() >= 3);
    let once = t.build().simplify();
    if let Err(m) = expect_poly(&once, &want) {
        return Out::Fail(m);
    }
    let twice = once.clone().simplify();
    if let Err(m) = identical(&once, &twice) {
        return Out::Fail(format!("simplifying again changes the result: {}", m));
    }
    let after = t.build().expand().simplify();
    if let Err(m) = identical(&once, &after) {
        return Out::Fail(format!("expanding first changes the simplification: {}", m));
    }
    let back = once.clone().expand().simplify();
    if let Err(m) = identical(&once, &back) {
        return Out::Fail(format!("expanding and simplifying the simplification changes it: {}", m));
    }
    // the opposite, and the difference with itself
    let zero = (t.build() - once.clone()).simplify();
    if n_of(&zero) != N::Int(BigInt::zero()) {
        return Out::Fail(format!("the difference between a polynomial and its simplification is {}", show_e(&zero)));
    }
    let opp = (-&once).simplify();
    ok(expect_poly(&opp, &Poly::zero().add(&want, -1)).map_err(|m| format!("negated: {}", m)))
}

fn identities(c: &mut Case) -> Out {
    let which = c.s.usize(7);
    let (l, r) = {
        let mut ln = lane(Kind::Poly, "");
        ln.max_monomials = 40.0;
        let mut g = G::new(c.s, ln);
        let mut atom = |g: &mut G| {
            let v = g.var();
            match g.s.usize(3) {
                0 => v,
                1 => T::Add(bx(v), bx(int(g.s.range(-5, 5))), 0),
                _ => {
                    let m = monomial(g);
                    T::Add(bx(v), bx(m), 0)
                }
            }
        };
        let (a, b, d) = (atom(&mut g), atom(&mut g), atom(&mut g));
        let add = |x: &T, y: &T| T::Add(bx(x.clone()), bx(y.clone()), 2);
        let sub = |x: &T, y: &T| T::Sub(bx(x.clone()), bx(y.clone()), 2);
        let mul = |x: &T, y: &T| T::Mul(bx(x.clone()), bx(y.clone()), 2);
        let pw = |x: &T, k: i64| T::Pow(bx(x.clone()), bx(int(k)), 0);
        match which {
            0 => (mul(&add(&a, &b), &sub(&a, &b)), sub(&mul(&a, &a), &mul(&b, &b))),
            1 => {
                // (x + b)^k expanded by hand
                let v = g.var();
                let k = g.s.range(2, 5);
                let mut v2 = vec![];
                let mut bin = BigInt::one();
                for i in 0..=k {
                    let mut f = vec![T::Int(bin.clone())];
                    for _ in 0..(k - i) {
                        f.push(v.clone());
                    }
                    for _ in 0..i {
                        f.push(b.clone());
                    }
                    v2.push(T::Prod(f));
                    bin = bin * BigInt::from(k - i) / BigInt::from(i + 1);
                }
                (pw(&add(&v, &b), k), T::Sum(v2))
            }
            2 => (mul(&sub(&a, &b), &T::Sum(vec![mul(&a, &a), mul(&a, &b), mul(&b, &b)])), sub(&mul(&mul(&a, &a), &a), &mul(&b, &mul(&b, &b)))),
            3 => (mul(&a, &add(&b, &d)), add(&mul(&a, &b), &mul(&a, &d))),
            4 => (mul(&mul(&a, &b), &d), mul(&a, &mul(&d, &b))),
            5 => (sub(&a, &add(&b, &d)), sub(&sub(&a, &b), &d)),
            _ => (mul(&sub(&a, &b), &sub(&a, &b)), mul(&sub(&b, &a), &sub(&b, &a))),
        }
    };
    if est(&l) > 500.0 || est(&r) > 500.0 {
        return Out::Discard("too large");
    }
    c.begin(format!("{} | {}", l.show(), r.show()), true);
    let (x, y) = (l.build().simplify(), r.build().simplify());
    ok(identical(&x, &y).map_err(|m| format!("the two sides of an identity simplify differently: {}", m)))
}

// ------------------------------------------------------------------- C11

fn laurent(c: &mut Case) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        let b = 1 + g.s.usize(12);
        laurent_term(&mut g, b)
    };
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("not a monomial"),
    };
    if t.any(&|x| matches!(x, T::Div(_, _, _))) {
        c.class("has a division");
    }
    c.begin(t.show(), t.size() >= 3);
    let e = t.build().simplify();
    let n = n_of(&e);
    match read_monomial(&n) {
        Ok((k, q)) => {
            let mut p = Poly::zero();
            p.0.insert(k, q);
            if p == want {
                Out::Pass
            } else {
                Out::Fail(format!("expected {} but got {}", want.show(), n.show()))
            }
        }
        Err(m) => Out::Fail(format!("expected {} but got {}: {}", want.show(), n.show(), m)),
    }
}

fn many_names(n: usize) -> Vec<T> {
    (0..n).map(|i| var(&format!("{}{}", ["x", "y", "n", "m"][i % 4], i / 4))).collect()
}

/// combines the items pairwise, in n-ary groups or all at once
fn grouped(s: &mut Src, v: Vec<T>, sum: bool) -> T {
    let mut q = v;
    let most = if s.chance(1, 2) { 1 } else { 2 + s.usize(20) };
    while q.len() > 1 {
        let k = if most == 1 { q.len() } else { (2 + s.usize(most)).min(q.len()) };
        let at = s.usize(q.len() - k + 1);
        let part: Vec<T> = q.drain(at..at + k).collect();
        let h = s.below(5) as u8;
        let t = match (part.len(), sum) {
            (2, true) => T::Add(bx(part[0].clone()), bx(part[1].clone()), h),
            (2, false) => T::Mul(bx(part[0].clone()), bx(part[1].clone()), h),
            (_, true) => T::Sum(part),
            (_, false) => T::Prod(part),
        };
        q.insert(at, t);
    }
    q.pop().unwrap_or(int(1))
}

fn many_factors(c: &mut Case) -> Out {
    let names = many_names(1 + c.s.usize(40));
    let n = 2 + c.s.usize(70);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let x = match (v.is_empty(), c.s.usize(4)) {
            (false, 0) => v[c.s.usize(v.len())].clone(),
            _ => names[c.s.usize(names.len())].clone(),
        };
        let x = match x {
            T::Pow(b, k, _) if c.s.chance(1, 2) => match *k {
                // the opposite exponent
                T::Int(k) => T::Pow(b, bx(T::Int(-k)), 0),
                k => T::Pow(b, bx(k), 0),
            },
            T::Pow(b, _, _) => *b,
            x if c.s.chance(1, 4) => T::Pow(bx(x), bx(int(-1)), 0),
            x if c.s.chance(1, 3) => T::Pow(bx(x), bx(int(c.s.range(-4, 5))), 0),
            x => x,
        };
        v.push(x);
    }
    let t = grouped(c.s, v, false);
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("not a monomial"),
    };
    c.begin(t.show(), n >= 8);
    let n = n_of(&t.build().simplify());
    match read_monomial(&n) {
        Ok((k, q)) => {
            let mut p = Poly::zero();
            p.0.insert(k, q);
            if p == want {
                Out::Pass
            } else {
                Out::Fail(format!("expected {} but got {}", want.show(), n.show()))
            }
        }
        Err(m) => Out::Fail(format!("expected {} but got {}: {}", want.show(), n.show(), m)),
    }
}

fn many_addends(c: &mut Case) -> Out {
    let names = many_names(1 + c.s.usize(40));
    let n = 2 + c.s.usize(120);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let x = names[c.s.usize(names.len())].clone();
        let t = match c.s.weighted(&[30, 20, 20, 20, 10, 8]) {
            5 => {
                let m = 3 + c.s.usize(8);
                T::Prod((0..m).map(|_| names[c.s.usize(names.len())].clone()).collect())
            }
            0 => x,
            1 => T::Pow(bx(x), bx(int(c.s.range(2, 4))), 0),
            2 => T::Mul(bx(x), bx(names[c.s.usize(names.len())].clone()), 0),
            3 if !v.is_empty() => v[c.s.usize(v.len())].clone(),
            _ => int(c.s.range(-9, 9)),
        };
        v.push(match c.s.weighted(&[50, 20, 30]) {
            0 => t,
            1 => T::Neg(bx(t), 0),
            _ => T::Mul(bx(int(c.s.range(-5, 5))), bx(t), c.s.below(5) as u8),
        });
    }
    let t = grouped(c.s, v, true);
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("not a polynomial"),
    };
    c.begin(t.show(), n >= 8);
    ok(expect_poly(&t.build().simplify(), &want))
}

/// products, quotients and powers of variables; integer factors at the top only
pub fn laurent_term(g: &mut G, b: usize) -> T {
    if b <= 1 {
        return g.var();
    }
    let l = 1 + g.s.usize(b - 1);
    let r = b - l;
    let h = g.s.below(5) as u8;
    match g.s.weighted(&[30, 30, 15, 15]) {
        0 => T::Mul(bx(laurent_term(g, l)), bx(laurent_term(g, r)), h),
        1 => {
            let d = laurent_term(g, r);
            // the divisor stays a power of one variable
            let d = match &d {
                T::Var(_) => d,
                _ => {
                    let v = g.var();
                    T::Pow(bx(v), bx(int(g.s.range(-3, 4))), 0)
                }
            };
            T::Div(bx(laurent_term(g, l)), bx(d), h)
        }
        2 => {
            let v = g.var();
            T::Pow(bx(v), bx(int(g.s.range(-4, 5))), h % 2)
        }
        _ => {
            let n = 2 + g.s.usize(4);
            T::Prod((0..n).map(|_| laurent_term(g, (b / n).max(1))).collect())
        }
    }
}

/// exponents of any size: products, quotients and powers of variables
fn huge_term(g: &mut G, b: usize) -> T {
    if b <= 1 {
        let v = g.var();
        let k = gen_int(g.s, true);
        return if g.s.chance(1, 6) || k.is_zero() { v } else { T::Pow(bx(v), bx(T::Int(k)), 0) };
    }
    let l = 1 + g.s.usize(b - 1);
    let h = g.s.below(5) as u8;
    match g.s.weighted(&[40, 30, 15]) {
        0 => T::Mul(bx(huge_term(g, l)), bx(huge_term(g, b - l)), h),
        1 => T::Div(bx(huge_term(g, l)), bx(huge_term(g, 1)), h),
        _ => {
            let n = 2 + g.s.usize(4);
            T::Prod((0..n).map(|_| huge_term(g, (b / n).max(1))).collect())
        }
    }
}

fn huge_map(t: &T, sign: i32, m: &mut BTreeMap<String, BigInt>) {
    match t {
        T::Var(v) => *m.entry(v.clone()).or_insert_with(BigInt::zero) += sign,
        T::Pow(b, e, _) => {
            if let (T::Var(v), T::Int(k)) = (&**b, &**e) {
                *m.entry(v.clone()).or_insert_with(BigInt::zero) += k * sign;
            }
        }
        T::Mul(a, b, _) => {
            huge_map(a, sign, m);
            huge_map(b, sign, m);
        }
        T::Div(a, b, _) => {
            huge_map(a, sign, m);
            huge_map(b, -sign, m);
        }
        T::Prod(v) => v.iter().for_each(|x| huge_map(x, sign, m)),
        _ => unreachable!(),
    }
}

fn huge(c: &mut Case) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, "B"));
        let b = 1 + g.s.usize(8);
        huge_term(&mut g, b)
    };
    let mut want = BTreeMap::new();
    huge_map(&t, 1, &mut want);
    want.retain(|_, k| !k.is_zero());
    c.begin(t.show(), t.size() >= 5);
    let n = n_of(&t.build().simplify());
    let items = match &n {
        N::Mul(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut got: BTreeMap<String, BigInt> = BTreeMap::new();
    for x in &items {
        let (v, k) = match x {
            N::Int(k) if k.is_one() && items.len() == 1 => continue,
            N::Var(v) => (v.clone(), BigInt::one()),
            N::Pow(b, e) => match (&**b, &**e) {
                (N::Var(v), N::Int(k)) => (v.clone(), k.clone()),
                _ => return Out::Fail(format!("unexpected factor {} in {}", x.show(), n.show())),
            },
            _ => return Out::Fail(format!("unexpected factor {} in {}", x.show(), n.show())),
        };
        if got.insert(v.clone(), k).is_some() {
            return Out::Fail(format!("the base {} occurs twice in {}", v, n.show()));
        }
    }
    if got == want {
        Out::Pass
    } else {
        Out::Fail(format!("expected the exponents {:?} but got {}", want, n.show()))
    }
}

/// bases and total exponents of a product
fn factor_map(n: &N) -> Result<BTreeMap<N, Poly>, String> {
    let items = match n {
        N::Mul(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut m: BTreeMap<N, Poly> = BTreeMap::new();
    for x in items {
        let (b, e) = match &x {
            N::Int(k) if k.is_one() => continue,
            N::Pow(b, e) => ((**b).clone(), poly_of_n(e).ok_or_else(|| format!("exponent {}", e.show()))?),
            y => (y.clone(), Poly::constant(Q::one())),
        };
        let cur = m.entry(b).or_insert_with(Poly::zero);
        *cur = cur.add(&e, 1);
    }
    m.retain(|_, p| !p.0.is_empty());
    Ok(m)
}

fn distinct_bases(n: &N) -> Result<(), String> {
    let items = match n {
        N::Mul(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut seen: Vec<N> = vec![];
    for x in items {
        let b = match &x {
            N::Pow(b, _) => (**b).clone(),
            y => y.clone(),
        };
        if seen.contains(&b) {
            return Err(format!("the base {} occurs twice in {}", b.show(), n.show()));
        }
        seen.push(b);
    }
    Ok(())
}

/// powers of variables and opaque values with polynomial exponents
fn merged(c: &mut Case) -> Out {
    let (t, want) = {
        let mut g = G::new(c.s, lane(Kind::SymExp, ""));
        let k = 1 + g.s.usize(4);
        let mut keys: Vec<T> = vec![];
        for _ in 0..k {
            let v = g.var();
            keys.push(match g.s.usize(5) {
                0 => T::Sin(bx(v)),
                1 => T::Cos(bx(v)),
                2 => T::Log(bx(v), bx(g.var()), 0),
                _ => v,
            });
        }
        let n = 2 + g.s.usize(8);
        let mut v: Vec<T> = vec![];
        let mut want: BTreeMap<String, (T, Poly)> = BTreeMap::new();
        for _ in 0..n {
            let key = keys[g.s.usize(k)].clone();
            let e = match g.s.usize(7) {
                6 => {
                    // a longer sum
                    let n = 2 + g.s.usize(6);
                    let v = (0..n)
                        .map(|_| match g.s.usize(4) {
                            0 => T::Mul(bx(int(g.s.range(-3, 4))), bx(g.var()), 0),
                            1 => int(g.s.range(-3, 4)),
                            _ => g.var(),
                        })
                        .collect();
                    T::Sum(v)
                }
                0 => int(1),
                1 => int(g.s.range(-3, 4)),
                2 => g.var(),
                3 => T::Neg(bx(g.var()), 0),
                4 => match g.s.usize(4) {
                    0 => T::Mul(bx(int(g.s.range(-3, 4))), bx(g.var()), 0),
                    1 => T::Div(bx(g.var()), bx(int(g.s.range(2, 4))), 0),
                    2 => T::Prod(vec![g.var(), g.var()]),
                    _ => {
                        let n = 1 + g.s.usize(3);
                        let mut v: Vec<T> = (0..n).map(|_| g.var()).collect();
                        v.push(T::Div(bx(int([1, 1, 2, -1, 3][g.s.usize(5)])), bx(int([1, 2, 3, 4, 6][g.s.usize(5)])), 0));
                        T::Prod(v)
                    }
                },
                _ => T::Sub(bx(g.var()), bx(int(g.s.range(-3, 4))), 0),
            };
            let p = poly_of(&e).unwrap();
            let ent = want.entry(key.show()).or_insert_with(|| (key.clone(), Poly::zero()));
            ent.1 = ent.1.add(&p, 1);
            v.push(T::Pow(bx(key), bx(e), 0));
        }
        (T::Prod(v), want)
    };
    c.begin(t.show(), t.children().len() >= 3);
    let e = t.build().simplify();
    let n = n_of(&e);
    if let Err(m) = distinct_bases(&n) {
        return Out::Fail(format!("like factors not merged: {}", m));
    }
    let got = match factor_map(&n) {
        Ok(m) => m,
        Err(m) => return Out::Fail(format!("unexpected {} in {}", m, n.show())),
    };
    let mut exp: BTreeMap<N, Poly> = BTreeMap::new();
    for (k, p) in want.values() {
        if !p.0.is_empty() {
            exp.insert(n_of(&k.build()), p.clone());
        }
    }
    if got == exp {
        Out::Pass
    } else {
        Out::Fail(format!(
            "expected {} but got {}",
            exp.iter().map(|(k, p)| format!("({})^({})", k.show(), p.show())).collect::<Vec<_>>().join(" * "),
            n.show()
        ))
    }
}

/// a product of powers whose exponents add up to zero for every base
fn balanced(g: &mut G) -> T {
    let n = 1 + g.s.usize(4);
    let mut bases: Vec<T> = vec![];
    for _ in 0..n {
        let v = g.var();
        let b = match g.s.usize(5) {
            0 => T::Sin(bx(v)),
            1 => T::Cos(bx(T::Add(bx(v), bx(int(g.s.range(1, 3))), 0))),
            _ => v,
        };
        if !bases.iter().any(|x| x.show() == b.show()) {
            bases.push(b);
        }
    }
    let mut fs: Vec<T> = vec![];
    for b in &bases {
        let k = 1 + g.s.usize(5);
        let mut left = 0i64;
        for _ in 0..k {
            let e = g.s.range(-4, 5);
            left -= e;
            fs.push(T::Pow(bx(b.clone()), bx(int(e)), g.s.below(2) as u8));
        }
        if left != 0 {
            fs.push(T::Pow(bx(b.clone()), bx(int(left)), 0));
        }
    }
    let mut fs = super::arith::shuffle(g.s, &fs);
    // group at random
    while fs.len() > 1 && g.s.chance(2, 3) {
        let a = fs.remove(g.s.usize(fs.len()));
        let i = g.s.usize(fs.len());
        let b = fs[i].clone();
        let h = g.s.below(5) as u8;
        fs[i] = match (&b, g.s.usize(3)) {
            // a * b^k written a / b^-k
            (T::Pow(x, e, _), 1) => match &**e {
                T::Int(k) => T::Div(bx(a), bx(T::Pow(x.clone(), bx(T::Int(-k)), 0)), h),
                _ => T::Mul(bx(a), bx(b.clone()), h),
            },
            _ => T::Mul(bx(a), bx(b.clone()), h),
        };
    }
    T::Prod(fs)
}

fn cancel(c: &mut Case) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        let b = 1 + g.s.usize(6);
        let x = laurent_term(&mut g, b);
        match g.s.usize(8) {
            0 => {
                let inv = T::Pow(bx(x.clone()), bx(int(-1)), 0);
                match &x {
                    T::Var(_) | T::Pow(_, _, _) => T::Mul(bx(x), bx(inv), 0),
                    _ => {
                        let v = g.var();
                        T::Div(bx(v.clone()), bx(v), 0)
                    }
                }
            }
            1 => {
                let v = g.var();
                let k = g.s.range(-5, 6);
                T::Prod(vec![
                    T::Pow(bx(v.clone()), bx(int(k)), 0),
                    T::Pow(bx(v.clone()), bx(int(1 - k)), 0),
                    T::Pow(bx(v), bx(int(-1)), 0),
                ])
            }
            3 | 4 | 5 | 6 | 7 => balanced(&mut g),
            _ => {
                let v = T::Sin(bx(g.var()));
                let w = g.var();
                let e = T::Pow(bx(v.clone()), bx(w.clone()), 0);
                T::Mul(bx(e), bx(T::Pow(bx(v), bx(T::Neg(bx(w), 0)), 0)), 0)
            }
        }
    };
    c.begin(t.show(), true);
    let e = t.build().simplify();
    let n = n_of(&e);
    match factor_map(&n) {
        Ok(m) if m.is_empty() => Out::Pass,
        _ => Out::Fail(format!("expected 1 but got {}", n.show())),
    }
}

// ------------------------------------------------------------------- C12

pub fn rat_term(s: &mut Src, b: usize, big: bool) -> T {
    if b <= 1 {
        if s.chance(1, 2) {
            let (p, mut q) = (gen_int(s, big), gen_int(s, false));
            if q.is_zero() {
                q = BigInt::from(7);
            }
            return T::Div(bx(T::Int(p)), bx(T::Int(q)), s.below(5) as u8);
        }
        return T::Int(gen_int(s, big));
    }
    let l = 1 + s.usize(b - 1);
    let r = b - l;
    let h = s.below(5) as u8;
    match s.weighted(&[22, 18, 22, 14, 5, 7, 7, 8]) {
        0 => T::Add(bx(rat_term(s, l, big)), bx(rat_term(s, r, big)), h),
        1 => T::Sub(bx(rat_term(s, l, big)), bx(rat_term(s, r, big)), h),
        2 => T::Mul(bx(rat_term(s, l, big)), bx(rat_term(s, r, big)), h),
        3 => {
            // the divisor is a number, not a sum
            let d = rat_term(s, 1, big);
            T::Div(bx(rat_term(s, b - 1, big)), bx(d), h)
        }
        4 => T::Neg(bx(rat_term(s, b - 1, big)), h % 2),
        5 => {
            let n = s.usize(6);
            T::Sum((0..n).map(|_| rat_term(s, b / (n + 1), big)).collect())
        }
        6 => {
            let n = s.usize(5);
            T::Prod((0..n).map(|_| rat_term(s, b / (n + 1), big)).collect())
        }
        _ => {
            let k = s.range(-3, 4);
            T::Pow(bx(rat_term(s, 1, false)), bx(int(k)), h % 2)
        }
    }
}

/// a variable-free term for the given number, taken apart b times
pub fn hidden(s: &mut Src, q: &BigRational, b: usize) -> T {
    let h = s.below(5) as u8;
    let plain = |s: &mut Src, q: &BigRational| {
        let (n, d) = (T::Int(q.numer().clone()), T::Int(q.denom().clone()));
        if q.is_integer() {
            return n;
        }
        match s.usize(4) {
            0 if q.numer().is_one() => T::Pow(bx(d), bx(int(-1)), 0),
            1 => T::Mul(bx(n), bx(T::Pow(bx(d), bx(int(-1)), 0)), h),
            _ => T::Div(bx(n), bx(d), h),
        }
    };
    if b == 0 || q.numer().bits() + q.denom().bits() > 400 {
        return plain(s, q);
    }
    let part = {
        let mut n = gen_small(s);
        if n.is_zero() {
            n = BigInt::from(2);
        }
        let d = BigInt::from([1, 1, 2, 3, 4, 6, 8, 12][s.usize(8)]);
        BigRational::new(n, d)
    };
    let (l, r) = if b == 1 { (0, 0) } else { (s.usize(b), 0) };
    let r = r + (b - 1).saturating_sub(l);
    match s.weighted(&[26, 14, 22, 16, 14, 8]) {
        0 => T::Add(bx(hidden(s, &part, l)), bx(hidden(s, &(q - &part), r)), h),
        1 => T::Sub(bx(hidden(s, &(q + &part), l)), bx(hidden(s, &part, r)), h),
        2 => T::Mul(bx(hidden(s, &part, l)), bx(hidden(s, &(q / &part), r)), h),
        3 => T::Div(bx(hidden(s, &(q * &part), l)), bx(hidden(s, &part, r)), h),
        4 if !q.is_zero() => T::Pow(bx(hidden(s, &q.recip(), b - 1)), bx(int(-1)), h % 2),
        5 => T::Neg(bx(hidden(s, &-q, b - 1)), h % 2),
        _ => plain(s, q),
    }
}

pub fn any_fraction(s: &mut Src) -> BigRational {
    let big = s.chance(1, 8);
    let n = gen_int(s, big);
    let mut d = match s.usize(3) {
        0 => BigInt::one(),
        1 => BigInt::from(1 + s.usize(12) as i64),
        _ => gen_int(s, big),
    };
    if d.is_zero() {
        d = BigInt::one();
    }
    if s.chance(1, 3) {
        return BigRational::new(BigInt::one(), d);
    }
    BigRational::new(n, d)
}

fn rational_hidden(c: &mut Case) -> Out {
    let q = any_fraction(c.s);
    let b = 1 + c.s.usize(8);
    let t = hidden(c.s, &q, b);
    if est(&t) > 2000.0 {
        return Out::Discard("too large");
    }
    c.begin(t.show(), b >= 2);
    let n = n_of(&t.build().simplify());
    match read_rational(&n) {
        Ok(x) if x == q => Out::Pass,
        Ok(x) => Out::Fail(format!("expected {} but got {} = {}", q, n.show(), x)),
        Err(m) => Out::Fail(format!("expected {} in lowest terms but got {}: {}", q, n.show(), m)),
    }
}

fn rational_closed(c: &mut Case) -> Out {
    let big = c.s.chance(1, 3);
    let b = 1 + c.s.usize(10);
    let t = rat_term(c.s, b, big);
    if est(&t) > 2000.0 {
        return Out::Discard("too large");
    }
    let q = match eval_t(&t, &Valuation { seed: 0, dom: Dom::Signed }) {
        Ok(v) => v.q.unwrap(),
        Err(_) => return Out::Discard("undefined or unrepresentable at every valuation tried"),
    };
    c.class(if q.is_integer() { "integer result" } else { "fraction result" });
    c.begin(t.show(), t.size() >= 3);
    let n = n_of(&t.build().simplify());
    match read_rational(&n) {
        Ok(x) if x == q => Out::Pass,
        Ok(x) => Out::Fail(format!("expected {} but got {} = {}", q, n.show(), x)),
        Err(m) => Out::Fail(format!("expected {} in lowest terms but got {}: {}", q, n.show(), m)),
    }
}

fn rational_constant_part(c: &mut Case) -> Out {
    let t = {
        let mut l = lane(Kind::Poly, "");
        l.max_monomials = 30.0;
        let mut g = G::new(c.s, l);
        let n = 2 + g.s.usize(5);
        let mut v: Vec<T> = vec![];
        for i in 0..n {
            if i == 0 || g.s.chance(1, 2) {
                let b = 1 + g.s.usize(2);
                v.push(rat_term(g.s, b, false));
            } else {
                let b = 1 + g.s.usize(4);
                v.push(ipoly(&mut g, b));
            }
        }
        if g.s.chance(1, 2) {
            let mut it = v.into_iter();
            let mut acc = it.next().unwrap();
            for x in it {
                acc = if g.s.chance(1, 2) { T::Sub(bx(acc), bx(x), 0) } else { T::Add(bx(acc), bx(x), 0) };
            }
            acc
        } else {
            T::Sum(v)
        }
    };
    if est(&t) > 300.0 || !poly_ok(&t) {
        return Out::Discard("too large");
    }
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("undefined or unrepresentable at every valuation tried"),
    };
    c.begin(t.show(), want.0.len() >= 2);
    ok(expect_poly(&t.build().simplify(), &want))
}

fn rational_coefficient(c: &mut Case) -> Out {
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, ""));
        let n = 2 + g.s.usize(6);
        let mut v: Vec<T> = vec![];
        for i in 0..n {
            if i == 0 || g.s.chance(1, 2) {
                let big = g.s.chance(1, 6);
                v.push(rat_term(g.s, 1, big));
            } else {
                let x = g.var();
                v.push(T::Pow(bx(x), bx(int(g.s.range(-3, 4))), 0));
            }
        }
        match g.s.usize(3) {
            0 => T::Prod(v),
            1 => {
                let mut it = v.into_iter();
                let mut acc = it.next().unwrap();
                for x in it {
                    acc = T::Mul(bx(acc), bx(x), g.s.below(5) as u8);
                }
                acc
            }
            _ => {
                let mut it = v.into_iter();
                let mut acc = it.next().unwrap();
                for x in it {
                    let zero = matches!(eval_t(&x, &Valuation { seed: 0, dom: Dom::Signed }), Ok(ref v) if v.q.as_ref().map(|q| q.is_zero()).unwrap_or(false));
                    acc = if g.s.chance(1, 2) && !zero { T::Div(bx(acc), bx(x), 0) } else { T::Mul(bx(acc), bx(x), 0) };
                }
                acc
            }
        }
    };
    let want = match poly_of(&t) {
        Some(p) => p,
        None => return Out::Discard("undefined or unrepresentable at every valuation tried"),
    };
    c.begin(t.show(), t.size() >= 4);
    ok(expect_poly(&t.build().simplify(), &want))
}

// ------------------------------------------------------------------- C19

pub fn apply_rule(i: usize, e: &Expression) -> (&'static str, Expression) {
    match i {
        0 => ("common addend", AdditiveCommonAddend::apply(e)),
        1 => ("common factor", MultiplicativeCommonFactor::apply(e)),
        2 => ("single denominator", SingleAlgebraicDenominator::apply(e)),
        3 => ("rational addition", RationalsAddition::apply(e)),
        4 => ("rational multiplication", RationalsMultiplication::apply(e)),
        5 => ("inverse power/logarithm", InversePowerLog::apply(e)),
        6 => ("distribution", MultiplicativeDistributive::apply(e)),
        7 => ("power of a sum", PowerDistributiveAddition::apply(e)),
        _ => ("power of a product", PowerDistributiveMultiplication::apply(e)),
    }
}

fn kind_of(e: &Expression) -> usize {
    match e {
        Expression::Addition(_) => 0,
        Expression::Multiplication(_) => 1,
        Expression::Power(_) => 2,
        Expression::Logarithm(_) => 3,
        _ => 4,
    }
}

/// kinds of node each rule may act on
fn acts_on(i: usize) -> &'static [usize] {
    match i {
        0 | 3 => &[0],
        1 | 2 | 4 | 6 => &[1],
        5 => &[2, 3],
        _ => &[2],
    }
}

fn rule_term(c: &mut Case, rule: usize, flags: &str) -> (T, Dom) {
    let sym = c.s.chance(1, 3);
    let positive = rule == 5 || (rule == 8 && c.s.chance(1, 2));
    let l = lane(if positive { Kind::Pos } else if sym { Kind::SymExp } else { Kind::Rat }, flags);
    let dom = l.dom();
    let mut g = G::new(c.s, l);
    let matching = g.s.chance(4, 5);
    let t = if !matching {
        g.term()
    } else {
        match rule {
            0 | 3 => addends_term(&mut g),
            1 | 2 | 4 => {
                if positive {
                    g.pos(6)
                } else if g.s.chance(2, 3) {
                    factors_term(&mut g, sym)
                } else {
                    let n = 2 + g.s.usize(6);
                    T::Prod((0..n).map(|_| shape(&mut g)).collect())
                }
            }
            5 => {
                if g.s.chance(1, 2) {
                    g.pos_power(5)
                } else {
                    g.log(5)
                }
            }
            6 => {
                let n = 2 + g.s.usize(4);
                T::Prod((0..n).map(|_| if g.s.chance(2, 3) { sum_factor(&mut g) } else { shape(&mut g) }).collect())
            }
            7 => {
                let b = sum_factor(&mut g);
                if sym {
                    let e = T::Mul(bx(int([2, 3, -1, -2][g.s.usize(4)])), bx(g.var()), 0);
                    T::Pow(bx(b), bx(e), 0)
                } else {
                    let neg = g.s.chance(1, 3);
                    g.int_power(b, neg)
                }
            }
            _ => {
                let n = 2 + g.s.usize(3);
                let v: Vec<T> = (0..n).map(|_| if positive { g.pos(2) } else { g.any(2) }).collect();
                let e = if positive {
                    match g.s.usize(3) {
                        0 => g.var(),
                        1 => T::Div(bx(int(1)), bx(int(2)), 0),
                        _ => T::Mul(bx(int(2)), bx(g.var()), 0),
                    }
                } else if sym {
                    g.var()
                } else {
                    int(g.s.range(-3, 4))
                };
                T::Pow(bx(T::Prod(v)), bx(e), 0)
            }
        }
    };
    (t, dom)
}

pub const RULES: [&str; 9] = [
    "common addend",
    "common factor",
    "single denominator",
    "rational addition",
    "rational multiplication",
    "inverse power/logarithm",
    "distribution",
    "power of a sum",
    "power of a product",
];

fn rule_on(c: &mut Case, flags: &str) -> Out {
    let rule = c.s.usize(9);
    let (t, dom) = rule_term(c, rule, flags);
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    let vals = valuations(&t, dom, 4);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.class(RULES[rule]);
    c.begin(format!("{} on {}", RULES[rule], t.show()), t.size() >= 3);
    let e = t.build();
    let before = n_of(&e);
    let (_, r) = apply_rule(rule, &e);
    if n_of(&e) != before {
        return Out::Fail("the input changed".into());
    }
    if !acts_on(rule).contains(&kind_of(&e)) {
        return ok(identical(&e, &r).map_err(|m| format!("the rule does not concern this expression, yet: {}", m)));
    }
    agree(&t, &r, &vals)
}

fn rule_value(c: &mut Case) -> Out {
    let flags = ["", "B", "T"][c.s.usize(3)];
    rule_on(c, flags)
}
fn rule_value_real(c: &mut Case) -> Out {
    rule_on(c, "R")
}

/// coefficient and rest of each addend
fn addend_map(n: &N) -> BTreeMap<N, BigInt> {
    let items = match n {
        N::Add(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut m: BTreeMap<N, BigInt> = BTreeMap::new();
    for x in items {
        let (k, rest) = match &x {
            N::Int(k) => (k.clone(), N::Int(BigInt::one())),
            N::Mul(v) => {
                let mut k = BigInt::one();
                let mut rest: Vec<N> = vec![];
                for f in v {
                    match f {
                        N::Int(i) => k *= i,
                        y => rest.push(y.clone()),
                    }
                }
                let r = if rest.len() == 1 { rest.pop().unwrap() } else { N::Mul(rest) };
                (k, r)
            }
            y => (BigInt::one(), y.clone()),
        };
        let e = m.entry(rest).or_insert_with(BigInt::zero);
        *e += k;
    }
    m.retain(|_, k| !k.is_zero());
    m
}

fn addend_count(n: &N) -> usize {
    match n {
        N::Add(v) => v.len(),
        N::Int(k) if k.is_zero() => 0,
        _ => 1,
    }
}

fn rule_addends(c: &mut Case) -> Out {
    let flags = ["", "B", "T"][c.s.usize(3)];
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, flags));
        addends_term(&mut g)
    };
    if valuations(&t, Dom::Signed, 1).is_empty() || est(&t) > 400.0 {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(t.show(), true);
    let e = t.build();
    let n = n_of(&e);
    if !matches!(n, N::Add(_)) {
        return Out::Discard("not a sum");
    }
    let want = addend_map(&n);
    if want.keys().any(|k| matches!(k, N::Add(_))) {
        return Out::Discard("a multiple of a sum");
    }
    let r = n_of(&AdditiveCommonAddend::apply(&e));
    let got = addend_map(&r);
    if got != want {
        return Out::Fail(format!("coefficients changed: {} became {}", n.show(), r.show()));
    }
    if addend_count(&r) > want.len() {
        return Out::Fail(format!("like addends left: {} became {}", n.show(), r.show()));
    }
    Out::Pass
}

fn rule_factors(c: &mut Case) -> Out {
    let sym = c.s.chance(1, 2);
    let t = {
        let mut g = G::new(c.s, lane(Kind::SymExp, "T"));
        factors_term(&mut g, sym)
    };
    if valuations(&t, Dom::IntSigned, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(t.show(), true);
    let e = t.build();
    let n = n_of(&e);
    let items = match &n {
        N::Mul(v) => v.clone(),
        _ => return Out::Discard("not a product"),
    };
    // numeric factors merge by their own arithmetic
    let numeric = |x: &N| match x {
        N::Int(_) => true,
        N::Pow(b, _) => matches!(**b, N::Int(_)),
        _ => false,
    };
    if items.iter().any(numeric) {
        return Out::Discard("has numeric factors");
    }
    // a power of a product that becomes a first power gives its factors back
    if items.iter().any(|x| matches!(x, N::Pow(b, _) if matches!(**b, N::Mul(_)))) {
        return Out::Discard("has a power of a product");
    }
    let r = n_of(&MultiplicativeCommonFactor::apply(&e));
    if let Err(m) = distinct_bases(&r) {
        return Out::Fail(format!("like factors left: {}", m));
    }
    match (factor_map(&n), factor_map(&r)) {
        (Ok(x), Ok(y)) => {
            if x == y {
                Out::Pass
            } else {
                Out::Fail(format!("exponents changed: {} became {}", n.show(), r.show()))
            }
        }
        (Err(_), _) => Out::Unknown("exponent not a polynomial"),
        (_, Err(m)) => Out::Fail(m),
    }
}

fn is_number(n: &N) -> bool {
    match n {
        N::Int(_) => true,
        N::Pow(b, e) => matches!((&**b, &**e), (N::Int(_), N::Int(_))),
        N::Mul(v) => v.iter().all(is_number),
        _ => false,
    }
}

fn number_value(n: &N) -> Option<Q> {
    poly_of_n(n)?.as_constant()
}

fn rule_rationals(c: &mut Case) -> Out {
    let sum = c.s.chance(1, 2);
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, "T"));
        let n = 2 + g.s.usize(7);
        let mut v: Vec<T> = vec![];
        for _ in 0..n {
            v.push(match g.s.usize(4) {
                0 => g.any(2),
                1 => {
                    let big = g.s.chance(1, 4);
                    rat_term(g.s, 1, big)
                }
                2 => rat_term(g.s, 1, false),
                _ => g.var(),
            });
        }
        if sum {
            T::Sum(v)
        } else {
            T::Prod(v)
        }
    };
    if valuations(&t, Dom::Signed, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.class(if sum { "sum" } else { "product" });
    c.begin(t.show(), true);
    let e = t.build();
    let n = n_of(&e);
    let r = n_of(&if sum { RationalsAddition::apply(&e) } else { RationalsMultiplication::apply(&e) });
    let split = |n: &N| -> (Vec<N>, Vec<N>) {
        let items = match (n, sum) {
            (N::Add(v), true) => v.clone(),
            (N::Mul(v), false) => v.clone(),
            _ => vec![n.clone()],
        };
        items.into_iter().partition(is_number)
    };
    match (&n, sum) {
        (N::Add(_), true) | (N::Mul(_), false) => {}
        _ => return if n == r { Out::Pass } else { Out::Fail(format!("{} became {}", n.show(), r.show())) },
    }
    let ((nums, rest), (rn, rr)) = (split(&n), split(&r));
    let mut q = if sum { Q::zero() } else { Q::one() };
    for x in &nums {
        let v = match number_value(x) {
            Some(v) => v,
            None => return Out::Unknown("numeric power too large"),
        };
        q = if sum { q + v } else { q * v };
    }
    let neutral = if sum { q.is_zero() } else { q.is_one() };
    let (mut a, mut b) = (rest.clone(), rr.clone());
    a.sort();
    b.sort();
    if a != b {
        return Out::Fail(format!("the other items changed: {} became {}", n.show(), r.show()));
    }
    let part = match (rn.len(), neutral && !rest.is_empty()) {
        (0, true) => return Out::Pass,
        (0, false) => return Out::Fail(format!("the rational part {} vanished: {} became {}", q, n.show(), r.show())),
        (1, _) => rn[0].clone(),
        _ if !sum => N::Mul(rn.clone()),
        _ => return Out::Fail(format!("several rational addends left: {} became {}", n.show(), r.show())),
    };
    match read_rational(&part) {
        Ok(x) if x == q => Out::Pass,
        Ok(x) => Out::Fail(format!("the rational part should be {} but is {} in {}", q, x, r.show())),
        Err(m) => Out::Fail(format!("the rational part should be {} but is {}: {}", q, part.show(), m)),
    }
}

fn rule_denominator(c: &mut Case) -> Out {
    let sym = c.s.chance(1, 2);
    let l = lane(if sym { Kind::SymExp } else { Kind::Rat }, "T");
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        factors_term(&mut g, sym)
    };
    let vals = valuations(&t, dom, 3);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(t.show(), true);
    let e = t.build();
    let n = n_of(&e);
    let r = SingleAlgebraicDenominator::apply(&e);
    if let Out::Fail(m) = agree(&t, &r, &vals) {
        return Out::Fail(m);
    }
    if !matches!(n, N::Mul(_)) {
        return Out::Pass;
    }
    let neg = |x: &N| match x {
        N::Pow(b, e) if !matches!(**b, N::Int(_)) => match &**e {
            N::Int(k) => k.is_negative(),
            N::Mul(v) => v.iter().any(|y| matches!(y, N::Int(k) if k.is_negative())),
            _ => false,
        },
        _ => false,
    };
    let rn = n_of(&r);
    let items = match &rn {
        N::Mul(v) => v.clone(),
        x => vec![x.clone()],
    };
    let k = items.iter().filter(|x| neg(x)).count();
    if k > 1 {
        return Out::Fail(format!("{} separate denominators left: {} became {}", k, n.show(), rn.show()));
    }
    Out::Pass
}

fn rule_expansion(c: &mut Case) -> Out {
    let product = c.s.chance(1, 2);
    let flags = ["", "B", "T"][c.s.usize(3)];
    let t = {
        let mut g = G::new(c.s, lane(Kind::Rat, flags));
        if product {
            let n = 2 + g.s.usize(4);
            T::Prod((0..n).map(|_| if g.s.chance(2, 3) { sum_factor(&mut g) } else { shape(&mut g) }).collect())
        } else {
            let b = sum_factor(&mut g);
            let neg = g.s.chance(1, 4);
            g.int_power(b, neg)
        }
    };
    let vals = valuations(&t, Dom::Signed, 2);
    if vals.is_empty() || est(&t) > 400.0 {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.class(if product { "product of sums" } else { "power of a sum" });
    c.begin(t.show(), true);
    let e = t.build();
    let n = n_of(&e);
    let r = if product { MultiplicativeDistributive::apply(&e) } else { PowerDistributiveAddition::apply(&e) };
    if let Out::Fail(m) = agree(&t, &r, &vals) {
        return Out::Fail(m);
    }
    let rn = n_of(&r);
    // one level deep
    let top = |x: &N| match x {
        N::Mul(v) => product && v.iter().any(|y| matches!(y, N::Add(_))),
        N::Pow(b, e) => !product && matches!((&**b, &**e), (N::Add(_), N::Int(k)) if k.is_positive()),
        _ => false,
    };
    if top(&n) && top(&rn) {
        return Out::Fail(format!("not expanded: {} became {}", n.show(), rn.show()));
    }
    Out::Pass
}

fn rule_inverse(c: &mut Case) -> Out {
    let (a, b, up, how) = {
        let mut g = G::new(c.s, lane(Kind::Pos, "R"));
        let n = 1 + g.s.usize(6);
        let a = g.pos(n);
        let n = 1 + g.s.usize(4);
        let b = g.pos(n);
        (a, b, g.s.chance(1, 2), g.s.weighted(&[60, 8, 6, 6, 6, 6, 8, 8]))
    };
    if valuations(&a, Dom::Pos, 1).is_empty() || valuations(&b, Dom::Pos, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    let (x, y) = (a.build(), b.build());
    let k = |n: isize| ncas::base::symbol::Symbol::integer(n).expr();
    let other = match how {
        0 => y.clone(),
        1 => y.clone() + ncas::base::symbol::Symbol::variable("other_base").expr(),
        2 => -y.clone(),
        3 => Expression::Power(AssociativeOperation::new(y.clone(), k(-1))),
        4 => y.clone() + k(1),
        5 => y.clone() * k(2),
        6 => Expression::Power(AssociativeOperation::new(y.clone(), k(2))),
        _ => x.clone(),
    };
    let same = n_of(&other) == n_of(&y);
    c.class(if same { "same base" } else { "another base" });
    c.begin(format!("{} of {} base {} / {}", if up { "power of log" } else { "log of power" }, a.show(), b.show(), show_e(&other)), true);
    let raw = if up {
        Expression::Power(AssociativeOperation::new(
            y.clone(),
            Expression::Logarithm(AssociativeOperation::new(x.clone(), other)),
        ))
    } else {
        Expression::Logarithm(AssociativeOperation::new(
            Expression::Power(AssociativeOperation::new(y.clone(), x.clone())),
            other,
        ))
    };
    let r = InversePowerLog::apply(&raw);
    let want = if same { &x } else { &raw };
    ok(identical(want, &r))
}

/// a positive term in which the same parts come back again and again, as they
/// are, inverted or raised
pub fn repeats_term(s: &mut Src, b: usize, pool: &mut Vec<T>) -> T {
    if !pool.is_empty() && s.chance(1, 3) {
        let i = s.usize(pool.len());
        let t = pool[i].clone();
        return match s.usize(8) {
            0 => T::Pow(bx(t), bx(int(-1)), 0),
            1 => T::Div(bx(int(1)), bx(t), 0),
            2 => T::Pow(bx(t), bx(T::Div(bx(int(1)), bx(int(2)), 0)), 0),
            _ => t,
        };
    }
    let t = if b <= 1 {
        match s.weighted(&[30, 60, 10]) {
            0 => int(s.range(1, 9)),
            1 => var(["a", "b", "c", "d"][s.usize(4)]),
            _ => var(&gen_name(s)),
        }
    } else {
        match s.weighted(&[24, 24, 26, 20, 6]) {
            k @ (0 | 1) => {
                let v = repeats_items(s, b, pool);
                if k == 0 {
                    T::Prod(v)
                } else {
                    T::Sum(v)
                }
            }
            2 => {
                let e = repeats_exponent(s, b / 3, pool);
                T::Pow(bx(repeats_term(s, b - 1 - (b - 1) / 3, pool)), bx(e), s.below(2) as u8)
            }
            3 => {
                // positive throughout: above one, to a base above one
                let base = match s.usize(4) {
                    0 => T::Add(bx(repeats_term(s, b / 3, pool)), bx(int(1)), 0),
                    1 => T::Add(bx(var("b")), bx(int(1)), 0),
                    _ => int(s.range(2, 10)),
                };
                T::Log(bx(T::Add(bx(repeats_term(s, b - 1 - (b - 1) / 3, pool)), bx(int(1)), 0)), bx(base), 0)
            }
            _ => T::Add(bx(T::Cos(bx(repeats_term(s, b - 1, pool)))), bx(int(100)), 0),
        }
    };
    if pool.len() < 12 {
        pool.push(t.clone());
    }
    t
}

fn repeats_exponent(s: &mut Src, b: usize, pool: &mut Vec<T>) -> T {
    match s.weighted(&[5, 5, 3, 3, 4, 1]) {
        0 => int(s.range(2, 4)),
        1 => int(s.range(-3, -1)),
        2 => var("x"),
        3 => T::Div(bx(int(1)), bx(int(s.range(2, 4))), 0),
        4 => repeats_term(s, b, pool),
        _ => int(s.range(4, 9)),
    }
}

fn repeats_items(s: &mut Src, b: usize, pool: &mut Vec<T>) -> Vec<T> {
    let n = 2 + s.usize(4);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        v.push(if !v.is_empty() && s.chance(1, 3) {
            let i = s.usize(v.len());
            v[i].clone()
        } else {
            repeats_term(s, b / n, pool)
        });
    }
    v
}

fn repeats_for(s: &mut Src, rule: Option<usize>) -> T {
    let b = 2 + s.usize(14);
    let mut pool = vec![];
    let kinds = rule.map(acts_on).unwrap_or(&[0, 1, 2, 3]);
    let which = if s.chance(1, 5) { s.usize(4) } else { kinds[s.usize(kinds.len())] };
    match which {
        0 => T::Sum(repeats_items(s, b, &mut pool)),
        1 => T::Prod(repeats_items(s, b, &mut pool)),
        // a power that undoes the exponents of the factors or bases inside
        2 if s.chance(1, 3) => {
            let (e, f) = match s.usize(4) {
                0 | 1 => (int(-1), int(-1)),
                2 => (T::Div(bx(int(1)), bx(int(2)), 0), int(2)),
                _ => (var("x"), T::Pow(bx(var("x")), bx(int(-1)), 0)),
            };
            let v: Vec<T> = repeats_items(s, b, &mut pool)
                .into_iter()
                .map(|u| if s.chance(5, 6) { T::Pow(bx(u), bx(e.clone()), 0) } else { u })
                .collect();
            T::Pow(bx(T::Prod(v)), bx(f), 0)
        }
        2 => {
            let base = match rule.unwrap_or(6 + s.usize(3)) {
                7 => T::Sum(repeats_items(s, b, &mut pool)),
                8 => T::Prod(repeats_items(s, b, &mut pool)),
                _ => repeats_term(s, b, &mut pool),
            };
            let e = repeats_exponent(s, 3, &mut pool);
            T::Pow(bx(base), bx(e), 0)
        }
        _ => {
            let base = repeats_term(s, 2, &mut pool);
            T::Log(bx(repeats_term(s, b, &mut pool)), bx(base), 0)
        }
    }
}

fn rule_repeats(c: &mut Case) -> Out {
    let rule = c.s.usize(9);
    let t = repeats_for(c.s, Some(rule));
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    let vals = valuations(&t, Dom::Pos, 3);
    if vals.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.class(RULES[rule]);
    c.begin(format!("{} on {}", RULES[rule], t.show()), t.size() >= 4);
    let e = t.build();
    let n = n_of(&e);
    let (_, r) = apply_rule(rule, &e);
    if n_of(&e) != n {
        return Out::Fail("the input changed".into());
    }
    if !acts_on(rule).contains(&kind_of(&e)) {
        return ok(identical(&e, &r).map_err(|m| format!("the rule does not concern this expression, yet: {}", m)));
    }
    agree(&t, &r, &vals)
}

/// the same terms, worked out
pub fn repeats(c: &mut Case, f: &dyn Fn(&T) -> Expression) -> Out {
    let t = repeats_for(c.s, None);
    if est(&t) > 400.0 {
        return Out::Discard("too large");
    }
    value_of(c, t, Dom::Pos, f)
}

/// a product of two or three sums, at least one of them long
fn wide_product(c: &mut Case, work: usize) -> Out {
    let t = {
        let s = &mut *c.s;
        let limit = [300usize, 1000, 2500, 6000][s.usize(4)];
        let n = 2 + s.usize(120.min(limit / 2 - 2));
        let m = 2 + s.usize((limit / n - 1).max(1).min(118));
        let k = if s.chance(1, 3) { 1 + s.usize((limit / (n * m)).max(1)) } else { 1 };
        let names = 2 + s.usize(60);
        let tag = ["x", "y", "z"];
        let shared = s.chance(1, 2);
        let mut sum = |n: usize, which: usize| {
            let mut v = vec![];
            for _ in 0..n {
                let i = s.usize(names);
                let x = T::Var(format!("{}{}", tag[if shared { 0 } else { which }], i));
                v.push(match s.usize(6) {
                    0 => T::Mul(bx(int(s.range(-5, 5))), bx(x), 0),
                    1 => T::Neg(bx(x), 0),
                    2 if s.chance(1, 6) => int(s.range(-9, 9)),
                    _ => x,
                });
            }
            T::Sum(v)
        };
        let (a, b) = (sum(n, 0), sum(m, 1));
        let mut v = vec![a, b];
        if k > 1 {
            v.push(sum(k, 2));
        }
        T::Prod(v)
    };
    let want = match poly_of(&t) {
        Some(p) => p,
        _ => return Out::Discard("not a polynomial"),
    };
    c.begin(t.show(), true);
    if work == 0 {
        complete(&t, &want)
    } else {
        ok(expect_poly(&t.build().simplify(), &want))
    }
}

// ------------------------------------------- nodes put together by hand

/// a tree made node by node, not in the form the constructors give: neutral
/// items, nested sums, powers of powers, exponents 0 and 1
pub fn by_hand(s: &mut Src, b: usize, ints: bool) -> Expression {
    use ncas::base::associative_operation::AssociativeOperation;
    use ncas::base::commutative_association::CommutativeAssociation;
    use ncas::base::operation::Operation;
    let leaf = |s: &mut Src| {
        if s.chance(2, 3) {
            var(["x", "y", "z"][s.usize(3)]).build()
        } else {
            int(s.range(-3, 4)).build()
        }
    };
    if b <= 1 {
        return leaf(s);
    }
    match s.weighted(&[30, 30, 25, 4]) {
        k @ (0 | 1) => {
            let n = 1 + s.usize(4);
            let mut v: Vec<Expression> = vec![];
            for _ in 0..n {
                if !v.is_empty() && s.chance(1, 4) {
                    let i = s.usize(v.len());
                    v.push(v[i].clone());
                } else {
                    v.push(by_hand(s, b / (n + 1), ints));
                }
            }
            if k == 0 && !ints {
                // the rules expect one integer in a product at most
                let mut seen = false;
                v.retain(|x| !matches!(x, Expression::Integer(_)) || !std::mem::replace(&mut seen, true));
            }
            let a = CommutativeAssociation::new(v);
            if k == 0 {
                Expression::Multiplication(a)
            } else {
                Expression::Addition(a)
            }
        }
        2 => {
            let e = int(s.range(-2, 4)).build();
            let mut base = by_hand(s, b - 1, ints);
            // the rules expect powers of numbers worked out
            if !ints && matches!(base, Expression::Integer(_)) {
                base = var("x").build();
            }
            Expression::Power(AssociativeOperation::new(base, e))
        }
        _ => Expression::Sine(Operation::new(by_hand(s, b - 1, ints))),
    }
}

pub fn rough(e: &Expression) -> f64 {
    match e {
        Expression::Addition(a) => a.items().iter().map(rough).sum(),
        Expression::Multiplication(a) => a.items().iter().map(rough).product(),
        Expression::Power(p) => rough(&p.argument()).powi(4),
        _ => 1.0,
    }
}

/// `work` keeps the value of a tree made by hand
pub fn hand_value(c: &mut Case, what: &str, ints: bool, work: &dyn Fn(&Expression) -> Expression) -> Out {
    let e = {
        let b = 2 + c.s.usize(14);
        by_hand(c.s, b, ints)
    };
    if rough(&e) > 100.0 {
        return Out::Discard("too large");
    }
    let mut at = vec![];
    for i in 0..8u64 {
        let v = Valuation { seed: i * 7919 + 5, dom: Dom::Signed };
        if let Ok(x) = eval_e(&e, &v) {
            at.push((v, x));
            if at.len() == 4 {
                break;
            }
        }
    }
    if at.is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(format!("{} {}", what, show_e(&e)), true);
    let before = n_of(&e);
    let r = work(&e);
    if n_of(&e) != before {
        return Out::Fail("the input changed".into());
    }
    for (v, x) in &at {
        match eval_e(&r, v) {
            Ok(y) => {
                if same_val(x, &y, false) == Some(false) {
                    return Out::Fail(format!("value changed: expected {} but the result {} is {}", show_val(x), show_e(&r), show_val(&y)));
                }
            }
            Err(Bad::Undef(u)) => return Out::Fail(format!("the input is defined (value {}) but the result {} is not: {}", show_val(x), show_e(&r), u)),
            Err(Bad::Skip(_)) => {}
        }
    }
    Out::Pass
}

fn rule_by_hand(c: &mut Case) -> Out {
    let i = c.s.usize(RULES.len());
    c.class(RULES[i]);
    hand_value(c, RULES[i], false, &|e| apply_rule(i, e).1)
}

/// a tree made by hand and the polynomial it is
fn hand_poly(s: &mut Src) -> Option<(Expression, Poly)> {
    let b = 2 + s.usize(14);
    let e = by_hand(s, b, true);
    let n = n_of(&e);
    fn tower(n: &N) -> bool {
        match n {
            N::Var(_) => true,
            N::Pow(b, _) => tower(b),
            _ => false,
        }
    }
    fn plain(n: &N) -> bool {
        match n {
            N::Int(_) | N::Var(_) => true,
            N::Add(v) | N::Mul(v) => v.iter().all(|x| plain(x)),
            // zero to the power 0 has no value
            N::Pow(b, e) => match &**e {
                N::Int(k) => {
                    !k.is_negative()
                        && plain(b)
                        && poly_of_n(b).map_or(false, |p| {
                            // a power of a product is left as it is
                            let one = p.0.len() < 2 && !p.as_constant().is_some();
                            (k.is_positive() || !p.0.is_empty()) && (!one || tower(b))
                        })
                }
                _ => false,
            },
            _ => false,
        }
    }
    if rough(&e) > 100.0 || !plain(&n) {
        return None;
    }
    Some((e, poly_of_n(&n)?))
}

fn canonical_by_hand(c: &mut Case) -> Out {
    let (e, want) = match hand_poly(c.s) {
        Some(x) => x,
        None => return Out::Discard("not a polynomial"),
    };
    c.begin(show_e(&e), true);
    ok(expect_poly(&e.simplify(), &want))
}

fn complete_by_hand(c: &mut Case) -> Out {
    let b = 2 + c.s.usize(14);
    let e = by_hand(c.s, b, true);
    if rough(&e) > 100.0 {
        return Out::Discard("too large");
    }
    c.begin(show_e(&e), true);
    if (0..4u64).all(|i| eval_e(&e, &Valuation { seed: i * 7919 + 5, dom: Dom::Signed }).is_err()) {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    let x = e.expand();
    if let Some(u) = unexpanded(&n_of(&x)) {
        return Out::Fail(format!("not expanded: {} in {}", u, show_e(&x)));
    }
    ok(identical(&x, &x.clone().expand()).map_err(|m| format!("expanding again: {}", m)))
}

/// two polynomials made by hand, compared
pub fn compared_by_hand(c: &mut Case) -> Option<(Expression, Expression, Q)> {
    let (a, p) = hand_poly(c.s)?;
    let (b, q) = match c.s.usize(3) {
        0 => hand_poly(c.s)?,
        _ => {
            // the same polynomial in its plain form, and a number
            let k = c.s.range(-2, 3);
            let mut v: Vec<Expression> = vec![int(k).build()];
            for (m, q) in &p.0 {
                let mut f: Vec<Expression> = vec![int_expr(&q.to_integer())];
                for (n, e) in m {
                    f.push(T::Pow(bx(var(n)), bx(T::Int(BigInt::from(*e))), 0).build());
                }
                v.push(Expression::multiplication(f));
            }
            (Expression::addition(v), p.add(&Poly::constant(qi(k)), 1))
        }
    };
    let d = p.add(&q, -1).as_constant()?;
    c.begin(format!("{} ? {}", show_e(&a), show_e(&b)), true);
    Some((a, b, d))
}
