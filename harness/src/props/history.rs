//! C22 determinism, C23 totality over histories of API calls.
use super::manip::{addends_term, expect_poly, ipoly, poly_ok, rewrite, sum_factor};
use crate::poly::*;
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use ncas::manipulation::expansion_rules::multiplicative_distributive::MultiplicativeDistributive;
use ncas::manipulation::expansion_rules::power_distributive_addition::PowerDistributiveAddition;
use ncas::manipulation::expansion_rules::power_distributive_multiplication::PowerDistributiveMultiplication;
use ncas::manipulation::expansion_rules::rule::Rule as ExpansionRule;
use ncas::manipulation::simplification_rules::factoring::additive_common_addend::AdditiveCommonAddend;
use ncas::manipulation::simplification_rules::factoring::multiplicative_common_factor::MultiplicativeCommonFactor;
use ncas::manipulation::simplification_rules::factoring::single_algebraic_denominator::SingleAlgebraicDenominator;
use ncas::manipulation::simplification_rules::identities::inverse_power_log::InversePowerLog;
use ncas::manipulation::simplification_rules::rational::rationals_addition::RationalsAddition;
use ncas::manipulation::simplification_rules::rational::rationals_multiplication::RationalsMultiplication;
use ncas::manipulation::simplification_rules::rule::Rule;
use std::collections::{BTreeSet, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            subs: vec![
                sub!("exact", 900, 150_000, "a term over integers, quotients and variables, worked out repeatedly and on another thread", |c| repeat(c, Kind::Rat, "BT")),
                sub!("symbolic", 900, 120_000, "the same with symbolic exponents", |c| repeat(c, Kind::SymExp, "")),
                sub!("positive", 900, 80_000, "the same with any exponent and logarithms", |c| repeat(c, Kind::Pos, "")),
                sub!("real", 900, 80_000, "the same with real literals", |c| repeat(c, Kind::Rat, "R")),
                sub!("positive-real", 1_000, 40_000, "the same with real literals, any exponent and logarithms", |c| repeat(c, Kind::Pos, "R")),
                sub!("concurrent", 260, 12_000, "different values worked out by five threads at once, over and over", concurrent),
                sub!("long", 96, 3_000, "thousands of different integer polynomials, one after the other, each against the reference", long),
                sub!("again", 64, 1_500, "one small value worked out up to 70000 times in a row", again),
                sub!("between", 400, 6_000, "a few terms of any kind before and after up to 1500 others of some families", between),
                sub!("rules", 6_000, 150_000, "a rewrite rule applied to the same expression 25 times", super::newer::rules_again),
                sub!("shared", 400, 30_000, "one value used by several threads at once", shared),
                sub!("vast", 160, 3_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Repeat)),
            ],
        },
        Prop {
            id: "C23",
            subs: vec![
                sub!("exact", 12_000, 300_000, "a history of API calls over a pool of values", |c| history(c, "")),
                sub!("reals", 12_000, 300_000, "the same with real literals", |c| history(c, "R")),
                sub!("nonfinite", 8_000, 200_000, "the same with infinities, NaN and extreme literals", |c| history(c, "RN")),
                sub!("pairs", 20_000, 600_000, "two values of any shape with extreme literals, one operation, everything done to the result", pairs),
                sub!("deep", 1_200, 40_000, "a chain of up to 20 operations, one inside the other, put through everything", |c| super::large::everything(c, true)),
                sub!("tall", 3_000, 60_000, "a chain of up to 65 logarithms, powers, quotients and functions, one inside the other", super::large::tall),
                sub!("twins", 1_500, 40_000, "two chains of up to 230 operations that are alike or differ in one place", |c| super::newer::twins(c, 200)),
                sub!("large", 800, 20_000, "one sum or product of up to 260 items put through everything", |c| super::large::everything(c, false)),
                sub!("vast", 160, 3_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Everything)),
            ],
        },
    ]
}

// ------------------------------------------------------------------- C22

/// everything observable about one round of work on a term
fn observe(t: &T, others: &[Expression]) -> (Vec<Expression>, Vec<bool>, Vec<String>) {
    let e = t.build();
    let x = e.clone().expand();
    let s = e.clone().simplify();
    let mut flags = vec![];
    for o in others {
        flags.extend(vec![
            e.comparable(o),
            e.equal(o),
            e.not_equal(o),
            e.greater(o),
            e.lesser(o),
            e.greater_equal(o),
            e.lesser_equal(o),
        ]);
    }
    let text = vec![format!("{}", e), format!("{}", x), format!("{}", s)];
    (vec![e, x, s], flags, text)
}

fn same(a: &(Vec<Expression>, Vec<bool>, Vec<String>), b: &(Vec<Expression>, Vec<bool>, Vec<String>), how: &str) -> Result<(), String> {
    for (i, what) in ["building", "expand()", "simplify()"].iter().enumerate() {
        if let Err(m) = identical(&a.0[i], &b.0[i]) {
            return Err(format!("{} {}: {}", what, how, m));
        }
        if a.2[i] != b.2[i] {
            return Err(format!("{} {} prints {} and {}", what, how, a.2[i], b.2[i]));
        }
    }
    if a.1 != b.1 {
        return Err(format!("the comparisons differ {}: {:?} and {:?}", how, a.1, b.1));
    }
    Ok(())
}

fn lane_term(c: &mut Case, kind: Kind, fl: &str, mono: f64) -> Option<(T, T)> {
    let l = lane(kind, fl);
    let dom = l.dom();
    let (t, u) = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = mono;
        let t = g.term();
        let u = match g.s.usize(3) {
            0 => T::Add(bx(t.clone()), bx(T::Int(gen_small(g.s))), 0),
            1 => rewrite(g.s, &t, 0),
            _ => {
                let b = 1 + g.s.usize(5);
                g.any(b)
            }
        };
        (t, u)
    };
    if valuations(&t, dom, 1).is_empty() || valuations(&u, dom, 1).is_empty() {
        return None;
    }
    Some((t, u))
}

fn repeat(c: &mut Case, kind: Kind, fl: &str) -> Out {
    let (t, u) = match lane_term(c, kind, fl, 60.0) {
        Some(x) => x,
        None => return Out::Discard("undefined or unrepresentable at every valuation tried"),
    };
    classify(c, &t);
    c.begin(format!("{} ? {}", t.show(), u.show()), t.size() >= 4);
    let others = vec![u.build()];
    let first = observe(&t, &others);
    for _ in 0..3 {
        if let Err(m) = same(&first, &observe(&t, &others), "again") {
            return Out::Fail(m);
        }
    }
    if hash_str_low(&t) % 4 == 0 {
        let (t2, o2) = (t.clone(), others.clone());
        let r = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || observe(&t2, &o2))
            .unwrap()
            .join();
        match r {
            Ok(b) => {
                if let Err(m) = same(&first, &b, "on another thread") {
                    return Out::Fail(m);
                }
            }
            Err(_) => return Out::Fail("the library panicked on another thread".into()),
        }
    }
    Out::Pass
}

fn hash_str_low(t: &T) -> u64 {
    crate::engine::hash_str(&t.show())
}

fn shared(c: &mut Case) -> Out {
    let k = [(Kind::Rat, "B"), (Kind::SymExp, ""), (Kind::Pos, "")][c.s.usize(3)];
    let (t, u) = match lane_term(c, k.0, k.1, 40.0) {
        Some(x) => x,
        None => return Out::Discard("undefined or unrepresentable at every valuation tried"),
    };
    c.begin(format!("{} ? {}", t.show(), u.show()), t.size() >= 4);
    let e = std::sync::Arc::new((t.build(), u.build()));
    let before = (n_of(&e.0), n_of(&e.1));
    let mut hs = vec![];
    for _ in 0..3 {
        let e = e.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let (a, b) = (&e.0, &e.1);
                    let s = (a + b).simplify();
                    let p = (a * b).expand();
                    let cmp = (a.comparable(b), a.equal(b), a.lesser(b), b.lesser(a));
                    (s, p, cmp, format!("{} {}", a, b), hash_e(a))
                })
                .unwrap(),
        );
    }
    let mut rs = vec![];
    for h in hs {
        match h.join() {
            Ok(r) => rs.push(r),
            Err(_) => return Out::Fail("the library panicked on another thread".into()),
        }
    }
    for r in &rs[1..] {
        for (x, y) in [(&rs[0].0, &r.0), (&rs[0].1, &r.1)] {
            if let Err(m) = identical(x, y) {
                return Out::Fail(format!("two threads disagree: {}", m));
            }
        }
        if r.2 != rs[0].2 || r.3 != rs[0].3 || r.4 != rs[0].4 {
            return Out::Fail("two threads disagree on a comparison, text or hash".into());
        }
    }
    if (n_of(&e.0), n_of(&e.1)) != before {
        return Out::Fail("a shared operand changed".into());
    }
    Out::Pass
}

/// every thread works on its own values; nothing of one may reach another
fn concurrent(c: &mut Case) -> Out {
    let mut ts: Vec<T> = vec![];
    for _ in 0..2 + c.s.usize(3) {
        let k = [(Kind::Rat, "B"), (Kind::SymExp, ""), (Kind::Pos, ""), (Kind::Rat, "T")][c.s.usize(4)];
        let what = c.s.usize(5);
        let dom = lane(k.0, k.1).dom();
        let mut g = G::new(c.s, lane(k.0, k.1));
        g.lane.max_monomials = 40.0;
        let t = match what {
            0 => {
                let b = sum_factor(&mut g);
                g.int_power(b, false)
            }
            1 => T::Pow(bx(T::Add(bx(g.var()), bx(g.var()), 0)), bx(int(g.s.range(2, 6))), 0),
            2 => T::Mul(bx(sum_factor(&mut g)), bx(sum_factor(&mut g)), 0),
            3 => addends_term(&mut g),
            _ => g.term(),
        };
        if est(&t) > 150.0 || valuations(&t, dom, 1).is_empty() {
            continue;
        }
        ts.push(t);
    }
    if ts.len() < 2 {
        return Out::Discard("undefined or too large");
    }
    c.begin(ts.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ? "), true);
    let other = Symbol::variable("q").expr();
    let work = std::sync::Arc::new((ts.clone(), other.clone()));
    let first: Vec<_> = ts.iter().map(|t| observe(t, &[other.clone()])).collect();
    let n = 5;
    let gate = std::sync::Arc::new(std::sync::Barrier::new(n));
    let mut hs = vec![];
    for i in 0..n {
        let (work, gate) = (work.clone(), gate.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut v = vec![];
                    gate.wait();
                    for r in 0..6 {
                        let j = (i + r) % work.0.len();
                        v.push((j, observe(&work.0[j], &[work.1.clone()])));
                    }
                    v
                })
                .unwrap(),
        );
    }
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(v) => {
                for (j, o) in v {
                    if let Err(m) = same(&first[j], &o, "on several threads at once") {
                        bad = Some(m);
                    }
                }
            }
            Err(_) => bad = Some("the library panicked on another thread".into()),
        }
    }
    match bad {
        Some(m) => Out::Fail(m),
        None => Out::Pass,
    }
}

/// a small integer polynomial of the given family, from its own generator
fn member(kind: usize, seed: u64, names: &[String]) -> T {
    let mut s = Src::random(seed);
    let mut l = lane(Kind::Poly, "");
    l.names = names.to_vec();
    l.max_monomials = 12.0;
    let mut g = G::new(&mut s, l);
    match kind {
        0 => {
            let n = 3 + g.s.usize(4);
            let mut v: Vec<T> = (0..n).map(|_| T::Mul(bx(int(g.s.range(1, 60))), bx(g.var()), 0)).collect();
            v.push(int(g.s.range(1, 5000)));
            T::Sum(v)
        }
        1 => {
            let f = |g: &mut G| T::Add(bx(T::Mul(bx(int(g.s.range(1, 40))), bx(g.var()), 0)), bx(int(g.s.range(1, 400))), 0);
            T::Mul(bx(f(&mut g)), bx(f(&mut g)), g.s.below(5) as u8)
        }
        2 => {
            let n = 4 + g.s.usize(4);
            T::Sum(
                (0..n)
                    .map(|_| T::Mul(bx(int(g.s.range(1, 60))), bx(T::Pow(bx(g.var()), bx(int(g.s.range(1, 30))), 0)), 0))
                    .collect(),
            )
        }
        3 => {
            let b = T::Add(bx(g.var()), bx(int(g.s.range(1, 3000))), 0);
            T::Pow(bx(b), bx(int(g.s.range(2, 3))), 0)
        }
        _ => ipoly(&mut g, 5),
    }
}

/// nothing done before may show in what is done later
fn long(c: &mut Case) -> Out {
    let n = 1 + c.s.below(4000);
    let seed = c.s.below(1 << 40);
    let kind = c.s.usize(5);
    let what = c.s.usize(3);
    let names: Vec<String> = ["a", "b", "c", "d", "x"][..2 + c.s.usize(4)].iter().map(|x| x.to_string()).collect();
    c.begin(format!("{} polynomials of family {} from seed {} over {:?}, operation {}", n, kind, seed, names, what), n >= 50);
    for i in 0..n {
        let t = member(kind, crate::engine::mix(seed, i), &names);
        if !poly_ok(&t) || est(&t) > 60.0 {
            continue;
        }
        let want = match poly_of(&t) {
            Some(p) => p,
            None => continue,
        };
        if what != 1 {
            let s = t.build().simplify();
            if let Err(m) = expect_poly(&s, &want) {
                return Out::Fail(format!("number {}, simplify of {}: {}", i, t.show(), m));
            }
        }
        if what != 0 {
            let x = t.build().expand();
            match poly_of_n(&n_of(&x)) {
                Some(p) if p == want => {}
                _ => return Out::Fail(format!("number {}, expand of {}: expected {} but got {}", i, t.show(), want.show(), show_e(&x))),
            }
        }
    }
    Out::Pass
}

/// a term of any kind from its own generator
fn any_member(seed: u64, kind: usize) -> Option<T> {
    let mut s = Src::random(seed);
    let (k, fl) = [(Kind::Rat, "B"), (Kind::SymExp, ""), (Kind::Pos, ""), (Kind::Rat, "RT"), (Kind::Pos, "R"), (Kind::Pos, "")][kind];
    let l = lane(k, fl);
    let dom = l.dom();
    let mut g = G::new(&mut s, l);
    g.lane.max_monomials = 12.0;
    let t = match (kind, g.s.usize(6)) {
        (5, _) => log_family(&mut g),
        (0, 0) => sum_factor(&mut g),
        (0, 1) => addends_term(&mut g),
        (_, _) => {
            let b = 2 + g.s.usize(10);
            g.any(b)
        }
    };
    if est(&t) > 30.0 || t.size() > 60 || valuations(&t, dom, 1).is_empty() {
        return None;
    }
    Some(t)
}

/// logarithms and powers that are something else once simplified
fn log_family(g: &mut G) -> T {
    let (x, y, z) = (g.var(), g.var(), g.var());
    let zero = |z: T| T::Sub(bx(z.clone()), bx(z), 0);
    match g.s.usize(6) {
        0 => T::Log(bx(T::Add(bx(T::Pow(bx(x.clone()), bx(y), 0)), bx(zero(z)), 0)), bx(x), 0),
        1 => T::Log(bx(T::Pow(bx(x.clone()), bx(y), 0)), bx(T::Add(bx(x), bx(zero(z)), 0)), 0),
        2 => T::Pow(bx(x.clone()), bx(T::Log(bx(T::Add(bx(y.clone()), bx(y), 0)), bx(T::Add(bx(x), bx(zero(z)), 0)), 0)), 0),
        3 => T::Pow(bx(x), bx(T::Add(bx(zero(y)), bx(int(g.s.range(0, 3))), 0)), 0),
        4 => T::Pow(bx(T::Add(bx(zero(x)), bx(int(g.s.range(1, 3))), 0)), bx(T::Add(bx(zero(y)), bx(int(g.s.range(0, 3))), 0)), 0),
        _ => T::Log(bx(T::Add(bx(zero(x)), bx(int(8)), 0)), bx(int(2)), 0),
    }
}

/// what is worked out now and then does not depend on what was done meanwhile
fn between(c: &mut Case) -> Out {
    let n = 1 + c.s.below(1500);
    let seed = c.s.below(1 << 40);
    let families: Vec<usize> = (0..1 + c.s.usize(3)).map(|_| c.s.usize(6)).collect();
    let few = if c.s.chance(1, 2) { 1 + c.s.below(20) } else { n };
    let mut ts: Vec<T> = vec![];
    for i in 0..18 {
        if let Some(t) = any_member(crate::engine::mix(seed, (1 << 41) + i), i as usize % 6) {
            ts.push(t);
        }
    }
    if ts.is_empty() {
        return Out::Discard("no term");
    }
    c.begin(format!("{} terms, {} different, of families {:?} from seed {} between {}", n, few, families, seed, ts.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ? ")), n >= 50);
    let other = Symbol::variable("q").expr();
    let look = || ts.iter().map(|t| observe(t, &[other.clone()])).collect::<Vec<_>>();
    let first = look();
    for i in 0..n {
        if let Some(t) = any_member(crate::engine::mix(seed, i % few), families[i as usize % families.len()]) {
            let e = t.build();
            let s = e.clone().simplify();
            let x = e.expand();
            if i % 16 == 0 {
                let _ = (format!("{}", s), x.equal(&s));
            }
        }
    }
    for (a, b) in first.iter().zip(look().iter()) {
        if let Err(m) = same(a, b, "after other work") {
            return Out::Fail(m);
        }
    }
    Out::Pass
}

fn again(c: &mut Case) -> Out {
    let k = 1 + c.s.usize(3);
    let op = c.s.usize(7);
    let cost = [1, 8, 1, 20, 2, 2, 1][op];
    let n = 1 + c.s.below(70_000) / cost;
    let ts: Vec<T> = {
        let mut g = G::new(c.s, lane(Kind::Poly, ""));
        (0..k)
            .map(|_| match g.s.usize(5) {
                0 => T::Mul(bx(g.var()), bx(T::Add(bx(g.var()), bx(g.var()), 0)), 0),
                1 => T::Pow(bx(T::Add(bx(g.var()), bx(int(g.s.range(1, 9))), 0)), bx(int(2)), 0),
                2 => T::Sum(vec![g.var(), int(g.s.range(1, 9)), T::Mul(bx(int(3)), bx(g.var()), 0)]),
                3 => T::Mul(bx(T::Pow(bx(g.var()), bx(int(g.s.range(2, 9))), 0)), bx(g.var()), 0),
                _ => T::Div(bx(g.var()), bx(int(g.s.range(2, 9))), 0),
            })
            .collect()
    };
    c.begin(format!("{} times operation {} of {}", n, op, ts.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ? ")), n >= 100);
    let es: Vec<Expression> = ts.iter().map(|t| t.build()).collect();
    let one = Symbol::integer(1).expr();
    let up: Vec<Expression> = es.iter().map(|e| e + &one).collect();
    let run = |i: usize| -> (Option<N>, String, bool) {
        let e = &es[i];
        match op {
            0 => (Some(n_of(&e.clone().expand())), String::new(), false),
            1 => (Some(n_of(&e.clone().simplify())), String::new(), false),
            2 => (Some(n_of(&ts[i].build())), String::new(), false),
            3 => (None, String::new(), e.lesser(&up[i]) && up[i].greater(e) && !e.equal(&up[i])),
            4 => (None, format!("{}", e), false),
            5 => (None, format!("{}", hash_e(e)), e == &up[i]),
            _ => (None, String::new(), e.cmp(&up[i]) == up[i].cmp(e)),
        }
    };
    let first: Vec<_> = (0..k).map(|i| run(i)).collect();
    for j in 0..n {
        let i = j as usize % k;
        let got = run(i);
        if got != first[i] {
            return Out::Fail(format!(
                "time {}: {} gives {:?} where it first gave {:?}",
                j,
                ts[i].show(),
                (got.0.map(|x| x.show()), got.1, got.2),
                (first[i].0.as_ref().map(|x| x.show()), &first[i].1, first[i].2)
            ));
        }
    }
    Out::Pass
}

// ------------------------------------------------------------------- C23

#[derive(Clone, Debug)]
enum Step {
    /// build entry from pool entries
    Make(T, Vec<usize>),
    Expand(usize),
    Simplify(usize),
    Compare(usize, usize),
    Rules(usize),
    Look(usize),
    Sort,
}

/// a literal of any kind
fn literal(s: &mut Src, names: &[String], fl: &str) -> T {
    let w = [30u64, 40, if fl.contains('R') { 20 } else { 0 }, if fl.contains('N') { 20 } else { 0 }];
    match s.weighted(&w) {
        // some beyond the doubles
        0 if s.chance(1, 12) => {
            let k = num::pow::pow(BigInt::from(10), 290 + s.usize(60)) + gen_int(s, false);
            T::Int(if s.chance(1, 3) { -k } else { k })
        }
        0 => T::Int(gen_int(s, true)),
        1 => T::Var(names[s.usize(names.len())].clone()),
        2 => T::Real(gen_real(s)),
        _ => T::Real(
            [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, 0.0, 5e-324, f64::MAX, f64::MIN, 1e300, -1e-300][s.usize(10)],
        ),
    }
}

/// stand-in used to bound sizes: non-finite and extreme literals become tame
fn tame(t: &T) -> T {
    let f = |x: &T| bx(tame(x));
    match t {
        T::Real(r) if !r.is_finite() || r.abs() > 1e6 || (*r != 0.0 && r.abs() < 1e-6) => T::Real(3.5),
        T::Int(n) if n.bits() > 900 => int(if n.sign() == num::bigint::Sign::Minus { -7 } else { 7 }),
        T::Add(a, b, h) => T::Add(f(a), f(b), *h),
        T::Sub(a, b, h) => T::Sub(f(a), f(b), *h),
        T::Mul(a, b, h) => T::Mul(f(a), f(b), *h),
        T::Div(a, b, h) => T::Div(f(a), f(b), *h),
        T::Pow(a, b, h) => T::Pow(f(a), f(b), *h),
        T::Log(a, b, h) => T::Log(f(a), f(b), *h),
        T::Neg(a, h) => T::Neg(f(a), *h),
        T::Sin(a) => T::Sin(f(a)),
        T::Cos(a) => T::Cos(f(a)),
        T::Expand(a) => T::Expand(f(a)),
        T::Simplify(a) => T::Simplify(f(a)),
        T::Sum(v) => T::Sum(v.iter().map(tame).collect()),
        T::Prod(v) => T::Prod(v.iter().map(tame).collect()),
        x => x.clone(),
    }
}

fn small_expo(s: &mut Src, names: &[String], fl: &str) -> T {
    match s.weighted(&[5, 3, 2, if fl.contains('R') { 3 } else { 0 }, if fl.contains('N') { 2 } else { 0 }, 2, 3]) {
        6 => {
            // a product of numbers and names
            let n = 2 + s.usize(3);
            let mut v: Vec<T> = (0..n).map(|_| T::Var(names[s.usize(names.len())].clone())).collect();
            v.push(if fl.contains('R') && s.chance(1, 2) {
                T::Real([2.0, 0.5, 1.5, 3.0][s.usize(4)])
            } else {
                int(s.range(if fl.contains('N') { 0 } else { -3 }, 3))
            });
            T::Prod(v)
        }
        0 => int(s.range(if fl.contains('N') { 3 } else { 0 }, 7) - 3),
        1 => T::Var(names[s.usize(names.len())].clone()),
        2 => T::Add(
            bx(T::Var(names[s.usize(names.len())].clone())),
            bx(int(s.range(-3, 3))),
            s.below(5) as u8,
        ),
        3 => T::Real([2.0, 0.5, 1.5, 3.0, 0.0, 1.0, -1.0, -0.5][s.usize(if fl.contains('N') { 6 } else { 8 })]),
        4 => T::Real([f64::INFINITY, f64::NAN, -0.0][s.usize(3)]),
        _ => T::Div(bx(int(s.range(if fl.contains('N') { 0 } else { -3 }, 3))), bx(int(s.range(2, 5))), 0),
    }
}

/// zero may be hiding here: an expression usable as a divisor must not be
/// identically zero
fn maybe_zero(t: &T) -> bool {
    let t = tame(t);
    for i in 0..6u64 {
        let v = Valuation { seed: i * 31 + 7, dom: Dom::IntSigned };
        match eval_t(&t, &v) {
            Ok(x) if x.f.abs() > 1e-9 * (1.0 + x.m) => return false,
            _ => {}
        }
    }
    true
}

fn bounded(t: &T) -> bool {
    let t = tame(t);
    let v = Valuation { seed: 3, dom: Dom::IntSigned };
    est(&t) <= 60.0 && span(&t, &v) <= 3000.0 && t.size() <= 400
}

fn history(c: &mut Case, fl: &str) -> Out {
    let s = &mut *c.s;
    let k = 1 + s.usize(4);
    let names: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for _ in 0..k {
            let n = gen_name(s);
            if !v.contains(&n) {
                v.push(n);
            }
        }
        v
    };
    let n0 = 2 + s.usize(4);
    let mut pool: Vec<T> = (0..n0).map(|_| literal(s, &names, fl)).collect();
    let start = pool.clone();
    let steps = 3 + s.usize(28);
    let mut plan: Vec<Step> = vec![];
    for _ in 0..steps {
        let i = if s.chance(2, 3) { pool.len() - 1 } else { s.usize(pool.len()) };
        let j = s.usize(pool.len());
        let (a, b) = (pool[i].clone(), pool[j].clone());
        let h = s.below(5) as u8;
        let made: Option<(T, Vec<usize>)> = match s.weighted(&[12, 10, 14, 9, 4, 6, 6, 14, 6, 4, 8, 8, 8, 5, 3, 2, 4, 4]) {
            0 => Some((T::Add(bx(a), bx(b), h), vec![i, j])),
            1 => Some((T::Sub(bx(a), bx(b), h), vec![i, j])),
            2 => Some((T::Mul(bx(a), bx(b), h), vec![i, j])),
            3 => {
                // a non-finite value can hide a zero from this guard
                if fl.contains('N') || maybe_zero(&b) {
                    None
                } else {
                    Some((T::Div(bx(a), bx(b), h), vec![i, j]))
                }
            }
            4 => Some((T::Neg(bx(a), h % 2), vec![i])),
            5 => {
                let m = s.usize(5);
                let ix: Vec<usize> = (0..m).map(|_| s.usize(pool.len())).collect();
                Some((T::Sum(ix.iter().map(|x| pool[*x].clone()).collect()), ix))
            }
            6 => {
                let m = s.usize(5);
                let ix: Vec<usize> = (0..m).map(|_| s.usize(pool.len())).collect();
                Some((T::Prod(ix.iter().map(|x| pool[*x].clone()).collect()), ix))
            }
            7 => {
                let e = small_expo(s, &names, fl);
                if maybe_zero(&a) {
                    None
                } else {
                    Some((T::Pow(bx(a), bx(e), h % 2), vec![i]))
                }
            }
            8 => Some((T::Log(bx(a), bx(b), h % 2), vec![i, j])),
            9 => {
                if s.chance(1, 2) {
                    Some((T::Sin(bx(a)), vec![i]))
                } else {
                    Some((T::Cos(bx(a)), vec![i]))
                }
            }
            10 => {
                plan.push(Step::Expand(i));
                pool.push(T::Expand(bx(a)));
                None
            }
            11 => {
                plan.push(Step::Simplify(i));
                pool.push(T::Simplify(bx(a)));
                None
            }
            12 => {
                plan.push(Step::Compare(i, j));
                None
            }
            13 => {
                plan.push(Step::Rules(i));
                None
            }
            14 => {
                plan.push(Step::Look(i));
                None
            }
            15 => {
                plan.push(Step::Sort);
                None
            }
            16 => Some((literal(s, &names, fl), vec![])),
            _ => {
                // x + x, x - x, x * x, x / x
                let q = s.usize(4);
                match q {
                    0 => Some((T::Add(bx(a.clone()), bx(a), h), vec![i, i])),
                    1 => Some((T::Sub(bx(a.clone()), bx(a), h), vec![i, i])),
                    2 => Some((T::Mul(bx(a.clone()), bx(a), h), vec![i, i])),
                    _ => {
                        if fl.contains('N') || maybe_zero(&a) {
                            None
                        } else {
                            Some((T::Div(bx(a.clone()), bx(a), h), vec![i, i]))
                        }
                    }
                }
            }
        };
        if let Some((t, ix)) = made {
            if bounded(&t) {
                plan.push(Step::Make(t.clone(), ix));
                pool.push(t);
            }
        }
    }
    let text = format!(
        "pool {} then {}",
        start.iter().map(|t| t.show()).collect::<Vec<_>>().join(" | "),
        plan.iter()
            .map(|p| match p {
                Step::Make(t, ix) => make_text(t, ix),
                Step::Expand(i) => format!("expand #{}", i),
                Step::Simplify(i) => format!("simplify #{}", i),
                Step::Compare(i, j) => format!("compare #{} #{}", i, j),
                Step::Rules(i) => format!("rules #{}", i),
                Step::Look(i) => format!("look #{}", i),
                Step::Sort => "sort".into(),
            })
            .collect::<Vec<_>>()
            .join(" ; ")
    );
    c.begin(text, plan.len() >= 4);
    let mut v: Vec<Expression> = start.iter().map(|t| t.build()).collect();
    for p in &plan {
        match p {
            Step::Make(t, ix) => {
                let e = make(t, ix, &v);
                v.push(e);
            }
            Step::Expand(i) => {
                let e = v[*i].clone().expand();
                v.push(e);
            }
            Step::Simplify(i) => {
                let e = v[*i].clone().simplify();
                v.push(e);
            }
            Step::Compare(i, j) => {
                let (a, b) = (&v[*i], &v[*j]);
                let f = (a.comparable(b), a.equal(b), a.not_equal(b), a.greater(b), a.lesser(b), a.greater_equal(b), a.lesser_equal(b));
                if (f.1 || f.2 || f.3 || f.4 || f.5 || f.6) && !f.0 {
                    return Out::Fail(format!("a comparison holds between values reported as not comparable: {:?}", f));
                }
            }
            Step::Rules(i) => {
                let e = &v[*i];
                let rs = vec![
                    MultiplicativeDistributive::apply(e),
                    PowerDistributiveAddition::apply(e),
                    PowerDistributiveMultiplication::apply(e),
                    AdditiveCommonAddend::apply(e),
                    MultiplicativeCommonFactor::apply(e),
                    SingleAlgebraicDenominator::apply(e),
                    InversePowerLog::apply(e),
                    RationalsAddition::apply(e),
                    RationalsMultiplication::apply(e),
                ];
                for r in rs {
                    let _ = format!("{}", r);
                }
            }
            Step::Look(i) => {
                let e = &v[*i];
                let _ = (format!("{}", e), format!("{:?}", e), hash_e(e));
                if !(e == e) || e.cmp(e) != std::cmp::Ordering::Equal || hash_e(e) != hash_e(&e.clone()) {
                    return Out::Fail(format!("a value is not itself: {}", show_e(e)));
                }
                if let Expression::Addition(a) | Expression::Multiplication(a) = e {
                    let _ = (a.items(), a.get_reals(), a.get_rational_numerators(), a.get_rational_denominators());
                    let _ = (a.get_rationals(), a.get_non_rationals(), a.get_symbolics());
                }
            }
            Step::Sort => {
                let mut w = v.clone();
                w.sort();
                let h: HashSet<Expression> = v.iter().cloned().collect();
                let b: BTreeSet<Expression> = v.iter().cloned().collect();
                if h.len() != b.len() {
                    return Out::Fail(format!("hashing finds {} different values, ordering {}", h.len(), b.len()));
                }
            }
        }
    }
    // the last value goes through everything
    if let Some(e) = v.last() {
        let s = e.clone().simplify();
        let _ = format!("{} {}", e, s);
        let _ = e.equal(&s);
        let _ = e.clone().expand().expand();
    }
    Out::Pass
}

fn make_text(t: &T, ix: &[usize]) -> String {
    let a: Vec<String> = ix.iter().map(|i| format!("#{}", i)).collect();
    match t {
        T::Add(_, _, h) => format!("add{} {}", h, a.join(" ")),
        T::Sub(_, _, h) => format!("sub{} {}", h, a.join(" ")),
        T::Mul(_, _, h) => format!("mul{} {}", h, a.join(" ")),
        T::Div(_, _, h) => format!("div{} {}", h, a.join(" ")),
        T::Neg(_, h) => format!("neg{} {}", h, a.join(" ")),
        T::Sum(_) => format!("addition {}", a.join(" ")),
        T::Prod(_) => format!("multiplication {}", a.join(" ")),
        T::Pow(_, e, h) => format!("pow{} {} {}", h, a.join(" "), e.show()),
        T::Log(_, _, h) => format!("log{} {}", h, a.join(" ")),
        T::Sin(_) => format!("sin {}", a.join(" ")),
        T::Cos(_) => format!("cos {}", a.join(" ")),
        x => format!("literal {}", x.show()),
    }
}

/// one API call on the values of the pool
fn make(t: &T, ix: &[usize], v: &[Expression]) -> Expression {
    use ncas::base::operation::Operation;
    let g = |k: usize| v[ix[k]].clone();
    match t {
        T::Add(_, _, h) => match h % 5 {
            0 => g(0) + g(1),
            1 => g(0) + &v[ix[1]],
            2 => &v[ix[0]] + &v[ix[1]],
            3 => &v[ix[0]] + g(1),
            _ => Expression::addition(vec![g(0), g(1)]),
        },
        T::Sub(_, _, h) => match h % 5 {
            0 => g(0) - g(1),
            1 => g(0) - &v[ix[1]],
            2 => &v[ix[0]] - &v[ix[1]],
            3 => &v[ix[0]] - g(1),
            _ => Expression::subtraction(g(0), g(1)),
        },
        T::Mul(_, _, h) => match h % 5 {
            0 => g(0) * g(1),
            1 => g(0) * &v[ix[1]],
            2 => &v[ix[0]] * &v[ix[1]],
            3 => &v[ix[0]] * g(1),
            _ => Expression::multiplication(vec![g(0), g(1)]),
        },
        T::Div(_, _, h) => match h % 5 {
            0 => g(0) / g(1),
            1 => g(0) / &v[ix[1]],
            2 => &v[ix[0]] / &v[ix[1]],
            3 => &v[ix[0]] / g(1),
            _ => Expression::division(g(0), g(1)),
        },
        T::Neg(_, h) => {
            if h % 2 == 0 {
                -g(0)
            } else {
                -&v[ix[0]]
            }
        }
        T::Sum(_) => Expression::addition((0..ix.len()).map(g).collect()),
        T::Prod(_) => Expression::multiplication((0..ix.len()).map(g).collect()),
        T::Pow(_, e, h) => {
            if h % 2 == 0 {
                g(0).pow(e.build())
            } else {
                Expression::power(g(0), e.build())
            }
        }
        T::Log(_, _, h) => {
            if h % 2 == 0 {
                g(0).log(g(1))
            } else {
                Expression::logarithm(g(0), g(1))
            }
        }
        T::Sin(_) => Expression::Sine(Operation::new(g(0))),
        T::Cos(_) => Expression::Cossine(Operation::new(g(0))),
        x => x.build(),
    }
}

/// a nonzero number, often an extreme one
fn any_number(s: &mut Src) -> T {
    match s.weighted(&[6, 2, 2, 3, 4, 3, 2]) {
        0 => int(nonzero(s.range(-5, 6))),
        1 => T::Int(gen_int(s, true) + 1),
        2 => {
            let k = num::pow::pow(BigInt::from(2), [31, 53, 62, 63, 64, 127][s.usize(6)]) + s.range(-1, 1);
            T::Int(if s.chance(1, 2) { -k } else { k })
        }
        3 => {
            let k = num::pow::pow(BigInt::from(10), 290 + s.usize(60)) + gen_int(s, false);
            T::Int(if s.chance(1, 3) { -k } else { k })
        }
        4 => T::Real([0.5, 2.0, -1.5, 3.0, 1.0, -1.0][s.usize(6)]),
        5 => T::Real([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, f64::MIN, 1e300, -1e-300, 0.0, -0.0][s.usize(10)]),
        _ => T::Real(gen_real(s)),
    }
}

fn nonzero(k: i64) -> i64 {
    if k == 0 {
        1
    } else {
        k
    }
}

/// an exponent that keeps integer powers small
fn any_exponent(s: &mut Src, names: &[String]) -> T {
    let num = |s: &mut Src| match s.weighted(&[5, 3, 2]) {
        0 => int(s.range(-4, 4)),
        1 => T::Real([2.0, 0.5, 1.5, -3.0, 0.0, 1.0, -1.0, -0.5][s.usize(8)]),
        _ => T::Real([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, 1e17, -1e300][s.usize(7)]),
    };
    let var = |s: &mut Src| T::Var(names[s.usize(names.len())].clone());
    match s.weighted(&[6, 3, 5, 2, 2, 2]) {
        0 => num(s),
        1 => var(s),
        2 => {
            let mut v = vec![num(s)];
            for _ in 0..1 + s.usize(3) {
                v.push(var(s));
            }
            T::Prod(v)
        }
        3 => T::Sum(vec![num(s), var(s)]),
        4 => T::Log(bx(var(s)), bx(any_number(s)), 0),
        _ => T::Div(bx(num(s)), bx(int(2 + s.range(0, 3))), 0),
    }
}

fn any_atom(s: &mut Src, names: &[String]) -> T {
    let var = |s: &mut Src| T::Var(names[s.usize(names.len())].clone());
    match s.weighted(&[8, 2, 2, 2, 3, 2, 2, 1]) {
        0 => var(s),
        1 => T::Log(bx(var(s)), bx(any_number(s)), 0),
        2 => T::Log(bx(any_number(s)), bx(var(s)), 0),
        3 => {
            let x = T::Prod(vec![any_number(s), var(s)]);
            if s.chance(1, 2) {
                T::Sin(bx(x))
            } else {
                T::Cos(bx(x))
            }
        }
        4 => T::Sum(vec![var(s), any_number(s)]),
        5 => T::Pow(bx(var(s)), bx(any_exponent(s, names)), 0),
        6 => T::Pow(bx(int(2 + s.range(0, 4))), bx(var(s)), 0),
        _ => T::Log(bx(any_number(s)), bx(any_number(s)), 0),
    }
}

/// a value of one of the shapes the constructors tell apart
fn any_shape(s: &mut Src, names: &[String]) -> T {
    match s.weighted(&[6, 5, 6, 3, 4, 4, 2, 2, 2]) {
        0 => any_number(s),
        1 => any_atom(s, names),
        2 => {
            let mut v = vec![any_number(s)];
            for _ in 0..1 + s.usize(3) {
                v.push(any_atom(s, names));
            }
            T::Prod(v)
        }
        3 => T::Prod((0..2 + s.usize(2)).map(|_| any_atom(s, names)).collect()),
        4 => {
            let mut v = vec![any_number(s)];
            for _ in 0..1 + s.usize(2) {
                v.push(any_atom(s, names));
            }
            T::Sum(v)
        }
        5 => T::Sum(
            (0..2 + s.usize(2))
                .map(|_| T::Prod(vec![any_number(s), any_atom(s, names)]))
                .collect(),
        ),
        6 => T::Div(bx(any_number(s)), bx(int(nonzero(s.range(-7, 7)))), 0),
        7 => T::Pow(bx(any_number(s)), bx(T::Var(names[s.usize(names.len())].clone())), 0),
        _ => T::Neg(bx(any_atom(s, names)), 0),
    }
}

/// two values of any shape, one operation, and everything done to the result
fn pairs(c: &mut Case) -> Out {
    let s = &mut *c.s;
    let names: Vec<String> = (0..1 + s.usize(3)).map(|i| ["x", "y", "z"][i].to_string()).collect();
    let a = any_shape(s, &names);
    let h = s.below(5) as u8;
    let t = match s.usize(8) {
        0 => T::Add(bx(a), bx(any_shape(s, &names)), h),
        1 => T::Sub(bx(a), bx(any_shape(s, &names)), h),
        2 => T::Mul(bx(a), bx(any_shape(s, &names)), h),
        3 => {
            let b = any_shape(s, &names);
            if maybe_zero(&b) {
                return Out::Discard("a zero divisor");
            }
            T::Div(bx(a), bx(b), h)
        }
        4 | 5 => {
            if maybe_zero(&a) {
                return Out::Discard("a power of zero");
            }
            T::Pow(bx(a), bx(any_exponent(s, &names)), h % 2)
        }
        6 => T::Log(bx(a), bx(any_shape(s, &names)), h % 2),
        _ => T::Sum(vec![a.clone(), any_shape(s, &names), T::Neg(bx(a), h % 2)]),
    };
    if est(&tame(&t)) > 80.0 {
        return Out::Discard("too large once expanded");
    }
    let other = any_shape(s, &names);
    c.begin(format!("{} with {}", t.show(), other.show()), true);
    let e = t.build();
    let o = other.build();
    let mut seen = vec![e.clone(), o.clone(), e.clone().simplify(), e.clone().expand()];
    seen.push(seen[2].clone().simplify());
    seen.push(seen[3].clone().expand());
    for r in [
        MultiplicativeDistributive::apply(&e),
        PowerDistributiveAddition::apply(&e),
        PowerDistributiveMultiplication::apply(&e),
        AdditiveCommonAddend::apply(&e),
        MultiplicativeCommonFactor::apply(&e),
        SingleAlgebraicDenominator::apply(&e),
        InversePowerLog::apply(&e),
        RationalsAddition::apply(&e),
        RationalsMultiplication::apply(&e),
    ] {
        seen.push(r);
    }
    for x in &seen {
        let _ = (format!("{}", x), format!("{:?}", x));
        if x != x || x.cmp(x) != std::cmp::Ordering::Equal || hash_e(x) != hash_e(&x.clone()) {
            return Out::Fail(format!("a value is not itself: {}", show_e(x)));
        }
        if let Expression::Addition(a) | Expression::Multiplication(a) = x {
            let _ = (a.items(), a.get_reals(), a.get_rational_numerators(), a.get_rational_denominators());
            let _ = (a.get_rationals(), a.get_non_rationals(), a.get_symbolics());
        }
    }
    for (a, b) in [(&e, &o), (&o, &e), (&e, &seen[2])] {
        let f = (a.comparable(b), a.equal(b), a.not_equal(b), a.greater(b), a.lesser(b), a.greater_equal(b), a.lesser_equal(b));
        if (f.1 || f.2 || f.3 || f.4 || f.5 || f.6) && !f.0 {
            return Out::Fail(format!("a comparison holds between values reported as not comparable: {:?}", f));
        }
    }
    let h: HashSet<Expression> = seen.iter().cloned().collect();
    let b: BTreeSet<Expression> = seen.iter().cloned().collect();
    if h.len() != b.len() {
        return Out::Fail(format!("hashing finds {} different values, ordering {}", h.len(), b.len()));
    }
    Out::Pass
}
