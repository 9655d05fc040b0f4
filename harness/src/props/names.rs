//! C24 variable names carry no meaning, C25 equal expressions are
//! interchangeable.
use super::manip::*;
use super::util::*;
use crate::engine::{mix, Src};
use crate::gen::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            subs: vec![
                sub!("build", 60_000, 900_000, "a term and any one-to-one renaming of its variables, built", |c| renamed(c, Work::Build)),
                sub!("expand", 25_000, 500_000, "a term and an order-preserving renaming, expanded", |c| renamed(c, Work::Expand)),
                sub!("simplify", 25_000, 500_000, "a term and an order-preserving renaming, simplified", |c| renamed(c, Work::Simplify)),
                sub!("compare", 6_000, 300_000, "two terms and an order-preserving renaming, compared", |c| renamed(c, Work::Compare)),
                sub!("polynomial", 12_000, 500_000, "an integer polynomial and any one-to-one renaming, simplified", renamed_poly),
                sub!("alone", 60_000, 600_000, "one variable under every operation", alone),
            ],
        },
        Prop {
            id: "C25",
            subs: vec![
                sub!("exact", 12_000, 300_000, "a value and an equal one assembled another way, put through every operation", |c| interchange(c, Kind::Rat, "BT")),
                sub!("symbolic", 8_000, 200_000, "the same with symbolic exponents", |c| interchange(c, Kind::SymExp, "")),
                sub!("positive", 8_000, 200_000, "the same with any exponent and logarithms", |c| interchange(c, Kind::Pos, "R")),
                sub!("real", 8_000, 200_000, "the same with real literals", |c| interchange(c, Kind::Rat, "R")),
                sub!("orders", 60_000, 900_000, "arbitrary items in two orders, every accessor and order", two_orders),
                sub!("history", 5_000, 150_000, "the same for results of expand and simplify", |c| interchange(c, Kind::Rat, "H")),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Interchange)),
            ],
        },
    ]
}

// ------------------------------------------------------------------- C24

pub type Names = BTreeMap<String, String>;

pub fn rename_t(t: &T, m: &Names) -> T {
    let f = |x: &T| bx(rename_t(x, m));
    match t {
        T::Var(v) => T::Var(m.get(v).cloned().unwrap_or_else(|| v.clone())),
        T::Int(_) | T::Real(_) => t.clone(),
        T::Add(a, b, h) => T::Add(f(a), f(b), *h),
        T::Sub(a, b, h) => T::Sub(f(a), f(b), *h),
        T::Mul(a, b, h) => T::Mul(f(a), f(b), *h),
        T::Div(a, b, h) => T::Div(f(a), f(b), *h),
        T::Pow(a, b, h) => T::Pow(f(a), f(b), *h),
        T::Log(a, b, h) => T::Log(f(a), f(b), *h),
        T::Neg(a, h) => T::Neg(f(a), *h),
        T::Sin(a) => T::Sin(f(a)),
        T::Cos(a) => T::Cos(f(a)),
        T::Expand(a) => T::Expand(f(a)),
        T::Simplify(a) => T::Simplify(f(a)),
        T::Sum(v) => T::Sum(v.iter().map(|x| rename_t(x, m)).collect()),
        T::Prod(v) => T::Prod(v.iter().map(|x| rename_t(x, m)).collect()),
    }
}

pub fn rename_n(n: &N, m: &Names) -> N {
    let f = |x: &N| Box::new(rename_n(x, m));
    let l = |v: &Vec<N>| {
        let mut r: Vec<N> = v.iter().map(|x| rename_n(x, m)).collect();
        r.sort();
        r
    };
    match n {
        N::Var(v) => N::Var(m.get(v).cloned().unwrap_or_else(|| v.clone())),
        N::Int(_) | N::Real(_) => n.clone(),
        N::Mul(v) => N::Mul(l(v)),
        N::Add(v) => N::Add(l(v)),
        N::Pow(a, b) => N::Pow(f(a), f(b)),
        N::Log(a, b) => N::Log(f(a), f(b)),
        N::Sin(a) => N::Sin(f(a)),
        N::Cos(a) => N::Cos(f(a)),
    }
}

fn fresh_name(s: &mut Src) -> String {
    match s.weighted(&[40, 30, 15, 15]) {
        0 => NAMES[s.usize(NAMES.len())].to_string(),
        1 => ["p", "q", "r", "u", "v", "w", "X", "Y", "E", "I", "PI", "inf", "nan", "log", "sin", "n", "_", "f", "0", "1", "-1", "2x", "", " ", "e", "i", "j", "pi",
            "ln", "exp", "sqrt", "abs", "tan", "oo", "NaN", "Inf", "infinity", "true", "null", "dx", "d", "x'", "∞", "π", "+", "*", "(", ")", ","]
            [s.usize(49)]
        .to_string(),
        2 => gen_name(s),
        _ => {
            let n = 1 + s.usize(12);
            (0..n).map(|_| char::from(b'a' + s.below(26) as u8)).collect()
        }
    }
}

/// up to n different names that agree in all but a few characters
pub fn alike(s: &mut Src, n: usize) -> Vec<String> {
    let stem: String = {
        let l = s.usize(70);
        let k = 1 + s.usize(5);
        (0..l).map(|i| char::from(b'a' + ((i * k) % 26) as u8)).collect()
    };
    if s.chance(1, 3) {
        // names that only differ in what hardly shows
        let odd = ["", " ", "\0", "\n", "\t", ".", "'", "\u{301}", "\u{200b}", "\u{feff}", "0", "_", "\0\0", "  ", "\r\n", "-", "+"];
        let front = s.chance(1, 3);
        let mut v: Vec<String> = vec![];
        for _ in 0..n * 4 {
            let o = odd[s.usize(odd.len())];
            let stem: String = stem.chars().take(6).collect();
            let x = if front { format!("{}{}", o, stem) } else { format!("{}{}", stem, o) };
            if v.len() < n && !v.contains(&x) {
                v.push(x);
            }
        }
        return v;
    }
    let tail: String = (0..s.usize(3) * s.usize(12)).map(|_| 'z').collect();
    let mut v: Vec<String> = vec![];
    for _ in 0..n * 3 {
        let m: String = (0..1 + s.usize(3)).map(|_| *s.pick(&['a', 'b', '0', '1', '2', '9', '_', 'A', 'é'])).collect();
        let x = format!("{}{}{}", stem, m, tail);
        if v.len() < n && !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

/// distinct new names for the variables of the term, in the same order if asked
fn renaming(s: &mut Src, vars: &[String], keep_order: bool) -> Option<Names> {
    let mut old: Vec<String> = vars.to_vec();
    old.sort();
    let mut new: Vec<String> = vec![];
    if s.chance(1, 4) {
        new = alike(s, old.len());
    }
    for _ in 0..(old.len() * 4) {
        if new.len() == old.len() {
            break;
        }
        let n = fresh_name(s);
        if !new.contains(&n) {
            new.push(n);
        }
    }
    if new.len() < old.len() {
        return None;
    }
    if keep_order {
        new.sort();
    }
    Some(old.into_iter().zip(new).collect())
}

#[derive(Clone, Copy, PartialEq)]
enum Work {
    Build,
    Expand,
    Simplify,
    Compare,
}

fn renamed(c: &mut Case, w: Work) -> Out {
    let l = match c.s.usize(6) {
        0 => lane(Kind::Poly, "B"),
        1 => lane(Kind::Rat, "BT"),
        2 => lane(Kind::Rat, "R"),
        3 => lane(Kind::SymExp, ""),
        4 => lane(Kind::Pos, ""),
        _ => lane(Kind::Rat, "H"),
    };
    let dom = l.dom();
    let keep = w != Work::Build || l.hist || c.s.chance(1, 2);
    let (t, u) = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 60.0;
        let t = match g.s.usize(8) {
            0 => addends_term(&mut g),
            1 if dom == Dom::Signed => factors_term(&mut g, false),
            _ => g.term(),
        };
        let u = if w == Work::Compare {
            match g.s.usize(3) {
                0 => T::Add(bx(t.clone()), bx(T::Int(gen_small(g.s))), 0),
                1 => rewrite(g.s, &t, 0),
                _ => {
                    let b = 1 + g.s.usize(5);
                    g.any(b)
                }
            }
        } else {
            int(0)
        };
        (t, u)
    };
    if est(&t) > 300.0 || est(&u) > 300.0 {
        return Out::Discard("too large");
    }
    let mut vars = vec![];
    t.vars(&mut vars);
    u.vars(&mut vars);
    if vars.is_empty() {
        return Out::Discard("no variable");
    }
    let m = match renaming(c.s, &vars, keep) {
        Some(m) => m,
        None => return Out::Discard("not enough names"),
    };
    // defined at some valuation, so that the library has something it can do
    if valuations(&t, dom, 1).is_empty() || valuations(&u, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    if keep {
        c.class("order of the names kept");
    } else {
        c.class("any order of the names");
    }
    c.begin(format!("{} ? {} under {:?}", t.show(), u.show(), m), t.size() >= 3 && m.iter().any(|(a, b)| a != b));
    let (t2, u2) = (rename_t(&t, &m), rename_t(&u, &m));
    let (a, b) = (t.build(), t2.build());
    let (x, y) = match w {
        Work::Build => (a, b),
        Work::Expand => (a.expand(), b.expand()),
        Work::Simplify => (a.simplify(), b.simplify()),
        Work::Compare => {
            let (p, q) = (u.build(), u2.build());
            let f = |a: &Expression, p: &Expression| {
                (
                    a.comparable(p),
                    a.equal(p),
                    a.not_equal(p),
                    a.greater(p),
                    a.lesser(p),
                    a.greater_equal(p),
                    a.lesser_equal(p),
                    a == p,
                )
            };
            let (f, g) = (f(&a, &p), f(&b, &q));
            if f != g {
                return Out::Fail(format!("the comparisons are {:?}, after renaming {:?}", f, g));
            }
            if keep && a.cmp(&p) != b.cmp(&q) {
                return Out::Fail(format!("the order is {:?}, after renaming {:?}", a.cmp(&p), b.cmp(&q)));
            }
            return Out::Pass;
        }
    };
    same_renamed(&x, &y, &m)
}

fn same_renamed(x: &Expression, y: &Expression, m: &Names) -> Out {
    let (want, got) = (rename_n(&n_of(x), m), n_of(y));
    if want == got {
        match plain_names(y) {
            Some((text, other)) => Out::Fail(format!("it prints {:?}, with plain names {:?}", text, other)),
            None => Out::Pass,
        }
    } else {
        Out::Fail(format!("renaming the result gives {} but the renamed input gives {}", want.show(), got.show()))
    }
}

/// the same tree, its variables renamed in the same order to names no one
/// would treat specially
fn relabel(e: &Expression, m: &Names) -> Expression {
    let two = |o: &AssociativeOperation| AssociativeOperation::new(relabel(&o.argument(), m), relabel(&o.modifier(), m));
    let list = |a: &CommutativeAssociation| CommutativeAssociation::new(a.items().iter().map(|x| relabel(x, m)).collect());
    match e {
        Expression::Variable(v) => Symbol::variable(&m[&v.data]).expr(),
        Expression::Integer(_) | Expression::Real(_) => e.clone(),
        Expression::Power(o) => Expression::Power(two(o)),
        Expression::Logarithm(o) => Expression::Logarithm(two(o)),
        Expression::Sine(o) => Expression::Sine(Operation::new(relabel(&o.argument(), m))),
        Expression::Cossine(o) => Expression::Cossine(Operation::new(relabel(&o.argument(), m))),
        Expression::Addition(a) => Expression::Addition(list(a)),
        Expression::Multiplication(a) => Expression::Multiplication(list(a)),
    }
}

/// the two texts, if printing depends on what the variables are called
fn plain_names(e: &Expression) -> Option<(String, String)> {
    let mut names = std::collections::BTreeSet::new();
    fn all(n: &N, s: &mut std::collections::BTreeSet<String>) {
        match n {
            N::Var(v) => {
                s.insert(v.clone());
            }
            N::Int(_) | N::Real(_) => {}
            N::Mul(v) | N::Add(v) => v.iter().for_each(|x| all(x, s)),
            N::Pow(a, b) | N::Log(a, b) => {
                all(a, s);
                all(b, s);
            }
            N::Sin(a) | N::Cos(a) => all(a, s),
        }
    }
    all(&n_of(e), &mut names);
    let m: Names = names.iter().enumerate().map(|(i, n)| (n.clone(), format!("q\u{e000}{:03}q", i))).collect();
    let plain = format!("{}", relabel(e, &m));
    // put the names back, one pass
    let mut other = String::new();
    let mut rest = plain.as_str();
    while let Some(i) = rest.find("q\u{e000}") {
        other.push_str(&rest[..i]);
        let k: usize = rest[i + 4..i + 7].parse().unwrap();
        other.push_str(names.iter().nth(k).unwrap());
        rest = &rest[i + 8..];
    }
    other.push_str(rest);
    let text = format!("{}", e);
    if text == other {
        None
    } else {
        Some((text, other))
    }
}

fn renamed_poly(c: &mut Case) -> Out {
    let t = poly_case(c, false);
    if !poly_ok(&t) || est(&t) > 200.0 {
        return Out::Discard("undefined or too large");
    }
    let mut vars = vec![];
    t.vars(&mut vars);
    let m = match renaming(c.s, &vars, false) {
        Some(m) if !vars.is_empty() => m,
        _ => return Out::Discard("no variable"),
    };
    c.begin(format!("{} under {:?}", t.show(), m), t.size() >= 3);
    same_renamed(&t.build().simplify(), &rename_t(&t, &m).build().simplify(), &m)
}

/// a single variable, whatever its name, behaves as x does
fn alone(c: &mut Case) -> Out {
    let name = fresh_name(c.s);
    let k = {
        let big = c.s.chance(1, 2);
        gen_int(c.s, big)
    };
    let v = || bx(var("x"));
    let n = || bx(T::Int(k.clone()));
    let which = c.s.usize(20);
    let h = c.s.below(5) as u8;
    let w = || bx(var("y"));
    let t = match which {
        14 => T::Log(w(), v(), h),
        15 => T::Log(v(), w(), h),
        16 => T::Pow(w(), v(), h),
        17 => T::Pow(v(), w(), h),
        18 => T::Prod(vec![var("x"), var("y"), var("x")]),
        19 => T::Sum(vec![var("x"), var("y"), var("x"), T::Int(k.clone())]),
        0 => T::Add(v(), n(), h),
        1 => T::Sub(n(), v(), h),
        2 => T::Mul(v(), n(), h),
        3 => T::Div(n(), v(), h),
        4 => T::Pow(v(), n(), h),
        5 => T::Pow(bx(int(2)), v(), h),
        6 => T::Log(v(), bx(int(2)), h),
        7 => T::Log(bx(int(8)), v(), h),
        8 => T::Neg(v(), h),
        9 => T::Add(v(), v(), h),
        10 => T::Mul(v(), v(), h),
        11 => T::Div(v(), v(), h),
        12 => T::Sin(v()),
        _ => T::Sub(v(), v(), h),
    };
    if which >= 14 && name == "y" {
        return Out::Discard("the name is taken");
    }
    let m: Names = [("x".to_string(), name.clone())].into_iter().collect();
    c.begin(format!("{} with x called {:?}", t.show(), name), name != "x");
    let (a, b) = (t.build(), rename_t(&t, &m).build());
    if let Out::Fail(f) = same_renamed(&a, &b, &m) {
        return Out::Fail(f);
    }
    if let Out::Fail(f) = same_renamed(&a.clone().expand(), &b.clone().expand(), &m) {
        return Out::Fail(format!("expand: {}", f));
    }
    same_renamed(&a.simplify(), &b.simplify(), &m)
}

// ------------------------------------------------------------------- C25

/// the same tree assembled node by node, items in another order, with another
/// allocation of everything
pub fn reassemble(s: &mut u64, e: &Expression) -> Expression {
    let list = |s: &mut u64, a: &CommutativeAssociation| {
        let mut v: Vec<Expression> = a.items().iter().map(|x| reassemble(s, x)).collect();
        for i in (1..v.len()).rev() {
            *s = mix(*s, i as u64);
            let j = (*s % (i as u64 + 1)) as usize;
            v.swap(i, i - j);
        }
        CommutativeAssociation::new(v)
    };
    match e {
        Expression::Integer(n) => int_expr(&n.data.clone()),
        Expression::Real(r) => Symbol::real(r.data).expr(),
        Expression::Variable(v) => Symbol::variable(&v.data.clone()).expr(),
        Expression::Addition(a) => Expression::Addition(list(s, a)),
        Expression::Multiplication(a) => Expression::Multiplication(list(s, a)),
        Expression::Power(p) => {
            Expression::Power(AssociativeOperation::new(reassemble(s, &p.argument()), reassemble(s, &p.modifier())))
        }
        Expression::Logarithm(p) => {
            Expression::Logarithm(AssociativeOperation::new(reassemble(s, &p.argument()), reassemble(s, &p.modifier())))
        }
        Expression::Sine(a) => Expression::Sine(Operation::new(reassemble(s, &a.argument()))),
        Expression::Cossine(a) => Expression::Cossine(Operation::new(reassemble(s, &a.argument()))),
    }
}

fn interchange(c: &mut Case, kind: Kind, fl: &str) -> Out {
    let l = lane(kind, fl);
    let dom = l.dom();
    let (t, u) = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 40.0;
        let t = g.term();
        let u = match g.s.usize(4) {
            0 => T::Add(bx(t.clone()), bx(T::Int(gen_small(g.s))), 0),
            1 => t.clone(),
            _ => {
                let b = 1 + g.s.usize(5);
                g.any(b)
            }
        };
        (t, u)
    };
    let d = T::Mul(bx(t.clone()), bx(u.clone()), 0);
    if est(&d) > 150.0 || valuations(&d, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    let u_zero = match valuations(&u, dom, 4) {
        v if v.is_empty() => true,
        v => v.iter().any(|x| x.1.f.abs() < 1e-9 * (1.0 + x.1.m)),
    };
    let mut seed = c.s.below(1 << 20);
    c.begin(format!("{} with {}", t.show(), u.show()), t.size() >= 4);
    let a = t.build();
    let b = reassemble(&mut seed, &a);
    let (o, p) = (u.build(), u.build());
    if let Err(m) = identical(&a, &b) {
        return Out::Fail(format!("assembled another way: {}", m));
    }
    if let Err(m) = same_parts(&a, &b) {
        return Out::Fail(format!("equal expressions give different parts: {}", m));
    }
    let pairs: Vec<(&str, Box<dyn Fn(&Expression, &Expression) -> Expression>)> = vec![
        ("expand()", Box::new(|a, _| a.clone().expand())),
        ("simplify()", Box::new(|a, _| a.clone().simplify())),
        ("+", Box::new(|a, o| a + o)),
        ("-", Box::new(|a, o| a - o)),
        ("- from", Box::new(|a, o| o - a)),
        ("*", Box::new(|a, o| a * o)),
        ("(a + o).simplify()", Box::new(|a, o| (a + o).simplify())),
        ("(a * o).simplify()", Box::new(|a, o| (a * o).simplify())),
        ("(a - o).expand()", Box::new(|a, o| (a - o).expand())),
        ("^ 2", Box::new(|a, _| a.clone().pow(Symbol::integer(2).expr()))),
    ];
    for (what, f) in &pairs {
        let (x, y) = (f(&a, &o), f(&b, &p));
        if let Err(m) = identical(&x, &y) {
            return Out::Fail(format!("{} tells two equal expressions apart: {}", what, m));
        }
    }
    if !u_zero {
        let (x, y) = (&a / &o, &b / &p);
        if let Err(m) = identical(&x, &y) {
            return Out::Fail(format!("/ tells two equal expressions apart: {}", m));
        }
    }
    for i in 0..RULES.len() {
        let (what, x) = apply_rule(i, &a);
        let (_, y) = apply_rule(i, &b);
        if let Err(m) = identical(&x, &y) {
            return Out::Fail(format!("{} tells two equal expressions apart: {}", what, m));
        }
    }
    let f = |a: &Expression, o: &Expression| {
        (a.comparable(o), a.equal(o), a.not_equal(o), a.greater(o), a.lesser(o), a.greater_equal(o), a.lesser_equal(o), a == o, a.cmp(o))
    };
    if f(&a, &o) != f(&b, &p) {
        return Out::Fail(format!("comparisons tell two equal expressions apart: {:?} {:?}", f(&a, &o), f(&b, &p)));
    }
    if format!("{:?}", n_of(&a)) != format!("{:?}", n_of(&b)) {
        return Out::Fail("an operand changed".into());
    }
    Out::Pass
}

/// every accessor of two equal expressions gives the same, all the way down
fn same_parts(a: &Expression, b: &Expression) -> Result<(), String> {
    match (a, b) {
        (Expression::Addition(x), Expression::Addition(y)) | (Expression::Multiplication(x), Expression::Multiplication(y)) => {
            same_items(x, y)?;
            for (p, q) in x.items().iter().zip(y.items().iter()) {
                same_parts(p, q)?;
            }
            Ok(())
        }
        (Expression::Power(x), Expression::Power(y)) | (Expression::Logarithm(x), Expression::Logarithm(y)) => {
            same_parts(&x.argument(), &y.argument())?;
            same_parts(&x.modifier(), &y.modifier())
        }
        (Expression::Sine(x), Expression::Sine(y)) | (Expression::Cossine(x), Expression::Cossine(y)) => {
            same_parts(&x.argument(), &y.argument())
        }
        (a, b) => identical(a, b),
    }
}

fn same_items(x: &CommutativeAssociation, y: &CommutativeAssociation) -> Result<(), String> {
    let list = |v: Vec<Expression>| v.iter().map(n_of).collect::<Vec<_>>();
    let same = |what: &str, p: Vec<Expression>, q: Vec<Expression>| -> Result<(), String> {
        if list(p.clone()) == list(q.clone()) {
            return Ok(());
        }
        let show = |v: Vec<Expression>| v.iter().map(show_e).collect::<Vec<_>>().join(" ");
        Err(format!("{} gives [{}] and [{}]", what, show(p), show(q)))
    };
    same("items", x.items(), y.items())?;
    same("get_reals", x.get_reals(), y.get_reals())?;
    same("get_symbolics", x.get_symbolics(), y.get_symbolics())?;
    same("get_rationals", x.get_rationals(), y.get_rationals())?;
    same("get_non_rationals", x.get_non_rationals(), y.get_non_rationals())?;
    same("get_rational_numerators", x.get_rational_numerators(), y.get_rational_numerators())?;
    same("get_rational_denominators", x.get_rational_denominators(), y.get_rational_denominators())?;
    same("map", x.map(&|e| -e), y.map(&|e| -e))?;
    for keep in 0..5 {
        let f = |e: &Expression| match keep {
            0 => true,
            1 => !matches!(e, Expression::Integer(_) | Expression::Real(_)),
            2 => matches!(e, Expression::Multiplication(_) | Expression::Addition(_)),
            3 => matches!(e, Expression::Power(_) | Expression::Logarithm(_)),
            _ => matches!(e, Expression::Variable(_)),
        };
        same("get", x.get(&f), y.get(&f))?;
        same("get_one", x.get_one(&f).into_iter().collect(), y.get_one(&f).into_iter().collect())?;
    }
    Ok(())
}

/// an association of arbitrary items supplied in two orders
fn two_orders(c: &mut Case) -> Out {
    let n = match c.s.weighted(&[70, 25, 5]) {
        0 => 2 + c.s.usize(6),
        1 => 2 + c.s.usize(20),
        _ => 20 + c.s.usize(60),
    };
    let mut v: Vec<Expression> = vec![];
    for _ in 0..n {
        let b = 1 + c.s.usize(6);
        let e = if !v.is_empty() && c.s.chance(1, 5) {
            let i = c.s.usize(v.len());
            v[i].clone()
        } else {
            super::contracts::raw(c.s, b)
        };
        v.push(e);
    }
    let w = super::arith::shuffle(c.s, &v);
    if v.iter().any(negative_zero) {
        return Out::Discard("has a negative zero, which equals zero but prints otherwise");
    }
    let sum = c.s.chance(1, 2);
    c.begin(v.iter().map(show_e).collect::<Vec<_>>().join(" | "), true);
    let mk = |v: &Vec<Expression>| {
        let a = CommutativeAssociation::new(v.clone());
        if sum {
            Expression::Addition(a)
        } else {
            Expression::Multiplication(a)
        }
    };
    let (a, b) = (mk(&v), mk(&w));
    if let Err(m) = identical(&a, &b).and_then(|_| same_parts(&a, &b)) {
        return Out::Fail(m);
    }
    let third = super::contracts::raw(c.s, 3);
    if a.cmp(&third) != b.cmp(&third) || third.cmp(&a) != third.cmp(&b) || (a == third) != (b == third) {
        return Out::Fail(format!("compared with {}, the two differ", show_e(&third)));
    }
    Out::Pass
}

fn negative_zero(e: &Expression) -> bool {
    match e {
        Expression::Real(r) => r.data == 0.0 && r.data.is_sign_negative(),
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().any(negative_zero),
        Expression::Power(p) | Expression::Logarithm(p) => negative_zero(&p.argument()) || negative_zero(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => negative_zero(&p.argument()),
        _ => false,
    }
}
