//! C15 equality/order/hash, C16 printing, C20 accessors, C21 normal form.
use super::arith::shuffle;
use super::util::*;
use crate::engine::Src;
use crate::gen::*;
use crate::run::{Case, Out, Prop};
use crate::sub;
use crate::term::*;
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use num::traits::{One, Signed, Zero};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            subs: vec![
                sub!("pairs", 60_000, 1_500_000, "two expression trees built node by node, the second often a small edit of the first", pairs),
                sub!("triples", 40_000, 1_000_000, "three related expression trees", triples),
                sub!("twins", 3_000, 60_000, "two chains of up to 230 operations that are alike or differ in one place", |c| super::newer::twins(c, 200)),
                sub!("collections", 8_000, 250_000, "up to 24 related trees put in sorted, hashed and tree collections", collections),
                sub!("built", 30_000, 700_000, "two terms built through the constructors", built_pairs),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Equality)),
                sub!("reals", 60_000, 900_000, "three f64 symbols including infinities, NaN, signed zeros and subnormals", real_order),
            ],
        },
        Prop {
            id: "C16",
            subs: vec![
                sub!("built", 150_000, 1_000_000, "a term built through the constructors, printed and read back", print_built),
                sub!("raw", 150_000, 1_000_000, "an expression tree built node by node, printed and read back", print_raw),
                sub!("distinct", 200_000, 700_000, "two different trees over integers and variables print differently", print_distinct),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Print)),
            ],
        },
        Prop {
            id: "C20",
            subs: vec![
                sub!("filters", 60_000, 1_000_000, "an association of 0 to 40 arbitrary items against a list model", accessors),
                sub!("history", 40_000, 500_000, "accessors of the nodes of built, expanded and simplified terms", accessors_of_nodes),
                sub!("operations", 30_000, 500_000, "operation nodes around arbitrary trees", operations),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Accessors)),
            ],
        },
        Prop {
            id: "C21",
            subs: vec![
                sub!("built", 200_000, 1_500_000, "a term built through the constructors", |c| normal(c, Kind::Rat, "B")),
                sub!("built-real", 200_000, 1_000_000, "the same with real literals", |c| normal(c, Kind::Rat, "RT")),
                sub!("symbolic", 150_000, 800_000, "the same with symbolic exponents", |c| normal(c, Kind::SymExp, "R")),
                sub!("positive", 150_000, 800_000, "positive bases, any exponent, logarithms", |c| normal(c, Kind::Pos, "R")),
                sub!("after", 60_000, 400_000, "after expand() and simplify()", normal_after),
                sub!("long", 6_000, 60_000, "a long sum or product among the items of another, with numbers around it", long_inner),
                sub!("vast", 240, 4_000, "a sum or product of 100 to 2500 items, seldom up to 4000", |c| super::vast::vast(c, super::vast::What::Normal)),
                sub!("by-hand", 60_000, 900_000, "expand() and simplify() of a tree made node by node, not in the form the constructors give", normal_by_hand),
                sub!("constants", 200_000, 700_000, "numeric and neutral items at random places of a sum or product", constants),
            ],
        },
    ]
}

// ------------------------------------------------------------ raw trees

fn raw_real(s: &mut Src) -> f64 {
    match s.weighted(&[40, 20, 12, 28]) {
        0 => gen_real(s),
        1 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1e300][s.usize(10)],
        2 => f64::from_bits(s.below(u64::MAX)),
        _ => {
            let r = gen_real(s);
            // next representable neighbour
            if r == 0.0 {
                5e-324
            } else {
                f64::from_bits(if s.chance(1, 2) { r.to_bits() + 1 } else { r.to_bits() - 1 })
            }
        }
    }
}

fn raw_leaf(s: &mut Src) -> Expression {
    match s.weighted(&[35, 40, 25]) {
        0 => {
            let big = s.chance(1, 4);
            int_expr(&gen_int(s, big))
        }
        1 => Symbol::variable(&gen_name(s)).expr(),
        _ => Symbol::real(raw_real(s)).expr(),
    }
}

/// any node over any children
pub fn raw(s: &mut Src, b: usize) -> Expression {
    if b <= 1 {
        return raw_leaf(s);
    }
    match s.weighted(&[30, 30, 14, 10, 8, 8]) {
        k @ (0 | 1) => {
            let n = match s.weighted(&[60, 30, 10]) {
                0 => 2 + s.usize(3),
                1 => s.usize(6),
                _ => 5 + s.usize(20),
            };
            let mut v: Vec<Expression> = vec![];
            for _ in 0..n {
                if !v.is_empty() && s.chance(1, 6) {
                    let i = s.usize(v.len());
                    v.push(v[i].clone());
                } else {
                    v.push(raw(s, b / (n + 1)));
                }
            }
            let a = CommutativeAssociation::new(v);
            if k == 0 {
                Expression::Multiplication(a)
            } else {
                Expression::Addition(a)
            }
        }
        2 => {
            let l = 1 + s.usize(b - 1);
            Expression::Power(AssociativeOperation::new(raw(s, l), raw(s, b - l)))
        }
        3 => {
            let l = 1 + s.usize(b - 1);
            Expression::Logarithm(AssociativeOperation::new(raw(s, l), raw(s, b - l)))
        }
        4 => Expression::Sine(Operation::new(raw(s, b - 1))),
        _ => Expression::Cossine(Operation::new(raw(s, b - 1))),
    }
}

/// rebuild with the items in another order and possibly one edit
fn edit(s: &mut Src, e: &Expression, edits: &mut u32) -> Expression {
    if *edits > 0 && s.chance(1, 5) {
        *edits -= 1;
        match s.usize(6) {
            0 => return raw_leaf(s),
            1 => {
                // another kind of node over the same children
                return match e {
                    Expression::Multiplication(a) => Expression::Addition(a.clone()),
                    Expression::Addition(a) => Expression::Multiplication(a.clone()),
                    Expression::Power(a) => Expression::Logarithm(a.clone()),
                    Expression::Logarithm(a) => Expression::Power(a.clone()),
                    Expression::Sine(a) => Expression::Cossine(a.clone()),
                    Expression::Cossine(a) => Expression::Sine(a.clone()),
                    Expression::Integer(n) => Symbol::real(n.to_real().unwrap_or(1.0)).expr(),
                    Expression::Real(r) => {
                        if r.data.fract() == 0.0 && r.data.abs() < 1e15 {
                            Symbol::integer(r.data as isize).expr()
                        } else {
                            Symbol::real(-r.data).expr()
                        }
                    }
                    Expression::Variable(v) => Symbol::variable(&format!("{}_", v.data)).expr(),
                };
            }
            2 => {
                // swap the two operands
                if let Expression::Power(p) = e {
                    return Expression::Power(AssociativeOperation::new(p.modifier(), p.argument()));
                }
                if let Expression::Logarithm(p) = e {
                    return Expression::Logarithm(AssociativeOperation::new(p.modifier(), p.argument()));
                }
            }
            3 => {
                // duplicate or drop an item
                if let Expression::Multiplication(a) | Expression::Addition(a) = e {
                    let mut v = a.items();
                    if !v.is_empty() {
                        let i = s.usize(v.len());
                        if s.chance(1, 2) {
                            v.push(v[i].clone());
                        } else {
                            v.remove(i);
                        }
                    }
                    let r = CommutativeAssociation::new(v);
                    return if matches!(e, Expression::Addition(_)) { Expression::Addition(r) } else { Expression::Multiplication(r) };
                }
            }
            4 => {
                if let Expression::Integer(n) = e {
                    return int_expr(&(n.data.clone() + BigInt::from([1, -1, 256, -2][s.usize(4)])));
                }
                if let Expression::Real(r) = e {
                    return Symbol::real(if s.chance(1, 2) { -r.data } else { r.data * 2.0 }).expr();
                }
            }
            _ => {
                // wrap
                return match s.usize(4) {
                    0 => Expression::Sine(Operation::new(e.clone())),
                    1 => Expression::Addition(CommutativeAssociation::new(vec![e.clone()])),
                    2 => Expression::Multiplication(CommutativeAssociation::new(vec![e.clone()])),
                    _ => Expression::Power(AssociativeOperation::new(e.clone(), Symbol::integer(1).expr())),
                };
            }
        }
    }
    let assoc = |s: &mut Src, a: &CommutativeAssociation, edits: &mut u32| {
        let v: Vec<Expression> = a.items().iter().map(|x| edit(s, x, edits)).collect();
        CommutativeAssociation::new(shuffle(s, &v))
    };
    match e {
        Expression::Multiplication(a) => Expression::Multiplication(assoc(s, a, edits)),
        Expression::Addition(a) => Expression::Addition(assoc(s, a, edits)),
        Expression::Power(p) => {
            let x = edit(s, &p.argument(), edits);
            Expression::Power(AssociativeOperation::new(x, edit(s, &p.modifier(), edits)))
        }
        Expression::Logarithm(p) => {
            let x = edit(s, &p.argument(), edits);
            Expression::Logarithm(AssociativeOperation::new(x, edit(s, &p.modifier(), edits)))
        }
        Expression::Sine(a) => Expression::Sine(Operation::new(edit(s, &a.argument(), edits))),
        Expression::Cossine(a) => Expression::Cossine(Operation::new(edit(s, &a.argument(), edits))),
        x => x.clone(),
    }
}

fn related(s: &mut Src, e: &Expression) -> Expression {
    match s.usize(5) {
        0 => edit(s, e, &mut 0),
        1 | 2 => edit(s, e, &mut 1),
        3 => edit(s, e, &mut 3),
        _ => {
            let n = 1 + s.usize(12);
            raw(s, n)
        }
    }
}

/// position of the kinds, smallest first
fn rank(e: &Expression) -> u8 {
    match e {
        Expression::Real(_) => 0,
        Expression::Integer(_) => 1,
        Expression::Variable(_) => 2,
        Expression::Power(_) => 3,
        Expression::Logarithm(_) => 4,
        Expression::Sine(_) => 5,
        Expression::Cossine(_) => 6,
        Expression::Multiplication(_) => 7,
        Expression::Addition(_) => 8,
    }
}

pub fn pair_laws(a: &Expression, b: &Expression) -> Result<(), String> {
    let same = n_of(a) == n_of(b);
    let show = || format!("{} and {}", show_e(a), show_e(b));
    if (a == b) != same {
        return Err(format!("== says {} for {}", a == b, show()));
    }
    if (b == a) != same || (a != b) == same {
        return Err(format!("== is not symmetric, or != is not its negation, for {}", show()));
    }
    let (o, r) = (a.cmp(b), b.cmp(a));
    if o != r.reverse() {
        return Err(format!("cmp is {:?} one way and {:?} the other for {}", o, r, show()));
    }
    if (o == Ordering::Equal) != same {
        return Err(format!("cmp says {:?} for {}", o, show()));
    }
    if a.partial_cmp(b) != Some(o) {
        return Err(format!("partial_cmp differs from cmp for {}", show()));
    }
    if (a < b) != (o == Ordering::Less) || (a > b) != (o == Ordering::Greater) || (a <= b) != (o != Ordering::Greater) {
        return Err(format!("the comparison operators differ from cmp for {}", show()));
    }
    if same && hash_e(a) != hash_e(b) {
        return Err(format!("equal values hash differently: {}", show()));
    }
    let (ra, rb) = (rank(a), rank(b));
    if ra != rb && o != ra.cmp(&rb) {
        return Err(format!("kinds out of order ({:?}) for {}", o, show()));
    }
    let want = match (a, b) {
        (Expression::Integer(x), Expression::Integer(y)) => Some(x.data.cmp(&y.data)),
        (Expression::Variable(x), Expression::Variable(y)) => Some(x.data.cmp(&y.data)),
        (Expression::Real(x), Expression::Real(y)) => x.data.partial_cmp(&y.data),
        _ => None,
    };
    if let Some(w) = want {
        if w != o {
            return Err(format!("expected {:?} but cmp says {:?} for {}", w, o, show()));
        }
    }
    Ok(())
}

fn pairs(c: &mut Case) -> Out {
    let n = 1 + c.s.usize(20);
    let a = raw(c.s, n);
    let b = related(c.s, &a);
    let same = n_of(&a) == n_of(&b);
    c.class(if same { "equal" } else { "different" });
    c.begin(format!("{} | {}", show_e(&a), show_e(&b)), n_of(&a).size() >= 2);
    if let Err(m) = pair_laws(&a, &a.clone()) {
        return Out::Fail(m);
    }
    if let Err(m) = pair_laws(&a, &b) {
        return Out::Fail(m);
    }
    // an association only depends on its items
    let x = CommutativeAssociation::new(vec![a.clone(), b.clone()]);
    let y = CommutativeAssociation::new(vec![b.clone(), a.clone()]);
    if x != y || x.cmp(&y) != Ordering::Equal {
        return Out::Fail("the order of the items given to an association matters".into());
    }
    // Operation and AssociativeOperation agree with their parts
    let (p, q) = (Operation::new(a.clone()), Operation::new(b.clone()));
    if (p == q) != same || (p.cmp(&q) == Ordering::Equal) != same {
        return Out::Fail("operations around the two compare differently".into());
    }
    let (p, q) = (AssociativeOperation::new(a.clone(), b.clone()), AssociativeOperation::new(b.clone(), a.clone()));
    if (p == q) != same || (p.cmp(&q) == Ordering::Equal) != same || p.cmp(&q) != q.cmp(&p).reverse() {
        return Out::Fail("associative operations around the two compare differently".into());
    }
    Out::Pass
}

fn triples(c: &mut Case) -> Out {
    let n = 1 + c.s.usize(16);
    let a = raw(c.s, n);
    let b = related(c.s, &a);
    let d = if c.s.chance(1, 2) { related(c.s, &a) } else { related(c.s, &b) };
    c.begin(format!("{} | {} | {}", show_e(&a), show_e(&b), show_e(&d)), n_of(&a).size() >= 2);
    let v = [&a, &b, &d];
    for i in 0..3 {
        for j in 0..3 {
            if let Err(m) = pair_laws(v[i], v[j]) {
                return Out::Fail(m);
            }
            for k in 0..3 {
                let (x, y, z) = (v[i].cmp(v[j]), v[j].cmp(v[k]), v[i].cmp(v[k]));
                if x != Ordering::Greater && y != Ordering::Greater {
                    let want = if x == Ordering::Equal && y == Ordering::Equal { Ordering::Equal } else { Ordering::Less };
                    if z != want {
                        return Out::Fail(format!(
                            "not transitive: {} {:?} {} {:?} {}, yet {:?}",
                            show_e(v[i]),
                            x,
                            show_e(v[j]),
                            y,
                            show_e(v[k]),
                            z
                        ));
                    }
                }
            }
        }
    }
    Out::Pass
}

fn collections(c: &mut Case) -> Out {
    let n = 3 + c.s.usize(22);
    let mut v: Vec<Expression> = vec![];
    for _ in 0..n {
        let e = if !v.is_empty() && c.s.chance(3, 5) {
            let i = c.s.usize(v.len());
            let x = v[i].clone();
            related(c.s, &x)
        } else {
            let b = 1 + c.s.usize(8);
            raw(c.s, b)
        };
        v.push(e);
    }
    let w = shuffle(c.s, &v);
    c.begin(v.iter().map(show_e).collect::<Vec<_>>().join(" | "), true);
    let distinct: BTreeSet<N> = v.iter().map(n_of).collect();
    let hs: HashSet<Expression> = v.iter().cloned().collect();
    let bs: BTreeSet<Expression> = v.iter().cloned().collect();
    if hs.len() != distinct.len() || bs.len() != distinct.len() {
        return Out::Fail(format!("{} distinct values, {} in a hash set, {} in a tree set", distinct.len(), hs.len(), bs.len()));
    }
    for x in &w {
        if !hs.contains(x) || !bs.contains(x) {
            return Out::Fail(format!("{} is not found in the set it was put in", show_e(x)));
        }
    }
    let mut hm: HashMap<Expression, usize> = HashMap::new();
    let mut nm: BTreeMap<N, usize> = BTreeMap::new();
    for x in &v {
        *hm.entry(x.clone()).or_insert(0) += 1;
        *nm.entry(n_of(x)).or_insert(0) += 1;
    }
    for x in &v {
        if hm.get(x) != nm.get(&n_of(x)) {
            return Out::Fail(format!("a hash map counts {} {:?} times", show_e(x), hm.get(x)));
        }
    }
    let (mut p, mut q) = (v.clone(), w.clone());
    p.sort();
    q.sort();
    let show = |v: &Vec<Expression>| v.iter().map(n_of).collect::<Vec<_>>();
    if show(&p) != show(&q) {
        return Out::Fail("sorting depends on the initial order".into());
    }
    for i in 1..p.len() {
        if p[i - 1] > p[i] {
            return Out::Fail("the sorted list is not sorted".into());
        }
    }
    if CommutativeAssociation::new(v.clone()) != CommutativeAssociation::new(w.clone()) {
        return Out::Fail("the order of the items given to an association matters".into());
    }
    let (x, y) = (
        Expression::Addition(CommutativeAssociation::new(v)),
        Expression::Addition(CommutativeAssociation::new(w)),
    );
    ok(pair_laws(&x, &y))
}

fn built_pairs(c: &mut Case) -> Out {
    let l = match c.s.usize(3) {
        0 => lane(Kind::Rat, "BT"),
        1 => lane(Kind::Rat, "R"),
        _ => lane(Kind::Pos, "R"),
    };
    let dom = l.dom();
    let (a, b) = {
        let mut g = G::new(c.s, l);
        let a = g.term();
        let b = if g.s.chance(1, 2) {
            T::Add(bx(a.clone()), bx(g.any(1)), 0)
        } else {
            g.term()
        };
        (a, b)
    };
    if valuations(&a, dom, 1).is_empty() || valuations(&b, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(format!("{} | {}", a.show(), b.show()), a.size() >= 3);
    let (x, y) = (a.build(), b.build());
    if let Err(m) = pair_laws(&x, &x.clone()) {
        return Out::Fail(m);
    }
    ok(pair_laws(&x, &y))
}

fn hash_of<A: std::hash::Hash>(a: &A) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

fn real_order(c: &mut Case) -> Out {
    let v: Vec<f64> = (0..3)
        .map(|_| {
            if c.s.chance(1, 3) {
                [0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, -1.0, 5e-324, -5e-324][c.s.usize(10)]
            } else {
                raw_real(c.s)
            }
        })
        .collect();
    c.begin(format!("{:?}", v), true);
    let s: Vec<Symbol<f64>> = v.iter().map(|x| Symbol::real(*x)).collect();
    // reference order: by value, zeros equal, NaN last and equal to itself
    let key = |x: f64| -> (u8, i128) {
        if x.is_nan() {
            (1, 0)
        } else if x == 0.0 {
            (0, 0)
        } else {
            let b = (x.abs().to_bits()) as i128;
            (0, if x < 0.0 { -b } else { b })
        }
    };
    for i in 0..3 {
        for j in 0..3 {
            let w = key(v[i]).cmp(&key(v[j]));
            let o = s[i].cmp(&s[j]);
            if w != o {
                return Out::Fail(format!("{:?} against {:?}: {:?}", v[i], v[j], o));
            }
            if (s[i] == s[j]) != (w == Ordering::Equal) || s[i].partial_cmp(&s[j]) != Some(w) {
                return Out::Fail(format!("== or partial_cmp disagree with cmp for {:?} and {:?}", v[i], v[j]));
            }
            if (s[i] < s[j]) != (w == Ordering::Less) || (s[i] > s[j]) != (w == Ordering::Greater) {
                return Out::Fail(format!("< or > disagree with cmp for {:?} and {:?}", v[i], v[j]));
            }
            if w == Ordering::Equal && hash_of(&s[i]) != hash_of(&s[j]) {
                return Out::Fail(format!("{:?} and {:?} are equal but hash differently", v[i], v[j]));
            }
        }
    }
    Out::Pass
}

// ------------------------------------------------------------------- C16

#[derive(Debug, Clone)]
enum P {
    Num(String),
    Name(String),
    Add(Vec<P>),
    Mul(Vec<P>),
    /// one item in parentheses
    Group(Box<P>),
    Call(String, Vec<P>),
}

struct Parser {
    b: Vec<char>,
    i: usize,
}

impl Parser {
    fn parse(text: &str) -> Result<P, String> {
        let mut p = Parser { b: text.chars().collect(), i: 0 };
        let e = p.expr()?;
        if p.i != p.b.len() {
            return Err(format!("unexpected text at {}", p.i));
        }
        Ok(e)
    }
    fn skip(&mut self) {
        while self.i < self.b.len() && self.b[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.b.get(self.i).cloned()
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        self.skip();
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c, self.i))
        }
    }
    fn expr(&mut self) -> Result<P, String> {
        self.skip();
        match self.peek() {
            Some('(') => {
                self.i += 1;
                let mut v = vec![self.expr()?];
                self.skip();
                let op = match self.peek() {
                    Some(')') => {
                        self.i += 1;
                        return Ok(P::Group(Box::new(v.pop().unwrap())));
                    }
                    Some(c) if c == '+' || c == '*' => c,
                    _ => return Err(format!("expected an operator at {}", self.i)),
                };
                loop {
                    self.skip();
                    if self.peek() == Some(')') {
                        self.i += 1;
                        break;
                    }
                    self.eat(op)?;
                    v.push(self.expr()?);
                }
                Ok(if op == '+' { P::Add(v) } else { P::Mul(v) })
            }
            Some(c) if c == '-' || c.is_ascii_digit() => {
                let st = self.i;
                self.i += 1;
                while let Some(c) = self.peek() {
                    if c.is_ascii_digit() || c == '.' || c == 'e' || c == 'E' {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Ok(P::Num(self.b[st..self.i].iter().collect()))
            }
            Some(c) if !c.is_whitespace() && !"(),+*".contains(c) => {
                let st = self.i;
                while let Some(c) = self.peek() {
                    if !c.is_whitespace() && !"(),+*".contains(c) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                let name: String = self.b[st..self.i].iter().collect();
                if self.peek() == Some('(') {
                    self.i += 1;
                    let mut v = vec![self.expr()?];
                    loop {
                        self.skip();
                        match self.peek() {
                            Some(',') => {
                                self.i += 1;
                                v.push(self.expr()?);
                            }
                            Some(')') => {
                                self.i += 1;
                                return Ok(P::Call(name, v));
                            }
                            _ => return Err(format!("expected , or ) at {}", self.i)),
                        }
                    }
                }
                Ok(P::Name(name))
            }
            _ => Err(format!("unexpected text at {}", self.i)),
        }
    }
}

fn reads_as(p: &P, e: &Expression) -> bool {
    let call = |name: &str, want: Vec<Expression>| -> bool {
        match p {
            P::Call(n, v) => n == name && v.len() == want.len() && v.iter().zip(want.iter()).all(|(a, b)| reads_as(a, b)),
            _ => false,
        }
    };
    let items = |v: Vec<P>, a: &CommutativeAssociation| -> bool {
        let mut left = a.items();
        if left.len() != v.len() {
            return false;
        }
        for x in v {
            match left.iter().position(|y| reads_as(&x, y)) {
                Some(i) => {
                    left.remove(i);
                }
                None => return false,
            }
        }
        true
    };
    match e {
        Expression::Integer(n) => match p {
            P::Num(t) => BigInt::parse_bytes(t.as_bytes(), 10) == Some(n.data.clone()),
            _ => false,
        },
        Expression::Real(r) => match p {
            P::Num(t) => t.parse::<f64>().map(|x| x == r.data).unwrap_or(false),
            _ => false,
        },
        Expression::Variable(v) => matches!(p, P::Name(n) if *n == v.data),
        Expression::Power(q) => call("pow", vec![q.argument(), q.modifier()]),
        Expression::Logarithm(q) => call("log", vec![q.argument(), q.modifier()]),
        Expression::Sine(q) => call("sin", vec![q.argument()]),
        Expression::Cossine(q) => call("cos", vec![q.argument()]),
        Expression::Addition(a) => match p {
            P::Add(v) => items(v.clone(), a),
            P::Group(x) => items(vec![(**x).clone()], a),
            _ => false,
        },
        Expression::Multiplication(a) => match p {
            P::Mul(v) => items(v.clone(), a),
            P::Group(x) => items(vec![(**x).clone()], a),
            _ => false,
        },
    }
}

pub fn faithful(e: &Expression) -> Out {
    let t = format!("{}", e);
    if format!("{}", e) != t {
        return Out::Fail("printing twice gives different texts".into());
    }
    match Parser::parse(&t) {
        Err(m) => Out::Fail(format!("{} prints as {:?}, which cannot be read: {}", show_e(e), t, m)),
        Ok(p) => {
            if reads_as(&p, e) {
                Out::Pass
            } else {
                Out::Fail(format!("{} prints as {:?}", show_e(e), t))
            }
        }
    }
}

fn print_built(c: &mut Case) -> Out {
    let l = match c.s.usize(4) {
        0 => lane(Kind::Rat, "BH"),
        1 => lane(Kind::Rat, "RT"),
        2 => lane(Kind::SymExp, "R"),
        _ => lane(Kind::Pos, "R"),
    };
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 40.0;
        g.term()
    };
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    classify(c, &t);
    c.begin(t.show(), t.size() >= 3);
    faithful(&t.build())
}

fn printable(e: &Expression) -> bool {
    match e {
        Expression::Real(r) => r.data.is_finite(),
        Expression::Addition(a) | Expression::Multiplication(a) => !a.items().is_empty() && a.items().iter().all(printable),
        Expression::Power(p) | Expression::Logarithm(p) => printable(&p.argument()) && printable(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => printable(&p.argument()),
        _ => true,
    }
}

fn print_raw(c: &mut Case) -> Out {
    let n = 1 + c.s.usize(24);
    let e = raw(c.s, n);
    if !printable(&e) {
        return Out::Discard("an empty association or a non-finite real");
    }
    c.begin(show_e(&e), n_of(&e).size() >= 3);
    faithful(&e)
}

fn no_reals(e: &Expression) -> bool {
    let mut s = vec![n_of(e)];
    while let Some(n) = s.pop() {
        if let N::Real(_) = n {
            return false;
        }
        s.extend(n.kids().into_iter().cloned());
    }
    true
}

fn short(e: &Expression) -> bool {
    match e {
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().len() < 2 || a.items().iter().any(short),
        Expression::Power(p) | Expression::Logarithm(p) => short(&p.argument()) || short(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => short(&p.argument()),
        _ => false,
    }
}

/// the same tree with integers for its reals and no association of fewer than two items
fn no_reals_in(e: &Expression) -> Expression {
    let list = |a: &CommutativeAssociation| -> CommutativeAssociation {
        let mut v: Vec<Expression> = a.items().iter().map(no_reals_in).collect();
        while v.len() < 2 {
            v.push(Symbol::variable("a").expr());
        }
        CommutativeAssociation::new(v)
    };
    match e {
        Expression::Real(r) => Symbol::integer((r.data.to_bits() % 23) as isize - 7).expr(),
        Expression::Addition(a) => Expression::Addition(list(a)),
        Expression::Multiplication(a) => Expression::Multiplication(list(a)),
        Expression::Power(p) => Expression::Power(AssociativeOperation::new(no_reals_in(&p.argument()), no_reals_in(&p.modifier()))),
        Expression::Logarithm(p) => {
            Expression::Logarithm(AssociativeOperation::new(no_reals_in(&p.argument()), no_reals_in(&p.modifier())))
        }
        Expression::Sine(a) => Expression::Sine(Operation::new(no_reals_in(&a.argument()))),
        Expression::Cossine(a) => Expression::Cossine(Operation::new(no_reals_in(&a.argument()))),
        x => x.clone(),
    }
}

fn print_distinct(c: &mut Case) -> Out {
    let n = 2 + c.s.usize(12);
    let a = no_reals_in(&raw(c.s, n));
    let b = no_reals_in(&related(c.s, &a));
    if !no_reals(&a) || !no_reals(&b) || short(&a) || short(&b) {
        return Out::Discard("has a real literal or an association of fewer than two items");
    }
    c.begin(format!("{} | {}", show_e(&a), show_e(&b)), true);
    let same = n_of(&a) == n_of(&b);
    c.class(if same { "equal" } else { "different" });
    let (x, y) = (format!("{}", a), format!("{}", b));
    if (x == y) == same {
        Out::Pass
    } else if same {
        Out::Fail(format!("equal expressions print as {:?} and {:?}", x, y))
    } else {
        Out::Fail(format!("{} and {} both print as {:?}", show_e(&a), show_e(&b), x))
    }
}

// ------------------------------------------------------------------- C20

fn int_power(n: &N) -> bool {
    matches!(n, N::Pow(b, e) if matches!((&**b, &**e), (N::Int(_), N::Int(_))))
}
fn rational_item(n: &N) -> bool {
    match n {
        N::Int(_) => true,
        N::Mul(v) => v.iter().all(|x| matches!(x, N::Int(_)) || int_power(x)),
        x => int_power(x),
    }
}

fn sorted(mut v: Vec<N>) -> Vec<N> {
    v.sort();
    v
}

pub fn check_accessors(a: &CommutativeAssociation, given: Option<&[Expression]>) -> Result<(), String> {
    let items = a.items();
    let ns: Vec<N> = items.iter().map(n_of).collect();
    if let Some(g) = given {
        if sorted(ns.clone()) != sorted(g.iter().map(n_of).collect()) {
            return Err("items() is not what the association was made of".into());
        }
    }
    for i in 1..items.len() {
        if items[i - 1].cmp(&items[i]) == Ordering::Greater {
            return Err(format!("items() is not in ascending order: {} before {}", ns[i - 1].show(), ns[i].show()));
        }
    }
    if a.items().iter().map(n_of).collect::<Vec<_>>() != ns {
        return Err("items() differs the second time".into());
    }
    let again = CommutativeAssociation::new(items.clone());
    if again != *a || again.items().iter().map(n_of).collect::<Vec<_>>() != ns {
        return Err("an association made of items() differs".into());
    }
    let want = |f: &dyn Fn(&N) -> bool| -> Vec<N> { ns.iter().filter(|x| f(x)).cloned().collect() };
    let same = |what: &str, got: Vec<Expression>, want: Vec<N>| -> Result<(), String> {
        let got: Vec<N> = got.iter().map(n_of).collect();
        if got == want {
            Ok(())
        } else {
            Err(format!(
                "{} gives [{}] instead of [{}]",
                what,
                got.iter().map(|x| x.show()).collect::<Vec<_>>().join(" "),
                want.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")
            ))
        }
    };
    same("get_reals", a.get_reals(), want(&|x| matches!(x, N::Real(_))))?;
    same("get_rational_numerators", a.get_rational_numerators(), want(&|x| matches!(x, N::Int(_))))?;
    same(
        "get_rational_denominators",
        a.get_rational_denominators(),
        want(&int_power)
            .into_iter()
            .map(|x| match x {
                N::Pow(b, _) => *b,
                _ => unreachable!(),
            })
            .collect(),
    )?;
    same("get_rationals", a.get_rationals(), want(&rational_item))?;
    same("get_non_rationals", a.get_non_rationals(), want(&|x| !rational_item(x)))?;
    same("get_symbolics", a.get_symbolics(), want(&|x| !matches!(x, N::Int(_) | N::Real(_)) && !int_power(x)))?;
    for mask in [0u16, 511, 3, 4, 8, 128, 256, 0b10101] {
        let f = |e: &Expression| mask & (1 << rank(e)) != 0;
        let w: Vec<N> = items.iter().filter(|e| f(e)).map(n_of).collect();
        same("get", a.get(&f), w.clone())?;
        let one = a.get_one(&f).map(|e| n_of(&e));
        if one != w.first().cloned() {
            return Err(format!("get_one gives {:?}", one.map(|x| x.show())));
        }
    }
    let wrapped = a.map(&|e| Expression::Sine(Operation::new(e.clone())));
    same("map", wrapped, ns.iter().map(|x| N::Sin(Box::new(x.clone()))).collect())?;
    if a.items().iter().map(n_of).collect::<Vec<_>>() != ns {
        return Err("the accessors changed the association".into());
    }
    Ok(())
}

fn accessors(c: &mut Case) -> Out {
    let n = match c.s.weighted(&[60, 25, 15]) {
        0 => c.s.usize(7),
        1 => 4 + c.s.usize(14),
        _ => c.s.usize(41),
    };
    let mut v: Vec<Expression> = vec![];
    for _ in 0..n {
        let s = &mut *c.s;
        let e = match s.weighted(&[20, 12, 20, 14, 14, 14, 6]) {
            0 => int_expr(&gen_int(s, true)),
            1 => Symbol::real(raw_real(s)).expr(),
            2 => {
                let b = 1 + s.usize(5);
                raw(s, b)
            }
            3 => raw_pow(int_expr(&gen_int(s, false)), int_expr(&gen_small(s))),
            4 => {
                // products of integers and inverses, sometimes with something else
                let k = 1 + s.usize(4);
                let mut f: Vec<Expression> = vec![];
                for _ in 0..k {
                    f.push(match s.weighted(&[4, 4, 2]) {
                        0 => int_expr(&gen_int(s, false)),
                        1 => raw_pow(int_expr(&gen_int(s, false)), Symbol::integer(-1).expr()),
                        _ => raw_leaf(s),
                    });
                }
                Expression::Multiplication(CommutativeAssociation::new(f))
            }
            5 => {
                // near misses: integer to a variable, variable to an integer, real to an integer
                match s.usize(3) {
                    0 => raw_pow(int_expr(&gen_int(s, false)), Symbol::variable(&gen_name(s)).expr()),
                    1 => raw_pow(Symbol::variable(&gen_name(s)).expr(), Symbol::integer(-1).expr()),
                    _ => raw_pow(Symbol::real(raw_real(s)).expr(), Symbol::integer(-1).expr()),
                }
            }
            _ => {
                if v.is_empty() {
                    raw_leaf(s)
                } else {
                    let i = s.usize(v.len());
                    v[i].clone()
                }
            }
        };
        v.push(e);
    }
    c.begin(v.iter().map(show_e).collect::<Vec<_>>().join(" | "), n >= 2);
    let a = CommutativeAssociation::new(v.clone());
    ok(check_accessors(&a, Some(&v)))
}

fn walk(e: &Expression, f: &mut dyn FnMut(&CommutativeAssociation) -> Result<(), String>) -> Result<(), String> {
    match e {
        Expression::Addition(a) | Expression::Multiplication(a) => {
            f(a)?;
            for x in a.items() {
                walk(&x, f)?;
            }
            Ok(())
        }
        Expression::Power(p) | Expression::Logarithm(p) => {
            walk(&p.argument(), f)?;
            walk(&p.modifier(), f)
        }
        Expression::Sine(p) | Expression::Cossine(p) => walk(&p.argument(), f),
        _ => Ok(()),
    }
}

fn accessors_of_nodes(c: &mut Case) -> Out {
    let l = match c.s.usize(3) {
        0 => lane(Kind::Rat, "BH"),
        1 => lane(Kind::Rat, "RT"),
        _ => lane(Kind::SymExp, "R"),
    };
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 40.0;
        g.term()
    };
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(t.show(), t.size() >= 3);
    let e = t.build();
    if let Err(m) = walk(&e, &mut |a| check_accessors(a, None)) {
        return Out::Fail(m);
    }
    let x = e.simplify();
    ok(walk(&x, &mut |a| check_accessors(a, None)))
}

fn operations(c: &mut Case) -> Out {
    let (n, m) = (1 + c.s.usize(10), 1 + c.s.usize(10));
    let a = raw(c.s, n);
    let b = raw(c.s, m);
    c.begin(format!("{} | {}", show_e(&a), show_e(&b)), true);
    let (na, nb) = (n_of(&a), n_of(&b));
    let o = Operation::new(a.clone());
    if n_of(&o.argument()) != na || n_of(&o.clone().argument()) != na || o.argument() != a {
        return Out::Fail("argument() of an operation is not what it was made of".into());
    }
    let p = AssociativeOperation::new(a.clone(), b.clone());
    if n_of(&p.argument()) != na || n_of(&p.modifier()) != nb {
        return Out::Fail("argument() or modifier() is not what the operation was made of".into());
    }
    let q = p.clone();
    if n_of(&q.argument()) != na || n_of(&q.modifier()) != nb || p != q {
        return Out::Fail("a clone differs".into());
    }
    for e in [
        Expression::Power(p.clone()),
        Expression::Logarithm(p.clone()),
        Expression::Sine(o.clone()),
        Expression::Cossine(o.clone()),
    ] {
        let d = e.clone();
        if let Err(m) = identical(&e, &d) {
            return Out::Fail(format!("a clone differs: {}", m));
        }
    }
    Out::Pass
}

// ------------------------------------------------------------------- C21

fn one_real(r: u64) -> bool {
    f64::from_bits(r) == 1.0
}
fn zero_real(r: u64) -> bool {
    f64::from_bits(r) == 0.0
}
fn neutral(n: &N, k: i64) -> bool {
    match n {
        N::Int(x) => *x == BigInt::from(k),
        N::Real(r) => f64::from_bits(*r) == k as f64,
        _ => false,
    }
}

pub fn normal_form(n: &N) -> Result<(), String> {
    let bad = |why: &str| Err(format!("{}: {}", why, n.show()));
    let count = |v: &Vec<N>, f: &dyn Fn(&N) -> bool| v.iter().filter(|x| f(x)).count();
    match n {
        N::Add(v) => {
            if v.len() < 2 {
                return bad("a sum of fewer than two items");
            }
            if v.iter().any(|x| matches!(x, N::Add(_))) {
                return bad("a sum directly inside a sum");
            }
            if v.iter().any(|x| neutral(x, 0)) {
                return bad("a zero addend");
            }
            // a real of -1.0 becomes the integer -1 when its sign is split off
            if count(v, &|x| matches!(x, N::Int(k) if *k != BigInt::from(-1))) > 1 {
                return bad("two integer addends");
            }
            if count(v, &|x| matches!(x, N::Real(_))) > 1 {
                return bad("two real addends");
            }
        }
        N::Mul(v) => {
            if v.len() < 2 {
                return bad("a product of fewer than two items");
            }
            if v.iter().any(|x| matches!(x, N::Mul(_))) {
                return bad("a product directly inside a product");
            }
            if v.iter().any(|x| neutral(x, 1)) {
                return bad("a factor of one");
            }
            if v.iter().any(|x| neutral(x, 0)) {
                return bad("a factor of zero");
            }
            if count(v, &|x| matches!(x, N::Int(_))) > 1 {
                return bad("two integer factors");
            }
            if count(v, &|x| matches!(x, N::Real(_))) > 1 {
                return bad("two real factors");
            }
            if v.iter().any(|x| matches!(x, N::Real(r) if f64::from_bits(*r) < 0.0)) {
                return bad("a negative real factor whose sign is not separate");
            }
        }
        N::Pow(b, e) => {
            if matches!(**b, N::Pow(_, _)) {
                return bad("a power of a power");
            }
            if neutral(b, 0) || neutral(b, 1) {
                return bad("a power of zero or one");
            }
            if neutral(e, 0) || neutral(e, 1) {
                return bad("a neutral exponent");
            }
            if let N::Mul(v) = &**b {
                if v.iter().any(|x| matches!(x, N::Int(_) | N::Real(_))) {
                    return bad("a power of a product with a numeric factor");
                }
            }
            match (&**b, &**e) {
                (N::Int(x), N::Int(k)) => {
                    if *k != BigInt::from(-1) || *x <= BigInt::one() {
                        return bad("an integer power that is not the inverse of an integer above one");
                    }
                }
                (N::Real(_), N::Real(_)) => return bad("a real power of a real"),
                (N::Real(_), N::Int(k)) if k.bits() < 900 => return bad("an integer power of a real"),
                (N::Int(k), N::Real(_)) if k.bits() < 900 => return bad("a real power of an integer"),
                (x, N::Log(_, y)) if *x == **y => return bad("a power of its own logarithm"),
                _ => {}
            }
        }
        N::Log(a, b) => {
            match (&**a, &**b) {
                (N::Real(_), N::Real(_)) => return bad("a logarithm of two reals"),
                (N::Pow(x, _), y) if **x == *y => return bad("a logarithm of a power of its base"),
                (N::Int(x), N::Int(y)) if x.is_positive() && *y > BigInt::one() => {
                    let mut z = x.clone();
                    while (&z % y).is_zero() {
                        z = z / y;
                    }
                    if z.is_one() {
                        return bad("a logarithm of an integer power of its integer base");
                    }
                }
                _ => {}
            }
        }
        _ => {}
    }
    let _ = (one_real(0), zero_real(0));
    for k in n.kids() {
        normal_form(k)?;
    }
    Ok(())
}

fn normal(c: &mut Case, kind: Kind, fl: &str) -> Out {
    let l = lane(kind, fl);
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        g.term()
    };
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    classify(c, &t);
    c.begin(t.show(), t.size() >= 3);
    ok(normal_form(&n_of(&t.build())))
}

fn normal_after(c: &mut Case) -> Out {
    let (kind, fl) = [(Kind::Rat, "BT"), (Kind::Rat, "R"), (Kind::SymExp, ""), (Kind::Pos, "R")][c.s.usize(4)];
    let l = lane(kind, fl);
    let dom = l.dom();
    let t = {
        let mut g = G::new(c.s, l);
        g.lane.max_monomials = 60.0;
        g.term()
    };
    if valuations(&t, dom, 1).is_empty() {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    classify(c, &t);
    c.begin(t.show(), t.size() >= 3);
    let e = t.build();
    let x = e.clone().expand();
    if let Err(m) = normal_form(&n_of(&x)) {
        return Out::Fail(format!("after expand(): {}", m));
    }
    ok(normal_form(&n_of(&e.simplify())).map_err(|m| format!("after simplify(): {}", m)))
}

/// the numeric part of a flat sum or product is exactly what its items add up to
fn constants(c: &mut Case) -> Out {
    let sum = c.s.chance(1, 2);
    let n = if c.s.chance(1, 100) { 30 + c.s.usize(270) } else { 1 + c.s.usize(10) };
    let mut v: Vec<T> = vec![];
    let mut total = if sum { BigInt::zero() } else { BigInt::one() };
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    let mut zero = false;
    for _ in 0..n {
        let s = &mut *c.s;
        let t = match s.weighted(&[40, 30, 15, 15]) {
            0 => {
                let k = gen_int(s, true);
                if k.is_zero() {
                    zero = true;
                }
                if sum {
                    total = total + &k;
                } else {
                    total = total * &k;
                }
                T::Int(k)
            }
            1 => {
                let n = gen_name(s);
                *names.entry(n.clone()).or_insert(0) += 1;
                T::Var(n)
            }
            2 => {
                // neutral items
                match (sum, s.usize(4)) {
                    (true, 0) => int(0),
                    (true, 1) => T::Real(0.0),
                    (true, 2) => T::Real(-0.0),
                    (true, _) => T::Sum(vec![]),
                    (false, 0) => int(1),
                    (false, 1) => T::Real(1.0),
                    (false, _) => T::Prod(vec![]),
                }
            }
            _ => {
                // a nested group of the same kind
                let k = s.usize(4);
                let mut w = vec![];
                for _ in 0..k {
                    if s.chance(1, 2) {
                        let n = gen_name(s);
                        *names.entry(n.clone()).or_insert(0) += 1;
                        w.push(T::Var(n));
                    } else {
                        let k = BigInt::from(s.range(1, 40));
                        if sum {
                            total = total + &k;
                        } else {
                            total = total * &k;
                        }
                        w.push(T::Int(k));
                    }
                }
                if sum {
                    T::Sum(w)
                } else {
                    T::Prod(w)
                }
            }
        };
        v.push(t);
    }
    let t = if sum { T::Sum(v) } else { T::Prod(v) };
    c.begin(t.show(), n >= 3);
    let got = n_of(&t.build());
    let mut items: Vec<N> = vec![];
    for (k, m) in &names {
        for _ in 0..*m {
            items.push(N::Var(k.clone()));
        }
    }
    let want = if !sum && (zero || total.is_zero()) {
        N::Int(BigInt::zero())
    } else if sum {
        if items.is_empty() {
            N::Int(total)
        } else {
            if total.is_positive() {
                items.push(N::Int(total));
            } else if total.is_negative() {
                let m = -&total;
                items.push(if m.is_one() {
                    N::Int(total)
                } else {
                    N::Mul(vec![N::Int(BigInt::from(-1)), N::Int(m)])
                });
            }
            if items.len() == 1 {
                items.pop().unwrap()
            } else {
                N::Add(items)
            }
        }
    } else {
        if !total.is_one() {
            items.push(N::Int(total));
        }
        match items.len() {
            0 => N::Int(BigInt::one()),
            1 => items.pop().unwrap(),
            _ => N::Mul(items),
        }
    };
    let canon = |n: &N| -> N {
        // accept either spelling of a negative constant
        fn go(n: &N) -> N {
            match n {
                N::Mul(v) if v.len() == 2 => match (&v[0], &v[1]) {
                    (N::Int(a), N::Int(b)) => N::Int(a * b),
                    _ => {
                        let mut w: Vec<N> = v.iter().map(go).collect();
                        w.sort();
                        N::Mul(w)
                    }
                },
                N::Add(v) => {
                    let mut w: Vec<N> = v.iter().map(go).collect();
                    w.sort();
                    N::Add(w)
                }
                N::Mul(v) => {
                    let mut w: Vec<N> = v.iter().map(go).collect();
                    w.sort();
                    N::Mul(w)
                }
                x => x.clone(),
            }
        }
        go(n)
    };
    if canon(&got) == canon(&want) {
        Out::Pass
    } else {
        Out::Fail(format!("expected {} but got {}", want.show(), got.show()))
    }
}

/// a long sum or product inside another of the same kind
fn long_inner(c: &mut Case) -> Out {
    let sum = c.s.chance(1, 2);
    let s = &mut *c.s;
    let most = [8, 40, 80, 160, 300][s.usize(5)];
    let n = 2 + s.usize(most);
    let mut item = |s: &mut Src| {
        let x = T::Var(format!("x{}", s.usize(400)));
        match s.usize(8) {
            0 => T::Pow(bx(x), bx(int(s.range(-3, 3))), 0),
            1 => T::Mul(bx(int(s.range(-3, 3))), bx(x), 0),
            2 => T::Add(bx(x), bx(int(s.range(-3, 3))), 0),
            _ => x,
        }
    };
    let join = |v: Vec<T>| if sum { T::Sum(v) } else { T::Prod(v) };
    let long = join((0..n).map(|_| item(s)).collect());
    let mut v = vec![long];
    for _ in 0..1 + s.usize(3) {
        let i = match s.usize(5) {
            0 | 1 => int(s.range(-4, 4)),
            2 => T::Real([0.5, -2.0, 0.0, 1.0][s.usize(4)]),
            3 => join((0..1 + s.usize(60)).map(|_| item(s)).collect()),
            _ => item(s),
        };
        v.push(i);
    }
    shuffle(s, &mut v);
    let t = match s.usize(3) {
        0 if v.len() == 2 => {
            let b = v.pop().unwrap();
            let a = v.pop().unwrap();
            let h = s.below(5) as u8;
            match (sum, s.chance(1, 2)) {
                (true, true) => T::Add(bx(a), bx(b), h),
                (true, false) => T::Sub(bx(a), bx(b), h),
                (false, _) => T::Mul(bx(a), bx(b), h),
            }
        }
        _ => join(v),
    };
    c.begin(t.show(), n >= 8);
    ok(normal_form(&n_of(&t.build())))
}

fn normal_by_hand(c: &mut Case) -> Out {
    let e = {
        let b = 2 + c.s.usize(14);
        super::manip::by_hand(c.s, b, true)
    };
    if super::manip::rough(&e) > 300.0 {
        return Out::Discard("too large");
    }
    if show_e(&e).contains("(sin") {
        return Out::Discard("the arguments of functions are left alone");
    }
    if (0..4u64).all(|i| eval_e(&e, &Valuation { seed: i * 7919 + 5, dom: Dom::Signed }).is_err()) {
        return Out::Discard("undefined or unrepresentable at every valuation tried");
    }
    c.begin(show_e(&e), true);
    if let Err(m) = normal_form(&n_of(&e.clone().expand())) {
        return Out::Fail(format!("after expand(): {}", m));
    }
    ok(normal_form(&n_of(&e.simplify())).map_err(|m| format!("after simplify(): {}", m)))
}
