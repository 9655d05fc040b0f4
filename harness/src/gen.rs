//! Generators of terms. Every random decision is a choice drawn from `Src`.
use crate::engine::Src;
use crate::term::*;
use num::bigint::{BigInt, Sign};
use num::traits::{Signed, ToPrimitive, Zero};
use std::sync::OnceLock;

// ------------------------------------------------------------- dictionary

/// Literals found in the source tree under test; they only bias generation.
#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<BigInt>,
    pub reals: Vec<f64>,
    pub names: Vec<String>,
    pub sizes: Vec<usize>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get().expect("dictionary")
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut v: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

pub fn load_dict(root: &str) {
    let mut files = vec![];
    walk(std::path::Path::new(root), &mut files);
    let mut d = Dict::default();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        if name.ends_with("_test.rs") {
            continue;
        }
        let text = match std::fs::read_to_string(&f) {
            Ok(t) => t,
            Err(_) => continue,
        };
        // inline test modules come last in these files
        let text = match text.find("#[cfg(test)]") {
            Some(i) => text[..i].to_string(),
            None => text,
        };
        scan(&text, &mut d);
    }
    d.ints.sort();
    d.ints.dedup();
    d.reals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    d.reals.dedup();
    d.names.sort();
    d.names.dedup();
    for n in &d.ints {
        if let Some(k) = n.to_usize() {
            if k <= 48 {
                d.sizes.push(k);
                d.sizes.push(k + 1);
                d.sizes.push(k + 2);
            }
        }
    }
    d.sizes.sort();
    d.sizes.dedup();
    let _ = DICT.set(d);
}

fn scan(text: &str, d: &mut Dict) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                if i < b.len() {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            for w in s.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                if !w.is_empty() && w.len() <= 24 && !w.chars().next().unwrap().is_ascii_digit() {
                    d.names.push(w.to_string());
                }
            }
            continue;
        }
        if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
            if b[i + 1].is_alphabetic() {
                d.names.push(b[i + 1].to_string());
            }
            i += 3;
            continue;
        }
        if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_' || b[i] == '.') {
                if b[i] == '.' && (i + 1 >= b.len() || !b[i + 1].is_ascii_digit()) {
                    break;
                }
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            for suf in ["isize", "usize", "i64", "u64", "i32", "u32", "i128", "u128", "u8", "i8", "u16", "i16", "f64"] {
                if let Some(x) = s.strip_suffix(suf) {
                    s = x.to_string();
                    break;
                }
            }
            if let Some(h) = s.strip_prefix("0x") {
                if let Some(n) = BigInt::parse_bytes(h.as_bytes(), 16) {
                    d.ints.push(n);
                }
            } else if s.contains('.') || s.contains('e') {
                if let Ok(r) = s.parse::<f64>() {
                    if r.is_finite() {
                        d.reals.push(r);
                        if r.fract() == 0.0 && r.abs() < 1e15 {
                            d.ints.push(BigInt::from(r as i64));
                        }
                    }
                }
            } else if let Some(n) = BigInt::parse_bytes(s.as_bytes(), 10) {
                d.ints.push(n);
            }
            continue;
        }
        i += 1;
    }
}

// ------------------------------------------------------------------ leaves

pub fn gen_bigint(s: &mut Src, bits: u64) -> BigInt {
    let nb = 1 + s.below(bits);
    let mut n = BigInt::from(1);
    let mut left = nb;
    while left > 0 {
        let k = left.min(32);
        n = (n << k as usize) + BigInt::from(s.below(1 << k));
        left -= k;
    }
    if s.chance(1, 2) {
        n = -n;
    }
    n
}

pub fn gen_boundary(s: &mut Src) -> BigInt {
    let k = *s.pick(&[31u64, 8, 15, 16, 32, 52, 53, 54, 62, 63, 64, 65, 96, 127, 128, 130]);
    let mut n = BigInt::from(1) << k as usize;
    n = n + BigInt::from(s.range(-2, 2));
    if s.chance(1, 2) {
        n = -n;
    }
    n
}

pub fn gen_dict_int(s: &mut Src) -> BigInt {
    let d = dict();
    if d.ints.is_empty() {
        return BigInt::from(s.range(0, 20));
    }
    let n = s.pick(&d.ints).clone() + BigInt::from([0, 1, -1][s.usize(3)]);
    if s.chance(1, 3) {
        -n
    } else {
        n
    }
}

/// exponent of any size, 2 or more
pub fn gen_huge_exponent(s: &mut Src) -> BigInt {
    let n = match s.usize(4) {
        0 => gen_boundary(s).abs(),
        1 => gen_dict_int(s).abs(),
        2 => BigInt::from(s.below(1 << 20)),
        _ => gen_bigint(s, 70).abs(),
    };
    if n.bits() > 96 {
        return BigInt::from(1) << 70;
    }
    n.max(BigInt::from(2))
}

/// small integer, 0 is simplest
pub fn gen_small(s: &mut Src) -> BigInt {
    let k = s.below(21) as i64;
    BigInt::from(if k % 2 == 0 { k / 2 } else { -(k + 1) / 2 })
}

pub fn gen_int_short(s: &mut Src, big: bool) -> BigInt {
    let w: &[u64] = if big { &[50, 12, 10, 14, 14] } else { &[66, 14, 20, 0, 0] };
    match s.weighted(w) {
        0 => gen_small(s),
        1 => {
            let n = gen_dict_int(s);
            if !big && n.bits() > 30 {
                gen_small(s)
            } else {
                n
            }
        }
        2 => BigInt::from(s.range(0, 4000) - 2000),
        3 => gen_boundary(s),
        _ => gen_bigint(s, 200),
    }
}

/// the same, now and then beyond the range of f64
pub fn gen_int(s: &mut Src, big: bool) -> BigInt {
    if big && s.chance(1, 60) {
        gen_bigint(s, 3400)
    } else {
        gen_int_short(s, big)
    }
}

/// reals of moderate magnitude, and a few very small or large ones; the value
/// oracles bound the magnitude a whole term can reach
pub fn gen_real(s: &mut Src) -> f64 {
    match s.weighted(&[40, 25, 20, 10, 5, 5]) {
        5 => wide_real(s),
        0 => [1.0, 0.5, 2.0, 1.5, 3.0, 0.25, 2.5, 4.0, -1.0, -0.5, -2.0, -1.5, -2.5, 0.0, 10.0, 0.75, 8.0, 16.0][s.usize(18)],
        1 => (s.range(0, 4000) - 2000) as f64 / 8.0,
        2 => (s.range(0, 20000) - 10000) as f64 / 1000.0,
        3 => {
            let d = dict();
            if d.reals.is_empty() {
                2.0
            } else {
                let r = *s.pick(&d.reals);
                let r = if r.abs() > 1e6 || (r != 0.0 && r.abs() < 1e-6) { 3.5 } else { r };
                if s.chance(1, 3) {
                    -r
                } else {
                    r
                }
            }
        }
        _ => {
            let m = s.range(1, 1 << 20) as f64;
            let e = s.range(-16, 10) as i32;
            let r = m * 2f64.powi(e - 10);
            if s.chance(1, 2) {
                -r
            } else {
                r
            }
        }
    }
}

pub fn wide_real(s: &mut Src) -> f64 {
    let m = match s.usize(3) {
        0 => 1.0,
        1 => s.range(1, 9) as f64,
        _ => s.range(1, 1 << 30) as f64,
    };
    let w = if s.chance(1, 6) { 250 } else { 70 };
    let r = m * 2f64.powi((s.range(0, 2 * w) - w) as i32);
    if s.chance(1, 3) {
        -r
    } else {
        r
    }
}

pub const NAMES: [&str; 34] = [
    "a", "b", "c", "x", "y", "z", "d", "e", "t", "A", "B", "Z", "alpha", "x1", "x2", "x10", "x_1", "theta", "λ", "aa",
    "ab", "i", "pi", "a_very_long_variable_name", "a_very_long_variable_name_2", "a_very_long_variable_name_10",
    "temperature_sensor_1", "temperature_sensor_2", "x'", "p_", "_p", "a.b", "α₁", "%t",
];

pub fn gen_name(s: &mut Src) -> String {
    let d = dict();
    match s.weighted(&[70, 20, 10]) {
        0 => NAMES[s.usize(6)].to_string(),
        1 => NAMES[s.usize(NAMES.len())].to_string(),
        _ => {
            if d.names.is_empty() {
                "q".to_string()
            } else {
                s.pick(&d.names).clone()
            }
        }
    }
}

// -------------------------------------------------------------------- lanes

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// +,-,*,neg, x^n with n >= 0
    Poly,
    /// Poly plus division and negative integer powers
    Rat,
    /// Rat plus exponents that are integer-valued polynomials
    SymExp,
    /// positive bases, arbitrary exponents, logarithms
    Pos,
}

#[derive(Clone, Debug)]
pub struct Lane {
    pub kind: Kind,
    pub big: bool,
    pub reals: bool,
    pub trig: bool,
    /// expand()/simplify() may occur inside the term
    pub hist: bool,
    pub max_monomials: f64,
    pub names: Vec<String>,
    pub vars: bool,
    /// exponents of variables in polynomials may be of any size
    pub huge: bool,
}

impl Lane {
    pub fn new(kind: Kind) -> Lane {
        Lane { kind, big: false, reals: false, trig: false, hist: false, max_monomials: 150.0, names: vec![], vars: true, huge: false }
    }
    pub fn with_names(mut self, s: &mut Src) -> Lane {
        let k = 1 + s.usize(4);
        let mut names: Vec<String> = vec![];
        for _ in 0..k {
            let n = gen_name(s);
            if !names.contains(&n) {
                names.push(n);
            }
        }
        self.names = names;
        self
    }
    pub fn dom(&self) -> Dom {
        match self.kind {
            Kind::Poly | Kind::Rat => Dom::Signed,
            Kind::SymExp => Dom::IntSigned,
            Kind::Pos => Dom::Pos,
        }
    }
}

/// upper estimate of the number of monomials after expansion
pub fn est(t: &T) -> f64 {
    match t {
        T::Int(_) | T::Real(_) | T::Var(_) => 1.0,
        T::Add(a, b, _) | T::Sub(a, b, _) => est(a) + est(b),
        T::Mul(a, b, _) => est(a) * est(b),
        T::Div(a, b, _) => est(a) * est(b).max(1.0),
        T::Neg(a, _) | T::Expand(a) | T::Simplify(a) => est(a),
        T::Sin(a) | T::Cos(a) => 1.0 + est(a) / 8.0,
        T::Sum(v) => v.iter().map(est).sum(),
        T::Prod(v) => v.iter().map(est).product(),
        T::Pow(a, b, _) => {
            let k = expo_int(b).unwrap_or(1.0).abs().max(1.0);
            est(a).powf(k) + est(b)
        }
        T::Log(a, b, _) => 1.0 + (est(a) + est(b)) / 2.0,
    }
}

/// largest literal integer factor that may multiply out of an exponent
fn expo_int(t: &T) -> Option<f64> {
    match t {
        T::Int(n) => n.to_f64(),
        T::Real(r) => Some(r.abs()),
        T::Var(_) => Some(1.0),
        T::Neg(a, _) | T::Expand(a) | T::Simplify(a) => expo_int(a),
        T::Mul(a, b, _) => Some(expo_int(a)?.abs() * expo_int(b)?.abs()),
        // dividing by a negative power multiplies
        T::Div(a, b, _) => Some(expo_int(a)?.abs() * if has_pow(b) { over_and_under(b).max(1.0) } else { 1.0 }),
        T::Add(a, b, _) | T::Sub(a, b, _) => Some(expo_int(a)?.abs() + expo_int(b)?.abs()),
        T::Prod(v) => v.iter().map(|x| expo_int(x).map(|y| y.abs())).product(),
        T::Sum(v) => v.iter().map(|x| expo_int(x).map(|y| y.abs())).sum(),
        T::Pow(a, b, _) => Some(over_and_under(a).max(1.0).powf(expo_int(b)?.abs().min(20.0))),
        T::Log(_, _, _) | T::Sin(_) | T::Cos(_) => Some(1.0),
    }
}

fn has_pow(t: &T) -> bool {
    match t {
        T::Pow(_, _, _) => true,
        T::Mul(a, b, _) | T::Div(a, b, _) | T::Add(a, b, _) | T::Sub(a, b, _) => has_pow(a) || has_pow(b),
        T::Neg(a, _) | T::Expand(a) | T::Simplify(a) => has_pow(a),
        T::Prod(v) | T::Sum(v) => v.iter().any(has_pow),
        _ => false,
    }
}

/// largest literal integer above or below the line
fn over_and_under(t: &T) -> f64 {
    match t {
        T::Mul(a, b, _) | T::Div(a, b, _) | T::Add(a, b, _) | T::Sub(a, b, _) => {
            over_and_under(a).max(1.0) * over_and_under(b).max(1.0) * if matches!(t, T::Add(..) | T::Sub(..)) { 2.0 } else { 1.0 }
        }
        T::Neg(a, _) | T::Expand(a) | T::Simplify(a) => over_and_under(a),
        T::Prod(v) => v.iter().map(|x| over_and_under(x).max(1.0)).product(),
        T::Sum(v) => v.iter().map(|x| over_and_under(x).max(1.0)).product::<f64>() * v.len() as f64,
        t => expo_int(t).unwrap_or(1.0).abs(),
    }
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub lane: Lane,
    pool: Vec<T>,
    pos_pool: Vec<T>,
}

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, lane: Lane) -> Self {
        let lane = if lane.names.is_empty() { lane.with_names(s) } else { lane };
        G { s, lane, pool: vec![], pos_pool: vec![] }
    }

    pub fn budget(&mut self) -> usize {
        match self.s.weighted(&[25, 45, 25, 5]) {
            0 => 1 + self.s.usize(4),
            1 => 4 + self.s.usize(8),
            2 => 10 + self.s.usize(16),
            _ => 24 + self.s.usize(26),
        }
    }

    pub fn var(&mut self) -> T {
        let i = self.s.usize(self.lane.names.len());
        T::Var(self.lane.names[i].clone())
    }

    fn leaf(&mut self) -> T {
        let w = [35, if self.lane.vars { 50 } else { 0 }, if self.lane.reals { 25 } else { 0 }, if self.lane.trig { 8 } else { 0 }];
        match self.s.weighted(&w) {
            0 => {
                let b = self.lane.big;
                T::Int(gen_int_short(self.s, b))
            }
            1 => self.var(),
            2 => T::Real(gen_real(self.s)),
            _ => {
                let arg = self.opaque_arg();
                if self.s.chance(1, 2) {
                    T::Sin(bx(arg))
                } else {
                    T::Cos(bx(arg))
                }
            }
        }
    }

    fn opaque_arg(&mut self) -> T {
        let v = self.var();
        match self.s.usize(3) {
            0 => v,
            1 => T::Add(bx(v), bx(T::Int(gen_small(self.s))), 0),
            _ => T::Mul(bx(v), bx(T::Int(BigInt::from(self.s.range(2, 5)))), 0),
        }
    }

    fn split(&mut self, b: usize) -> (usize, usize) {
        let b = b.saturating_sub(1).max(2);
        let l = 1 + self.s.usize(b - 1);
        (l, b - l)
    }

    /// number of items for an n-ary node
    fn arity(&mut self) -> usize {
        match self.s.weighted(&[70, 20, 10]) {
            0 => self.s.usize(5),
            1 => 3 + self.s.usize(10),
            _ => {
                let d = dict();
                if d.sizes.is_empty() {
                    5 + self.s.usize(20)
                } else {
                    (*self.s.pick(&d.sizes)).min(40)
                }
            }
        }
    }

    /// a whole term, kept below the size limit
    pub fn term(&mut self) -> T {
        let b = self.budget();
        let t = self.any(b);
        self.cap(t)
    }

    /// replace an over-large term by its largest admissible part
    pub fn cap(&self, t: T) -> T {
        let mut t = t;
        while est(&t) > 2.0 * self.lane.max_monomials {
            let next = t.children().into_iter().max_by(|a, b| a.size().cmp(&b.size())).cloned();
            t = match next {
                Some(x) => x,
                None => break,
            };
        }
        t
    }

    /// a term of any sign
    pub fn any(&mut self, b: usize) -> T {
        let t = self.any0(b);
        if self.s.chance(1, 4) && self.pool.len() < 12 {
            self.pool.push(t.clone());
        }
        t
    }

    fn any0(&mut self, b: usize) -> T {
        if b > 1 && !self.pool.is_empty() && self.s.chance(1, 8) {
            let i = self.s.usize(self.pool.len());
            return self.pool[i].clone();
        }
        if b <= 1 {
            return self.leaf();
        }
        let k = self.lane.kind;
        let rat = k != Kind::Poly;
        let w = [
            18,                                        // add
            14,                                        // sub
            20,                                        // mul
            5,                                         // neg
            9,                                         // n-ary sum
            9,                                         // n-ary product
            14,                                        // integer power
            if rat { 14 } else { 0 },                  // division
            if k == Kind::SymExp { 16 } else { 0 },    // symbolic exponent
            if k == Kind::Pos { 22 } else { 0 },       // positive-class power
            if k == Kind::Pos { 16 } else { 0 },       // logarithm
            if self.lane.hist { 9 } else { 0 },        // expand / simplify
        ];
        let max = self.lane.max_monomials;
        match self.s.weighted(&w) {
            0 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.any(l), self.any(r));
                T::Add(bx(x), bx(y), self.s.below(5) as u8)
            }
            1 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.any(l), self.any(r));
                T::Sub(bx(x), bx(y), self.s.below(5) as u8)
            }
            2 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.any(l), self.any(r));
                let h = self.s.below(5) as u8;
                if est(&x) * est(&y) > max {
                    T::Add(bx(x), bx(y), h)
                } else {
                    T::Mul(bx(x), bx(y), h)
                }
            }
            3 => {
                let x = self.any(b - 1);
                T::Neg(bx(x), self.s.below(2) as u8)
            }
            4 => {
                let n = self.arity();
                let per = (b / (n + 1)).max(1);
                T::Sum((0..n).map(|_| self.any(per)).collect())
            }
            5 => {
                let n = self.arity();
                let per = (b / (n + 1)).max(1);
                let v: Vec<T> = (0..n).map(|_| self.any(per)).collect();
                if v.iter().map(est).product::<f64>() > max {
                    T::Sum(v)
                } else {
                    T::Prod(v)
                }
            }
            6 => {
                let x = self.any(b - 1);
                let neg = rat && self.s.chance(2, 5);
                self.int_power(x, neg)
            }
            7 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.any(l), self.any(r));
                T::Div(bx(x), bx(y), self.s.below(5) as u8)
            }
            8 => self.sym_power(b),
            9 => self.pos_power(b),
            10 => self.log(b),
            _ => {
                let x = self.any(b - 1);
                if self.s.chance(1, 2) {
                    T::Simplify(bx(x))
                } else {
                    T::Expand(bx(x))
                }
            }
        }
    }

    /// power with an integer-valued symbolic exponent
    pub fn sym_power(&mut self, b: usize) -> T {
        let x = self.any(b / 2);
        let e = self.int_expo((b / 2).min(6));
        let e = if est(&T::Pow(bx(x.clone()), bx(e.clone()), 0)) > self.lane.max_monomials { self.var() } else { e };
        T::Pow(bx(x), bx(e), self.s.below(2) as u8)
    }

    pub fn int_power(&mut self, x: T, neg: bool) -> T {
        let m = est(&x);
        let cap = if m <= 1.01 {
            12
        } else {
            ((self.lane.max_monomials.ln() / m.ln()).floor() as i64).clamp(1, 8)
        };
        let k = match self.s.weighted(&[70, 20, 10]) {
            0 => self.s.range(0, cap.min(4)),
            1 => self.s.range(0, cap),
            _ => 2.min(cap),
        };
        let k = if neg { -k.max(1) } else { k };
        let e = if self.lane.reals && self.s.chance(1, 8) { T::Real(k as f64) } else { int(k) };
        T::Pow(bx(x), bx(e), self.s.below(2) as u8)
    }

    /// integer-valued exponent polynomial, small
    fn int_expo(&mut self, b: usize) -> T {
        if b <= 1 {
            return if self.s.chance(2, 5) { int(self.s.range(-3, 3)) } else { self.var() };
        }
        match self.s.weighted(&[3, 2, 3, 2]) {
            0 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.int_expo(l), self.int_expo(r));
                T::Add(bx(x), bx(y), self.s.below(5) as u8)
            }
            1 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.int_expo(l), self.int_expo(r));
                T::Sub(bx(x), bx(y), self.s.below(5) as u8)
            }
            2 => {
                let x = int(self.s.range(-3, 3));
                let y = self.int_expo(b - 1);
                T::Mul(bx(x), bx(y), self.s.below(5) as u8)
            }
            _ => {
                let x = self.var();
                let y = self.var();
                T::Mul(bx(x), bx(y), self.s.below(5) as u8)
            }
        }
    }

    // ---------------------------------------------------- positive class

    pub fn pos(&mut self, b: usize) -> T {
        let t = self.pos0(b);
        if self.s.chance(1, 4) && self.pos_pool.len() < 12 {
            self.pos_pool.push(t.clone());
        }
        t
    }

    fn pos_leaf(&mut self) -> T {
        match self.s.weighted(&[30, if self.lane.vars { 50 } else { 0 }, if self.lane.reals { 25 } else { 0 }]) {
            0 => T::Int(BigInt::from(1 + self.s.range(1, 12))),
            1 => self.var(),
            _ => T::Real([2.0, 0.5, 1.5, 2.5, 3.0, 4.0, 0.25, 1.25, 1.0, 3.7, 0.3][self.s.usize(11)]),
        }
    }

    fn pos0(&mut self, b: usize) -> T {
        if b > 1 && !self.pos_pool.is_empty() && self.s.chance(1, 6) {
            let i = self.s.usize(self.pos_pool.len());
            return self.pos_pool[i].clone();
        }
        if b <= 1 {
            return self.pos_leaf();
        }
        match self.s.weighted(&[20, 22, 14, 22, 8, 6, 6]) {
            0 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.pos(l), self.pos(r));
                T::Add(bx(x), bx(y), self.s.below(5) as u8)
            }
            1 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.pos(l), self.pos(r));
                let h = self.s.below(5) as u8;
                if est(&x) * est(&y) > self.lane.max_monomials {
                    T::Add(bx(x), bx(y), h)
                } else {
                    T::Mul(bx(x), bx(y), h)
                }
            }
            2 => {
                let (l, r) = self.split(b);
                let (x, y) = (self.pos(l), self.pos(r));
                T::Div(bx(x), bx(y), self.s.below(5) as u8)
            }
            3 => self.pos_power(b),
            4 => {
                let n = 2 + self.s.usize(4);
                let per = (b / (n + 1)).max(1);
                T::Sum((0..n).map(|_| self.pos(per)).collect())
            }
            5 => {
                let n = 2 + self.s.usize(4);
                let per = (b / (n + 1)).max(1);
                let v: Vec<T> = (0..n).map(|_| self.pos(per)).collect();
                if v.iter().map(est).product::<f64>() > self.lane.max_monomials {
                    T::Sum(v)
                } else {
                    T::Prod(v)
                }
            }
            _ => {
                let n = T::Int(BigInt::from(self.s.range(1, 9)));
                let d = T::Int(BigInt::from(self.s.range(1, 9)));
                T::Div(bx(n), bx(d), 0)
            }
        }
    }

    /// exponent of any kind for a positive base
    fn pos_expo(&mut self, b: usize) -> T {
        match self.s.weighted(&[25, 25, 20, 15, if self.lane.reals { 15 } else { 0 }, 10]) {
            0 => int(self.s.range(-3, 4)),
            1 => self.var(),
            2 => {
                let n = [1, 2, 3, -1, -2, 5][self.s.usize(6)];
                let d = [2, 3, 4, 1][self.s.usize(4)];
                T::Div(bx(int(n)), bx(int(d)), 0)
            }
            3 => {
                let c = self.s.range(-3, 3);
                let v = self.var();
                T::Mul(bx(int(c)), bx(v), self.s.below(5) as u8)
            }
            4 => T::Real([0.5, 2.0, 1.5, -1.0, -0.5, 3.0, 1.0, 0.25, 2.5][self.s.usize(9)]),
            _ => {
                if b > 2 {
                    self.any(b / 2)
                } else {
                    let v = self.var();
                    T::Add(bx(v), bx(int(self.s.range(-2, 2))), 0)
                }
            }
        }
    }

    pub fn pos_power(&mut self, b: usize) -> T {
        let (l, r) = self.split(b);
        let x = self.pos(l);
        // the inverse pair  b ^ log_b(y)
        if self.s.chance(1, 8) {
            let y = self.pos(r);
            return T::Pow(bx(x.clone()), bx(T::Log(bx(y), bx(x), 0)), self.s.below(2) as u8);
        }
        let e = self.pos_expo(r);
        let e = if est(&T::Pow(bx(x.clone()), bx(e.clone()), 0)) > self.lane.max_monomials { self.var() } else { e };
        T::Pow(bx(x), bx(e), self.s.below(2) as u8)
    }

    pub fn log(&mut self, b: usize) -> T {
        let (l, r) = self.split(b);
        let h = self.s.below(2) as u8;
        match self.s.weighted(&[4, 3, 2, 2]) {
            0 => {
                let (x, y) = (self.pos(l), self.pos(r.min(4)));
                T::Log(bx(x), bx(y), h)
            }
            1 => {
                // log_y (y ^ e)
                let y = self.pos(l);
                let e = self.pos_expo(r);
                let e = if est(&T::Pow(bx(y.clone()), bx(e.clone()), 0)) > self.lane.max_monomials { self.var() } else { e };
                T::Log(bx(T::Pow(bx(y.clone()), bx(e), 0)), bx(y), h)
            }
            2 => {
                // integer over integer, often an exact power, sometimes off by one
                let base = self.s.range(2, 12);
                let k = self.s.range(0, 20);
                let mut n = num::pow::pow(BigInt::from(base), k as usize);
                n = n + BigInt::from([0, 0, 1, -1][self.s.usize(4)]);
                if n.is_zero() || n.is_negative() {
                    n = BigInt::from(1);
                }
                T::Log(bx(T::Int(n)), bx(int(base)), h)
            }
            _ => {
                let x = self.pos_leaf();
                let y = self.pos_leaf();
                T::Log(bx(x), bx(y), h)
            }
        }
    }
}

#[allow(dead_code)]
pub fn sign_of(n: &BigInt) -> Sign {
    n.sign()
}
