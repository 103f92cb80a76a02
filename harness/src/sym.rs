//! Symbolic expressions: generators and a reference semantics with error bounds.
use crate::src::Src;
use std::collections::HashMap;
use symbolic_math::Expr;
use symbolic_math::expr::EvalError;

pub type Env = HashMap<String, f64>;

/// A value with a bound on how far an evaluation in another order or with another correctly working
/// mathematical library may be from it. An infinite bound means "cannot tell".
#[derive(Clone, Copy, Debug)]
pub struct Av {
    pub v: f64,
    pub e: f64,
}
/// What the formula means at a point.
#[derive(Clone, Debug)]
pub struct Out {
    /// undefined operations and missing variables; when not empty the value is undefined
    pub errs: Vec<EvalError>,
    /// an operand was too close to the edge of an operation's domain to say
    pub maybe: bool,
    pub av: Av,
}
impl Out {
    pub fn defined(&self) -> bool {
        self.errs.is_empty() && !self.maybe
    }
    /// Finite, and known to a useful accuracy.
    pub fn crisp(&self) -> bool {
        self.defined() && self.av.v.is_finite() && self.av.e.is_finite() && self.av.e <= 1e-6 * (1.0 + self.av.v.abs())
    }
    /// Whether `got` is an acceptable value.
    pub fn accepts(&self, got: f64) -> bool {
        if !self.errs.is_empty() {
            return false;
        }
        self.maybe || close(self.av, got)
    }
}
pub fn close(a: Av, got: f64) -> bool {
    if a.v.is_nan() {
        return got.is_nan() || a.e.is_infinite();
    }
    got == a.v || a.e.is_infinite() || (got - a.v).abs() <= a.e
}
#[derive(Clone, Copy)]
pub struct Unit {
    /// relative error of an arithmetic operation
    pub arith: f64,
    /// relative error of an elementary function
    pub func: f64,
}
pub const F64: Unit = Unit { arith: 2.3e-16, func: 1e-15 };
pub const F32: Unit = Unit { arith: 1.3e-7, func: 6e-7 };

fn int(a: Av) -> bool {
    a.e == 0.0 && a.v.fract() == 0.0 && a.v.abs() < 9e15
}
fn finish(v: f64, e: f64, exact: bool, big: f64) -> Av {
    let e = if e.is_nan() { f64::INFINITY } else { e };
    if v.is_nan() {
        return Av { v, e };
    }
    if !v.is_finite() || v.abs() > big {
        return Av { v, e: f64::INFINITY };
    }
    if exact {
        return Av { v, e: 0.0 };
    }
    Av { v, e: e + 1.0 / big }
}
pub struct Model {
    pub u: Unit,
    /// magnitudes beyond this are too close to overflow to judge
    pub big: f64,
    /// constants may be rounded to a decimal of single precision on the way
    pub decimal: bool,
}
pub const M64: Model = Model { u: F64, big: 1e290, decimal: false };
pub const M32: Model = Model { u: F32, big: 1e35, decimal: false };
/// single-precision constants, double-precision arithmetic
pub const MIX: Model = Model { u: F64, big: 1e290, decimal: true };

impl Model {
    pub fn add(&self, a: Av, b: Av) -> Av {
        let v = a.v + b.v;
        finish(v, a.e + b.e + v.abs() * self.u.arith, int(a) && int(b) && int(Av { v, e: 0.0 }) && self.u.arith < 1e-12, self.big)
    }
    pub fn mul(&self, a: Av, b: Av) -> Av {
        let v = a.v * b.v;
        let e = prod(a.v.abs(), b.e) + prod(b.v.abs(), a.e) + prod(a.e, b.e) + v.abs() * self.u.arith;
        finish(v, e, int(a) && int(b) && int(Av { v, e: 0.0 }) && self.u.arith < 1e-12, self.big)
    }
    /// None: too close to dividing by zero.
    pub fn div(&self, a: Av, b: Av) -> Option<Av> {
        if !(b.v.abs() > b.e) && !b.v.is_nan() {
            return None;
        }
        let v = a.v / b.v;
        if b.v.is_nan() {
            return Some(Av { v, e: b.e });
        }
        let e = (a.e + prod(v.abs(), b.e)) / (b.v.abs() - b.e) + v.abs() * self.u.arith;
        // a tiny divisor: the quotient may overflow in another order
        Some(finish(v, e, false, self.big))
    }
    pub fn neg(&self, a: Av) -> Av {
        Av { v: -a.v, e: a.e }
    }
    pub fn exp(&self, a: Av) -> Av {
        let v = a.v.exp();
        if a.v.is_nan() {
            return Av { v, e: a.e };
        }
        let v1 = if v == 0.0 { 1.0 / self.big } else { v };
        finish(v, v1 * a.e.exp_m1() + v.abs() * self.u.func, false, self.big)
    }
    pub fn ln(&self, a: Av) -> Option<Av> {
        if a.v.is_nan() {
            return Some(a);
        }
        if !(a.v - a.e > 0.0) {
            return None;
        }
        let v = a.v.ln();
        Some(finish(v, a.e / (a.v - a.e) + v.abs() * self.u.func, false, self.big))
    }
    pub fn sqrt(&self, a: Av) -> Option<Av> {
        if a.v.is_nan() {
            return Some(a);
        }
        if !(a.v - a.e >= 0.0) {
            return None;
        }
        let v = a.v.sqrt();
        Some(finish(v, v - (a.v - a.e).sqrt() + (a.v + a.e).sqrt() - v + v * self.u.arith, false, self.big))
    }
    pub fn sin(&self, a: Av) -> Av {
        let v = a.v.sin();
        if a.v.is_nan() || !a.v.is_finite() {
            return Av { v, e: if a.v.is_nan() { a.e } else { f64::INFINITY } };
        }
        finish(v, if a.e.is_infinite() { a.e } else { (a.e + self.u.func).min(3.0) }, false, self.big)
    }
    pub fn cos(&self, a: Av) -> Av {
        let v = a.v.cos();
        if a.v.is_nan() || !a.v.is_finite() {
            return Av { v, e: if a.v.is_nan() { a.e } else { f64::INFINITY } };
        }
        finish(v, if a.e.is_infinite() { a.e } else { (a.e + self.u.func).min(3.0) }, false, self.big)
    }
    pub fn pow(&self, a: Av, b: Av) -> Av {
        let v = a.v.powf(b.v);
        let unsure = Av { v, e: f64::INFINITY };
        if a.v.is_nan() || b.v.is_nan() {
            // NaN^0 and 1^NaN are 1
            let sure = if a.v.is_nan() { a.e == 0.0 && (b.v.is_nan() || b.v.abs() > b.e) } else { b.e == 0.0 && (a.v - 1.0).abs() > a.e };
            return if sure { Av { v, e: 0.0 } } else { unsure };
        }
        if a.e == 0.0 && b.e == 0.0 {
            if v.is_nan() {
                return Av { v, e: 0.0 };
            }
            if b.v == 0.0 || a.v == 1.0 {
                return Av { v, e: 0.0 };
            }
            return finish(v, v.abs() * (self.u.func * 4.0 + b.v.abs().min(1e6) * self.u.arith), int(a) && int(b) && b.v >= 0.0 && int(Av { v, e: 0.0 }) && self.u.arith < 1e-12, self.big);
        }
        if b.e == 0.0 && b.v == 0.0 {
            return Av { v: 1.0, e: 0.0 };
        }
        if a.v.abs() <= a.e || !a.e.is_finite() || !b.e.is_finite() {
            // the base may be zero or change sign
            if b.e == 0.0 && b.v >= 1.0 && b.v.fract() == 0.0 {
                return finish(v, 2.0 * (a.v.abs() + a.e).powf(b.v), false, self.big);
            }
            return unsure;
        }
        if a.v < 0.0 {
            if b.e > 0.0 {
                return unsure;
            }
            if b.v.fract() != 0.0 {
                return Av { v: f64::NAN, e: 0.0 };
            }
        }
        let l = a.v.abs().ln();
        let dl = a.e / (a.v.abs() - a.e);
        let de = (b.v.abs() + b.e) * dl + b.e * l.abs();
        finish(v, v.abs() * de.exp_m1() + v.abs() * (self.u.func * 4.0 + b.v.abs().min(1e6) * self.u.arith), false, self.big)
    }

    pub fn eval(&self, x: &Expr, env: &Env) -> Out {
        let val = |av| Out { errs: vec![], maybe: false, av };
        let unknown = Av { v: f64::NAN, e: f64::INFINITY };
        match x {
            Expr::Const(c) if self.decimal && format!("{}", *c as f32).parse() != Ok(*c) => val(Av { v: *c, e: c.abs() * 1.2e-7 }),
            Expr::Const(c) => val(Av { v: *c, e: 0.0 }),
            Expr::Var(n) => match env.get(n) {
                Some(v) => val(Av { v: *v, e: 0.0 }),
                None => Out { errs: vec![EvalError::UndefinedVariable(n.clone())], maybe: false, av: unknown },
            },
            Expr::Add(l, r) | Expr::Sub(l, r) | Expr::Mul(l, r) | Expr::Div(l, r) | Expr::Pow(l, r) => {
                let (a, b) = (self.eval(l, env), self.eval(r, env));
                let maybe = a.maybe || b.maybe;
                let mut errs = a.errs;
                errs.extend(b.errs);
                if !errs.is_empty() {
                    // a division is already undefined through its divisor
                    if matches!(x, Expr::Div(..)) && b.av.v == 0.0 {
                        errs.push(EvalError::DivisionByZero);
                    }
                    return Out { errs, maybe, av: unknown };
                }
                if maybe {
                    return Out { errs, maybe, av: unknown };
                }
                let (a, b) = (a.av, b.av);
                match x {
                    Expr::Add(..) => val(self.add(a, b)),
                    Expr::Sub(..) => val(self.add(a, self.neg(b))),
                    Expr::Mul(..) => val(self.mul(a, b)),
                    Expr::Pow(..) => val(self.pow(a, b)),
                    _ => {
                        if b.v == 0.0 && b.e == 0.0 {
                            return Out { errs: vec![EvalError::DivisionByZero], maybe: false, av: unknown };
                        }
                        match self.div(a, b) {
                            Some(v) => val(v),
                            None => Out { errs: vec![], maybe: true, av: unknown },
                        }
                    }
                }
            }
            Expr::Ln(i) | Expr::Exp(i) | Expr::Sqrt(i) | Expr::Sin(i) | Expr::Cos(i) | Expr::Neg(i) => {
                let a = self.eval(i, env);
                if !a.errs.is_empty() || a.maybe {
                    return Out { errs: a.errs, maybe: a.maybe, av: unknown };
                }
                let a = a.av;
                match x {
                    Expr::Exp(_) => val(self.exp(a)),
                    Expr::Sin(_) => val(self.sin(a)),
                    Expr::Cos(_) => val(self.cos(a)),
                    Expr::Neg(_) => val(self.neg(a)),
                    Expr::Ln(_) => {
                        if a.v + a.e <= 0.0 {
                            return Out { errs: vec![EvalError::InvalidLogarithm(a.v)], maybe: false, av: unknown };
                        }
                        self.ln(a).map_or(Out { errs: vec![], maybe: true, av: unknown }, val)
                    }
                    _ => {
                        if a.v + a.e < 0.0 {
                            return Out { errs: vec![EvalError::InvalidSquareRoot(a.v)], maybe: false, av: unknown };
                        }
                        self.sqrt(a).map_or(Out { errs: vec![], maybe: true, av: unknown }, val)
                    }
                }
            }
        }
    }
}
fn prod(a: f64, b: f64) -> f64 {
    if a.is_infinite() || b.is_infinite() {
        f64::INFINITY
    } else if a == 0.0 || b == 0.0 {
        0.0
    } else {
        a * b
    }
}

// ------------------------------------------------------------------ helpers on trees

pub fn nodes(x: &Expr) -> usize {
    match x {
        Expr::Const(_) | Expr::Var(_) => 1,
        Expr::Add(l, r) | Expr::Sub(l, r) | Expr::Mul(l, r) | Expr::Div(l, r) | Expr::Pow(l, r) => 1 + nodes(l) + nodes(r),
        Expr::Ln(i) | Expr::Exp(i) | Expr::Sqrt(i) | Expr::Sin(i) | Expr::Cos(i) | Expr::Neg(i) => 1 + nodes(i),
    }
}
pub fn operations(x: &Expr) -> usize {
    match x {
        Expr::Const(_) | Expr::Var(_) => 0,
        Expr::Add(l, r) | Expr::Sub(l, r) | Expr::Mul(l, r) | Expr::Div(l, r) | Expr::Pow(l, r) => 1 + operations(l) + operations(r),
        Expr::Ln(i) | Expr::Exp(i) | Expr::Sqrt(i) | Expr::Sin(i) | Expr::Cos(i) | Expr::Neg(i) => 1 + operations(i),
    }
}
pub fn vars_of(x: &Expr, out: &mut std::collections::BTreeSet<String>) {
    match x {
        Expr::Const(_) => {}
        Expr::Var(n) => {
            out.insert(n.clone());
        }
        Expr::Add(l, r) | Expr::Sub(l, r) | Expr::Mul(l, r) | Expr::Div(l, r) | Expr::Pow(l, r) => {
            vars_of(l, out);
            vars_of(r, out);
        }
        Expr::Ln(i) | Expr::Exp(i) | Expr::Sqrt(i) | Expr::Sin(i) | Expr::Cos(i) | Expr::Neg(i) => vars_of(i, out),
    }
}
pub fn vars(x: &Expr) -> std::collections::BTreeSet<String> {
    let mut o = std::collections::BTreeSet::new();
    vars_of(x, &mut o);
    o
}
/// Fully parenthesised rendering, independent of the crate's own printing.
pub fn show(x: &Expr) -> String {
    match x {
        Expr::Const(c) => format!("{c:?}"),
        Expr::Var(n) => n.clone(),
        Expr::Add(l, r) => format!("({} + {})", show(l), show(r)),
        Expr::Sub(l, r) => format!("({} - {})", show(l), show(r)),
        Expr::Mul(l, r) => format!("({} * {})", show(l), show(r)),
        Expr::Div(l, r) => format!("({} / {})", show(l), show(r)),
        Expr::Pow(l, r) => format!("pow({}, {})", show(l), show(r)),
        Expr::Ln(i) => format!("ln({})", show(i)),
        Expr::Exp(i) => format!("exp({})", show(i)),
        Expr::Sqrt(i) => format!("sqrt({})", show(i)),
        Expr::Sin(i) => format!("sin({})", show(i)),
        Expr::Cos(i) => format!("cos({})", show(i)),
        Expr::Neg(i) => format!("neg({})", show(i)),
    }
}
pub fn show_env(e: &Env) -> String {
    let mut v: Vec<_> = e.iter().collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    v.iter().map(|(k, v)| format!("{k}={v:?}")).collect::<Vec<_>>().join(", ")
}

// ------------------------------------------------------------------ generation

/// Identifiers, look-alikes next to each other.
pub const NAMES: [&str; 24] = [
    "x", "y", "mu", "sigma", "z", "theta_1", "b", "k", "X", "x", "x1", "x10", "x_1", "y", "Y", "exp", "ln", "pi", "t", "mean",
    "log_scale_of_the_third_group", "log_scale_of_the_third_group_", "Sigma", "sigma2",
];
/// Whatever a string can hold.
const ODD: [&str; 25] = [
    ") x", "%22;", "(",    "_t", "\"", "x\\", "a\") (Var \"b", "x", "x ", " x", "a b", "a  b", "α", "α̂", "β_0", "x'", "2x", "-x", "f(x", "f(x)", ")", "Add", "1.0", "", "naïve, μ",
];
/// Up to `max` distinct names.
pub fn some_names(s: &mut Src, max: usize, odd: bool) -> Vec<&'static str> {
    let n = 1 + s.usize(max);
    let pool: &[&'static str] = if odd && s.chance(1, 12) { &ODD } else { &NAMES };
    let off = s.usize(pool.len());
    let mut v: Vec<&'static str> = vec![];
    for i in 0..n {
        let c = pool[(i + off) % pool.len()];
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

pub struct Gen<'a> {
    pub names: &'a [&'a str],
    /// bias towards sub-expressions inside the domains of ln, sqrt and /
    pub tame: bool,
    /// constants of ordinary size only
    pub mild: bool,
}
pub fn constant(s: &mut Src, mild: bool) -> f64 {
    match s.below(if mild { 10 } else { 15 }) {
        0 => 0.0,
        1 => 1.0,
        2 => 2.0,
        3 => -1.0,
        4 => s.range(-9, 9) as f64,
        5 => 0.5,
        6 => s.pick(&[0.25, 1.5, 3.25, -0.5, 10.0, 3.0, std::f64::consts::PI, std::f64::consts::E, 0.1, -2.0]),
        7 => s.uniform(-5.0, 5.0),
        8 => (s.uniform(-5.0, 5.0) * 100.0).round() / 100.0,
        // Almost one of the numbers a rewrite or a compiler treats specially
        9 => s.pick(&[0.0, 1.0, 2.0, 0.5, -1.0, 3.0, -0.5, 4.0, std::f64::consts::E, 10.0]) + s.uniform(-2.0, 2.0) * 10f64.powi(-(s.range(1, 9) as i32)),
        10 => s.real(1e-6, 1e6),
        11 => s.pick(&[1e10, 1e-10, 1e100, 1e-100, 123_456_789.0, 9_007_199_254_740_993.0, -1e15, 1e300, -0.0, 710.0, 0.30000000000000004]),
        12 => s.range(-100_000, 100_000) as f64,
        13 => {
            // Whole numbers of every width, near the limits of the integer types and powers of ten
            let k = s.range(0, 70) as i32;
            let m = match s.below(3) {
                0 => 2f64.powi(k),
                1 => 10f64.powi(k % 20),
                _ => (2f64.powi(k) * (1.0 + s.unit())).round(),
            } + s.range(-2, 2) as f64;
            if s.bool() { m } else { -m }
        }
        _ => {
            // Fractions of every magnitude with all their digits
            let m = 10f64.powf(s.uniform(-18.0, 18.0));
            if s.bool() { m } else { -m }
        }
    }
}
fn bx(e: Expr) -> Box<Expr> {
    Box::new(e)
}
pub fn expr(s: &mut Src, g: &Gen, depth: usize) -> Expr {
    if depth == 0 || s.below(7) == 0 {
        return if s.chance(3, 5) { Expr::Var(g.names[s.usize(g.names.len())].to_string()) } else { Expr::Const(constant(s, g.mild)) };
    }
    let d = depth - 1;
    match s.below(17) {
        0 | 1 => Expr::Add(bx(expr(s, g, d)), bx(expr(s, g, d))),
        2 | 3 => Expr::Sub(bx(expr(s, g, d)), bx(expr(s, g, d))),
        4 | 5 => Expr::Mul(bx(expr(s, g, d)), bx(expr(s, g, d))),
        6 => {
            let n = expr(s, g, d);
            let m = if g.tame && s.chance(3, 4) { positive(s, g, d) } else { expr(s, g, d) };
            Expr::Div(bx(n), bx(m))
        }
        7 => {
            let b = expr(s, g, d);
            let p = Expr::Const(s.pick(&[2.0, 3.0, 0.5, -1.0, 1.0, 0.0, 4.0, -2.0, 1.5, 2.5, 5.0]));
            Expr::Pow(bx(b), bx(p))
        }
        8 => {
            let b = if g.tame && s.chance(3, 4) { positive(s, g, d) } else { expr(s, g, d) };
            Expr::Pow(bx(b), bx(expr(s, g, d.min(2))))
        }
        9 => Expr::Ln(bx(if g.tame && s.chance(4, 5) { positive(s, g, d) } else { expr(s, g, d) })),
        10 => Expr::Exp(bx(expr(s, g, d))),
        11 => Expr::Sqrt(bx(if g.tame && s.chance(4, 5) { positive(s, g, d) } else { expr(s, g, d) })),
        12 => Expr::Sin(bx(expr(s, g, d))),
        13 => Expr::Cos(bx(expr(s, g, d))),
        14 => Expr::Neg(bx(expr(s, g, d))),
        // repeated operands
        15 => {
            let a = expr(s, g, d);
            let b = a.clone();
            match s.below(4) {
                0 => Expr::Add(bx(a), bx(b)),
                1 => Expr::Sub(bx(a), bx(b)),
                2 => Expr::Mul(bx(a), bx(b)),
                _ => Expr::Div(bx(a), bx(b)),
            }
        }
        // shapes that rewrite rules look for
        _ => match s.below(7) {
            0 => Expr::Pow(bx(Expr::Pow(bx(expr(s, g, d)), bx(Expr::Const(s.pick(&[2.0, 0.5, -1.0, 4.0, 3.0]))))), bx(Expr::Const(s.pick(&[0.5, 2.0, -1.0, 0.25, 3.0])))),
            1 => Expr::Ln(bx(Expr::Pow(bx(expr(s, g, d)), bx(Expr::Const(s.pick(&[2.0, 3.0, -2.0, 0.5])))))),
            2 => Expr::Sqrt(bx(Expr::Pow(bx(expr(s, g, d)), bx(Expr::Const(s.pick(&[2.0, 4.0, -2.0, 3.0])))))),
            3 => Expr::Exp(bx(Expr::Mul(bx(expr(s, g, d)), bx(Expr::Ln(bx(expr(s, g, d))))))),
            4 => Expr::Ln(bx(Expr::Exp(bx(expr(s, g, d))))),
            5 => Expr::Exp(bx(Expr::Ln(bx(expr(s, g, d))))),
            _ => Expr::Ln(bx(Expr::Mul(bx(expr(s, g, d)), bx(expr(s, g, d))))),
        },
    }
}
/// A long expression of up to `n` simple operands: a chain leaning to one side, a balanced tree, or
/// a tower of functions.
pub fn long(s: &mut Src, g: &Gen, n: usize) -> Expr {
    let mut f = s.fork();
    let r = &mut f;
    let operand = |r: &mut Src| {
        let v = Expr::Var(g.names[r.usize(g.names.len())].to_string());
        let c = Expr::Const(r.pick(&[1.0, 2.0, -1.0, 0.5, 3.0, 0.0, -2.5, 0.125]));
        match r.below(7) {
            0 | 1 => v,
            2 => c,
            3 => Expr::Mul(bx(c), bx(v)),
            4 => Expr::Sin(bx(v)),
            5 => Expr::Pow(bx(v), bx(Expr::Const(r.pick(&[2.0, 3.0, 1.0])))),
            _ => Expr::Neg(bx(v)),
        }
    };
    fn join(r: &mut Src, a: Expr, b: Expr) -> Expr {
        match r.below(12) {
            0..6 => Expr::Add(bx(a), bx(b)),
            6..10 => Expr::Sub(bx(a), bx(b)),
            10 => Expr::Mul(bx(Expr::Cos(bx(a))), bx(b)),
            _ => Expr::Div(bx(a), bx(Expr::Add(bx(Expr::Const(2.0)), bx(Expr::Pow(bx(b), bx(Expr::Const(2.0))))))),
        }
    }
    let shape = s.below(4);
    if shape == 3 {
        let mut e = operand(r);
        for _ in 0..n.min(120) {
            e = match r.below(5) {
                0 => Expr::Sin(bx(e)),
                1 => Expr::Cos(bx(e)),
                2 => Expr::Neg(bx(e)),
                3 => Expr::Exp(bx(Expr::Neg(bx(Expr::Pow(bx(e), bx(Expr::Const(2.0))))))),
                _ => Expr::Sqrt(bx(Expr::Add(bx(Expr::Const(1.0)), bx(Expr::Pow(bx(e), bx(Expr::Const(2.0))))))),
            };
        }
        return e;
    }
    let mut v: Vec<Expr> = (0..n.max(1)).map(|_| { r.rec.clear(); operand(r) }).collect();
    match shape {
        0 => { let mut e = v.remove(0); for b in v { e = join(r, e, b); } e }
        1 => { let mut e = v.pop().unwrap(); while let Some(a) = v.pop() { e = join(r, a, e); } e }
        _ => {
            while v.len() > 1 {
                let mut w = vec![];
                let mut it = v.into_iter();
                while let Some(a) = it.next() {
                    w.push(match it.next() { Some(b) => join(r, a, b), None => a });
                }
                v = w;
            }
            v.pop().unwrap()
        }
    }
}
/// Mostly `expr`, rarely `long`.
pub fn any_expr(s: &mut Src, g: &Gen, depth: usize, one_in: u64, n: usize) -> Expr {
    if s.chance(1, one_in) {
        let n = 2 + s.size(n);
        long(s, g, n)
    } else if s.chance(1, 6) {
        shape(s, g)
    } else {
        expr(s, g, depth)
    }
}
/// The left-hand sides of the identities of algebra, over operands that are often but not always the
/// ones the identity needs.
pub fn shape(s: &mut Src, g: &Gen) -> Expr {
    let k = |s: &mut Src| Expr::Const(if s.below(8) == 0 { constant(s, true) } else { s.pick(&[2.0, 2.0, 2.0, 1.0, 0.0, -1.0, 3.0, 0.5, 4.0, -2.0, 10.0, 0.25]) });
    let var = |s: &mut Src| Expr::Var(g.names[s.usize(g.names.len())].to_string());
    let operand = |s: &mut Src| match s.below(12) {
        0..6 => var(s),
        6 => k(s),
        7 => Expr::Neg(bx(var(s))),
        8 => Expr::Sub(bx(var(s)), bx(k(s))),
        9 => Expr::Mul(bx(k(s)), bx(var(s))),
        10 => Expr::Ln(bx(var(s))),
        _ => Expr::Add(bx(var(s)), bx(Expr::Const(1.0))),
    };
    let pool = [operand(s), operand(s)];
    let slots: Vec<Expr> = (0..4).map(|_| pool[s.usize(2)].clone()).collect();
    let (a, b, c, d) = (|| slots[0].clone(), || slots[1].clone(), || slots[2].clone(), || slots[3].clone());
    let add = |x: Expr, y: Expr| Expr::Add(bx(x), bx(y));
    let sub = |x: Expr, y: Expr| Expr::Sub(bx(x), bx(y));
    let mul = |x: Expr, y: Expr| Expr::Mul(bx(x), bx(y));
    let div = |x: Expr, y: Expr| Expr::Div(bx(x), bx(y));
    let pow = |x: Expr, y: Expr| Expr::Pow(bx(x), bx(y));
    let (ln, exp, sqrt) = (|x: Expr| Expr::Ln(bx(x)), |x: Expr| Expr::Exp(bx(x)), |x: Expr| Expr::Sqrt(bx(x)));
    let (sin, cos, neg) = (|x: Expr| Expr::Sin(bx(x)), |x: Expr| Expr::Cos(bx(x)), |x: Expr| Expr::Neg(bx(x)));
    let two = || Expr::Const(2.0);
    let one = || Expr::Const(1.0);
    let (k1, k2) = (k(s), k(s));
    let x = match s.below(92) {
        0 => add(a(), b()),
        1 => sub(a(), b()),
        2 => mul(a(), b()),
        3 => div(a(), b()),
        4 => add(mul(k1, a()), mul(k2, b())),
        5 => add(mul(a(), k1), mul(b(), k2)),
        6 => sub(mul(k1, a()), mul(k2, b())),
        7 => add(mul(k1, a()), b()),
        8 => add(a(), mul(k1, b())),
        9 => add(mul(a(), b()), mul(c(), d())),
        10 => sub(mul(a(), b()), mul(c(), d())),
        11 => add(add(a(), b()), c()),
        12 => sub(add(a(), b()), c()),
        13 => sub(sub(a(), b()), c()),
        14 => add(sub(a(), b()), c()),
        15 => add(a(), sub(b(), c())),
        16 => sub(a(), sub(b(), c())),
        17 => sub(a(), add(b(), c())),
        18 => add(div(a(), b()), div(c(), d())),
        19 => sub(div(a(), b()), div(c(), d())),
        20 => add(neg(a()), b()),
        21 => sub(neg(a()), b()),
        22 => sub(a(), neg(b())),
        23 => add(a(), neg(b())),
        24 => neg(add(a(), b())),
        25 => neg(sub(a(), b())),
        26 => sub(k1, neg(a())),
        27 => mul(mul(a(), b()), c()),
        28 => mul(div(a(), b()), c()),
        29 => div(mul(a(), b()), c()),
        30 => div(mul(a(), b()), mul(c(), d())),
        31 => div(a(), div(b(), c())),
        32 => div(div(a(), b()), c()),
        33 => mul(div(a(), b()), div(c(), d())),
        34 => div(div(a(), b()), div(c(), d())),
        35 => mul(k1, mul(k2, a())),
        36 => mul(mul(a(), k1), k2),
        37 => mul(neg(a()), neg(b())),
        38 => mul(neg(a()), b()),
        39 => mul(a(), neg(b())),
        40 => div(neg(a()), neg(b())),
        41 => div(a(), neg(b())),
        42 => mul(pow(a(), k1), pow(b(), k2)),
        43 => div(pow(a(), k1), pow(b(), k2)),
        44 => pow(pow(a(), k1), k2),
        45 => pow(mul(a(), b()), k1),
        46 => pow(div(a(), b()), k1),
        47 => mul(a(), pow(b(), k1)),
        48 => div(a(), pow(b(), k1)),
        49 => pow(pow(a(), b()), c()),
        50 => mul(pow(a(), b()), pow(c(), d())),
        51 => div(pow(a(), b()), pow(c(), d())),
        52 => pow(neg(a()), k1),
        53 => add(pow(a(), k1), pow(b(), k2)),
        54 => sub(pow(a(), k1), pow(b(), k2)),
        55 => pow(add(a(), b()), k1),
        56 => add(ln(a()), ln(b())),
        57 => sub(ln(a()), ln(b())),
        58 => mul(k1, ln(a())),
        59 => mul(ln(a()), b()),
        60 => div(ln(a()), ln(b())),
        61 => ln(mul(a(), b())),
        62 => ln(div(a(), b())),
        63 => ln(pow(a(), k1)),
        64 => ln(pow(a(), b())),
        65 => ln(exp(a())),
        66 => exp(ln(a())),
        67 => ln(div(one(), a())),
        68 => ln(sqrt(a())),
        69 => ln(mul(exp(a()), b())),
        70 => exp(add(ln(a()), b())),
        71 => mul(exp(a()), exp(b())),
        72 => div(exp(a()), exp(b())),
        73 => pow(exp(a()), k1),
        74 => exp(mul(a(), ln(b()))),
        75 => exp(mul(ln(a()), k1)),
        76 => exp(neg(ln(a()))),
        77 => add(exp(a()), exp(b())),
        78 => mul(sqrt(a()), sqrt(b())),
        79 => div(sqrt(a()), sqrt(b())),
        80 => sqrt(mul(a(), b())),
        81 => sqrt(pow(a(), k1)),
        82 => pow(sqrt(a()), k1),
        83 => sqrt(exp(a())),
        84 => add(pow(sin(a()), two()), pow(cos(b()), two())),
        85 => add(pow(cos(a()), k1), pow(sin(b()), k2)),
        86 => sub(pow(cos(a()), two()), pow(sin(b()), two())),
        87 => add(mul(sin(a()), sin(b())), mul(cos(c()), cos(d()))),
        88 => add(mul(sin(a()), cos(b())), mul(cos(c()), sin(d()))),
        89 => sub(one(), pow(if s.bool() { sin(a()) } else { cos(a()) }, k1)),
        90 => if s.bool() { sin(neg(a())) } else { cos(neg(a())) },
        _ => div(sin(a()), cos(b())),
    };
    match s.below(10) {
        0 => add(x, d()),
        1 => mul(k(s), x),
        2 => sub(d(), x),
        3 => s.pick(&[Expr::Ln, Expr::Exp, Expr::Sqrt, Expr::Neg, Expr::Sin, Expr::Cos])(bx(x)),
        _ => x,
    }
}
/// An expression that is often positive.
fn positive(s: &mut Src, g: &Gen, d: usize) -> Expr {
    let d = d.saturating_sub(1);
    match s.below(6) {
        0 => Expr::Exp(bx(expr(s, g, d))),
        1 => Expr::Add(bx(Expr::Const(s.pick(&[1.0, 0.5, 2.0, 10.0]))), bx(Expr::Pow(bx(expr(s, g, d)), bx(Expr::Const(2.0))))),
        2 => Expr::Var(g.names[s.usize(g.names.len())].to_string()),
        3 => {
            let a = expr(s, g, d);
            Expr::Add(bx(Expr::Mul(bx(a.clone()), bx(a))), bx(Expr::Const(1.0)))
        }
        4 => Expr::Const(s.pick(&[1.0, 2.0, 0.5, 3.0, 10.0])),
        _ => Expr::Sqrt(bx(Expr::Add(bx(Expr::Const(2.0)), bx(Expr::Sin(bx(expr(s, g, d))))))),
    }
}
pub fn value(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => 0.0,
        1 => s.range(-5, 5) as f64,
        2 => s.pick(&[1.0, -1.0, 0.5, 2.0, -0.0, 1e-8, 1e8, -3.5]),
        3 => s.real(1e-3, 1e3),
        _ => s.uniform(-4.0, 4.0),
    }
}
pub fn positive_value(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.range(1, 9) as f64,
        1 => s.pick(&[0.5, 0.25, 1.5, 0.1, 2.0]),
        2 => s.log_uniform(1e-3, 1e3),
        _ => s.uniform(0.05, 5.0),
    }
}
