//! Generated distributions, with the reference density of each, and macros that run a piece of
//! code on the library's own value of that distribution.
use crate::oracle::{self as or, Vm};
use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Normal(f64, f64),
    Exponential(f64),
    Gamma(f64, f64),
    Beta(f64, f64),
    Chi2(f64),
    StudentT(f64),
    Cauchy(f64, f64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Bernoulli(f64),
    Binomial(u64, f64),
    Categorical(Vec<f64>),
    Geometric(f64),
    NegBin(u64, f64),
    Poisson(f64),
}

/// continuous distributions having a density
#[macro_export]
macro_rules! with_c {
    ($c:expr, $t:ty, $m:ident => $body:expr) => {{
        use measures_distributions as md;
        match $c {
            $crate::dists::C::Normal(a, b) => { let $m = md::Normal::<$t>::new(*a as $t, *b as $t); $body }
            $crate::dists::C::Exponential(a) => { let $m = md::Exponential::<$t>::new(*a as $t); $body }
            $crate::dists::C::Gamma(a, b) => { let $m = md::Gamma::<$t>::new(*a as $t, *b as $t); $body }
            $crate::dists::C::Beta(a, b) => { let $m = md::Beta::<$t>::new(*a as $t, *b as $t); $body }
            $crate::dists::C::Chi2(a) => { let $m = md::ChiSquared::<$t>::new(*a as $t); $body }
            $crate::dists::C::StudentT(a) => { let $m = md::StudentT::<$t>::new(*a as $t); $body }
            $crate::dists::C::Cauchy(a, b) => { let $m = md::Cauchy::<$t>::new(*a as $t, *b as $t); $body }
        }
    }};
}
/// continuous exponential families
#[macro_export]
macro_rules! with_cef {
    ($c:expr, $t:ty, $m:ident => $body:expr, else $other:expr) => {{
        use measures_distributions as md;
        match $c {
            $crate::dists::C::Normal(a, b) => { let $m = md::Normal::<$t>::new(*a as $t, *b as $t); $body }
            $crate::dists::C::Exponential(a) => { let $m = md::Exponential::<$t>::new(*a as $t); $body }
            $crate::dists::C::Gamma(a, b) => { let $m = md::Gamma::<$t>::new(*a as $t, *b as $t); $body }
            $crate::dists::C::Beta(a, b) => { let $m = md::Beta::<$t>::new(*a as $t, *b as $t); $body }
            $crate::dists::C::Chi2(a) => { let $m = md::ChiSquared::<$t>::new(*a as $t); $body }
            _ => $other,
        }
    }};
}
/// discrete distributions; $x is the point type
#[macro_export]
macro_rules! with_d {
    ($c:expr, $t:ty, $m:ident, $x:ident => $body:expr) => {{
        use measures_distributions as md;
        match $c {
            $crate::dists::D::Bernoulli(a) => { #[allow(dead_code)] type $x = u8; let $m = md::Bernoulli::<$t>::new(*a as $t); $body }
            $crate::dists::D::Binomial(n, a) => { #[allow(dead_code)] type $x = u64; let $m = md::Binomial::<$t>::new(*n, *a as $t); $body }
            $crate::dists::D::Categorical(p) => { #[allow(dead_code)] type $x = usize; let $m = md::Categorical::<$t>::new(p.iter().map(|v| *v as $t).collect()); $body }
            $crate::dists::D::Geometric(a) => { #[allow(dead_code)] type $x = u64; let $m = md::Geometric::<$t>::new(*a as $t); $body }
            $crate::dists::D::NegBin(n, a) => { #[allow(dead_code)] type $x = u64; let $m = md::NegativeBinomial::<$t>::new(*n, *a as $t); $body }
            $crate::dists::D::Poisson(a) => { #[allow(dead_code)] type $x = u64; let $m = md::Poisson::<$t>::new(*a as $t); $body }
        }
    }};
}

/// The nearest single-precision point that is neither huge nor tiny for that precision.
pub fn narrow(x: f64) -> f32 {
    if x == 0.0 || x.is_nan() { x as f32 } else { (x.abs().clamp(1e-30, 1e12) as f32).copysign(x as f32) }
}

pub const CN: usize = 7;
pub const DN: usize = 6;

impl C {
    pub fn gen_kind(s: &mut Src, k: usize) -> C {
        match k {
            0 => C::Normal(s.real(-1000.0, 1000.0), s.pos(1e-3, 1e3)),
            1 => C::Exponential(s.pos(1e-3, 1e3)),
            2 => C::Gamma(s.pos(1e-2, 1e3), s.pos(1e-3, 1e3)),
            3 => C::Beta(s.pos(1e-2, 1e3), s.pos(1e-2, 1e3)),
            4 => C::Chi2(s.pos(0.05, 1e3)),
            5 => C::StudentT(s.pos(0.05, 1e3)),
            _ => C::Cauchy(s.real(-1000.0, 1000.0), s.pos(1e-3, 1e3)),
        }
    }
    /// Parameters of any magnitude.
    pub fn wide(s: &mut Src, k: usize) -> C {
        let scale = |s: &mut Src| s.log_uniform(1e-9, 1e9);
        let loc = |s: &mut Src| s.log_uniform(1e-6, 1e9) * s.pick(&[1.0, -1.0]);
        match k {
            0 => C::Normal(loc(s), scale(s)),
            1 => C::Exponential(scale(s)),
            2 => C::Gamma(s.log_uniform(1e-5, 1e7), scale(s)),
            3 => C::Beta(s.log_uniform(1e-5, 1e6), s.log_uniform(1e-5, 1e6)),
            4 => C::Chi2(s.log_uniform(1e-5, 1e7)),
            5 => C::StudentT(s.log_uniform(1e-3, 1e7)),
            _ => C::Cauchy(loc(s), scale(s)),
        }
    }
    /// Parameters far beyond what data ever has (f64 only: `to_f32` brings them back in range).
    pub fn extreme(s: &mut Src, k: usize) -> C {
        let scale = |s: &mut Src| s.log_uniform(1e-70, 1e70);
        let loc = |s: &mut Src| if s.chance(1, 4) { 0.0 } else { s.log_uniform(1e-70, 1e70) * s.pick(&[1.0, -1.0]) };
        match k {
            0 => {
                let d = scale(s);
                let m = if s.chance(1, 4) { 0.0 } else { d * s.log_uniform(1e-9, 1e9) * s.pick(&[1.0, -1.0]) };
                C::Normal(m, d)
            }
            1 => C::Exponential(scale(s)),
            2 => C::Gamma(s.log_uniform(1e-60, 1e10), scale(s)),
            3 => C::Beta(s.log_uniform(1e-60, 1e10), s.log_uniform(1e-60, 1e10)),
            4 => C::Chi2(s.log_uniform(1e-60, 1e10)),
            5 => C::StudentT(s.log_uniform(1e-60, 1e10)),
            _ => C::Cauchy(loc(s), scale(s)),
        }
    }
    fn far(s: &mut Src, k: usize) -> C {
        if s.chance(1, 3) { C::extreme(s, k) } else { C::wide(s, k) }
    }
    pub fn generate(s: &mut Src) -> C {
        let k = s.usize(CN);
        if s.chance(1, 8) { C::far(s, k) } else { C::gen_kind(s, k) }
    }
    pub fn generate_ef(s: &mut Src) -> C {
        let k = s.usize(5);
        if s.chance(1, 8) { C::far(s, k) } else { C::gen_kind(s, k) }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            C::Normal(..) => "Normal",
            C::Exponential(_) => "Exponential",
            C::Gamma(..) => "Gamma",
            C::Beta(..) => "Beta",
            C::Chi2(_) => "ChiSquared",
            C::StudentT(_) => "StudentT",
            C::Cauchy(..) => "Cauchy",
        }
    }
    pub fn to_f32(&self) -> C {
        let r = |x: &f64| {
            let m = if *x == 0.0 { 0.0 } else { x.abs().clamp(1e-9, 1e9) };
            f64::from(m.copysign(*x) as f32)
        };
        match self {
            C::Normal(a, b) => C::Normal(r(a), r(b)),
            C::Exponential(a) => C::Exponential(r(a)),
            C::Gamma(a, b) => C::Gamma(r(a), r(b)),
            C::Beta(a, b) => C::Beta(r(a), r(b)),
            C::Chi2(a) => C::Chi2(r(a)),
            C::StudentT(a) => C::StudentT(r(a)),
            C::Cauchy(a, b) => C::Cauchy(r(a), r(b)),
        }
    }
    pub fn reference(&self, x: f64) -> Vm {
        match *self {
            C::Normal(a, b) => or::normal(a, b, x),
            C::Exponential(a) => or::exponential(a, x),
            C::Gamma(a, b) => or::gamma(a, b, x),
            C::Beta(a, b) => or::beta(a, b, x),
            C::Chi2(a) => or::chi2(a, x),
            C::StudentT(a) => or::student(a, x),
            C::Cauchy(a, b) => or::cauchy(a, b, x),
        }
    }
    pub fn supports(&self, x: f64) -> bool {
        match self {
            C::Normal(..) | C::StudentT(_) | C::Cauchy(..) => true,
            C::Exponential(_) => x >= 0.0,
            C::Gamma(..) | C::Chi2(_) => x > 0.0,
            C::Beta(..) => x > 0.0 && x < 1.0,
        }
    }
    /// Points at which the formula has something special: the mode, a standard deviation away
    /// from it, the negated location, the far tails.
    fn special(&self, s: &mut Src) -> f64 {
        match *self {
            C::Normal(m, d) | C::Cauchy(m, d) => {
                s.pick(&[m, -m, m + d, m - d, 0.0, d, 1e100, -1e100, 1e-310, m + 35.0 * d, m - 35.0 * d, 2.0 * m])
            }
            C::StudentT(n) => s.pick(&[0.0, n.sqrt(), -n.sqrt(), 1.0, -1.0, 1e120, -1e120, 1e-250, n, -n]),
            C::Exponential(r) => s.pick(&[0.0, r, 1.0 / r, 2.0 / r, 1e120, 1e250, 1e-310, 1.0, 750.0 / r]),
            C::Gamma(a, b) => s.pick(&[1.0, a / b, (a - 1.0) / b, a, b, 1.0 / b, 1e120, 1e250, 1e-150, 1e-308, 750.0 / b]),
            C::Chi2(k) => s.pick(&[1.0, k, k - 2.0, 2.0, 1e120, 1e250, 1e-150, 1e-308, 1500.0]),
            C::Beta(a, b) => {
                s.pick(&[0.5, a / (a + b), (a - 1.0) / (a + b - 2.0), 1e-150, 1e-308, 1.0 - 1e-15, 1.0 - f64::EPSILON / 2.0])
            }
        }
    }
    /// A point in the support.
    pub fn inside(&self, s: &mut Src) -> f64 {
        if s.chance(1, 10) {
            let x = self.special(s);
            if x.is_finite() && self.supports(x) {
                return x;
            }
        }
        match *self {
            C::Normal(m, d) | C::Cauchy(m, d) => {
                if s.chance(1, 3) { s.real(-1e4, 1e4) } else { m + d * s.real(-40.0, 40.0) }
            }
            C::StudentT(_) => {
                if s.chance(1, 3) { s.real(-1e6, 1e6) } else { s.real(-20.0, 20.0) }
            }
            C::Exponential(r) => {
                if s.chance(1, 8) { 0.0 } else { s.pos(1e-9, 100.0) / if s.bool() { r } else { 1.0 } }
            }
            C::Gamma(a, b) => {
                let k = s.below(3);
                s.pos(1e-9, 100.0) * [1.0, a / b, 1.0 / b][k as usize]
            }
            C::Chi2(k) => {
                let t = s.bool();
                s.pos(1e-9, 100.0) * if t { k } else { 1.0 }
            }
            C::Beta(..) => s.prob(),
        }
    }
    /// Any point, biased to the support and its edges.
    pub fn point(&self, s: &mut Src) -> f64 {
        match s.below(8) {
            0 => s.pick(&[0.0, 1.0, -1.0, -0.0, 2.0, -1e-12, 1.0 + 1e-12, -1e6, 1e-300, 1.0 - 1e-12, 1e100, -1e100, -1e-300, 1.0 + f64::EPSILON]),
            1 => s.real(-50.0, 50.0),
            _ => self.inside(s),
        }
    }
    pub fn moments(&self) -> Option<(f64, f64)> {
        match *self {
            C::Normal(m, d) => Some((m, d * d)),
            C::Exponential(r) => Some((1.0 / r, 1.0 / (r * r))),
            C::Gamma(a, b) => Some((a / b, a / (b * b))),
            C::Beta(a, b) => Some((a / (a + b), a * b / ((a + b) * (a + b) * (a + b + 1.0)))),
            C::Chi2(k) => Some((k, 2.0 * k)),
            _ => None,
        }
    }
}

impl D {
    /// `edge` allows the degenerate parameters the constructors accept (p = 0, p = 1, zero weights).
    pub fn gen_kind(s: &mut Src, k: usize, edge: bool) -> D {
        let p = |s: &mut Src, lo: bool| {
            if edge && s.chance(1, 10) {
                if lo && s.bool() { 0.0 } else { 1.0 }
            } else {
                s.prob()
            }
        };
        match k {
            0 => D::Bernoulli(p(s, true)),
            1 => {
                let n = if s.chance(1, 4) { s.below(2000) } else { s.below(40) };
                D::Binomial(n, p(s, true))
            }
            2 => D::Categorical(Self::probs(s, 8, edge)),
            3 => D::Geometric(p(s, false)),
            4 => {
                let r = 1 + if s.chance(1, 4) { s.below(500) } else { s.below(20) };
                D::NegBin(r, s.prob())
            }
            _ => D::Poisson(s.pos(1e-4, 500.0)),
        }
    }
    pub fn probs(s: &mut Src, max: usize, edge: bool) -> Vec<f64> {
        let n = 1 + s.usize(max);
        let mut w: Vec<f64> =
            (0..n).map(|_| if edge && s.chance(1, 10) { 0.0 } else { s.pos(0.01, 20.0) }).collect();
        if w.iter().sum::<f64>() == 0.0 {
            w[0] = 1.0;
        }
        let t: f64 = w.iter().sum();
        w.iter().map(|x| x / t).collect()
    }
    /// Parameters of any magnitude.
    pub fn wide(s: &mut Src, k: usize) -> D {
        match k {
            1 => match s.below(4) {
                0 => D::Binomial(s.log_uniform(1.0, 1e18) as u64, s.log_uniform(1e-20, 1.0)),
                1 => D::Binomial(s.size(10_000) as u64, 1.0 - s.log_uniform(1e-15, 1.0)),
                _ => D::Binomial(s.size(10_000_000) as u64, s.prob()),
            },
            2 => {
                let n = 1 + if s.chance(1, 20) { s.size(3000) } else { s.usize(40) };
                let mut r = s.fork();
                let w: Vec<f64> = (0..n).map(|_| (1 + r.below(1000)) as f64).collect();
                let t: f64 = w.iter().sum();
                D::Categorical(w.iter().map(|x| x / t).collect())
            }
            3 => D::Geometric(if s.bool() { s.log_uniform(1e-9, 1.0) } else { s.log_uniform(1e-30, 1.0) }),
            4 => match s.below(4) {
                0 => D::NegBin(s.log_uniform(1.0, 1e18) as u64, s.log_uniform(1e-20, 1.0)),
                1 => D::NegBin(1 + s.size(10_000) as u64, 1.0 - s.log_uniform(1e-15, 1.0)),
                _ => D::NegBin(1 + s.size(10_000_000) as u64, s.prob()),
            },
            5 => D::Poisson(if s.chance(1, 4) { s.log_uniform(1e-100, 1e12) } else { s.log_uniform(1e-9, 1e7) }),
            _ => D::Bernoulli(if s.bool() { s.log_uniform(1e-300, 1.0) } else { 1.0 - s.log_uniform(1e-15, 1.0) }),
        }
    }
    pub fn generate(s: &mut Src, edge: bool) -> D {
        let k = s.usize(DN);
        if s.chance(1, 8) { D::wide(s, k) } else { D::gen_kind(s, k, edge) }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            D::Bernoulli(_) => "Bernoulli",
            D::Binomial(..) => "Binomial",
            D::Categorical(_) => "Categorical",
            D::Geometric(_) => "Geometric",
            D::NegBin(..) => "NegativeBinomial",
            D::Poisson(_) => "Poisson",
        }
    }
    pub fn to_f32(&self) -> D {
        let r = |x: &f64| f64::from(*x as f32);
        // a probability rounded to f32 must stay inside (0,1) when it was
        let q = |x: &f64| {
            let y = r(x);
            if *x < 1.0 && y >= 1.0 { f64::from(1.0f32 - f32::EPSILON) } else { y }
        };
        match self {
            D::Bernoulli(a) => D::Bernoulli(q(a)),
            D::Binomial(n, a) => D::Binomial(*n, q(a)),
            D::Categorical(p) => D::Categorical(p.iter().map(r).collect()),
            D::Geometric(a) => D::Geometric(q(a)),
            D::NegBin(n, a) => D::NegBin(*n, q(a)),
            D::Poisson(a) => D::Poisson(r(&a.clamp(1e-30, 1e9))),
        }
    }
    pub fn reference(&self, k: u64) -> Vm {
        match self {
            D::Bernoulli(p) => or::bernoulli(*p, k),
            D::Binomial(n, p) => or::binomial(*n, *p, k),
            D::Categorical(p) => p.get(k as usize).map_or(Vm::neg_inf(), |p| Vm::c(p.ln())),
            D::Geometric(p) => or::geometric(*p, k),
            D::NegBin(r, p) => or::negbin(*r, *p, k),
            D::Poisson(l) => or::poisson(*l, k),
        }
    }
    pub fn supports(&self, k: u64) -> bool {
        match self {
            D::Bernoulli(_) => k <= 1,
            D::Binomial(n, _) => k <= *n,
            D::Categorical(p) => (k as usize) < p.len(),
            D::Geometric(_) => k >= 1,
            D::NegBin(..) | D::Poisson(_) => true,
        }
    }
    pub fn degenerate(&self) -> bool {
        match self {
            D::Bernoulli(p) | D::Binomial(_, p) | D::Geometric(p) => *p <= 0.0 || *p >= 1.0,
            D::Categorical(p) => p.iter().any(|x| *x == 0.0),
            _ => false,
        }
    }
    pub fn max_point(&self) -> u64 {
        match self {
            D::Bernoulli(_) => u64::from(u8::MAX),
            _ => u64::MAX,
        }
    }
    pub fn inside(&self, s: &mut Src) -> u64 {
        match self {
            D::Bernoulli(_) => s.below(2),
            D::Binomial(n, _) => {
                if s.chance(1, 4) { s.pick(&[0, *n, n / 2]) } else { s.below(n + 1) }
            }
            D::Categorical(p) => s.below(p.len() as u64),
            D::Geometric(p) => 1 + match s.below(16) { 0 => s.size(10_000_000) as u64, 4 => (s.pos(1e-3, 30.0) / p).min(1e19) as u64, 1..=3 => s.below(2000), _ => s.below(30) },
            D::NegBin(..) => match s.below(16) { 0 => s.size(10_000_000) as u64, 5 => s.log_uniform(1.0, 1e18) as u64, 1..=3 => s.below(2000), _ => s.below(30) },
            D::Poisson(l) => match s.below(16) {
                // (the library sums one logarithm per unit of k)
                0 => s.size(2000) as u64,
                1..8 => s.below(30),
                _ => s.below((3.0 * l.min(1e4)) as u64 + 30),
            }
        }
    }
    pub fn point(&self, s: &mut Src) -> u64 {
        match s.below(6) {
            0 => s.below(4),
            1 => match self {
                D::Binomial(n, _) => n + 1 + s.below(5),
                D::Categorical(p) => p.len() as u64 + s.below(4),
                D::Bernoulli(_) => 2 + s.below(254),
                _ => s.below(60),
            },
            _ => self.inside(s),
        }
    }
    pub fn moments(&self) -> Option<(f64, f64)> {
        match self {
            D::Bernoulli(p) => Some((*p, p * (1.0 - p))),
            D::Binomial(n, p) => Some((*n as f64 * p, *n as f64 * p * (1.0 - p))),
            D::Categorical(p) => {
                let m: f64 = p.iter().enumerate().map(|(i, p)| i as f64 * p).sum();
                Some((m, p.iter().enumerate().map(|(i, p)| p * (i as f64 - m) * (i as f64 - m)).sum()))
            }
            D::Geometric(p) => Some((1.0 / p, (1.0 - p) / (p * p))),
            D::NegBin(r, p) => {
                let q = 1.0 - p;
                Some((*r as f64 * p / q, *r as f64 * p / (q * q)))
            }
            D::Poisson(_) => None,
        }
    }
}
