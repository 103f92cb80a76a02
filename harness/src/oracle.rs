//! Independent reference values. A `Vm` carries the value, the magnitude of the terms that were
//! summed (`m`, for relative error) and a count of unit-size roundings that were amplified (`n`).
#[derive(Clone, Copy, Debug)]
pub struct Vm {
    pub v: f64,
    pub m: f64,
    pub n: f64,
}
impl Vm {
    pub fn c(v: f64) -> Vm {
        Vm { v, m: v.abs(), n: 0.0 }
    }
    pub fn neg_inf() -> Vm {
        Vm { v: f64::NEG_INFINITY, m: 0.0, n: 0.0 }
    }
    pub fn sum(ts: &[f64]) -> Vm {
        Vm { v: ts.iter().sum(), m: ts.iter().map(|t| t.abs()).sum(), n: 0.0 }
    }
    pub fn noise(mut self, n: f64) -> Vm {
        self.n += n;
        self
    }
    pub fn mag(mut self, m: f64) -> Vm {
        self.m += m;
        self
    }
    pub fn add(self, o: Vm) -> Vm {
        Vm { v: self.v + o.v, m: self.m + o.m, n: self.n + o.n }
    }
    pub fn sub(self, o: Vm) -> Vm {
        Vm { v: self.v - o.v, m: self.m + o.m, n: self.n + o.n }
    }
    pub fn scale(self, k: f64) -> Vm {
        Vm { v: self.v * k, m: self.m * k.abs(), n: self.n * k.abs() }
    }
    pub fn tol64(&self) -> f64 {
        1e-11 * (1.0 + self.m) + 2e-15 * self.n
    }
    pub fn tol32(&self) -> f64 {
        4e-6 * (1.0 + self.m) + 1e-6 * self.n
    }
    /// Does an f64 result agree?
    pub fn ok(&self, got: f64) -> bool {
        same(got, self.v, self.tol64())
    }
    pub fn ok_tol(&self, got: f64, factor: f64) -> bool {
        same(got, self.v, self.tol64() * factor)
    }
    pub fn ok32(&self, got: f32) -> bool {
        let v = self.v;
        if v.is_finite() && v.abs() > 3e38 {
            return true; // beyond f32
        }
        same(f64::from(got), v, self.tol32())
    }
}
/// Equal within tol, with infinities and NaN matching exactly.
pub fn same(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol
}
pub fn rel(a: f64, b: f64, r: f64) -> bool {
    same(a, b, r * (1.0 + a.abs().max(b.abs())))
}
/// purely relative
pub fn prel(a: f64, b: f64, r: f64) -> bool {
    same(a, b, r * a.abs().max(b.abs()) + 1e-300)
}

pub const LN_2PI: f64 = 1.837_877_066_409_345_3;
pub const LN_PI: f64 = 1.144_729_885_849_400_2;

/// ln Gamma(x), x > 0, by Stirling's series after shifting.
pub fn lgamma(x: f64) -> f64 {
    assert!(x > 0.0);
    if x == 1.0 || x == 2.0 {
        return 0.0;
    }
    let mut z = x;
    let mut shift = 0.0;
    if z < 16.0 {
        // product of the shifted factors, in blocks to avoid over/underflow
        let mut prod = 1.0f64;
        while z < 16.0 {
            prod *= z;
            z += 1.0;
        }
        shift = prod.ln();
    }
    let i = 1.0 / z;
    let i2 = i * i;
    let ser = i
        * (1.0 / 12.0
            - i2 * (1.0 / 360.0
                - i2 * (1.0 / 1260.0 - i2 * (1.0 / 1680.0 - i2 * (1.0 / 1188.0 - i2 * (691.0 / 360_360.0 - i2 / 156.0))))));
    (z - 0.5) * z.ln() - z + 0.5 * LN_2PI + ser - shift
}
pub fn lfact(k: u64) -> f64 {
    if k <= 33 {
        return ((1..=u128::from(k)).product::<u128>() as f64).ln();
    }
    lgamma(k as f64 + 1.0)
}

pub fn normal(mu: f64, s: f64, x: f64) -> Vm {
    let z = (x - mu) / s;
    Vm::sum(&[-0.5 * LN_2PI, -s.ln(), -0.5 * z * z])
}
/// log(1 + z^2)
fn ln_1p_sq(z: f64) -> f64 {
    if z.abs() > 1e20 { 2.0 * z.abs().ln() } else { (z * z).ln_1p() }
}
pub fn cauchy(loc: f64, s: f64, x: f64) -> Vm {
    let z = (x - loc) / s;
    Vm::sum(&[-LN_PI, -s.ln(), -ln_1p_sq(z)])
}
pub fn student(nu: f64, x: f64) -> Vm {
    let a = lgamma((nu + 1.0) / 2.0);
    let b = lgamma(nu / 2.0);
    let k = (nu + 1.0) / 2.0;
    // rounding of 1 + x^2/nu is amplified by (nu+1)/2
    Vm::sum(&[a, -b, -0.5 * (nu * std::f64::consts::PI).ln(), -k * ln_1p_sq(x / nu.sqrt())]).noise(k)
}
pub fn exponential(rate: f64, x: f64) -> Vm {
    if x >= 0.0 { Vm::sum(&[rate.ln(), -rate * x]) } else { Vm::neg_inf() }
}
pub fn gamma(a: f64, b: f64, x: f64) -> Vm {
    if x > 0.0 { Vm::sum(&[a * b.ln(), -lgamma(a), (a - 1.0) * x.ln(), -b * x]) } else { Vm::neg_inf() }
}
pub fn beta(a: f64, b: f64, x: f64) -> Vm {
    if x > 0.0 && x < 1.0 {
        Vm::sum(&[lgamma(a + b), -lgamma(a), -lgamma(b), (a - 1.0) * x.ln(), (b - 1.0) * (1.0 - x).ln()])
            .noise((b - 1.0).abs())
    } else {
        Vm::neg_inf()
    }
}
pub fn chi2(k: f64, x: f64) -> Vm {
    if x > 0.0 {
        Vm::sum(&[-0.5 * k * std::f64::consts::LN_2, -lgamma(0.5 * k), (0.5 * k - 1.0) * x.ln(), -0.5 * x])
    } else {
        Vm::neg_inf()
    }
}
/// x ln(1 + y), with 0 ln 0 = 0
fn xlny1p(x: f64, y: f64) -> f64 {
    if x == 0.0 { 0.0 } else { x * y.ln_1p() }
}
fn xlny(x: f64, lny: f64) -> f64 {
    if x == 0.0 { 0.0 } else { x * lny }
}
pub fn bernoulli(p: f64, x: u64) -> Vm {
    match x {
        0 => Vm::c((-p).ln_1p()).noise(1.0),
        1 => Vm::c(p.ln()),
        _ => Vm::neg_inf(),
    }
}
pub fn lchoose(n: u64, k: u64) -> Vm {
    if k > n {
        return Vm::neg_inf();
    }
    if k == 0 || k == n {
        return Vm::c(0.0);
    }
    Vm::sum(&[lfact(n), -lfact(k), -lfact(n - k)])
}
pub fn binomial(n: u64, p: f64, k: u64) -> Vm {
    if k > n {
        return Vm::neg_inf();
    }
    let t = Vm::sum(&[xlny(k as f64, p.ln()), xlny1p((n - k) as f64, -p)]);
    lchoose(n, k).add(t)
}
pub fn lnbcoef(r: u64, k: u64) -> Vm {
    if k == 0 {
        return Vm::c(0.0);
    }
    Vm::sum(&[lgamma(k as f64 + r as f64), -lfact(k), -lgamma(r as f64)])
}
/// k successes (each with probability p) before the r-th failure
pub fn negbin(r: u64, p: f64, k: u64) -> Vm {
    lnbcoef(r, k).add(Vm::sum(&[r as f64 * (-p).ln_1p(), k as f64 * p.ln()]))
}
pub fn geometric(p: f64, k: u64) -> Vm {
    if k < 1 {
        return Vm::neg_inf();
    }
    Vm::sum(&[xlny1p((k - 1) as f64, -p), p.ln()])
}
pub fn poisson(l: f64, k: u64) -> Vm {
    Vm::sum(&[k as f64 * l.ln(), -l, -lfact(k)])
}
pub fn log_sum_exp(xs: &[f64]) -> f64 {
    let m = xs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    if m == f64::NEG_INFINITY {
        return m;
    }
    m + xs.iter().map(|x| (x - m).exp()).sum::<f64>().ln()
}
pub fn softplus(x: f64) -> f64 {
    if x > 0.0 { x + (-x).exp().ln_1p() } else { x.exp().ln_1p() }
}
pub fn sigmoid(x: f64) -> f64 {
    if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { x.exp() / (1.0 + x.exp()) }
}
