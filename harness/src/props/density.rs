//! C01 relative densities, C02 documented formulas, C03 normalisation and moments, C04 support,
//! C05 constructors and accessors.
use crate::dists::{C, CN, D, narrow};
use crate::oracle::same;
use crate::runner::*;
use crate::src::Src;
use crate::{ensure, with_c, with_cef, with_d};
use measures_combinators::measures::derived::{
    BinomialCoefficientMeasure, Dirac, FactorialMeasure, IntegralMeasure, NegativeBinomialCoefficientMeasure,
    WeightedMeasure,
};
use measures_core::{
    CountingMeasure, EvaluateAt, False, HasLogDensity, LebesgueMeasure, LogDensity, LogDensityBuilder,
    LogDensityTrait, Measure, MeasureMarker, SharedRootMeasure, True, log_density_at,
    log_density_batch,
};

// ---------------------------------------------------------------- C01

/// Unit measures with the library's own flags.
#[derive(Clone)]
struct UnitT<const A: i64>;
#[derive(Clone)]
struct UnitF<const A: i64>;
#[derive(Clone)]
struct AffT {
    a: f64,
    b: f64,
}
#[derive(Clone)]
struct AffF {
    a: f64,
    b: f64,
}
macro_rules! user_measure {
    ([$($g:tt)*] $t:ty, $flag:ty, |$self_:ident, $x:ident| $dens:expr) => {
        impl<$($g)*> MeasureMarker for $t {
            type IsPrimitive = False;
            type IsExponentialFamily = $flag;
        }
        impl<$($g)*> Measure<f64> for $t {
            type RootMeasure = LebesgueMeasure<f64>;
            fn in_support(&self, _: f64) -> bool { true }
            fn root_measure(&self) -> Self::RootMeasure { LebesgueMeasure::new() }
        }
        impl<$($g)*> HasLogDensity<f64, f64> for $t {
            fn log_density_wrt_root(&self, $x: &f64) -> f64 { let $self_ = self; $dens }
        }
    };
}
user_measure!([const A: i64] UnitT<A>, True, |_s, x| A as f64 * 0.25 + (A % 3) as f64 * *x);
user_measure!([const A: i64] UnitF<A>, False, |_s, x| A as f64 * 0.25 - (A % 5) as f64 * *x);
user_measure!([] AffT, True, |s, x| s.a + s.b * *x);
user_measure!([] AffF, False, |s, x| s.a - s.b * *x * *x);

/// All laws of relative log-densities for three measures at one point.
/// `d1..d3` are the expected root densities (already checked elsewhere or computed independently).
fn laws<X, M1, M2, M3>(m1: &M1, m2: &M2, m3: &M3, x: &X, exp: Option<[f64; 3]>) -> R
where
    X: Clone + std::fmt::Debug,
    M1: Measure<X> + HasLogDensity<X, f64>,
    M2: Measure<X> + HasLogDensity<X, f64>,
    M3: Measure<X> + HasLogDensity<X, f64>,
    LogDensity<X, M1, M2>: EvaluateAt<X, f64>,
    LogDensity<X, M2, M1>: EvaluateAt<X, f64>,
    LogDensity<X, M2, M3>: EvaluateAt<X, f64>,
    LogDensity<X, M1, M3>: EvaluateAt<X, f64>,
    LogDensity<X, M1, M1>: EvaluateAt<X, f64>,
    LogDensity<X, M1, M1::RootMeasure>: EvaluateAt<X, f64>,
    LogDensity<X, M2, M1::RootMeasure>: EvaluateAt<X, f64>,
    M1::RootMeasure: HasLogDensity<X, f64> + LogDensityBuilder<X>,
    M2: Measure<X, RootMeasure = M1::RootMeasure>,
{
    let r1 = m1.log_density_wrt_root(x);
    let r2 = m2.log_density_wrt_root(x);
    let r3 = m3.log_density_wrt_root(x);
    if let Some(e) = exp {
        for (g, w) in [(r1, e[0]), (r2, e[1]), (r3, e[2])] {
            ensure!(same(g, w, 1e-12 * (1.0 + w.abs())), "root-density", "log_density_wrt_root at {x:?} is {g}, the measure's own density is {w}");
        }
    }
    let tol = |a: f64, b: f64| 1e-12 * (1.0 + a.abs() + b.abs());
    let fin = r1.is_finite() && r2.is_finite() && r3.is_finite();
    // default base measure: the root
    let d1: f64 = m1.log_density().at(x);
    ensure!(same(d1, r1, tol(r1, 0.0)), "default-root", "log_density().at({x:?}) = {d1}, density wrt the root = {r1}");
    ensure!(same(EvaluateAt::<X, f64>::at(&m1.log_density(), x), r1, tol(r1, 0.0)), "trait-at", "EvaluateAt differs from the root density {r1}");
    let d1: f64 = m1.log_density().wrt(m1.root_measure()).at(x);
    ensure!(same(d1, r1, tol(r1, 0.0)), "wrt-root", "log_density().wrt(root).at({x:?}) = {d1}, expected {r1}");
    let la: f64 = log_density_at(m1, x);
    ensure!(same(la, r1, 0.0), "log_density_at", "log_density_at({x:?}) = {la}, expected {r1}");
    // relative density = difference of root densities (when that difference is defined)
    let d12: f64 = m1.log_density().wrt(m2.clone()).at(x);
    let d21: f64 = m2.log_density().wrt(m1.clone()).at(x);
    if !(r1.is_infinite() && r2.is_infinite()) {
        ensure!(same(d12, r1 - r2, tol(r1, r2)), "difference", "relative density {d12} at {x:?}, root densities {r1} and {r2}");
        ensure!(same(d21, r2 - r1, tol(r1, r2)), "difference", "relative density {d21} at {x:?}, root densities {r2} and {r1}");
    }
    if fin {
        ensure!(same(d12, -d21, tol(r1, r2)), "antisymmetry", "d12 = {d12}, d21 = {d21} at {x:?}");
        let d23: f64 = m2.log_density().wrt(m3.clone()).at(x);
        let d13: f64 = m1.log_density().wrt(m3.clone()).at(x);
        ensure!(same(d12 + d23, d13, tol(r1, r2) + tol(r2, r3)), "chain-rule", "d12 + d23 = {}, d13 = {d13} at {x:?}", d12 + d23);
        let d11: f64 = m1.log_density().wrt(m1.clone()).at(x);
        ensure!(same(d11, 0.0, tol(r1, r1)), "self", "density with respect to itself is {d11} at {x:?}");
        let re: f64 = m1.log_density().wrt(m2.clone()).wrt(m3.clone()).at(x);
        ensure!(same(re, d13, tol(r1, r3)), "wrt-last", "wrt(m2).wrt(m3) = {re}, wrt(m3) = {d13}");
        let cl: f64 = m1.log_density().wrt(m2.clone()).clone().at(x);
        ensure!(same(cl, d12, 0.0), "clone", "a clone of the relative density gives {cl}, original {d12}");
    }
    // the two accessors name the right measures
    let ld = m1.log_density().wrt(m2.clone());
    let a = LogDensityTrait::measure(&ld).log_density_wrt_root(x);
    let b = LogDensityTrait::base_measure(&ld).log_density_wrt_root(x);
    ensure!(same(a, r1, 0.0) && same(b, r2, 0.0), "accessors", "measure() has density {a} (expected {r1}), base_measure() {b} (expected {r2})");
    let sh: f64 = (m1.clone(), m2.clone()).log_density_wrt_shared_root(x);
    if fin {
        ensure!(same(sh, r1 + r2, tol(r1, r2)), "shared-root", "shared-root density {sh}, parts {r1} and {r2}");
    }
    let pts = vec![x.clone(), x.clone(), x.clone()];
    let bt: Vec<f64> = log_density_batch(m1, &pts);
    ensure!(bt.len() == 3 && bt.iter().all(|v| same(*v, r1, 0.0)), "batch", "batch {bt:?}, expected three times {r1}");
    ensure!(log_density_batch::<X, f64, M1>(m1, &[]).is_empty(), "batch", "batch of nothing is not empty");
    Ok(())
}

fn c01_cont(s: &mut Src, o: &mut Obs) -> R {
    let a = C::generate(s);
    let b = C::generate(s);
    let c = C::Normal(s.real(-20.0, 20.0), s.pos(0.1, 10.0));
    let x = if s.chance(1, 5) { a.point(s) } else { a.inside(s) };
    o.note(|| format!("{a:?} wrt {b:?} wrt {c:?} at {x:?}"));
    o.label(a.kind());
    o.label_if(a.kind() == b.kind(), "same-family");
    o.label_if(!a.supports(x) || !b.supports(x), "outside-a-support");
    o.nontrivial(a != b);
    with_c!(&a, f64, m1 => with_c!(&b, f64, m2 => with_c3(&c, |m3| laws(&m1, &m2, m3, &x, None))))
}
fn with_c3(c: &C, f: impl FnOnce(&measures_distributions::Normal<f64>) -> R) -> R {
    match c {
        C::Normal(a, b) => f(&measures_distributions::Normal::new(*a, *b)),
        _ => unreachable!(),
    }
}
fn c01_disc(s: &mut Src, o: &mut Obs) -> R {
    // measures on u64: distributions and the combinatorial base measures
    let k = s.below(60);
    let p = s.prob();
    let (n1, n2) = (s.below(80), 1 + s.below(20));
    let rate = s.pos(0.01, 80.0);
    let pick = s.below(8);
    o.note(|| format!("pair {pick} p={p} n={n1} r={n2} rate={rate} at {k}"));
    o.label(["poisson/geometric", "poisson/factorial", "binomial/coef", "negbin/coef", "factorial/poisson", "weighted/binomial", "coef/factorial", "poisson/poisson"][pick as usize]);
    o.nontrivial(true);
    let po = measures_distributions::Poisson::new(rate);
    let ge = measures_distributions::Geometric::new(p);
    let bi = measures_distributions::Binomial::new(n1, p);
    let nb = measures_distributions::NegativeBinomial::new(n2, p);
    let fa = FactorialMeasure::<f64>::new();
    let bc = BinomialCoefficientMeasure::<f64>::new(n1);
    let nc = NegativeBinomialCoefficientMeasure::<f64>::new(n2);
    let we = WeightedMeasure::<_, f64, u64>::new(po.clone(), rate.ln());
    let z = CountingMeasure::<u64>::new();
    let _ = z;
    match pick {
        0 => laws(&po, &ge, &nb, &k, None),
        1 => rel(&po, &fa, &k),
        2 => rel(&bi, &bc, &k),
        3 => rel(&nb, &nc, &k),
        4 => rel(&fa, &po, &k),
        5 => rel(&we, &bi, &k),
        6 => rel(&bc, &fa, &k),
        _ => laws(&po, &measures_distributions::Poisson::new(rate * 1.5), &ge, &k, None),
    }
}
/// The two-measure part of the laws, for measures whose roots are different types.
fn rel<X, M1, M2>(m1: &M1, m2: &M2, x: &X) -> R
where
    X: Clone + std::fmt::Debug,
    M1: Measure<X> + HasLogDensity<X, f64>,
    M2: Measure<X> + HasLogDensity<X, f64>,
    M1::RootMeasure: HasLogDensity<X, f64>,
    LogDensity<X, M1, M2>: EvaluateAt<X, f64>,
    LogDensity<X, M2, M1>: EvaluateAt<X, f64>,
    LogDensity<X, M1, M1>: EvaluateAt<X, f64>,
    LogDensity<X, M1, M1::RootMeasure>: EvaluateAt<X, f64>,
{
    let r1 = m1.log_density_wrt_root(x);
    let r2 = m2.log_density_wrt_root(x);
    let tol = 1e-12 * (1.0 + if r1.is_finite() { r1.abs() } else { 0.0 } + if r2.is_finite() { r2.abs() } else { 0.0 });
    let d: f64 = m1.log_density().at(x);
    ensure!(same(d, r1, tol), "default-root", "log_density().at({x:?}) = {d}, density wrt the root = {r1}");
    if !(r1.is_infinite() && r2.is_infinite()) {
        let d12: f64 = m1.log_density().wrt(m2.clone()).at(x);
        let d21: f64 = m2.log_density().wrt(m1.clone()).at(x);
        ensure!(same(d12, r1 - r2, tol), "difference", "relative density {d12} at {x:?}, root densities {r1} and {r2}");
        ensure!(same(d21, r2 - r1, tol), "difference", "relative density {d21} at {x:?}, root densities {r2} and {r1}");
    }
    if r1.is_finite() {
        let d11: f64 = m1.log_density().wrt(m1.clone()).at(x);
        ensure!(same(d11, 0.0, tol), "self", "density with respect to itself is {d11} at {x:?}");
    }
    Ok(())
}

/// Lists of points: one value per point, in order, each the log-density at that point.
fn c01_batches(s: &mut Src, o: &mut Obs) -> R {
    let n = if s.chance(1, 200) { s.size(70_000) } else { s.size(400) };
    o.nontrivial(n > 1);
    o.label(match n { 0 => "empty", 1..16 => "1 to 15", 16..256 => "16 to 255", 256..4096 => "256 to 4095", _ => "4096 or more" });
    macro_rules! check {
        ($m:expr, $xs:expr, $t:ty, $d:expr) => {{
            let m = $m;
            let xs = $xs;
            let got: Vec<$t> = log_density_batch(&m, &xs);
            ensure!(got.len() == n, "batch", "{:?}: a batch of {n} points has {} values", $d, got.len());
            for (i, (g, x)) in got.iter().zip(&xs).enumerate() {
                let one: $t = m.log_density().at(x);
                let tol = 1e-11 * if std::mem::size_of::<$t>() == 4 { 1e5 } else { 1.0 } * (1.0 + f64::from(one).abs());
                ensure!(same(f64::from(*g), f64::from(one), tol), "batch", "{:?}: point {i} of {n}, {x:?}, has {g} in the batch and {one} alone", $d);
            }
        }};
    }
    match s.below(4) {
        0 => {
            let d = D::generate(s, true);
            let ks = s.many(n, |r| d.point(r).min(1000));
            o.note(|| format!("batch of {n} points, {d:?}"));
            with_d!(&d, f64, m, X => check!(m, ks.iter().map(|k| *k as X).collect::<Vec<X>>(), f64, d));
        }
        1 => {
            let c = C::generate(s).to_f32();
            let xs = s.many(n, |r| narrow(c.point(r)));
            o.note(|| format!("f32 batch of {n} points, {c:?}"));
            with_c!(&c, f32, m => check!(m, xs, f32, c));
        }
        k => {
            let c = C::generate(s);
            // all different, or with repetitions
            let mut xs = s.many(n, |r| c.point(r));
            if k == 2 && n > 2 {
                let mut r = s.fork();
                for _ in 0..n / 2 {
                    let (i, j) = (r.usize(n), r.usize(n));
                    xs[i] = xs[j];
                }
            }
            o.note(|| format!("batch of {n} points, {c:?}"));
            with_c!(&c, f64, m => check!(m, xs, f64, c));
        }
    }
    Ok(())
}

fn c01_user(s: &mut Src, o: &mut Obs) -> R {
    let x = s.real(-20.0, 20.0);
    let (a, b) = (s.real(-20.0, 20.0), s.real(-20.0, 20.0));
    let (c, d) = (s.real(-20.0, 20.0), s.real(-20.0, 20.0));
    let at = AffT { a, b };
    let af = AffF { a: c, b: d };
    let (vt, vf) = (a + b * x, c - d * x * x);
    let pick = s.below(12);
    o.note(|| format!("user measures, pair {pick}, parameters {a},{b},{c},{d}, at {x}"));
    o.nontrivial(true);
    o.label(if pick < 8 { "zero-sized" } else { "sized" });
    let u = |k: i64| k as f64 * 0.25 + (k % 3) as f64 * x;
    let v = |k: i64| k as f64 * 0.25 - (k % 5) as f64 * x;
    match pick {
        0 => laws(&UnitT::<1>, &UnitT::<2>, &UnitF::<3>, &x, Some([u(1), u(2), v(3)])),
        1 => laws(&UnitT::<4>, &UnitF::<2>, &UnitT::<5>, &x, Some([u(4), v(2), u(5)])),
        2 => laws(&UnitF::<7>, &UnitF::<2>, &at, &x, Some([v(7), v(2), vt])),
        3 => laws(&UnitF::<-3>, &UnitT::<2>, &af, &x, Some([v(-3), u(2), vf])),
        4 => laws(&UnitF::<7>, &at, &UnitT::<2>, &x, Some([v(7), vt, u(2)])),
        5 => laws(&at, &UnitF::<7>, &UnitT::<2>, &x, Some([vt, v(7), u(2)])),
        6 => laws(&UnitT::<7>, &af, &UnitT::<7>, &x, Some([u(7), vf, u(7)])),
        7 => laws(&af, &UnitT::<-5>, &UnitF::<1>, &x, Some([vf, u(-5), v(1)])),
        8 => laws(&at, &af, &UnitF::<1>, &x, Some([vt, vf, v(1)])),
        9 => laws(&af, &at, &measures_distributions::Normal::new(a, 2.0), &x, None),
        10 => laws(&at, &AffT { a: c, b: d }, &af, &x, Some([vt, c + d * x, vf])),
        _ => laws(&af, &AffF { a, b }, &at, &x, Some([vf, a - b * x * x, vt])),
    }
}
/// The same algebra in single precision, for continuous and discrete distributions.
fn laws32<X, M1, M2>(m1: &M1, m2: &M2, x: &X) -> R
where
    X: Clone + std::fmt::Debug,
    M1: Measure<X> + HasLogDensity<X, f32>,
    M2: Measure<X> + HasLogDensity<X, f32>,
    LogDensity<X, M1, M2>: EvaluateAt<X, f32>,
    LogDensity<X, M2, M1>: EvaluateAt<X, f32>,
    LogDensity<X, M1, M1>: EvaluateAt<X, f32>,
    LogDensity<X, M1, M1::RootMeasure>: EvaluateAt<X, f32>,
    M1::RootMeasure: HasLogDensity<X, f32> + LogDensityBuilder<X>,
{
    let w = |v: f32| f64::from(v);
    let r1 = w(m1.log_density_wrt_root(x));
    let r2 = w(m2.log_density_wrt_root(x));
    let fin = |v: f64| if v.is_finite() { v.abs() } else { 0.0 };
    // relative densities of two members of one family may be computed without their common parts:
    // the terms then are no larger than those of the two densities (a multiple of the root densities
    // plus the constants of the parameters, which cancel)
    let tol = 4e-6 * (1.0 + fin(r1) + fin(r2));
    let d: f32 = m1.log_density().at(x);
    ensure!(same(w(d), r1, tol), "f32-default-root", "f32 log_density().at({x:?}) = {d}, density wrt the root = {r1}");
    let d: f32 = m1.log_density().wrt(m1.root_measure()).at(x);
    ensure!(same(w(d), r1, tol), "f32-wrt-root", "f32 log_density().wrt(root).at({x:?}) = {d}, expected {r1}");
    let d: f32 = log_density_at(m1, x);
    ensure!(same(w(d), r1, 0.0), "f32-log_density_at", "f32 log_density_at({x:?}) = {d}, expected {r1}");
    let d12: f32 = m1.log_density().wrt(m2.clone()).at(x);
    let d21: f32 = m2.log_density().wrt(m1.clone()).at(x);
    if !(r1.is_infinite() && r2.is_infinite()) && (r1 - r2).abs() < 1e38 || (r1 - r2).is_infinite() {
        ensure!(same(w(d12), r1 - r2, tol), "f32-difference", "f32 relative density {d12} at {x:?}, root densities {r1} and {r2}");
        ensure!(same(w(d21), r2 - r1, tol), "f32-difference", "f32 relative density {d21} at {x:?}, root densities {r2} and {r1}");
    }
    if r1.is_finite() && r2.is_finite() {
        ensure!(same(w(d12), -w(d21), tol), "f32-antisymmetry", "f32 d12 = {d12}, d21 = {d21} at {x:?}");
        let d11: f32 = m1.log_density().wrt(m1.clone()).at(x);
        ensure!(same(w(d11), 0.0, tol), "f32-self", "f32 density with respect to itself is {d11} at {x:?}");
        let re: f32 = m1.log_density().wrt(m1.clone()).wrt(m2.clone()).at(x);
        ensure!(same(w(re), w(d12), tol), "f32-wrt-last", "f32 wrt(m1).wrt(m2) = {re}, wrt(m2) = {d12}");
        let cl: f32 = m1.log_density().wrt(m2.clone()).clone().at(x);
        ensure!(same(w(cl), w(d12), 0.0), "f32-clone", "a clone of the f32 relative density gives {cl}, original {d12}");
    }
    let ld = m1.log_density().wrt(m2.clone());
    let a: f32 = LogDensityTrait::measure(&ld).log_density_wrt_root(x);
    let b: f32 = LogDensityTrait::base_measure(&ld).log_density_wrt_root(x);
    ensure!(same(w(a), r1, 0.0) && same(w(b), r2, 0.0), "f32-accessors", "f32 measure() has density {a} (expected {r1}), base_measure() {b} (expected {r2})");
    Ok(())
}
fn c01_f32(s: &mut Src, o: &mut Obs) -> R {
    o.nontrivial(true);
    if s.chance(2, 3) {
        let (a, b) = (C::generate(s).to_f32(), C::generate(s).to_f32());
        let x = narrow(if s.chance(1, 4) { a.point(s) } else { a.inside(s) });
        o.label(a.kind());
        o.label_if(a.kind() == b.kind(), "same-family");
        o.label_if(!a.supports(f64::from(x)) || !b.supports(f64::from(x)), "outside-a-support");
        o.note(|| format!("f32 {a:?} wrt {b:?} at {x:?}"));
        with_c!(&a, f32, m1 => with_c!(&b, f32, m2 => laws32(&m1, &m2, &x)))
    } else {
        use measures_distributions as md;
        let k = s.below(60);
        let p = s.prob() as f32;
        let p = p.clamp(1e-4, 0.999);
        let (n1, n2) = (s.below(80), 1 + s.below(20));
        let (rate, rate2) = (s.pos(0.01, 80.0) as f32, s.pos(0.01, 80.0) as f32);
        let pick = s.below(6);
        o.label("discrete");
        o.note(|| format!("f32 discrete pair {pick} p={p} n={n1} r={n2} rates {rate} {rate2} at {k}"));
        let (po, po2) = (md::Poisson::new(rate), md::Poisson::new(rate2));
        let ge = md::Geometric::new(p);
        let (bi, bi2) = (md::Binomial::new(n1, p), md::Binomial::new(n2, p));
        let nb = md::NegativeBinomial::new(n2, p);
        match pick {
            0 => laws32(&po, &po2, &k),
            1 => laws32(&ge, &po, &k),
            2 => laws32(&bi, &bi2, &k),
            3 => laws32(&nb, &bi, &k),
            4 => laws32(&bi, &po, &k),
            _ => laws32(&md::Bernoulli::new(p), &md::Bernoulli::new(rate.min(79.0) / 80.0), &((k % 3) as u8)),
        }
    }
}
/// Derived and combined measures take part in the same algebra.
fn c01_derived(s: &mut Src, o: &mut Obs) -> R {
    let (m, d, w) = (s.real(-10.0, 10.0), s.pos(0.1, 10.0), s.real(-10.0, 10.0));
    let x = s.real(-15.0, 15.0);
    let n = measures_distributions::Normal::new(m, d);
    let ca = measures_distributions::Cauchy::new(w, d);
    let we = WeightedMeasure::<_, f64, f64>::new(n.clone(), w);
    let q = s.real(-2.0, 2.0);
    let int = IntegralMeasure::new(ca.clone(), move |x: &f64| q * *x + 1.0);
    o.note(|| format!("Normal({m},{d}), weight {w}, integral slope {q}, at {x}"));
    o.nontrivial(true);
    laws(&we, &n, &int, &x, None)?;
    laws(&int, &we, &ca, &x, None)?;
    let d1: f64 = we.log_density().wrt(n.clone()).at(&x);
    let r = n.log_density_wrt_root(&x);
    let r: f64 = r;
    ensure!(same(d1, w, 1e-12 * (1.0 + w.abs() + r.abs())), "weighted", "a measure scaled by exp({w}) has log-density {d1} with respect to the unscaled one");
    let d2: f64 = int.log_density().wrt(ca).at(&x);
    ensure!(same(d2, q * x + 1.0, 1e-11 * (1.0 + (q * x).abs() + r.abs())), "integral", "integral of {} has density {d2}", q * x + 1.0);
    // primitives: density of a primitive with respect to itself is 0; of a measure wrt Lebesgue is its root density
    let le = LebesgueMeasure::<f64>::new();
    let z: f64 = le.log_density().at(&x);
    ensure!(z == 0.0, "primitive", "Lebesgue wrt Lebesgue is {z}");
    let z: f64 = CountingMeasure::<u64>::new().log_density().wrt(CountingMeasure::<u64>::new()).at(&3);
    ensure!(z == 0.0, "primitive", "counting wrt counting is {z}");
    let z: f64 = n.log_density().wrt(le).at(&x);
    ensure!(same(z, r, 0.0), "primitive", "Normal wrt Lebesgue is {z}, root density {r}");
    Ok(())
}

/// Joint measures of independent samples: the points are vectors.
fn c01_iid(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions as md;
    use measures_exponential_family::IID;
    let n = s.length(12, 400);
    let g = |s: &mut Src| (s.real(-20.0, 20.0), s.pos(0.1, 10.0));
    let (a, b, r) = (g(s), g(s), s.pos(0.05, 20.0));
    let xs: Vec<f64> = s.many(n, |s| s.real(-30.0, 30.0).abs());
    o.label_if(xs.is_empty(), "no samples");
    o.nontrivial(n > 1);
    o.note(|| format!("IID Normal{a:?}, Normal{b:?}, Exponential({r}) at {xs:?}"));
    let (na, nb) = (IID::new(md::Normal::new(a.0, a.1)), IID::new(md::Normal::new(b.0, b.1)));
    let ex = IID::new(md::Exponential::new(r));
    laws(&na, &ex, &nb, &xs, None)?;
    laws(&ex, &nb, &na, &xs, None)
}

// ---------------------------------------------------------------- C02

fn c02_cont(s: &mut Src, o: &mut Obs) -> R {
    let c = C::generate(s);
    let mut x = c.point(s);
    if s.chance(1, 20) {
        // far in the tail
        let m = if matches!(c, C::Normal(..)) { 120 } else { 290 };
        x = 10f64.powi(s.range(5, m) as i32) * s.pick(&[1.0, -1.0, 3.7]);
        o.label("far tail");
    }
    let x = x;
    let e = c.reference(x);
    o.label(c.kind());
    o.label_if(!c.supports(x), "outside-support");
    o.nontrivial(e.v.is_finite());
    o.note(|| format!("{c:?} at {x:?}: expected {}", e.v));
    let (g, h, l) = with_c!(&c, f64, m => {
        let g: f64 = m.log_density_wrt_root(&x);
        let h: f64 = m.log_density().at(&x);
        let l: f64 = log_density_at(&m, &x);
        (g, h, l)
    });
    for (n, v) in [("log_density_wrt_root", g), ("log_density().at", h), ("log_density_at", l)] {
        ensure!(e.ok(v), "formula", "{c:?}: {n}({x:?}) = {v}, the documented density gives {}", e.v);
    }
    let pdf = match &c {
        C::Cauchy(a, b) => Some(measures_distributions::Cauchy::new(*a, *b).log_pdf(x)),
        C::StudentT(a) => Some(measures_distributions::StudentT::new(*a).log_pdf(x)),
        _ => None,
    };
    if let Some(v) = pdf {
        ensure!(e.ok(v), "formula", "{c:?}: log_pdf({x:?}) = {v}, the documented density gives {}", e.v);
    }
    Ok(())
}
fn c02_cont32(s: &mut Src, o: &mut Obs) -> R {
    let c = C::generate(s).to_f32();
    let mut x = narrow(c.point(s));
    if s.chance(1, 20) {
        let m = if matches!(c, C::Normal(..)) { 12 } else { 33 };
        x = 10f32.powi(s.range(5, m) as i32) * s.pick(&[1.0, -1.0]);
        o.label("far tail");
    }
    let x = x;
    let e = c.reference(f64::from(x));
    o.label(c.kind());
    let z = match c {
        C::Normal(m, d) | C::Cauchy(m, d) => (f64::from(x) - m) / d,
        _ => 0.0,
    };
    if z.abs() > 1e38 {
        return Ok(()); // the standardised point is beyond f32
    }
    o.nontrivial(e.v.is_finite());
    o.note(|| format!("f32 {c:?} at {x:?}: expected {}", e.v));
    let g: f32 = with_c!(&c, f32, m => m.log_density().at(&x));
    ensure!(e.ok32(g), "formula-f32", "f32 {c:?}: log density at {x:?} = {g}, the documented density gives {}", e.v);
    Ok(())
}
fn c02_disc(s: &mut Src, o: &mut Obs) -> R {
    let d = D::generate(s, true);
    let k = d.point(s);
    let e = d.reference(k);
    o.label(d.kind());
    o.label_if(!d.supports(k), "outside-support");
    o.label_if(d.degenerate(), "degenerate-parameter");
    o.nontrivial(e.v.is_finite());
    o.note(|| format!("{d:?} at {k}: expected {}", e.v));
    let (g, h) = with_d!(&d, f64, m, X => {
        let g: f64 = m.log_density_wrt_root(&(k as X));
        let h: f64 = m.log_density().at(&(k as X));
        (g, h)
    });
    for v in [g, h] {
        ensure!(e.ok(v), "formula", "{d:?}: log density at {k} = {v}, the documented mass function gives {}", e.v);
    }
    Ok(())
}
fn c02_disc32(s: &mut Src, o: &mut Obs) -> R {
    let d = D::generate(s, false).to_f32();
    if let D::Categorical(p) = &d {
        // rounding the weights to f32 leaves the sum within a few ulps of one; how far the
        // constructor tolerates is property C05's subject
        let t: f32 = p.iter().map(|x| *x as f32).sum();
        if (t - 1.0).abs() >= 1e-10 {
            o.label("skipped-categorical-sum");
            return Ok(());
        }
    }
    let k = d.point(s);
    let mut e = d.reference(k);
    if let D::Poisson(_) = d {
        // the documented sum over i = 1..k is accumulated in f32
        e = e.noise(0.1 * k as f64 * crate::oracle::lfact(k).max(1.0));
    }
    o.label(d.kind());
    o.nontrivial(e.v.is_finite());
    o.note(|| format!("f32 {d:?} at {k}: expected {}", e.v));
    let g: f32 = with_d!(&d, f32, m, X => m.log_density().at(&(k as X)));
    ensure!(e.ok32(g), "formula-f32", "f32 {d:?}: log density at {k} = {g}, the documented mass function gives {}", e.v);
    Ok(())
}

// ---------------------------------------------------------------- C03

/// (nodes, weights) of a trapezoid rule after a variable transformation suited to the support.
pub fn nodes(c: &C) -> Vec<(f64, f64)> {
    let mut v = Vec::new();
    let mut rule = |t0: f64, lo: f64, hi: f64, h: f64, f: &dyn Fn(f64) -> (f64, f64)| {
        let n = ((lo + hi) / h).ceil() as i64;
        for i in 0..=n {
            let t = t0 - lo + h * i as f64;
            let (x, dx) = f(t);
            if dx > 0.0 && x.is_finite() {
                v.push((x, dx * h));
            }
        }
    };
    match *c {
        C::Normal(m, d) => rule(0.0, 12.0, 12.0, 0.06, &|t| (m + d * t, d)),
        C::Cauchy(m, d) => rule(0.0, 38.0, 38.0, 0.06, &|t: f64| (m + d * t.sinh(), d * t.cosh())),
        C::StudentT(_) => rule(0.0, 85.0, 85.0, 0.06, &|t: f64| (t.sinh(), t.cosh())),
        C::Beta(a, b) => {
            let mx = a.max(b).max(1.0);
            let t0 = (a / b).ln();
            let w = 12.0 / a.min(b).sqrt();
            let h = (0.35 / mx.sqrt()).min(0.12);
            rule(t0, w + 45.0 / a, w + 45.0 / b, h, &|t: f64| {
                let x = crate::oracle::sigmoid(t);
                (x, x * crate::oracle::sigmoid(-t))
            });
        }
        C::Exponential(_) | C::Gamma(..) | C::Chi2(_) => {
            let (a, b) = match *c {
                C::Exponential(r) => (1.0, r),
                C::Gamma(a, b) => (a, b),
                C::Chi2(k) => (k / 2.0, 0.5),
                _ => unreachable!(),
            };
            let t0 = (a / b).ln();
            let w = 12.0 / a.sqrt();
            let h = (0.35 / a.max(1.0).sqrt()).min(0.12);
            rule(t0, 45.0 / a + w.min(20.0), (1.0 + 80.0 / a).ln() + w.min(4.0), h, &|t: f64| (t.exp(), t.exp()));
        }
    }
    v
}
fn c03_cont(s: &mut Src, o: &mut Obs) -> R {
    let k = s.usize(CN);
    let c = match k {
        2 => C::Gamma(s.pos(0.2, 300.0), s.pos(1e-3, 1e3)),
        3 => C::Beta(s.pos(0.5, 100.0), s.pos(0.5, 100.0)),
        4 => C::Chi2(s.pos(0.4, 300.0)),
        5 => C::StudentT(s.pos(0.5, 300.0)),
        _ => C::gen_kind(s, k),
    };
    o.label(c.kind());
    o.nontrivial(true);
    let q = nodes(&c);
    o.note(|| format!("{c:?}: integral of the density over {} nodes", q.len()));
    let f: Vec<f64> = with_c!(&c, f64, m => {
        let pts: Vec<f64> = q.iter().map(|p| p.0).collect();
        log_density_batch::<f64, f64, _>(&m, &pts)
    });
    let mass: f64 = q.iter().zip(&f).map(|((_, w), l)| w * l.exp()).sum();
    ensure!((mass - 1.0).abs() < 2e-6, "mass", "{c:?}: the density integrates to {mass}");
    let mom = with_cef!(&c, f64, m => Some((m.mean_(), m.variance_())), else None);
    if let Some((mean, var)) = mom {
        let m1: f64 = q.iter().zip(&f).map(|((x, w), l)| w * l.exp() * x).sum();
        let m2: f64 = q.iter().zip(&f).map(|((x, w), l)| w * l.exp() * (x - m1) * (x - m1)).sum();
        let sd = m2.sqrt();
        ensure!((m1 - mean).abs() <= 1e-5 * (sd + mean.abs()), "mean", "{c:?}: mean() = {mean}, the density's mean is {m1}");
        ensure!((m2 - var).abs() <= 2e-5 * var.abs().max(m2), "variance", "{c:?}: variance() = {var}, the density's variance is {m2}");
    }
    Ok(())
}
trait Moments {
    fn mean_(&self) -> f64;
    fn variance_(&self) -> f64;
}
macro_rules! moments {
    ($($t:ty),*) => { $(impl Moments for $t { fn mean_(&self) -> f64 { self.mean() } fn variance_(&self) -> f64 { self.variance() } })* };
}
moments!(
    measures_distributions::Exponential<f64>,
    measures_distributions::Gamma<f64>,
    measures_distributions::Beta<f64>,
    measures_distributions::ChiSquared<f64>,
    measures_distributions::Bernoulli<f64>,
    measures_distributions::Binomial<f64>,
    measures_distributions::Categorical<f64>,
    measures_distributions::Geometric<f64>,
    measures_distributions::NegativeBinomial<f64>
);
impl Moments for measures_distributions::Normal<f64> {
    fn mean_(&self) -> f64 {
        self.mean
    }
    fn variance_(&self) -> f64 {
        self.variance()
    }
}
impl Moments for measures_distributions::Poisson<f64> {
    fn mean_(&self) -> f64 {
        self.rate
    }
    fn variance_(&self) -> f64 {
        self.rate
    }
}
fn c03_disc(s: &mut Src, o: &mut Obs) -> R {
    let k = s.usize(crate::dists::DN);
    let wide = s.chance(1, 40);
    o.label_if(wide, "large");
    let d = match k {
        1 if wide => D::Binomial(s.size(20_000) as u64, s.prob()),
        2 if wide => D::wide(s, 2),
        3 if wide => D::Geometric(s.log_uniform(1e-3, 1.0)),
        4 if wide => D::NegBin(1 + s.size(2000) as u64, s.uniform(0.01, 0.9)),
        5 if wide => D::Poisson(s.log_uniform(1e-6, 2000.0)),
        1 => D::Binomial(s.below(400), if s.chance(1, 10) { s.pick(&[0.0, 1.0]) } else { s.prob() }),
        3 => D::Geometric(if s.chance(1, 10) { 1.0 } else { s.uniform(0.02, 1.0) }),
        4 => D::NegBin(1 + s.below(30), s.uniform(0.01, 0.95)),
        5 => D::Poisson(s.pos(1e-3, 200.0)),
        _ => D::gen_kind(s, k, true),
    };
    let hi = match &d {
        D::Bernoulli(_) => 255,
        D::Binomial(n, _) => n + 5,
        D::Categorical(p) => p.len() as u64 + 5,
        D::Geometric(p) => (45.0 / p) as u64 + 60,
        D::NegBin(r, p) => {
            let q = 1.0 - p;
            (*r as f64 * p / q + 20.0 * (*r as f64 * p).sqrt() / q + 60.0 / q) as u64 + 60
        }
        D::Poisson(l) => (l + 20.0 * l.sqrt()) as u64 + 60,
    };
    o.label(d.kind());
    o.nontrivial(true);
    o.note(|| format!("{d:?}: sum of the mass function over 0..={hi}"));
    let (f, mean, var) = with_d!(&d, f64, m, X => {
        let f: Vec<f64> = (0..=hi).map(|k| m.log_density().at(&(k as X))).collect();
        (f, m.mean_(), m.variance_())
    });
    let mass: f64 = f.iter().map(|l| l.exp()).sum();
    ensure!((mass - 1.0).abs() < 1e-7, "mass", "{d:?}: the mass function sums to {mass}");
    let m1: f64 = f.iter().enumerate().map(|(k, l)| if *l == f64::NEG_INFINITY { 0.0 } else { l.exp() * k as f64 }).sum();
    let m2: f64 = f
        .iter()
        .enumerate()
        .map(|(k, l)| if *l == f64::NEG_INFINITY { 0.0 } else { l.exp() * (k as f64 - m1) * (k as f64 - m1) })
        .sum();
    ensure!((m1 - mean).abs() <= 1e-6 * (1e-3 + m2.sqrt() + mean.abs()), "mean", "{d:?}: mean() = {mean}, the mass function's mean is {m1}");
    ensure!((m2 - var).abs() <= 1e-5 * (1e-6 + var.abs().max(m2)), "variance", "{d:?}: variance() = {var}, the mass function's variance is {m2}");
    Ok(())
}

// ---------------------------------------------------------------- C04

fn sup<X: Clone + std::fmt::Debug, M: Measure<X> + HasLogDensity<X, f64>>(
    name: &str,
    m: &M,
    x: X,
    expect: bool,
    finite_inside: bool,
) -> R {
    let i = m.in_support(x.clone());
    ensure!(i == expect, "predicate", "{name}: in_support({x:?}) = {i}, the documented support says {expect}");
    let d: f64 = m.log_density_wrt_root(&x);
    if !i {
        ensure!(d == f64::NEG_INFINITY, "outside", "{name}: {x:?} is outside the support but has log-density {d}");
    } else if finite_inside {
        ensure!(d.is_finite(), "inside", "{name}: {x:?} is in the support but has log-density {d}");
    } else {
        ensure!(!d.is_nan(), "inside-nan", "{name}: {x:?} is in the support but has log-density {d}");
    }
    Ok(())
}
/// The same in single precision.
fn sup32<X: Clone + std::fmt::Debug, M: Measure<X> + HasLogDensity<X, f32>>(name: &str, m: &M, x: X, expect: bool, finite_inside: bool) -> R {
    let i = m.in_support(x.clone());
    ensure!(i == expect, "predicate-f32", "f32 {name}: in_support({x:?}) = {i}, the documented support says {expect}");
    let d: f32 = m.log_density_wrt_root(&x);
    if !i {
        ensure!(d == f32::NEG_INFINITY, "outside-f32", "f32 {name}: {x:?} is outside the support but has log-density {d}");
    } else if finite_inside {
        ensure!(d.is_finite(), "inside-f32", "f32 {name}: {x:?} is in the support but has log-density {d}");
    } else {
        ensure!(!d.is_nan(), "inside-nan-f32", "f32 {name}: {x:?} is in the support but has log-density {d}");
    }
    Ok(())
}
fn c04_cont(s: &mut Src, o: &mut Obs) -> R {
    let c = C::generate(s);
    let x = c.point(s);
    let e = c.supports(x);
    let fin = c.reference(x).v.is_finite();
    o.label(c.kind());
    o.label(if e { "inside" } else { "outside" });
    o.nontrivial(!matches!(c, C::Normal(..) | C::StudentT(_) | C::Cauchy(..)));
    o.note(|| format!("{c:?} at {x:?}: in support {e}"));
    with_c!(&c, f64, m => sup(&format!("{c:?}"), &m, x, e, fin))?;
    // NaN is in no support except the whole line's
    if !matches!(c, C::Normal(..) | C::StudentT(_) | C::Cauchy(..)) {
        let n = with_c!(&c, f64, m => m.in_support(f64::NAN));
        ensure!(!n, "nan-support", "{c:?}: NaN is reported to be in the support");
    }
    // nor are the infinities outside the interval
    let ends: &[f64] = match c {
        C::Exponential(_) | C::Gamma(..) | C::Chi2(_) => &[f64::NEG_INFINITY],
        C::Beta(..) => &[f64::NEG_INFINITY, f64::INFINITY],
        _ => &[],
    };
    for x in ends {
        with_c!(&c, f64, m => sup(&format!("{c:?}"), &m, *x, false, false))?;
        with_c!(&c.to_f32(), f32, m => sup32(&format!("{c:?}"), &m, *x as f32, false, false))?;
    }
    ensure!(measures_distributions::StdNormal::<f64>::new().in_support(x), "predicate", "StdNormal: {x:?} is reported outside the support");
    let c = c.to_f32();
    let x = narrow(x);
    let e = c.supports(f64::from(x));
    let r = c.reference(f64::from(x)).v;
    with_c!(&c, f32, m => sup32(&format!("{c:?}"), &m, x, e, r.is_finite() && r.abs() < 1e30))?;
    ensure!(measures_distributions::StdNormal::<f32>::new().in_support(x), "predicate-f32", "f32 StdNormal: {x:?} is reported outside the support");
    Ok(())
}
fn c04_disc(s: &mut Src, o: &mut Obs) -> R {
    let d = D::generate(s, true);
    let k = if s.chance(1, 20) { d.max_point() } else { d.point(s) };
    if k > 100_000 && matches!(d, D::Poisson(_)) {
        return Ok(());
    }
    let e = d.supports(k);
    let fin = d.reference(k).v.is_finite();
    o.label(d.kind());
    o.label(if e { "inside" } else { "outside" });
    o.nontrivial(!matches!(d, D::Poisson(_) | D::NegBin(..)));
    o.note(|| format!("{d:?} at {k}: in support {e}"));
    with_d!(&d, f64, m, X => sup(&format!("{d:?}"), &m, k as X, e, fin))?;
    let d = d.to_f32();
    let e = d.supports(k);
    let r = d.reference(k).v;
    with_d!(&d, f32, m, X => sup32(&format!("{d:?}"), &m, k as X, e, r.is_finite() && r.abs() < 1e30))
}
fn c04_derived(s: &mut Src, o: &mut Obs) -> R {
    use measures_combinators::measures::combinators::{product::ProductMeasure, superposition::MixtureMeasure};
    let n = s.below(30);
    let k = s.below(40);
    let c = C::generate(s);
    let x = c.point(s);
    let (e, fin) = (c.supports(x), c.reference(x).v.is_finite());
    let w = s.real(-5.0, 5.0);
    o.label(c.kind());
    o.nontrivial(!e || k > n);
    o.note(|| format!("measures derived from {c:?} at {x:?} (in support {e}); C({n},{k})"));
    sup("BinomialCoefficientMeasure", &BinomialCoefficientMeasure::<f64>::new(n), k, k <= n, true)?;
    sup("NegativeBinomialCoefficientMeasure", &NegativeBinomialCoefficientMeasure::<f64>::new(n + 1), k, true, true)?;
    sup("FactorialMeasure", &FactorialMeasure::<f64>::new(), k, true, true)?;
    let p = s.range(-5, 5);
    let q = s.range(-5, 5);
    ensure!(Dirac::new(p).in_support(q) == (p == q), "dirac", "Dirac at {p}: in_support({q}) = {}", p != q);
    let pf = p as f64 * 0.5;
    ensure!(Dirac::new(pf).in_support(q as f64 * 0.5) == (p == q), "dirac", "Dirac at {pf}: in_support({})", q as f64 * 0.5);
    let b = D::Binomial(n, 0.3);
    let kb = b.supports(k);
    with_c!(&c, f64, m => {
        sup("WeightedMeasure", &WeightedMeasure::<_, f64, f64>::new(m.clone(), w), x, e, fin)?;
        sup("IntegralMeasure", &IntegralMeasure::new(m.clone(), move |y: &f64| w * *y), x, e, fin)?;
        let bi = measures_distributions::Binomial::new(n, 0.3);
        sup("ProductMeasure", &ProductMeasure::new(m.clone(), bi.clone()), (x, k), e && kb, fin)?;
        sup("ProductMeasure", &ProductMeasure::new(bi, m.clone()), (k, x), e && kb, fin)?;
        sup("MixtureMeasure", &MixtureMeasure::new(vec![m.clone(), m.clone()], vec![0.25, 0.75]), x, e, fin)?;
        Ok::<(), Fail>(())
    })?;
    // mixture: the union of the supports of the positively weighted components
    let (n1, n2) = (s.below(20), s.below(20));
    let w1 = match s.below(6) {
        0 => s.log_uniform(1e-300, 1.0),
        1 => 1.0 - s.log_uniform(1e-16, 1.0),
        _ => s.pick(&[0.5, 0.0, 1.0, 0.125]),
    };
    let m = MixtureMeasure::new(
        vec![measures_distributions::Binomial::new(n1, 0.4), measures_distributions::Binomial::new(n2, 0.6)],
        vec![w1, 1.0 - w1],
    );
    let ex = (w1 > 0.0 && k <= n1) || (w1 < 1.0 && k <= n2);
    sup("MixtureMeasure of binomials", &m, k, ex, true)?;
    sup("LebesgueMeasure", &LebesgueMeasure::<f64>::new(), x, true, true)?;
    sup("CountingMeasure", &CountingMeasure::<u64>::new(), k, true, true)?;
    // single precision
    sup32("BinomialCoefficientMeasure", &BinomialCoefficientMeasure::<f32>::new(n), k, k <= n, true)?;
    sup32("NegativeBinomialCoefficientMeasure", &NegativeBinomialCoefficientMeasure::<f32>::new(n + 1), k, true, true)?;
    sup32("FactorialMeasure", &FactorialMeasure::<f32>::new(), k, true, true)?;
    let (c, x, w) = (c.to_f32(), narrow(x), w as f32);
    let e = c.supports(f64::from(x));
    let r = c.reference(f64::from(x)).v;
    let fin = r.is_finite() && r.abs() < 1e30 && x.abs() < 1e30;
    with_c!(&c, f32, m => {
        sup32("WeightedMeasure", &WeightedMeasure::<_, f32, f32>::new(m.clone(), w), x, e, fin)?;
        sup32("IntegralMeasure", &IntegralMeasure::new(m.clone(), move |y: &f32| w * *y), x, e, fin)?;
        let bi = measures_distributions::Binomial::<f32>::new(n, 0.3);
        sup32("ProductMeasure", &ProductMeasure::new(m.clone(), bi), (x, k), e && kb, fin)?;
        sup32("MixtureMeasure", &MixtureMeasure::<_, f32>::new(vec![m.clone(), m.clone()], vec![0.25, 0.75]), x, e, fin)
    })?;
    let w1 = w1 as f32;
    let m = MixtureMeasure::new(
        vec![measures_distributions::Binomial::<f32>::new(n1, 0.4), measures_distributions::Binomial::new(n2, 0.6)],
        vec![w1, 1.0 - w1],
    );
    sup32("MixtureMeasure of binomials", &m, k, (w1 > 0.0 && k <= n1) || (w1 < 1.0 && k <= n2), true)
}
fn c04_iid(s: &mut Src, o: &mut Obs) -> R {
    use measures_exponential_family::IID;
    let c = C::generate_ef(s);
    let n = s.length(5, 70_000);
    let rate = if n > 5 { (1, n as u64) } else { (1, 4) };
    let xs: Vec<f64> = s.many(n, |s| if s.chance(rate.0, rate.1) { c.point(s) } else { c.inside(s) });
    let e = xs.iter().all(|x| c.supports(*x));
    o.label(c.kind());
    o.label(if e { "inside" } else { "outside" });
    o.nontrivial(n > 1);
    o.note(|| format!("iid {c:?} at {xs:?}: in support {e}"));
    with_cef!(&c, f64, m => {
        let m = IID::new(m);
        sup("IID", &m, xs.clone(), e, xs.iter().all(|x| c.reference(*x).v.is_finite()))?;
        Ok::<(), Fail>(())
    }, else Ok(()))?;
    {
        let c = c.to_f32();
        let ys: Vec<f32> = xs.iter().map(|x| narrow(*x)).collect();
        let e = ys.iter().all(|y| c.supports(f64::from(*y)));
        let fin = ys.iter().all(|y| c.reference(f64::from(*y)).v.abs() < 1e30 && y.abs() < 1e15 && (y.abs() > 1e-18 || *y == 0.0));
        // (the natural parameters and statistics of a normal far from zero overflow in f32)
        let range = match c {
            C::Normal(m, d) => ys.iter().all(|y| (m / d).abs().max((f64::from(*y) / d).abs()) < 1e15),
            _ => true,
        };
        if range {
            with_cef!(&c, f32, m => sup32("IID", &IID::new(m), ys.clone(), e, fin), else Ok(()))?;
        }
    }
    let d = D::generate(s, false);
    if matches!(d, D::Categorical(_) | D::NegBin(..)) {
        return Ok(()); // no summable statistic / its own property
    }
    let ks: Vec<u64> = s.many(n, |s| if s.chance(rate.0, rate.1) { d.point(s) } else { d.inside(s) });
    let e = ks.iter().all(|k| d.supports(*k));
    // Joint base measures
    {
        use measures_exponential_family::exponential_family::IIDBaseMeasure;
        with_cef!(&c, f64, m => {
            let m = IIDBaseMeasure::new(m);
            sup("IIDBaseMeasure", &m, xs.clone(), xs.iter().all(|x| c.supports(*x)), xs.iter().all(|x| c.reference(*x).v.is_finite()))
        }, else Ok(()))?;
    }
    macro_rules! go {
        ($m:expr, $x:ty) => {{
            let m = IID::new($m);
            sup(&format!("IID {d:?}"), &m, ks.iter().map(|k| *k as $x).collect::<Vec<$x>>(), e, true)
        }};
    }
    match &d {
        D::Bernoulli(p) => go!(measures_distributions::Bernoulli::new(*p), u8),
        D::Binomial(n, p) => go!(measures_distributions::Binomial::new(*n, *p), u64),
        D::Geometric(p) => go!(measures_distributions::Geometric::new(*p), u64),
        D::Poisson(l) => go!(measures_distributions::Poisson::new(*l), u64),
        _ => Ok(()),
    }
}

/// Moments at parameters quadrature cannot reach, by their exact formulas.
fn c03_extreme(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions as md;
    let (a, b) = (10f64.powf(s.uniform(-40.0, 40.0)), if s.bool() { 10f64.powf(s.uniform(-40.0, 40.0)) } else { 10f64.powf(s.uniform(-2.0, 2.0)) });
    let m = s.real(-1e9, 1e9);
    let p = match s.below(3) {
        0 => s.log_uniform(1e-30, 1.0),
        1 => 1.0 - s.log_uniform(1e-16, 1.0),
        _ => s.unit(),
    };
    let n = match s.below(3) {
        0 => s.below(20),
        1 => s.below(1 << 40),
        _ => s.log_uniform(1.0, 9e18) as u64,
    };
    let f32_ = s.chance(1, 3);
    let k = s.below(10);
    let (a, b, m, p, n) = if f32_ {
        let sh = |x: f64| f64::from(x.powf(0.1).clamp(1e-4, 1e4) as f32);
        (sh(a), sh(b), f64::from((m / 1e6) as f32), f64::from(p as f32).clamp(1e-4, 1.0), n & 0xff_ffff)
    } else {
        (a, b, m, p, n)
    };
    let q = 1.0 - p;
    if q <= 0.0 || p <= 0.0 {
        return Ok(());
    }
    let nf = n as f64;
    let name = ["Normal", "Exponential", "Gamma", "Beta", "ChiSquared", "Bernoulli", "Binomial", "Geometric", "NegativeBinomial", "Poisson"][k as usize];
    o.label(name);
    o.label_if(f32_, "f32");
    macro_rules! both {
        ($ty:ident ( $($x:expr),* )) => {{
            if f32_ {
                let d = md::$ty::new($($x),*);
                (f64::from(d.mean()), f64::from(d.variance()))
            } else { unreachable!() }
        }};
    }
    let t = a + b;
    let want = match k {
        0 => (m, b * b),
        1 => (1.0 / a, 1.0 / a / a),
        2 => (a / b, a / b / b),
        3 => (a / t, (a / t) * (b / t) / (t + 1.0)),
        4 => (a, 2.0 * a),
        5 => (p, p * q),
        6 => (nf * p, nf * p * q),
        7 => (1.0 / p, q / p / p),
        8 => ((nf + 1.0) * p / q, (nf + 1.0) * p / q / q),
        _ => (a, a),
    };
    let (mean, var): (f64, f64) = if f32_ {
        let (a, b, m, p) = (a as f32, b as f32, m as f32, p as f32);
        match k {
            0 => { let d = md::Normal::new(m, b); (f64::from(d.mean), f64::from(d.variance())) }
            1 => both!(Exponential(a)),
            2 => both!(Gamma(a, b)),
            3 => both!(Beta(a, b)),
            4 => both!(ChiSquared(a)),
            5 => both!(Bernoulli(p)),
            6 => both!(Binomial(n, p)),
            7 => both!(Geometric(p)),
            8 => both!(NegativeBinomial(n + 1, p)),
            _ => (f64::from(md::Poisson::new(a).rate), f64::from(a)),
        }
    } else {
        match k {
            0 => { let d = md::Normal::new(m, b); (d.mean, d.variance()) }
            1 => { let d = md::Exponential::new(a); (d.mean_(), d.variance_()) }
            2 => { let d = md::Gamma::new(a, b); (d.mean_(), d.variance_()) }
            3 => { let d = md::Beta::new(a, b); (d.mean_(), d.variance_()) }
            4 => { let d = md::ChiSquared::new(a); (d.mean_(), d.variance_()) }
            5 => { let d = md::Bernoulli::new(p); (d.mean_(), d.variance_()) }
            6 => { let d = md::Binomial::new(n, p); (d.mean_(), d.variance_()) }
            7 => { let d = md::Geometric::new(p); (d.mean_(), d.variance_()) }
            8 => { let d = md::NegativeBinomial::new(n + 1, p); (d.mean_(), d.variance_()) }
            _ => (md::Poisson::new(a).rate, a),
        }
    };
    o.nontrivial(true);
    o.note(|| format!("{name}: a={a:e} b={b:e} p={p:e} n={n}"));
    let tol = if f32_ { 1e-5 } else { 1e-9 };
    ensure!((mean - want.0).abs() <= tol * want.0.abs(), "mean", "{name} (a={a:e} b={b:e} p={p:e} n={n}): mean {mean:e}, expected {:e}", want.0);
    ensure!((var - want.1).abs() <= tol * want.1.abs(), "variance", "{name} (a={a:e} b={b:e} p={p:e} n={n}): variance {var:e}, expected {:e}", want.1);
    Ok(())
}

// ---------------------------------------------------------------- C05

fn edge(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, 1e-300, -1e-300, 1.0 + 1e-15, f64::NEG_INFINITY, 1.0 - 1e-15, 5e-324]),
        1 => s.real(-5.0, 5.0),
        2 => s.pos(1e-6, 1e6),
        3 => s.log_uniform(1e-90, 1e90),
        _ => s.uniform(-2.0, 2.0),
    }
}
fn built<T>(name: &str, args: String, valid: bool, f: impl FnOnce() -> T) -> Result<Option<T>, Fail> {
    match (catch(f), valid) {
        (Ok(v), true) => Ok(Some(v)),
        (Err(_), false) => Ok(None),
        (Ok(_), false) => fail("accepts-invalid", format!("{name}({args}) was accepted although its parameters are invalid")),
        (Err(e), true) => fail("rejects-valid", format!("{name}({args}) was rejected although its parameters are valid: {e}")),
    }
}
fn eqf(name: &str, got: f64, want: f64) -> R {
    ensure!(same(got, want, 1e-13 * want.abs()), "accessor", "{name} = {got}, expected {want}");
    Ok(())
}
fn c05_cont(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions as md;
    let (a, b) = (edge(s), edge(s));
    let k = s.below(8);
    let m = if a.is_finite() { a } else { 1.5 };
    o.note(|| format!("constructor {k} with ({a:?}, {b:?})"));
    let args = format!("{a:?}, {b:?}");
    let kind = ["Normal", "Exponential", "Gamma", "Beta", "ChiSquared", "StudentT", "Cauchy", "from_shape_scale"][k as usize];
    o.label(kind);
    match k {
        0 => {
            o.nontrivial(b > 0.0);
            if let Some(d) = built("Normal::new", format!("{m:?}, {b:?}"), b > 0.0, || md::Normal::new(m, b))? {
                ensure!(d.mean == m && d.std_dev == b && d.params() == (m, b), "accessor", "Normal fields {d:?}");
                eqf("Normal::variance", d.variance(), b * b)?;
            }
            let _ = built("Normal::<f32>::new", format!("{m:?}, {b:?}"), b as f32 > 0.0, || md::Normal::new(m as f32, b as f32))?;
        }
        1 => {
            o.nontrivial(a > 0.0);
            if let Some(d) = built("Exponential::new", args, a > 0.0, || md::Exponential::new(a))? {
                ensure!(d.rate == a, "accessor", "Exponential fields {d:?}");
                eqf("Exponential::mean", d.mean(), 1.0 / a)?;
                if a > 1e-100 {
                    eqf("Exponential::variance", d.variance(), 1.0 / a / a)?;
                }
            }
        }
        2 => {
            o.nontrivial(a > 0.0 && b > 0.0);
            if let Some(d) = built("Gamma::new", args, a > 0.0 && b > 0.0, || md::Gamma::new(a, b))? {
                ensure!(d.shape == a && d.rate == b, "accessor", "Gamma fields {d:?}");
                eqf("Gamma::mean", d.mean(), a / b)?;
                if a > 1e-100 && b > 1e-100 {
                    eqf("Gamma::scale", d.scale(), 1.0 / b)?;
                    eqf("Gamma::variance", d.variance(), a / b / b)?;
                }
            }
        }
        3 => {
            o.nontrivial(a > 0.0 && b > 0.0);
            if let Some(d) = built("Beta::new", args, a > 0.0 && b > 0.0, || md::Beta::new(a, b))? {
                ensure!(d.alpha == a && d.beta == b, "accessor", "Beta fields {d:?}");
                if a > 1e-100 && b > 1e-100 {
                    let t = a + b;
                    eqf("Beta::mean", d.mean(), a / t)?;
                    let w = (a / t) * (b / t) / (t + 1.0);
                    ensure!(same(d.variance(), w, 1e-14 * w), "accessor", "Beta::variance of {d:?} = {}, expected {w}", d.variance());
                }
            }
        }
        4 => {
            o.nontrivial(a > 0.0);
            if let Some(d) = built("ChiSquared::new", args, a > 0.0, || md::ChiSquared::new(a))? {
                eqf("ChiSquared::degrees_of_freedom", d.degrees_of_freedom, a)?;
                eqf("ChiSquared::shape", d.shape(), a / 2.0)?;
                eqf("ChiSquared::rate", d.rate(), 0.5)?;
                eqf("ChiSquared::mean", d.mean(), a)?;
                eqf("ChiSquared::variance", d.variance(), 2.0 * a)?;
            }
        }
        5 => {
            o.nontrivial(a > 0.0);
            if let Some(d) = built("StudentT::new", args, a > 0.0, || md::StudentT::new(a))? {
                ensure!(d.nu() == a && d.params() == a, "accessor", "StudentT fields {d:?}");
            }
        }
        6 => {
            o.nontrivial(b > 0.0);
            if let Some(d) = built("Cauchy::new", format!("{m:?}, {b:?}"), b > 0.0, || md::Cauchy::new(m, b))? {
                ensure!(d.location() == m && d.scale() == b && d.params() == (m, b), "accessor", "Cauchy fields {d:?}");
            }
            let st = md::Cauchy::<f64>::standard();
            ensure!(st.params() == (0.0, 1.0), "accessor", "Cauchy::standard is {st:?}");
        }
        _ => {
            let ok = a > 0.0 && b > 0.0 && (1.0 / b).is_finite();
            o.nontrivial(ok);
            if b == 0.0 || (b > 0.0 && !(1.0 / b).is_finite()) {
                return Ok(());
            }
            if let Some(d) = built("Gamma::from_shape_scale", args, ok, || md::Gamma::from_shape_scale(a, b))? {
                eqf("Gamma::from_shape_scale shape", d.shape, a)?;
                eqf("Gamma::from_shape_scale rate", d.rate, 1.0 / b)?;
                eqf("Gamma::from_shape_scale scale", d.scale(), b)?;
            }
        }
    }
    // defaults are the documented standard members
    ensure!(md::Normal::<f64>::default().params() == (0.0, 1.0), "default", "Normal::default");
    ensure!(md::Exponential::<f64>::default().rate == 1.0, "default", "Exponential::default");
    let g = md::Gamma::<f64>::default();
    ensure!(g.shape == 1.0 && g.rate == 1.0, "default", "Gamma::default");
    let g = md::Beta::<f64>::default();
    ensure!(g.alpha == 1.0 && g.beta == 1.0, "default", "Beta::default");
    ensure!(md::ChiSquared::<f64>::default().degrees_of_freedom == 1.0, "default", "ChiSquared::default");
    ensure!(md::StudentT::<f64>::default().nu() == 1.0, "default", "StudentT::default");
    ensure!(md::Cauchy::<f64>::default().params() == (0.0, 1.0), "default", "Cauchy::default");
    ensure!(md::Bernoulli::<f64>::default().prob == 0.5, "default", "Bernoulli::default");
    ensure!(md::Geometric::<f64>::default().prob == 0.5, "default", "Geometric::default");
    ensure!(md::Poisson::<f64>::default().rate == 1.0, "default", "Poisson::default");
    Ok(())
}
fn c05_disc(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions as md;
    let p = if s.bool() { s.uniform(0.0, 1.0) } else { edge(s) };
    let n = if s.chance(1, 4) { s.log_uniform(1.0, 9e15) as u64 } else { s.below(50) };
    let k = s.below(5);
    o.note(|| format!("constructor {k} with p={p:?}, n={n}"));
    let unit = (0.0..=1.0).contains(&p);
    let args = format!("{n}, {p:?}");
    o.label(["Bernoulli", "Binomial", "Geometric", "NegativeBinomial", "Poisson"][k as usize]);
    let q = 1.0 - p;
    match k {
        0 => {
            o.nontrivial(unit);
            if let Some(d) = built("Bernoulli::new", args, unit, || md::Bernoulli::new(p))? {
                eqf("Bernoulli::mean", d.mean(), p)?;
                eqf("Bernoulli::variance", d.variance(), p * q)?;
                if p == 0.0 || p == 1.0 {
                    let e = if p == 0.0 { f64::NEG_INFINITY } else { f64::INFINITY };
                    ensure!(d.log_odds() == e, "accessor", "Bernoulli({p}).log_odds() = {}", d.log_odds());
                }
                if p > 1e-300 && p < 1.0 {
                    ensure!(same(d.log_odds(), p.ln() - q.ln(), 1e-13 * (1.0 + p.ln().abs() + q.ln().abs())), "accessor", "Bernoulli({p}).log_odds() = {}", d.log_odds());
                }
            }
        }
        1 => {
            o.nontrivial(unit);
            if let Some(d) = built("Binomial::new", args, unit, || md::Binomial::new(n, p))? {
                ensure!(d.n == n && d.prob == p, "accessor", "Binomial fields {d:?}");
                eqf("Binomial::mean", d.mean(), n as f64 * p)?;
                eqf("Binomial::variance", d.variance(), n as f64 * p * q)?;
                if p == 0.0 || p == 1.0 {
                    let e = if p == 0.0 { f64::NEG_INFINITY } else { f64::INFINITY };
                    ensure!(d.log_odds() == e, "accessor", "Binomial({p}).log_odds() = {}", d.log_odds());
                }
                if p > 1e-300 && p < 1.0 {
                    ensure!(same(d.log_odds(), p.ln() - q.ln(), 1e-13 * (1.0 + p.ln().abs() + q.ln().abs())), "accessor", "Binomial({p}).log_odds() = {}", d.log_odds());
                }
            }
        }
        2 => {
            let ok = p > 0.0 && p <= 1.0;
            o.nontrivial(ok);
            if let Some(d) = built("Geometric::new", args, ok, || md::Geometric::new(p))? {
                eqf("Geometric::mean", d.mean(), 1.0 / p)?;
                if p > 1e-100 {
                    eqf("Geometric::variance", d.variance(), q / p / p)?;
                }
                eqf("Geometric::failure_prob", d.failure_prob(), q)?;
            }
        }
        3 => {
            let ok = p > 0.0 && p < 1.0 && n > 0;
            o.nontrivial(ok);
            if let Some(d) = built("NegativeBinomial::new", args, ok, || md::NegativeBinomial::new(n, p))? {
                ensure!(d.r == n && d.prob == p, "accessor", "NegativeBinomial fields {d:?}");
                eqf("NegativeBinomial::failure_prob", d.failure_prob(), q)?;
                eqf("NegativeBinomial::mean", d.mean(), n as f64 * p / q)?;
                eqf("NegativeBinomial::variance", d.variance(), n as f64 * p / q / q)?;
                if p > 1e-300 {
                    ensure!(same(d.log_odds(), p.ln() - q.ln(), 1e-13 * (1.0 + p.ln().abs() + q.ln().abs())), "accessor", "NegativeBinomial({p}).log_odds() = {}", d.log_odds());
                }
            }
        }
        _ => {
            o.nontrivial(p > 0.0);
            if let Some(d) = built("Poisson::new", format!("{p:?}"), p > 0.0, || md::Poisson::new(p))? {
                ensure!(d.rate == p, "accessor", "Poisson fields {d:?}");
            }
        }
    }
    Ok(())
}
/// Weight vectors: Categorical and mixtures. A vector is surely valid when it sums to one within a few
/// roundings of its own type, surely invalid when it is off by 1e-6 (f64) or 1e-3 (f32).
fn c05_weights(s: &mut Src, o: &mut Obs) -> R {
    use measures_combinators::measures::combinators::superposition::MixtureMeasure;
    use measures_distributions as md;
    let n = 1 + s.usize(40);
    let mut w: Vec<f64> = (0..n).map(|_| if s.chance(1, 8) { 0.0 } else { s.pos(0.01, 10.0) }).collect();
    if w.iter().sum::<f64>() == 0.0 {
        w[0] = 1.0;
    }
    let t: f64 = w.iter().sum();
    for x in &mut w {
        *x /= t;
    }
    let how = s.below(5);
    let i = s.usize(n);
    let valid = match how {
        0 | 1 => true,
        2 => {
            w[i] += s.pick(&[1e-3, -1e-3, 0.5, 3e-6, -3e-6, 1.0, -0.25]) + 0.0;
            false
        }
        3 => {
            // sums to one, but with a negative entry
            if n < 2 {
                w[0] = -1.0;
            } else {
                let j = (i + 1) % n;
                w[j] += w[i] + 0.125;
                w[i] = -0.125;
            }
            false
        }
        _ => {
            w[i] = f64::NAN;
            false
        }
    };
    o.note(|| format!("weights {w:?} (class {how})"));
    o.label(["valid", "valid", "wrong-sum", "negative", "nan"][how as usize]);
    o.nontrivial(n > 1);
    if let Some(c) = built("Categorical::new", format!("{w:?}"), valid, || md::Categorical::new(w.clone()))? {
        ensure!(c.probs == w && c.num_categories() == n, "accessor", "Categorical stores {:?}", c.probs);
        let (m, v) = D::Categorical(w.clone()).moments().expect("moments");
        ensure!(same(c.mean(), m, 1e-12 * (1.0 + m)) && same(c.variance(), v, 1e-11 * (1.0 + v + m * m)), "accessor", "Categorical mean {} variance {}, expected {m} {v}", c.mean(), c.variance());
    }
    {
        let comps: Vec<md::Normal<f64>> = (0..n).map(|i| md::Normal::new(i as f64, 1.0)).collect();
        if let Some(m) = built("MixtureMeasure::new", format!("{w:?}"), valid, || MixtureMeasure::new(comps.clone(), w.clone()))? {
            ensure!(m.num_components() == n && m.weights == w, "accessor", "MixtureMeasure stores {:?}", m.weights);
        }
        let mut longer = w.clone();
        longer.push(0.0);
        let _ = built("MixtureMeasure::new (lengths differ)", format!("{longer:?}"), false, || MixtureMeasure::new(comps.clone(), longer.clone()))?;
        if valid {
            let w32: Vec<f32> = w.iter().map(|x| *x as f32).collect();
            let c32: Vec<md::Normal<f32>> = (0..n).map(|i| md::Normal::new(i as f32, 1.0)).collect();
            let _ = built("Categorical::<f32>::new", format!("{w32:?}"), true, || md::Categorical::new(w32.clone()))?;
            let _ = built("MixtureMeasure::<f32>::new", format!("{w32:?}"), true, || MixtureMeasure::new(c32.clone(), w32.clone()))?;
            if let Some(m) = built("MixtureMeasure::<f32>::uniform", format!("{n}"), true, || MixtureMeasure::<_, f32>::uniform(c32.clone()))? {
                ensure!(m.weights.iter().all(|x| (x - 1.0 / n as f32).abs() < 1e-6), "accessor", "uniform weights {:?}", m.weights);
            }
        }
        if how == 2 {
            let w32: Vec<f32> = w.iter().map(|x| *x as f32).collect();
            let t: f64 = w32.iter().map(|x| f64::from(*x)).sum();
            if (t - 1.0).abs() > 5e-4 {
                let _ = built("Categorical::<f32>::new", format!("{w32:?}"), false, || md::Categorical::new(w32.clone()))?;
            }
        }
    }
    let _ = built("Categorical::new", "[]".into(), false, || md::Categorical::<f64>::new(vec![]))?;
    let k = s.usize(60);
    if let Some(u) = built("Categorical::uniform", format!("{k}"), k > 0, || md::Categorical::<f64>::uniform(k))? {
        ensure!(u.probs.len() == k && u.probs.iter().all(|p| same(*p, 1.0 / k as f64, 1e-15)), "accessor", "uniform({k}) = {:?}", u.probs);
    }
    if let Some(u) = built("Categorical::<f32>::uniform", format!("{k}"), k > 0, || md::Categorical::<f32>::uniform(k))? {
        ensure!(u.probs.len() == k && u.probs.iter().all(|p| (p - 1.0 / k as f32).abs() < 1e-6), "accessor", "uniform({k}) = {:?}", u.probs);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            facets: vec![
                facet("continuous", 400_000, 8_000_000, "two different continuous distributions", c01_cont),
                facet("discrete", 300_000, 6_000_000, "every pair of measures on the naturals", c01_disc),
                facet("user-measures", 200_000, 4_000_000, "user-defined measures, zero-sized and not, with both family flags", c01_user),
                facet("f32", 150_000, 3_000_000, "every case", c01_f32),
                facet("batches", 8_000, 300_000, "two or more points", c01_batches),
                facet("iid", 60_000, 1_500_000, "two or more samples", c01_iid),
                facet("derived", 200_000, 4_000_000, "weighted and integral measures against their bases", c01_derived),
            ],
            assumptions: &["densities are compared to 1e-12 relative to the size of the two root densities"],
        },
        Prop {
            id: "C02",
            facets: vec![
                facet("continuous-f64", 1_000_000, 40_000_000, "the reference density is finite", c02_cont),
                facet("continuous-f32", 500_000, 20_000_000, "the reference density is finite", c02_cont32),
                facet("discrete-f64", 1_000_000, 30_000_000, "the reference mass is positive", c02_disc),
                facet("discrete-f32", 500_000, 15_000_000, "the reference mass is positive", c02_disc32),
            ],
            assumptions: &[
                "the reference log-gamma (shifted Stirling series) is accurate to 1e-14 relative to its terms",
                "parameters between 1e-3 and 1e3 (probabilities from 1e-6), the ranges in which the formula has no overflow",
            ],
        },
        Prop {
            id: "C03",
            facets: vec![
                facet("continuous", 20_000, 400_000, "every case integrates one density numerically", c03_cont),
                facet("discrete", 20_000, 600_000, "every case sums one mass function", c03_disc),
                facet("extreme", 200_000, 4_000_000, "every case compares two moments", c03_extreme),
            ],
            assumptions: &["transformed trapezoid rule; shapes at least 0.2 (gamma), 0.5 (beta, Student t)"],
        },
        Prop {
            id: "C04",
            facets: vec![
                facet("continuous", 500_000, 10_000_000, "the distribution has a restricted support", c04_cont),
                facet("discrete", 500_000, 10_000_000, "the distribution has a restricted support", c04_disc),
                facet("derived", 200_000, 4_000_000, "a point outside some support", c04_derived),
                facet("iid", 200_000, 4_000_000, "at least two observations", c04_iid),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C05",
            facets: vec![
                facet("continuous", 200_000, 4_000_000, "parameters are valid", c05_cont),
                facet("discrete", 200_000, 4_000_000, "parameters are valid", c05_disc),
                facet("weights", 100_000, 2_000_000, "at least two weights", c05_weights),
            ],
            assumptions: &[
                "a location of NaN and infinite scales are outside the documented domain",
                "a weight vector is valid if it sums to one up to rounding of its own number type",
            ],
        },
    ]
}

