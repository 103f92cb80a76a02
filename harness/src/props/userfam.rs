//! User-defined exponential families: the generic evaluators (C06, C08, C11) and the wrapper (C04)
//! over families the library does not know.
use crate::ensure;
use crate::oracle::{Vm, lfact, same};
use crate::runner::*;
use crate::src::Src;
use measures_core::{CountingMeasure, DotProduct, EvaluateAt, False, HasLogDensity, LebesgueMeasure, LogDensityBuilder, Measure, MeasureMarker, True, log_density_batch};
use measures_exponential_family::exponential_family::{ExpFam, IID, IIDBaseMeasure};
use measures_exponential_family::exponential_family::jit::{ZeroOverheadOptimizer, generate_zero_overhead_exp_fam, generate_zero_overhead_exp_fam_wrt};
use measures_exponential_family::{
    ExponentialFamily, ExponentialFamilyMeasure, IIDExtension, SumSufficientStats, compute_exp_fam_log_density, compute_iid_exp_fam_log_density,
};

fn basis(i: usize, x: f64) -> f64 {
    match i {
        0 => x,
        1 => x * x,
        2 => x.abs(),
        3 => 1.0,
        4 => x.sin(),
        5 => -x,
        _ => 0.5 + x.cos(),
    }
}
/// What the test knows of a family: its parameters, statistic, log-partition, base density, support.
trait Known<X> {
    fn eta(&self) -> Vec<f64>;
    fn t(&self, x: &X) -> Vec<f64>;
    fn a(&self) -> f64;
    fn h(&self, x: &X) -> f64;
    fn inside(&self, x: &X) -> bool;
    fn want(&self, x: &X) -> Vm {
        if !self.inside(x) {
            return Vm::neg_inf();
        }
        let mut v = Vm::sum(&[-self.a(), self.h(x)]);
        for (e, t) in self.eta().iter().zip(self.t(x)) {
            v = v.add(Vm::c(e * t));
        }
        v
    }
}
fn part(eta: &[f64], c: f64) -> f64 {
    c + eta.iter().enumerate().map(|(i, e)| (0.25 + i as f64) * e).sum::<f64>() + 0.5 * eta[0] * eta[0]
}

/// a base measure with a density of its own
#[derive(Clone)]
struct Curved(f64);
impl MeasureMarker for Curved {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<f64> for Curved {
    type RootMeasure = LebesgueMeasure<f64>;
    fn in_support(&self, _: f64) -> bool {
        true
    }
    fn root_measure(&self) -> Self::RootMeasure {
        LebesgueMeasure::new()
    }
}
impl HasLogDensity<f64, f64> for Curved {
    fn log_density_wrt_root(&self, x: &f64) -> f64 {
        self.0 - 0.5 * *x * *x
    }
}

/// 1/k! on the counts
#[derive(Clone)]
struct Counts;
impl MeasureMarker for Counts {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<u64> for Counts {
    type RootMeasure = CountingMeasure<u64>;
    fn in_support(&self, _: u64) -> bool {
        true
    }
    fn root_measure(&self) -> Self::RootMeasure {
        CountingMeasure::new()
    }
}
impl HasLogDensity<u64, f64> for Counts {
    fn log_density_wrt_root(&self, k: &u64) -> f64 {
        -lfact(*k)
    }
}

macro_rules! family {
    ([$($g:tt)*] $ty:ty, $x:ty, $root:ty, $inside:expr) => {
        impl<$($g)*> MeasureMarker for $ty {
            type IsPrimitive = False;
            type IsExponentialFamily = True;
        }
        impl<$($g)*> Measure<$x> for $ty {
            type RootMeasure = $root;
            fn in_support(&self, x: $x) -> bool { Known::<$x>::inside(self, &x) }
            fn root_measure(&self) -> Self::RootMeasure { <$root>::new() }
        }
        impl<$($g)*> HasLogDensity<$x, f64> for $ty {
            fn log_density_wrt_root(&self, x: &$x) -> f64 { self.exp_fam_log_density(x) }
        }
        impl<$($g)*> ExponentialFamilyMeasure<$x, f64> for $ty {}
    };
}
/// combined accessor, curved base measure, half-line support
#[derive(Clone, Debug)]
struct Comb<const N: usize> {
    eta: [f64; N],
    lo: f64,
    c: f64,
}
impl<const N: usize> Known<f64> for Comb<N> {
    fn eta(&self) -> Vec<f64> { self.eta.to_vec() }
    fn t(&self, x: &f64) -> Vec<f64> { (0..N).map(|i| basis(i, *x)).collect() }
    fn a(&self) -> f64 { part(&self.eta, self.c) }
    fn h(&self, x: &f64) -> f64 { self.c - 0.5 * x * x }
    fn inside(&self, x: &f64) -> bool { *x >= self.lo }
}
impl<const N: usize> ExponentialFamily<f64, f64> for Comb<N> {
    type NaturalParam = [f64; N];
    type SufficientStat = [f64; N];
    type BaseMeasure = Curved;
    fn from_natural(eta: [f64; N]) -> Self { Comb { eta, lo: f64::NEG_INFINITY, c: 0.0 } }
    fn natural_and_log_partition(&self) -> ([f64; N], f64) { (self.eta, part(&self.eta, self.c)) }
    fn sufficient_statistic(&self, x: &f64) -> [f64; N] { std::array::from_fn(|i| basis(i, *x)) }
    fn base_measure(&self) -> Curved { Curved(self.c) }
    fn supports(&self, x: &f64) -> bool { *x >= self.lo }
}
family!([const N: usize] Comb<N>, f64, LebesgueMeasure<f64>, ());
/// separate accessors, plain base measure, whole line
#[derive(Clone, Debug)]
struct Sep<const N: usize> {
    eta: [f64; N],
    c: f64,
}
impl<const N: usize> Known<f64> for Sep<N> {
    fn eta(&self) -> Vec<f64> { self.eta.to_vec() }
    fn t(&self, x: &f64) -> Vec<f64> { (0..N).map(|i| basis(i + 1, *x)).collect() }
    fn a(&self) -> f64 { part(&self.eta, self.c) }
    fn h(&self, _: &f64) -> f64 { 0.0 }
    fn inside(&self, _: &f64) -> bool { true }
}
impl<const N: usize> ExponentialFamily<f64, f64> for Sep<N> {
    type NaturalParam = [f64; N];
    type SufficientStat = [f64; N];
    type BaseMeasure = LebesgueMeasure<f64>;
    fn from_natural(eta: [f64; N]) -> Self { Sep { eta, c: 0.0 } }
    fn to_natural(&self) -> [f64; N] { self.eta }
    fn log_partition(&self) -> f64 { part(&self.eta, self.c) }
    fn sufficient_statistic(&self, x: &f64) -> [f64; N] { std::array::from_fn(|i| basis(i + 1, *x)) }
    fn base_measure(&self) -> LebesgueMeasure<f64> { LebesgueMeasure::new() }
}
family!([const N: usize] Sep<N>, f64, LebesgueMeasure<f64>, ());
/// counts, with 1/k! as base density and a support with holes
#[derive(Clone, Debug)]
struct Cnt<const N: usize> {
    eta: [f64; N],
    step: u64,
}
impl<const N: usize> Known<u64> for Cnt<N> {
    fn eta(&self) -> Vec<f64> { self.eta.to_vec() }
    fn t(&self, k: &u64) -> Vec<f64> { (0..N).map(|i| basis(i, *k as f64)).collect() }
    fn a(&self) -> f64 { part(&self.eta, self.step as f64) }
    fn h(&self, k: &u64) -> f64 { -lfact(*k) }
    fn inside(&self, k: &u64) -> bool { k % self.step == 0 }
}
impl<const N: usize> ExponentialFamily<u64, f64> for Cnt<N> {
    type NaturalParam = [f64; N];
    type SufficientStat = [f64; N];
    type BaseMeasure = Counts;
    fn from_natural(eta: [f64; N]) -> Self { Cnt { eta, step: 1 } }
    fn natural_and_log_partition(&self) -> ([f64; N], f64) { (self.eta, part(&self.eta, self.step as f64)) }
    fn sufficient_statistic(&self, k: &u64) -> [f64; N] { std::array::from_fn(|i| basis(i, *k as f64)) }
    fn base_measure(&self) -> Counts { Counts }
    fn supports(&self, k: &u64) -> bool { k % self.step == 0 }
}
family!([const N: usize] Cnt<N>, u64, CountingMeasure<u64>, ());
/// no data at all: every parameter is a constant of the type
#[derive(Clone, Debug)]
struct Fixed;
impl Known<f64> for Fixed {
    fn eta(&self) -> Vec<f64> { vec![1.5, -2.25] }
    fn t(&self, x: &f64) -> Vec<f64> { vec![*x, x * x] }
    fn a(&self) -> f64 { 0.75 }
    fn h(&self, x: &f64) -> f64 { 3.0 - 0.5 * x * x }
    fn inside(&self, x: &f64) -> bool { *x <= 4.0 }
}
impl ExponentialFamily<f64, f64> for Fixed {
    type NaturalParam = [f64; 2];
    type SufficientStat = [f64; 2];
    type BaseMeasure = Curved;
    fn from_natural(_: [f64; 2]) -> Self { Fixed }
    fn natural_and_log_partition(&self) -> ([f64; 2], f64) { ([1.5, -2.25], 0.75) }
    fn sufficient_statistic(&self, x: &f64) -> [f64; 2] { [*x, *x * *x] }
    fn base_measure(&self) -> Curved { Curved(3.0) }
    fn supports(&self, x: &f64) -> bool { *x <= 4.0 }
}
family!([] Fixed, f64, LebesgueMeasure<f64>, ());
/// points that are pairs, parameters and statistics that are not arrays
#[derive(Clone, Debug, PartialEq)]
struct Sym2(f64, f64, f64);
impl DotProduct for Sym2 {
    type Output = f64;
    fn dot(&self, o: &Sym2) -> f64 { self.0 * o.0 + 2.0 * self.1 * o.1 + self.2 * o.2 }
}
impl SumSufficientStats<Sym2> for Sym2 {
    fn sum_sufficient_stats<I: Iterator<Item = Sym2>>(stats: I) -> Sym2 {
        stats.fold(Sym2(0.0, 0.0, 0.0), |a, b| Sym2(a.0 + b.0, a.1 + b.1, a.2 + b.2))
    }
}
#[derive(Clone, Debug)]
struct Pair {
    eta: Sym2,
}
type P = (i64, bool);
impl Known<P> for Pair {
    fn eta(&self) -> Vec<f64> { vec![self.eta.0, 2.0 * self.eta.1, self.eta.2] }
    fn t(&self, x: &P) -> Vec<f64> { vec![x.0 as f64, f64::from(u8::from(x.1)), 1.0] }
    fn a(&self) -> f64 { self.eta.0 - self.eta.2 }
    fn h(&self, _: &P) -> f64 { 0.0 }
    fn inside(&self, x: &P) -> bool { x.0 >= 0 || x.1 }
}
impl ExponentialFamily<P, f64> for Pair {
    type NaturalParam = Sym2;
    type SufficientStat = Sym2;
    type BaseMeasure = CountingMeasure<P>;
    fn from_natural(eta: Sym2) -> Self { Pair { eta } }
    fn to_natural(&self) -> Sym2 { self.eta.clone() }
    fn log_partition(&self) -> f64 { self.eta.0 - self.eta.2 }
    fn sufficient_statistic(&self, x: &P) -> Sym2 { Sym2(x.0 as f64, f64::from(u8::from(x.1)), 1.0) }
    fn base_measure(&self) -> CountingMeasure<P> { CountingMeasure::new() }
    fn supports(&self, x: &P) -> bool { x.0 >= 0 || x.1 }
}
family!([] Pair, P, CountingMeasure<P>, ());

/// Run `$body` on a generated family `$m` and a point generator `$p`.
macro_rules! with_family {
    ($s:expr, $o:expr, |$m:ident, $p:ident| $body:expr) => {{
        let s: &mut Src = $s;
        let k = s.below(11);
        let mut v = || s.real(-4.0, 4.0);
        let e: [f64; 5] = [v(), v(), v(), v(), v()];
        let c = v();
        let lo = s.pick(&[f64::NEG_INFINITY, 0.0, -1.0, 1e-9]);
        let step = 1 + s.below(3);
        let mut r = s.fork();
        $o.label(["one parameter", "two parameters", "three parameters", "five parameters", "separate accessors", "separate accessors", "separate accessors", "counts", "counts", "no data", "pairs"][k as usize]);
        let real = |n: usize| r.many(n, |s| if s.chance(1, 8) { s.pick(&[0.0, -0.0, 1.0, -1.0, 4.0, 5.0]) } else { s.real(-6.0, 6.0) });
        match k {
            0 => { let $m = Comb { eta: [e[0]], lo, c }; let mut $p = real; $body }
            1 => { let $m = Comb { eta: [e[0], e[1]], lo, c }; let mut $p = real; $body }
            2 => { let $m = Comb { eta: [e[0], e[1], e[2]], lo, c }; let mut $p = real; $body }
            3 => { let $m = Comb { eta: e, lo, c }; let mut $p = real; $body }
            4 => { let $m = Sep { eta: [e[0]], c }; let mut $p = real; $body }
            5 => { let $m = Sep { eta: [e[0], e[1], e[2], e[3]], c }; let mut $p = real; $body }
            6 => { let $m = Sep { eta: e, c }; let mut $p = real; $body }
            7 => { let $m = Cnt { eta: [e[0]], step }; let mut $p = |n: usize| r.many(n, |s| s.below(40)); $body }
            8 => { let $m = Cnt { eta: [e[0], e[1], e[2]], step }; let mut $p = |n: usize| r.many(n, |s| s.below(40)); $body }
            9 => { let $m = Fixed; let mut $p = real; $body }
            _ => { let $m = Pair { eta: Sym2(e[0], e[1], e[2]) }; let mut $p = |n: usize| r.many(n, |s| (s.range(-4, 20), s.bool())); $body }
        }
    }};
}
fn c06_user(s: &mut Src, o: &mut Obs) -> R {
    with_family!(s, o, |m, pts| {
        for x in pts(3) {
            o.note(|| format!("{m:?} at {x:?}"));
            let f = m.want(&x);
            o.nontrivial(f.v.is_finite());
            let (n, a) = m.natural_and_log_partition();
            ensure!(n == m.to_natural() && a == m.log_partition(), "combined-accessor", "{m:?}: natural_and_log_partition is ({n:?}, {a}), to_natural {:?}, log_partition {}", m.to_natural(), m.log_partition());
            let ae = m.a();
            ensure!(same(a, ae, 1e-12 * (1.0 + ae.abs())), "log-partition", "{m:?}: log-partition {a}, the family defines {ae}");
            let h: f64 = ExponentialFamily::base_measure(&m).log_density_wrt_root(&x);
            let hand = n.dot(&m.sufficient_statistic(&x)) - a + h;
            ensure!(!m.inside(&x) || f.ok(hand), "by-hand", "{m:?}: assembled by hand {hand} at {x:?}, expected {}", f.v);
            for (name, g) in [("exp_fam_log_density", m.exp_fam_log_density(&x)), ("compute_exp_fam_log_density", compute_exp_fam_log_density(&m, &x)), ("log_density().at", m.log_density().at(&x))] {
                ensure!(f.ok(g), "user-family", "{m:?}: {name} at {x:?} is {g}, eta.T - A + log h is {}", f.v);
            }
        }
        Ok(())
    })
}
fn c04_user(s: &mut Src, o: &mut Obs) -> R {
    with_family!(s, o, |m, pts| {
        for x in pts(4) {
            o.note(|| format!("{m:?} at {x:?}"));
            let e = m.inside(&x);
            o.nontrivial(!e);
            let w = ExpFam::<_, f64>::new(m.clone());
            ensure!(w.in_support(x.clone()) == e, "wrapper-support", "wrapped {m:?}: in_support({x:?}) = {}, the family says {e}", !e);
            let (a, b): (f64, f64) = (w.root_measure().log_density_wrt_root(&x), m.root_measure().log_density_wrt_root(&x));
            ensure!(a == b && a == 0.0, "wrapper-root", "wrapped {m:?}: root density {a} at {x:?}");
            let g: f64 = m.log_density_wrt_root(&x);
            ensure!(if e { g.is_finite() } else { g == f64::NEG_INFINITY }, "user-support", "{m:?} has log-density {g} at {x:?}; in support: {e}");
            let v = vec![x.clone(), x.clone()];
            let g: f64 = IID::new(m.clone()).log_density_wrt_root(&v);
            ensure!(if e { g.is_finite() } else { g == f64::NEG_INFINITY }, "user-support", "two samples {x:?} of {m:?} have log-density {g}; in support: {e}");
        }
        Ok(())
    })
}
fn c08_user(s: &mut Src, o: &mut Obs) -> R {
    let n = match s.below(8) {
        0 => s.usize(2),
        1 => s.length(60, 5_000),
        _ => 1 + s.usize(8),
    };
    let drop = s.chance(3, 4);
    with_family!(s, o, |m, pts| {
        let mut xs = pts(n);
        if drop {
            xs.retain(|x| m.inside(x));
        }
        o.note(|| format!("{} samples of {m:?}: {xs:?}", xs.len()));
        let inside = xs.iter().all(|x| m.inside(x));
        o.nontrivial(xs.len() > 1 && inside);
        let mut f = Vm::c(0.0);
        for x in &xs {
            let w = m.want(x);
            f = f.add(w);
            f.m += if w.v.is_finite() { 0.0 } else { 1.0 };
        }
        let tol = f.tol64() + 1e-13 * xs.len() as f64 * f.m;
        let iid = IID::new(m.clone());
        let each: Vec<f64> = log_density_batch(&m, &xs);
        let routes: [(&str, f64); 8] = [
            ("iid_log_density", iid.iid_log_density(&xs)),
            (".iid()", m.clone().iid().iid_log_density(&xs)),
            ("compute_iid_exp_fam_log_density", compute_iid_exp_fam_log_density(&m, &xs)),
            ("log_density_wrt_root", iid.log_density_wrt_root(&xs)),
            ("exp_fam_log_density", ExponentialFamily::<_, f64>::exp_fam_log_density(&iid, &xs)),
            ("log_density().at", EvaluateAt::<_, f64>::at(&iid.log_density(), &xs)),
            ("iid_log_density_fallback", iid.iid_log_density_fallback(&xs)),
            ("sum of a batch", each.iter().sum()),
        ];
        for (name, g) in routes {
            if xs.is_empty() {
                ensure!(g == 0.0, "user-empty", "{name} of no samples of {m:?} is {g}");
            } else {
                ensure!(same(g, f.v, tol), "user-joint", "{name} of {xs:?} under {m:?} is {g}, the sum of the log-densities is {}", f.v);
            }
        }
        let hb: f64 = IIDBaseMeasure::new(ExponentialFamily::base_measure(&m)).log_density_wrt_root(&xs);
        let he: f64 = xs.iter().map(|x| m.h(x)).sum();
        let hm: f64 = xs.iter().map(|x| m.h(x).abs()).sum();
        ensure!(same(hb, he, 1e-11 * (1.0 + hm)), "user-base", "joint base measure of {xs:?} under {m:?} is {hb}, expected {he}");
        Ok(())
    })
}
fn c11_user(s: &mut Src, o: &mut Obs) -> R {
    let n = 1 + s.usize(8);
    let calls = n + s.usize(2 * n);
    let mut idx = s.fork();
    with_family!(s, o, |m, pts| {
        let xs = pts(n);
        o.note(|| format!("{m:?} at {xs:?}"));
        o.nontrivial(xs.iter().any(|x| m.inside(x)));
        let f1 = generate_zero_overhead_exp_fam(m.clone());
        let f2 = m.clone().zero_overhead_optimize();
        let root = m.root_measure();
        let g1 = generate_zero_overhead_exp_fam_wrt(m.clone(), root.clone());
        let g2 = m.clone().zero_overhead_optimize_wrt(root);
        let base = ExponentialFamily::base_measure(&m);
        let h1 = generate_zero_overhead_exp_fam_wrt(m.clone(), base.clone());
        let h2 = m.clone().zero_overhead_optimize_wrt(base);
        let own = m.clone().zero_overhead_optimize_wrt(m.clone());
        for _ in 0..calls {
            let x = &xs[idx.usize(n)];
            let f = m.want(x);
            for (name, g) in [("zero_overhead", f1(x)), ("zero_overhead_optimize", f2(x)), ("zero_overhead_wrt root", g1(x)), ("zero_overhead_optimize_wrt root", g2(x))] {
                ensure!(f.ok(g), "user-closure", "{m:?}: {name} at {x:?} is {g}, generic {}", f.v);
            }
            let mut fh = f;
            fh.v -= m.h(x);
            for (name, g) in [("zero_overhead_wrt base", h1(x)), ("zero_overhead_optimize_wrt base", h2(x))] {
                ensure!(fh.ok(g), "user-closure", "{m:?}: {name} at {x:?} is {g}, generic {}", fh.v);
            }
            if f.v.is_finite() {
                ensure!(same(own(x), 0.0, f.tol64()), "user-closure", "{m:?}: zero_overhead_optimize_wrt itself at {x:?} is {}", own(x));
            }
        }
        Ok(())
    })
}
/// The facet of `id` over user-defined families.
pub fn facets(id: &str) -> Vec<Facet> {
    let f = |n, rule, f| vec![facet("user-families", n, 20 * n, rule, f)];
    match id {
        "C04" => f(50_000, "a point outside the support", c04_user as fn(&mut Src, &mut Obs) -> R),
        "C06" => f(50_000, "a point in the support", c06_user),
        "C08" => f(30_000, "at least two samples, all in the support", c08_user),
        "C11" => f(30_000, "a point in the support", c11_user),
        _ => vec![],
    }
}
