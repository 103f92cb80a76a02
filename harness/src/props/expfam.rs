//! C06 exponential-family form, C07 natural-parameter round trip, C08 joint densities of
//! independent samples, C11 specialised evaluators.
use crate::dists::{C, D, narrow};
use crate::oracle::{self as or, Vm, lfact, lgamma, same};
use crate::runner::*;
use crate::src::Src;
use crate::{bail, ensure, with_c, with_cef, with_d};
use measures_core::{DotProduct, EvaluateAt, HasLogDensity, LebesgueMeasure, LogDensityBuilder, Measure};
use measures_exponential_family::{
    ExponentialFamily, IIDExtension, exponential_family::IIDBaseMeasure, SumSufficientStats, compute_exp_fam_log_density, compute_iid_exp_fam_log_density,
    exponential_family::iid::IID,
};
use num_traits::Float;

/// Independently computed parts of the exponential-family form at one point.
struct Form {
    eta: Vec<f64>,
    /// error (in units of 1e-15) of each natural parameter beyond its own rounding
    eta_noise: f64,
    a: f64,
    a_mag: f64,
    t: Vec<f64>,
    h: Vm,
}
fn form_c(c: &C, x: f64) -> Form {
    let h = Vm::c(0.0);
    match *c {
        C::Normal(m, s) => Form {
            eta: vec![m / (s * s), -0.5 / (s * s)],
            eta_noise: 0.0,
            a: m * m / (2.0 * s * s) + s.ln() + 0.5 * or::LN_2PI,
            a_mag: m * m / (2.0 * s * s) + s.ln().abs() + 1.0,
            t: vec![x, x * x],
            h,
        },
        C::Exponential(r) => {
            Form { eta: vec![-r], eta_noise: 0.0, a: -r.ln(), a_mag: r.ln().abs(), t: vec![x], h }
        }
        C::Gamma(a, b) => Form {
            eta: vec![a - 1.0, -b],
            eta_noise: 1.0,
            a: lgamma(a) - a * b.ln(),
            a_mag: lgamma(a).abs() + (a * b.ln()).abs() + a,
            t: vec![x.ln(), x],
            h,
        },
        C::Beta(a, b) => Form {
            eta: vec![a - 1.0, b - 1.0],
            eta_noise: 1.0,
            a: lgamma(a) + lgamma(b) - lgamma(a + b),
            a_mag: lgamma(a).abs() + lgamma(b).abs() + lgamma(a + b).abs() + a + b,
            t: vec![x.ln(), (1.0 - x).ln()],
            h,
        },
        C::Chi2(k) => Form {
            eta: vec![0.5 * k - 1.0, -0.5],
            eta_noise: 1.0,
            a: lgamma(0.5 * k) + 0.5 * k * std::f64::consts::LN_2,
            a_mag: lgamma(0.5 * k).abs() + k,
            t: vec![x.ln(), x],
            h,
        },
        _ => unreachable!(),
    }
}
fn logit(p: f64) -> f64 {
    p.ln() - (-p).ln_1p()
}
fn form_d(d: &D, k: u64) -> Form {
    let x = k as f64;
    match d {
        D::Bernoulli(p) => Form {
            eta: vec![logit(*p)],
            eta_noise: 1.0 / (1.0 - p),
            a: -(-p).ln_1p(),
            a_mag: p * (logit(*p).abs() + 1.0 / (1.0 - p)) - (-p).ln_1p(),
            t: vec![x],
            h: Vm::c(0.0),
        },
        D::Binomial(n, p) => Form {
            eta: vec![logit(*p)],
            eta_noise: 1.0 / (1.0 - p),
            a: -(*n as f64) * (-p).ln_1p(),
            a_mag: *n as f64 * (p * (logit(*p).abs() + 1.0 / (1.0 - p)) - (-p).ln_1p()),
            t: vec![x],
            h: or::lchoose(*n, k),
        },
        D::Categorical(p) => {
            let last = p[p.len() - 1];
            let n = p.len() - 1;
            let mut t = vec![0.0; n];
            if (k as usize) < n {
                t[k as usize] = 1.0;
            }
            Form {
                eta: p[..n].iter().map(|q| (q / last).ln()).collect(),
                eta_noise: 1.0,
                a: -last.ln(),
                a_mag: last.ln().abs() + 1.0,
                t,
                h: Vm::c(0.0),
            }
        }
        D::Geometric(p) => Form {
            eta: vec![(-p).ln_1p()],
            eta_noise: 0.0,
            a: (-p).ln_1p() - p.ln(),
            a_mag: (-p).ln_1p().abs() + p.ln().abs(),
            t: vec![x],
            h: Vm::c(0.0),
        },
        // r failures: coef(k) q^r p^k
        D::NegBin(r, p) => Form {
            eta: vec![p.ln()],
            eta_noise: 0.0,
            a: -(*r as f64) * (-p).ln_1p(),
            a_mag: *r as f64 * (p * (logit(*p).abs() + 1.0 / (1.0 - p)) - (-p).ln_1p()),
            t: vec![x],
            h: or::lnbcoef(*r, k),
        },
        D::Poisson(l) => {
            Form { eta: vec![l.ln()], eta_noise: 0.0, a: *l, a_mag: *l, t: vec![x], h: Vm::c(-lfact(k)) }
        }
    }
}
/// The form `f` evaluates to, with the magnitudes that bound its rounding.
fn form_value(f: &Form) -> Vm {
    let mut v = Vm { v: -f.a, m: f.a_mag, n: 0.0 }.add(f.h);
    for (e, t) in f.eta.iter().zip(&f.t) {
        if *e != 0.0 {
            v = v.add(Vm { v: e * t, m: (e * t).abs(), n: t.abs() * f.eta_noise });
        }
    }
    v
}
const NB_SIG: &str = "negbin-form";
/// what the (wrong) negative-binomial form gives: log-odds in place of ln p
fn nb_wrong(r: u64, p: f64, k: u64) -> Vm {
    let q = (-p).ln_1p();
    or::lnbcoef(r, k)
        .add(Vm::sum(&[k as f64 * (p.ln() - q), r as f64 * q]))
        .noise((r as f64 + k as f64) * (1.0 + 1.0 / (1.0 - p)))
}

fn w<F: Float>(x: F) -> f64 {
    x.to_f64().unwrap()
}

/// All routes to the exponential-family log-density of one distribution at one point.
/// `alt` is the documented wrong value (negative binomial), if any.
#[allow(clippy::too_many_arguments)]
fn check_form<X, F, M>(m: &M, x: &X, f: &Form, dens: Vm, inside: bool, f32_: bool, alt: Option<Vm>, o: &mut Obs) -> R
where
    X: Clone + std::fmt::Debug,
    F: Float + std::fmt::Debug,
    M: ExponentialFamily<X, F> + HasLogDensity<X, F> + Measure<X>,
    M::NaturalParam: DotProduct<M::SufficientStat, Output = F> + AsRef<[F]>,
    M::SufficientStat: AsRef<[F]>,
    M::BaseMeasure: HasLogDensity<X, F>,
{
    let eps = if f32_ { 2e-6 } else { 1e-12 };
    let unit = if f32_ { 1e-6 } else { 2e-15 };
    let (eta, a) = m.natural_and_log_partition();
    let (eta2, a2) = (m.to_natural(), m.log_partition());
    ensure!(
        eta.as_ref() == eta2.as_ref() && same(w(a), w(a2), 0.0),
        "combined-accessor",
        "natural_and_log_partition = {:?}, {a:?}; to_natural = {:?}, log_partition = {a2:?}",
        eta.as_ref(),
        eta2.as_ref()
    );
    // the individual parts
    let bad = alt.is_some();
    ensure!(eta.as_ref().len() == f.eta.len(), "natural-parameter", "{} natural parameters, expected {}", eta.as_ref().len(), f.eta.len());
    for (i, (g, e)) in eta.as_ref().iter().zip(&f.eta).enumerate() {
        let ok = same(w(*g), *e, eps * e.abs() + unit * f.eta_noise);
        if !ok && bad {
            // documented as the log-odds
            let p = e.exp();
            let l = p.ln() - (1.0 - p).ln();
            ensure!(same(w(*g), l, eps * 10.0 * (1.0 + l.abs()) + unit * 2.0 / (1.0 - p)), "natural-parameter", "natural parameter is {g:?}, expected the log-odds {l}");
        } else {
            ensure!(ok, "natural-parameter", "natural parameter {i} is {g:?}, expected {e}");
        }
    }
    let at = eps * f.a_mag + if f32_ { 1e-38 } else { 1e-300 };
    ensure!(same(w(a), f.a, at), "log-partition", "log-partition is {a:?}, expected {} (tolerance {at:e})", f.a);
    if inside {
        let t = m.sufficient_statistic(x);
        ensure!(t.as_ref().len() == f.t.len(), "sufficient-statistic", "{} statistics, expected {}", t.as_ref().len(), f.t.len());
        for (g, e) in t.as_ref().iter().zip(&f.t) {
            ensure!(same(w(*g), *e, eps * (1.0 + e.abs())), "sufficient-statistic", "sufficient statistic at {x:?} is {g:?}, expected {e}");
        }
        let h = w(m.base_measure().log_density_wrt_root(x));
        let ht = if f32_ { f.h.tol32() } else { f.h.tol64() };
        ensure!(same(h, f.h.v, ht), "base-measure", "base-measure log-density at {x:?} is {h}, expected {}", f.h.v);
        // assembled by hand
        let by_hand = w(eta.dot(&t) - a) + h;
        cmp("by hand", by_hand, f, dens, f32_, alt, x, o)?;
    }
    let direct = w(m.log_density_wrt_root(x));
    let lib = w(m.exp_fam_log_density(x));
    let free = w(compute_exp_fam_log_density::<X, F, M>(m, x));
    ensure!(same(lib, free, 0.0), "free-helper", "compute_exp_fam_log_density = {free}, exp_fam_log_density = {lib}");
    if inside {
        cmp("exp_fam_log_density", lib, f, dens, f32_, alt, x, o)?;
    } else {
        ensure!(lib == f64::NEG_INFINITY, "outside", "exp_fam_log_density at {x:?} (outside the support) is {lib}");
        ensure!(direct == f64::NEG_INFINITY, "outside", "log-density at {x:?} (outside the support) is {direct}");
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn cmp<X: std::fmt::Debug>(what: &str, got: f64, f: &Form, dens: Vm, f32_: bool, alt: Option<Vm>, x: &X, o: &mut Obs) -> R {
    let mut v = form_value(f);
    // compare against the density itself, with the form's magnitudes as error scale
    v.v = dens.v;
    v.m += dens.m;
    v.n += dens.n;
    let t = if f32_ { v.tol32() * 2.0 } else { v.tol64() };
    if same(got, v.v, t) {
        return Ok(());
    }
    if let Some(a) = alt {
        let ta = if f32_ { a.tol32() * 4.0 } else { a.tol64() * 2.0 };
        if same(got, a.v, ta) {
            return o.known(NB_SIG, || format!("{what} at {x:?} is {got}, the log-density is {}", v.v));
        }
    }
    bail!("form-value", "{what} at {x:?} is {got}, the log-density is {} (tolerance {t:e})", v.v)
}

/// moderate parameters: the two sides cancel less
fn gen_c(s: &mut Src) -> C {
    if s.chance(1, 3) {
        return C::generate_ef(s);
    }
    match s.below(5) {
        0 => C::Normal(s.real(-10.0, 10.0), s.pos(0.1, 20.0)),
        1 => C::Exponential(s.pos(0.05, 20.0)),
        2 => C::Gamma(s.pos(0.1, 20.0), s.pos(0.05, 20.0)),
        3 => C::Beta(s.pos(0.1, 20.0), s.pos(0.1, 20.0)),
        _ => C::Chi2(s.pos(0.1, 40.0)),
    }
}
fn c06_cont(s: &mut Src, o: &mut Obs) -> R {
    let c = gen_c(s);
    let x = c.point(s);
    let inside = c.supports(x);
    o.note(|| format!("{c:?} at {x:?}"));
    o.label(c.kind());
    o.label_if(!inside, "outside");
    o.nontrivial(inside);
    let f = form_c(&c, x);
    with_cef!(&c, f64, m => check_form::<f64, f64, _>(&m, &x, &f, c.reference(x), inside, false, None, o), else unreachable!())
}
fn c06_cont32(s: &mut Src, o: &mut Obs) -> R {
    let c = match s.below(5) {
        0 => C::Normal(s.real(-10.0, 10.0), s.pos(0.1, 20.0)),
        1 => C::Exponential(s.pos(0.05, 20.0)),
        2 => C::Gamma(s.pos(0.1, 20.0), s.pos(0.05, 20.0)),
        3 => C::Beta(s.pos(0.1, 20.0), s.pos(0.1, 20.0)),
        _ => C::Chi2(s.pos(0.1, 40.0)),
    }
    .to_f32();
    let x = f64::from(narrow(c.inside(s)));
    if !c.supports(x) || (x - 1.0).abs() < 1e-3 && c.kind() == "Beta" || x.abs() < 1e-30 {
        return Ok(());
    }
    o.note(|| format!("{c:?} (f32) at {x:?}"));
    o.label(c.kind());
    o.nontrivial(true);
    let f = form_c(&c, x);
    with_cef!(&c, f32, m => check_form::<f32, f32, _>(&m, &(x as f32), &f, c.reference(x).noise(f.t.iter().map(|t| t.abs()).sum::<f64>()), true, true, None, o), else unreachable!())
}
fn nb_alt(d: &D, k: u64) -> Option<Vm> {
    match d {
        D::NegBin(r, p) => Some(nb_wrong(*r, *p, k)),
        _ => None,
    }
}
/// beyond this the log-gamma of the reference loses absolute precision
fn discrete_point(d: &D, s: &mut Src) -> u64 {
    d.point(s).min(d.max_point())
}
fn c06_disc(s: &mut Src, o: &mut Obs) -> R {
    let d = D::generate(s, false);
    let k = discrete_point(&d, s);
    let inside = d.supports(k);
    o.note(|| format!("{d:?} at {k}"));
    o.label(d.kind());
    o.label_if(!inside, "outside");
    o.nontrivial(inside);
    if let D::Categorical(p) = &d {
        o.label_if(p.len() == 1, "one-category");
    }
    // f.h and f.t are only meaningful inside
    let f = form_d(&d, if inside { k } else { 1 });
    let noise = k as f64;
    let r = d.reference(k).noise(noise);
    with_d!(&d, f64, m, X => check_form::<X, f64, _>(&m, &(k as X), &f, r, inside, false, nb_alt(&d, k), o))
}
fn c06_disc32(s: &mut Src, o: &mut Obs) -> R {
    let d = match s.below(6) {
        0 => D::Bernoulli(s.uniform(0.02, 0.98)),
        1 => D::Binomial(s.below(30), s.uniform(0.02, 0.98)),
        2 => D::Categorical(D::probs(s, 6, false)),
        3 => D::Geometric(s.uniform(0.02, 0.98)),
        4 => D::NegBin(1 + s.below(10), s.uniform(0.02, 0.9)),
        _ => D::Poisson(s.pos(0.01, 50.0)),
    };
    let dd = d.to_f32();
    let k = dd.inside(s).min(200);
    o.note(|| format!("{dd:?} (f32) at {k}"));
    o.label(dd.kind());
    o.nontrivial(true);
    let f = form_d(&dd, k);
    let r = dd.reference(k).noise(8.0 * k as f64);
    with_d!(&dd, f32, m, X => check_form::<X, f32, _>(&m, &(k as X), &f, r, true, true, nb_alt(&dd, k), o))
}
/// The standard normal has only the exponential-family form.
fn c06_std(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions::StdNormal;
    let x = s.real(-1e3, 1e3);
    o.note(|| format!("StdNormal at {x}"));
    o.nontrivial(true);
    let m = StdNormal::<f64>::new();
    let e = or::normal(0.0, 1.0, x);
    let g: f64 = m.exp_fam_log_density(&x);
    ensure!(e.ok(g), "std-normal", "StdNormal exp_fam_log_density({x}) = {g}, expected {}", e.v);
    let g = compute_exp_fam_log_density::<f64, f64, _>(&m, &x);
    ensure!(e.ok(g), "std-normal", "StdNormal compute_exp_fam_log_density({x}) = {g}, expected {}", e.v);
    let (eta, a) = m.natural_and_log_partition();
    ensure!(eta == [0.0, -0.5] && same(a, 0.5 * or::LN_2PI, 1e-14), "std-normal", "StdNormal natural parameters {eta:?}, log-partition {a}");
    ensure!(m.sufficient_statistic(&x) == [x, x * x], "std-normal", "StdNormal sufficient statistic");
    let m32 = StdNormal::<f32>::new();
    let g = m32.exp_fam_log_density(&(x as f32));
    ensure!(or::normal(0.0, 1.0, f64::from(x as f32)).ok32(g), "std-normal", "StdNormal<f32> at {x} is {g}");
    Ok(())
}

// ---------------------------------------------------------------- C07

/// A positive parameter, sometimes of any magnitude.
fn huge(s: &mut Src, lo: f64) -> f64 {
    if s.chance(1, 4) { s.log_uniform(1e-10, 1e250) } else { s.pos(lo, 1e6) }
}
fn c07_dist(s: &mut Src, o: &mut Obs) -> R {
    // distribution -> natural -> distribution
    use measures_distributions as md;
    let pick = s.below(12);
    let close = |what: &str, g: f64, e: f64, tol: f64| -> R {
        ensure!(same(g, e, tol), "round-trip", "{what}: {g} after the round trip, was {e}");
        Ok(())
    };
    match pick {
        0 => {
            let (mu, sd) = if s.chance(1, 4) {
                let sd = s.log_uniform(1e-70, 1e70);
                (sd * s.real(-1e6, 1e6), sd)
            } else {
                (s.real(-1e4, 1e4), s.pos(1e-4, 1e4))
            };
            o.label("Normal");
            o.nontrivial(mu != 0.0);
            o.note(|| format!("Normal({mu}, {sd})"));
            let d = md::Normal::from_natural(md::Normal::new(mu, sd).to_natural());
            close("mean", d.mean, mu, 1e-14 * mu.abs())?;
            close("std_dev", d.std_dev, sd, 1e-14 * sd)
        }
        1 => {
            let r = s.pos(1e-300, 1e300);
            o.label("Exponential");
            o.nontrivial(true);
            o.note(|| format!("Exponential({r})"));
            close("rate", md::Exponential::from_natural(md::Exponential::new(r).to_natural()).rate, r, 0.0)
        }
        2 => {
            let (a, b) = (huge(s, 1e-4), s.pos(1e-100, 1e100));
            o.label("Gamma");
            o.nontrivial(true);
            o.note(|| format!("Gamma({a}, {b})"));
            let d = md::Gamma::from_natural(md::Gamma::new(a, b).to_natural());
            close("shape", d.shape, a, 4e-16 * (1.0 + a))?;
            close("rate", d.rate, b, 0.0)
        }
        3 => {
            let (a, b) = (huge(s, 1e-4), huge(s, 1e-4));
            o.label("Beta");
            o.nontrivial(true);
            o.note(|| format!("Beta({a}, {b})"));
            let d = md::Beta::from_natural(md::Beta::new(a, b).to_natural());
            close("alpha", d.alpha, a, 4e-16 * (1.0 + a))?;
            close("beta", d.beta, b, 4e-16 * (1.0 + b))
        }
        4 => {
            let k = huge(s, 1e-3);
            o.label("ChiSquared");
            o.nontrivial(true);
            o.note(|| format!("ChiSquared({k})"));
            let d = md::ChiSquared::from_natural(md::ChiSquared::new(k).to_natural());
            close("degrees of freedom", d.degrees_of_freedom, k, 1e-15 * (1.0 + k))
        }
        5 => {
            let p = if s.chance(1, 3) { s.log_uniform(1e-300, 1.0) } else { s.prob() };
            o.label("Bernoulli");
            o.nontrivial(true);
            o.note(|| format!("Bernoulli({p})"));
            let d = md::Bernoulli::from_natural(md::Bernoulli::new(p).to_natural());
            close("prob", d.prob, p, 1e-13 * p)
        }
        6 => {
            let p = D::probs(s, 12, false);
            o.label("Categorical");
            o.nontrivial(p.len() > 1);
            o.note(|| format!("Categorical({p:?})"));
            let d = md::Categorical::from_natural(md::Categorical::new(p.clone()).to_natural());
            ensure!(d.probs.len() == p.len(), "round-trip", "{} categories after the round trip, were {}", d.probs.len(), p.len());
            for (g, e) in d.probs.iter().zip(&p) {
                close("probability", *g, *e, 1e-13 * e)?;
            }
            Ok(())
        }
        7 => {
            let p = if s.chance(1, 3) { s.log_uniform(1e-300, 1.0) } else { s.prob() };
            o.label("Geometric");
            o.label_if(p < 1e-16, "1 - p rounds to 1");
            o.nontrivial(true);
            o.note(|| format!("Geometric({p})"));
            let d = md::Geometric::from_natural(md::Geometric::new(p).to_natural());
            close("prob", d.prob, p, 1e-14 * p)
        }
        8 => {
            let l = s.pos(1e-200, 1e200);
            o.label("Poisson");
            o.nontrivial(true);
            o.note(|| format!("Poisson({l})"));
            let n = ExponentialFamily::<u64, f64>::to_natural(&md::Poisson::new(l));
            close("rate", <md::Poisson<f64> as ExponentialFamily<u64, f64>>::from_natural(n).rate, l, 1e-13 * l)
        }
        9 => {
            // families whose natural parameter does not determine the distribution refuse
            let e = s.real(-20.0, 5.0);
            o.label("refused");
            o.nontrivial(true);
            o.note(|| format!("Binomial / NegativeBinomial from_natural({e})"));
            ensure!(catch(|| <md::Binomial<f64> as ExponentialFamily<u64, f64>>::from_natural([e])).is_err(), "refuse", "Binomial::from_natural([{e}]) returned a distribution");
            ensure!(catch(|| <md::NegativeBinomial<f64> as ExponentialFamily<u64, f64>>::from_natural([e])).is_err(), "refuse", "NegativeBinomial::from_natural([{e}]) returned a distribution");
            Ok(())
        }
        10 => {
            // the joint distribution has the same natural parameter
            let (mu, sd) = (s.real(-100.0, 100.0), s.pos(1e-2, 1e2));
            o.label("IID");
            o.nontrivial(true);
            o.note(|| format!("IID of Normal({mu}, {sd})"));
            let base = md::Normal::new(mu, sd);
            let iid: IID<md::Normal<f64>> = IID::new(base.clone());
            let n = ExponentialFamily::<Vec<f64>, f64>::to_natural(&iid);
            ensure!(n == base.to_natural(), "iid-natural", "IID natural parameter {n:?}");
            let d = <IID<md::Normal<f64>> as ExponentialFamily<Vec<f64>, f64>>::from_natural(n).distribution;
            close("mean", d.mean, mu, 1e-14 * mu.abs())?;
            close("std_dev", d.std_dev, sd, 1e-14 * sd)
        }
        _ => {
            // f32
            let (mu, sd) = (s.real(-100.0, 100.0) as f32, s.pos(1e-2, 1e2) as f32);
            let p = s.uniform(0.01, 0.99) as f32;
            let (a, b) = (s.pos(0.1, 100.0) as f32, s.pos(0.01, 100.0) as f32);
            o.label("f32");
            o.nontrivial(true);
            o.note(|| format!("f32 Normal({mu}, {sd}), Bernoulli({p}), Gamma({a}, {b})"));
            let d = md::Normal::from_natural(md::Normal::new(mu, sd).to_natural());
            close("f32 mean", w(d.mean), w(mu), 1e-5 * w(mu).abs())?;
            close("f32 std_dev", w(d.std_dev), w(sd), 1e-5 * w(sd))?;
            let d = md::Bernoulli::from_natural(md::Bernoulli::new(p).to_natural());
            close("f32 prob", w(d.prob), w(p), 1e-5)?;
            let d = md::Gamma::from_natural(md::Gamma::new(a, b).to_natural());
            close("f32 shape", w(d.shape), w(a), 1e-6 * (1.0 + w(a)))?;
            close("f32 rate", w(d.rate), w(b), 0.0)?;
            let d = md::Geometric::from_natural(md::Geometric::new(p).to_natural());
            close("f32 prob", w(d.prob), w(p), 1e-5)?;
            let n = ExponentialFamily::<u64, f32>::to_natural(&md::Poisson::new(b));
            close("f32 rate", w(<md::Poisson<f32> as ExponentialFamily<u64, f32>>::from_natural(n).rate), w(b), 1e-5 * w(b))
        }
    }
}
fn c07_natural(s: &mut Src, o: &mut Obs) -> R {
    // natural -> distribution -> natural
    use measures_distributions as md;
    let close = |what: &str, g: f64, e: f64, tol: f64| -> R {
        ensure!(same(g, e, tol), "natural-round-trip", "{what}: natural parameter {g} after the round trip, was {e}");
        Ok(())
    };
    match s.below(9) {
        0 => {
            let e = if s.chance(1, 4) {
                let v = s.log_uniform(1e-140, 1e140);
                [v.sqrt() * s.real(-1e3, 1e3), -v]
            } else {
                [s.real(-1e6, 1e6), -s.pos(1e-6, 1e6)]
            };
            o.label("Normal");
            o.nontrivial(e[0] != 0.0);
            o.note(|| format!("Normal from {e:?}"));
            let n = md::Normal::from_natural(e).to_natural();
            close("Normal eta1", n[0], e[0], 1e-13 * e[0].abs())?;
            close("Normal eta2", n[1], e[1], 1e-13 * e[1].abs())
        }
        1 => {
            let e = -s.pos(1e-300, 1e300);
            o.label("Exponential");
            o.nontrivial(true);
            o.note(|| format!("Exponential from {e}"));
            close("Exponential", md::Exponential::from_natural([e]).to_natural()[0], e, 0.0)
        }
        2 => {
            let e = [huge(s, 1e-3) - 1.0, -s.pos(1e-100, 1e100)];
            o.label("Gamma");
            o.nontrivial(true);
            o.note(|| format!("Gamma from {e:?}"));
            let n = md::Gamma::from_natural(e).to_natural();
            close("Gamma eta1", n[0], e[0], 4e-16 * (1.0 + e[0].abs()))?;
            close("Gamma eta2", n[1], e[1], 0.0)
        }
        3 => {
            let e = [huge(s, 1e-3) - 1.0, huge(s, 1e-3) - 1.0];
            o.label("Beta");
            o.nontrivial(true);
            o.note(|| format!("Beta from {e:?}"));
            let n = md::Beta::from_natural(e).to_natural();
            close("Beta eta1", n[0], e[0], 4e-16 * (1.0 + e[0].abs()))?;
            close("Beta eta2", n[1], e[1], 4e-16 * (1.0 + e[1].abs()))
        }
        4 => {
            let e = huge(s, 1e-3) - 1.0;
            o.label("ChiSquared");
            o.nontrivial(true);
            o.note(|| format!("ChiSquared from {e}"));
            let n = md::ChiSquared::from_natural([e, -0.5]).to_natural();
            close("ChiSquared eta1", n[0], e, 1e-15 * (1.0 + e.abs()))?;
            close("ChiSquared eta2", n[1], -0.5, 0.0)
        }
        5 => {
            // any eta for which p is representable: p >= 5e-324, and 1 - p as long as p < 1
            let e = s.real(-744.0, 2000.0);
            o.label("Bernoulli");
            o.label_if(e > 37.0, "p rounds to 1");
            o.nontrivial(e.abs() > 1.0);
            o.note(|| format!("Bernoulli from {e}"));
            let d = md::Bernoulli::from_natural([e]);
            let p = or::sigmoid(e);
            ensure!(same(d.prob, p, 1e-14 * p + 1e-322), "from-natural", "Bernoulli::from_natural([{e}]).prob = {}, expected {p}", d.prob);
            if e > -708.0 && e < 30.0 {
                close("Bernoulli", d.to_natural()[0], e, 1e-14 * (1.0 + e.abs()) + 1e-15 * (1.0 + e.exp()))?;
            }
            Ok(())
        }
        6 => {
            let n = if s.chance(1, 8) { s.size(200) } else { s.usize(8) };
            let big = s.chance(1, 3);
            let e: Vec<f64> = (0..n).map(|_| if big { s.real(-2000.0, 2000.0) } else { s.real(-20.0, 20.0) }).collect();
            o.label("Categorical");
            o.label_if(big, "large");
            o.nontrivial(n > 0);
            o.note(|| format!("Categorical from {e:?}"));
            let d = md::Categorical::from_natural(e.clone());
            let mut z = e.clone();
            z.push(0.0);
            let t = or::log_sum_exp(&z);
            ensure!(d.probs.len() == n + 1, "from-natural", "Categorical has {} categories, expected {}", d.probs.len(), n + 1);
            for (g, v) in d.probs.iter().zip(&z) {
                let p = (v - t).exp();
                ensure!(same(*g, p, 1e-12 * p + 1e-300), "from-natural", "Categorical::from_natural({e:?}) has probabilities {:?}, expected {p} for {v}", d.probs);
            }
            if !big {
                let r = d.to_natural();
                for (g, v) in r.iter().zip(&e) {
                    close("Categorical", *g, *v, 1e-13 * (1.0 + v.abs()))?;
                }
            }
            Ok(())
        }
        7 => {
            let e = -if s.chance(1, 3) { s.log_uniform(1e-300, 700.0) } else { s.pos(1e-6, 700.0) };
            o.label("Geometric");
            o.nontrivial(true);
            o.note(|| format!("Geometric from {e}"));
            if e < -36.0 {
                let d = md::Geometric::from_natural([e]);
                ensure!(same(d.prob, 1.0, 1e-15), "from-natural", "Geometric::from_natural([{e}]).prob = {}", d.prob);
                return Ok(());
            }
            let n = md::Geometric::from_natural([e]).to_natural()[0];
            close("Geometric", n, e, 1e-14 * e.abs() + 4e-16 * ((-e).exp() - 1.0))
        }
        _ => {
            let e = s.real(-600.0, 600.0);
            o.label("Poisson");
            o.nontrivial(true);
            o.note(|| format!("Poisson from {e}"));
            let d = <md::Poisson<f64> as ExponentialFamily<u64, f64>>::from_natural([e]);
            ensure!(same(d.rate, e.exp(), 1e-14 * e.exp()), "from-natural", "Poisson rate {}", d.rate);
            close("Poisson", ExponentialFamily::<u64, f64>::to_natural(&d)[0], e, 1e-13 * (1.0 + e.abs()))
        }
    }
}

/// natural -> distribution -> natural in f32, whose range ends much earlier.
fn c07_f32(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions as md;
    const U: f64 = 6e-8;
    let close = |what: &str, g: f32, e: f64, tol: f64| -> R {
        ensure!(same(w(g), e, tol), "f32-round-trip", "f32 {what} {g} after the round trip, expected {e} (tolerance {tol:e})");
        Ok(())
    };
    o.nontrivial(true);
    let any = |s: &mut Src| if s.chance(1, 4) { s.log_uniform(1e-6, 1e30) } else { s.pos(1e-2, 1e3) } as f32;
    match s.below(9) {
        0 => {
            let v = if s.chance(1, 4) { s.log_uniform(1e-16, 1e16) } else { s.pos(1e-3, 1e3) } as f32;
            let e = [v.sqrt() * s.real(-100.0, 100.0) as f32, -v];
            o.label("Normal");
            o.note(|| format!("f32 Normal from {e:?}"));
            let n = md::Normal::<f32>::from_natural(e).to_natural();
            close("Normal eta1", n[0], w(e[0]), 16.0 * U * w(e[0]).abs())?;
            close("Normal eta2", n[1], w(e[1]), 16.0 * U * w(e[1]).abs())
        }
        1 => {
            let e = -(s.log_uniform(1e-35, 1e35) as f32);
            o.label("Exponential");
            o.note(|| format!("f32 Exponential from {e:?}"));
            close("Exponential", md::Exponential::<f32>::from_natural([e]).to_natural()[0], w(e), 0.0)
        }
        2 => {
            let e = [any(s) - 1.0, -(s.log_uniform(1e-30, 1e30) as f32)];
            if e[0] <= -1.0 {
                return Ok(());
            }
            o.label("Gamma");
            o.note(|| format!("f32 Gamma from {e:?}"));
            let n = md::Gamma::<f32>::from_natural(e).to_natural();
            close("Gamma eta1", n[0], w(e[0]), 2.0 * U * (1.0 + w(e[0]).abs()))?;
            close("Gamma eta2", n[1], w(e[1]), 0.0)
        }
        3 => {
            let e = [any(s) - 1.0, any(s) - 1.0];
            if e.iter().any(|v| *v <= -1.0) {
                return Ok(());
            }
            o.label("Beta");
            o.note(|| format!("f32 Beta from {e:?}"));
            let n = md::Beta::<f32>::from_natural(e).to_natural();
            close("Beta eta1", n[0], w(e[0]), 2.0 * U * (1.0 + w(e[0]).abs()))?;
            close("Beta eta2", n[1], w(e[1]), 2.0 * U * (1.0 + w(e[1]).abs()))
        }
        4 => {
            let e = any(s) - 1.0;
            if e <= -1.0 {
                return Ok(());
            }
            o.label("ChiSquared");
            o.note(|| format!("f32 ChiSquared from {e:?}"));
            let n = md::ChiSquared::<f32>::from_natural([e, -0.5]).to_natural();
            close("ChiSquared eta1", n[0], w(e), 4.0 * U * (1.0 + w(e).abs()))?;
            close("ChiSquared eta2", n[1], -0.5, 0.0)
        }
        5 => {
            // any natural parameter whose probability is a normal f32 (or rounds to 1)
            let e = s.real(-87.0, 1000.0) as f32;
            o.label("Bernoulli");
            o.label_if(e > 88.0, "exp overflows");
            o.note(|| format!("f32 Bernoulli from {e}"));
            let d = md::Bernoulli::<f32>::from_natural([e]);
            let p = or::sigmoid(w(e));
            close("Bernoulli probability", d.prob, p, 16.0 * U * p)?;
            if e < 10.0 {
                close("Bernoulli eta", d.to_natural()[0], w(e), 16.0 * U * (1.0 + w(e).abs() + w(e).exp()))?;
            }
            Ok(())
        }
        6 => {
            let n = s.usize(8);
            let lim = s.pick(&[5.0, 60.0, 300.0]);
            let e: Vec<f32> = (0..n).map(|_| s.real(-lim, lim) as f32).collect();
            o.label("Categorical");
            o.label_if(e.iter().any(|x| *x > 88.0), "exp overflows");
            o.note(|| format!("f32 Categorical from {e:?}"));
            let d = md::Categorical::<f32>::from_natural(e.clone());
            let mut z: Vec<f64> = e.iter().map(|x| w(*x)).collect();
            z.push(0.0);
            let t = or::log_sum_exp(&z);
            ensure!(d.probs.len() == n + 1, "from-natural", "f32 Categorical has {} categories, expected {}", d.probs.len(), n + 1);
            for (g, v) in d.probs.iter().zip(&z) {
                let p = (v - t).exp();
                close("Categorical probability", *g, p, p * U * (32.0 + 4.0 * (v - t).abs().max(lim)) + 1e-37)?;
            }
            if lim < 10.0 {
                for (g, v) in d.to_natural().iter().zip(&e) {
                    close("Categorical eta", *g, w(*v), 64.0 * U * (1.0 + w(*v).abs()))?;
                }
            }
            Ok(())
        }
        7 => {
            let e = -(if s.bool() { s.log_uniform(1e-30, 80.0) } else { s.pos(1e-3, 80.0) } as f32);
            o.label("Geometric");
            o.label_if(e > -1e-8, "1 - p rounds to 1");
            o.note(|| format!("f32 Geometric from {e}"));
            let d = md::Geometric::<f32>::from_natural([e]);
            let p = -w(e).exp_m1();
            close("Geometric probability", d.prob, p, 8.0 * U * p)?;
            if e > -10.0 {
                close("Geometric eta", d.to_natural()[0], w(e), 8.0 * U * (w(e).abs() + (-w(e)).exp_m1()))?;
            }
            Ok(())
        }
        _ => {
            let e = s.real(-85.0, 85.0) as f32;
            o.label("Poisson");
            o.note(|| format!("f32 Poisson from {e}"));
            let d = <md::Poisson<f32> as ExponentialFamily<u64, f32>>::from_natural([e]);
            close("Poisson rate", d.rate, w(e).exp(), 16.0 * U * w(e).exp())?;
            close("Poisson eta", ExponentialFamily::<u64, f32>::to_natural(&d)[0], w(e), 16.0 * U * (1.0 + w(e).abs()))
        }
    }
}

// ---------------------------------------------------------------- C08

/// Every way of computing the joint log-density of the samples; returns the common value.
/// (`own` is the wrapper's exponential-family method, for families whose wrapper has one)
#[allow(clippy::too_many_arguments)]
fn joint<X, M>(m: &M, xs: &[X], f: &dyn Fn(&X) -> Vm, inside: bool, alt: Option<&dyn Fn(&X) -> Vm>, form_mag: &dyn Fn(&X) -> Vm, own: Option<&dyn Fn(&IID<M>, &Vec<X>) -> f64>, o: &mut Obs) -> R
where
    X: Clone + std::fmt::Debug,
    M: ExponentialFamily<X, f64> + HasLogDensity<X, f64> + Measure<X> + Clone,
    M::NaturalParam: DotProduct<M::SufficientStat, Output = f64> + AsRef<[f64]>,
    M::SufficientStat: SumSufficientStats<M::SufficientStat> + AsRef<[f64]>,
    M::BaseMeasure: HasLogDensity<X, f64>,
    IID<M>: Measure<Vec<X>> + HasLogDensity<Vec<X>, f64> + LogDensityBuilder<Vec<X>>,
    measures_core::LogDensity<Vec<X>, IID<M>, <IID<M> as Measure<Vec<X>>>::RootMeasure>: EvaluateAt<Vec<X>, f64>,
{
    let v: Vec<X> = xs.to_vec();
    let iid = IID::new(m.clone());
    let iid2 = IIDExtension::<X, f64>::iid(m.clone());
    let want: f64 = xs.iter().map(|x| m.log_density_wrt_root(x)).sum();
    let mut scale = Vm::c(0.0);
    let mut altv = Vm::c(0.0);
    for x in xs {
        let r = f(x);
        if r.v.is_finite() {
            scale = scale.add(form_mag(x));
            scale.n += r.n;
        }
        if let Some(a) = alt {
            altv = altv.add(a(x));
        }
    }
    scale.m += xs.len() as f64;
    let tol = scale.tol64() + 1e-13 * xs.len() as f64 * scale.m;
    let fb: f64 = iid.iid_log_density_fallback(xs);
    let routes: [(&str, f64); 7] = [
        ("iid_log_density", iid.iid_log_density(xs)),
        (".iid()", iid2.iid_log_density(xs)),
        ("compute_iid_exp_fam_log_density", compute_iid_exp_fam_log_density(m, xs)),
        ("log_density_wrt_root", iid.log_density_wrt_root(&v)),
        ("exp_fam_log_density", own.map_or(fb, |f| f(&iid, &v))),
        ("log_density().at", EvaluateAt::<Vec<X>, f64>::at(&iid.log_density(), &v)),
        ("iid_log_density_fallback", fb),
    ];
    let hb: f64 = IIDBaseMeasure::new(m.base_measure()).log_density_wrt_root(&v);
    let hs: Vec<f64> = xs.iter().map(|x| m.base_measure().log_density_wrt_root(x)).collect();
    let (he, hm) = (hs.iter().sum::<f64>(), hs.iter().filter(|h| h.is_finite()).map(|h| h.abs()).sum::<f64>());
    ensure!(same(hb, he, 1e-13 * (1.0 + hm)), "base-measure", "joint base measure of {xs:?} is {hb}, expected {he}");
    ensure!(iid.in_support(v.clone()) == inside, "support", "in_support of {xs:?} is {}, expected {inside}", !inside);
    for (name, g) in routes {
        if xs.is_empty() {
            ensure!(g == 0.0, "empty", "{name} of no samples is {g}");
        } else if !inside {
            ensure!(g == f64::NEG_INFINITY, "outside", "{name} of {xs:?} is {g}, a sample is outside the support");
        } else if !same(g, want, tol) {
            if alt.is_some() && same(g, altv.v, altv.tol64() * 4.0 + tol) {
                o.known(NB_SIG, || format!("{name} of {xs:?} is {g}, the sum of the log-densities is {want}"))?;
            } else {
                bail!("joint", "{name} of {xs:?} is {g}, the sum of the log-densities is {want} (tolerance {tol:e})");
            }
        }
    }
    Ok(())
}
/// The wrapper's own exponential-family parts.
fn joint_parts<X, M>(m: &M, xs: &[X], inside: bool) -> R
where
    X: Clone + std::fmt::Debug,
    M: ExponentialFamily<X, f64> + Clone,
    M::SufficientStat: AsRef<[f64]>,
    M::BaseMeasure: HasLogDensity<X, f64>,
    IID<M>: ExponentialFamily<Vec<X>, f64, NaturalParam = M::NaturalParam, SufficientStat = M::SufficientStat>,
    <IID<M> as ExponentialFamily<Vec<X>, f64>>::BaseMeasure: HasLogDensity<Vec<X>, f64>,
{
    let v: Vec<X> = xs.to_vec();
    let iid = IID::new(m.clone());
    let b = ExponentialFamily::<Vec<X>, f64>::supports(&iid, &v);
    ensure!(b == inside, "supports", "supports of {xs:?} is {b}, expected {inside}");
    if !inside {
        return Ok(());
    }
    let t = ExponentialFamily::<Vec<X>, f64>::sufficient_statistic(&iid, &v);
    for (i, g) in t.as_ref().iter().enumerate() {
        let parts: Vec<f64> = xs.iter().map(|x| m.sufficient_statistic(x).as_ref()[i]).collect();
        let e: f64 = parts.iter().sum();
        let mag: f64 = parts.iter().map(|p| p.abs()).sum();
        ensure!(same(*g, e, 1e-13 * (1.0 + mag)), "sum-statistic", "summed statistic {i} of {xs:?} is {g}, expected {e}");
    }
    let h: f64 = ExponentialFamily::<Vec<X>, f64>::base_measure(&iid).log_density_wrt_root(&v);
    let parts: Vec<f64> = xs.iter().map(|x| m.base_measure().log_density_wrt_root(x)).collect();
    let e: f64 = parts.iter().sum();
    ensure!(same(h, e, 1e-13 * (1.0 + parts.iter().map(|p| p.abs()).sum::<f64>())), "base-measure", "joint base measure of {xs:?} is {h}, expected {e}");
    Ok(())
}
/// Reordering and concatenation laws of one route.
fn laws<X: Clone + std::fmt::Debug>(xs: &[X], s: &mut Src, tol: f64, f: &dyn Fn(&[X]) -> f64) -> R {
    let g = f(xs);
    let mut p = xs.to_vec();
    let mut r = s.fork();
    for i in (1..p.len()).rev() {
        let j = r.usize(i + 1);
        p.swap(i, j);
    }
    let gp = f(&p);
    ensure!(same(g, gp, tol), "reorder", "joint log-density of {xs:?} is {g}, of {p:?} it is {gp}");
    if !xs.is_empty() {
        let c = s.usize(xs.len() + 1);
        let (a, b) = (f(&xs[..c]), f(&xs[c..]));
        ensure!(same(a + b, g, tol), "concatenate", "joint log-density of {xs:?} is {g}, of its two parts (split at {c}) {a} and {b}");
    }
    Ok(())
}
fn sample_len(s: &mut Src) -> usize {
    match s.below(6) {
        0 => s.usize(2),
        1 => s.length(60, 70_000),
        _ => 1 + s.usize(8),
    }
}
fn c08_cont(s: &mut Src, o: &mut Obs) -> R {
    let c = gen_c(s);
    let n = sample_len(s);
    let xs: Vec<f64> = s.many(n, |s| if s.chance(1, 40.max(n as u64)) { c.point(s) } else { c.inside(s) });
    o.label_if(n > 255, "more than 255 samples");
    let inside = xs.iter().all(|x| c.supports(*x));
    o.note(|| format!("{c:?} with samples {xs:?}"));
    o.label(c.kind());
    o.label_if(n == 0, "no samples");
    o.label_if(!inside, "a sample outside");
    o.nontrivial(n > 1 && inside);
    let mag = |x: &f64| {
        let mut v = form_value(&form_c(&c, *x));
        v.m += c.reference(*x).m;
        v
    };
    let tot: f64 = 1.0 + xs.iter().filter(|x| c.supports(**x)).map(|x| mag(x).m).sum::<f64>();
    with_cef!(&c, f64, m => {
        joint(&m, &xs, &|x| c.reference(*x), inside, None, &mag, Some(&|i, v| ExponentialFamily::<Vec<f64>, f64>::exp_fam_log_density(i, v)), o)?;
        joint_parts(&m, &xs, inside)?;
        let iid = IID::new(m.clone());
        laws(&xs, s, 1e-11 * tot, &|v| iid.iid_log_density(v))?;
    }, else unreachable!());
    Ok(())
}
macro_rules! with_d_iid {
    ($c:expr, $m:ident, $x:ident => $body:expr) => {{
        use measures_distributions as md;
        match $c {
            D::Bernoulli(a) => { type $x = u8; let $m = md::Bernoulli::new(*a); $body }
            D::Binomial(n, a) => { type $x = u64; let $m = md::Binomial::new(*n, *a); $body }
            D::Geometric(a) => { type $x = u64; let $m = md::Geometric::new(*a); $body }
            D::NegBin(n, a) => { type $x = u64; let $m = md::NegativeBinomial::new(*n, *a); $body }
            D::Poisson(a) => { type $x = u64; let $m = md::Poisson::new(*a); $body }
            D::Categorical(_) => unreachable!(),
        }
    }};
}
fn c08_disc(s: &mut Src, o: &mut Obs) -> R {
    let kind = s.pick(&[0usize, 1, 3, 4, 5]);
    let d = if s.chance(1, 10) { D::wide(s, kind) } else { D::gen_kind(s, kind, false) };
    let n = sample_len(s);
    let ks: Vec<u64> = s.many(n, |s| if s.chance(1, 40.max(n as u64)) { discrete_point(&d, s) } else { d.inside(s) });
    o.label_if(n > 255, "more than 255 samples");
    let inside = ks.iter().all(|k| d.supports(*k));
    o.note(|| format!("{d:?} with samples {ks:?}"));
    o.label(d.kind());
    o.label_if(!inside, "a sample outside");
    o.nontrivial(n > 1 && inside);
    let alt = |k: &u64| nb_alt(&d, *k).unwrap_or(Vm::c(0.0));
    let isnb = matches!(d, D::NegBin(..));
    let mag = |k: &u64| {
        let mut v = form_value(&form_d(&d, *k));
        v.m += d.reference(*k).m;
        v.n += *k as f64;
        v
    };
    let tot: f64 = 1.0 + ks.iter().filter(|k| d.supports(**k)).map(|k| mag(k).m + 1e-4 * mag(k).n).sum::<f64>();
    with_d_iid!(&d, m, X => {
        let xs: Vec<X> = ks.iter().map(|k| *k as X).collect();
        let altx = |x: &X| alt(&u64::from(*x));
        joint(&m, &xs, &|x| d.reference(u64::from(*x)), inside, if isnb { Some(&altx) } else { None }, &|x| mag(&u64::from(*x)), None, o)?;
        let iid = IID::new(m.clone());
        laws(&xs, s, 1e-11 * tot, &|v| iid.iid_log_density(v))?;
    });
    match &d {
        D::Bernoulli(p) => {
            let m = measures_distributions::Bernoulli::new(*p);
            let xs: Vec<u8> = ks.iter().map(|k| *k as u8).collect();
            joint_parts(&m, &xs, inside)?;
            let g: f64 = IID::new(m.clone()).exp_fam_log_density(&xs);
            let e: f64 = IID::new(m).iid_log_density(&xs);
            ensure!(same(g, e, 0.0), "joint", "exp_fam_log_density of {xs:?} is {g}, iid_log_density {e}");
        }
        D::Geometric(p) => {
            let m = measures_distributions::Geometric::new(*p);
            joint_parts(&m, &ks, inside)?;
            let g: f64 = IID::new(m.clone()).exp_fam_log_density(&ks);
            let e: f64 = IID::new(m).iid_log_density(&ks);
            ensure!(same(g, e, 0.0), "joint", "exp_fam_log_density of {ks:?} is {g}, iid_log_density {e}");
        }
        _ => {}
    }
    Ok(())
}
/// Distributions outside the exponential family: wrapper fallback and decomposition.
fn c08_other(s: &mut Src, o: &mut Obs) -> R {
    let k = s.pick(&[0usize, 5, 6]);
    let c = if s.chance(1, 10) { C::wide(s, k) } else { C::gen_kind(s, k) };
    let n = sample_len(s);
    let xs: Vec<f64> = s.many(n, |s| c.inside(s));
    o.note(|| format!("{c:?} with samples {xs:?}"));
    o.label(c.kind());
    o.nontrivial(n > 1);
    let mut r = Vm::c(0.0);
    for x in &xs {
        r = r.add(c.reference(*x));
    }
    let r = r.noise(n as f64);
    use measures_distributions as md;
    let (fb, dec, f32_): (f64, f64, f32) = match &c {
        C::Normal(a, b) => {
            let m = md::Normal::new(*a, *b);
            (IID::new(m.clone()).iid_log_density_fallback(&xs), m.log_density_iid(&xs), 0.0)
        }
        C::StudentT(a) => {
            let m = md::StudentT::new(*a);
            (IID::new(m.clone()).iid_log_density_fallback(&xs), m.log_density_iid(&xs), 0.0)
        }
        C::Cauchy(a, b) => {
            let m = md::Cauchy::new(*a, *b);
            (IID::new(m.clone()).iid_log_density_fallback(&xs), m.log_density_iid(&xs), 0.0)
        }
        _ => unreachable!(),
    };
    let _ = f32_;
    ensure!(r.ok(fb), "fallback", "iid_log_density_fallback of {xs:?} is {fb}, expected {}", r.v);
    ensure!(r.ok(dec), "decomposition", "log_density_iid of {xs:?} is {dec}, expected {}", r.v);
    if n == 0 {
        ensure!(fb == 0.0 && dec == 0.0, "empty", "joint density of no samples is {fb} and {dec}");
    }
    let tol = r.tol64() * 2.0;
    match &c {
        C::Normal(a, b) => laws(&xs, s, tol, &|v| md::Normal::new(*a, *b).log_density_iid(v)),
        C::StudentT(a) => laws(&xs, s, tol, &|v| md::StudentT::new(*a).log_density_iid(v)),
        C::Cauchy(a, b) => laws(&xs, s, tol, &|v| md::Cauchy::new(*a, *b).log_density_iid(v)),
        _ => unreachable!(),
    }
}
fn c08_f32(s: &mut Src, o: &mut Obs) -> R {
    let c = match s.below(5) {
        0 => C::Normal(s.real(-10.0, 10.0), s.pos(0.2, 20.0)),
        1 => C::Exponential(s.pos(0.05, 20.0)),
        2 => C::Gamma(s.pos(0.1, 20.0), s.pos(0.05, 20.0)),
        3 => C::Beta(s.pos(0.1, 20.0), s.pos(0.1, 20.0)),
        _ => C::Chi2(s.pos(0.1, 40.0)),
    }
    .to_f32();
    let n = s.length(11, 2000);
    let xs: Vec<f32> = s.many(n, |s| narrow(c.inside(s)));
    if xs.iter().any(|x| !c.supports(f64::from(*x)) || x.abs() < 1e-30) {
        return Ok(());
    }
    o.note(|| format!("{c:?} (f32) with samples {xs:?}"));
    o.label(c.kind());
    o.nontrivial(n > 1);
    let mut want = Vm::c(0.0);
    for x in &xs {
        let x = f64::from(*x);
        let mut v = form_value(&form_c(&c, x));
        v.v = c.reference(x).v;
        v.m += c.reference(x).m;
        v.n += v.m + c.reference(x).n;
        want = want.add(v);
    }
    let tol = want.tol32() * (1.0 + n as f64 / 2.0);
    with_cef!(&c, f32, m => {
        let iid = IID::new(m.clone());
        let fb: f32 = iid.iid_log_density_fallback(&xs);
        for g in [iid.iid_log_density(&xs), compute_iid_exp_fam_log_density(&m, &xs), iid.log_density_wrt_root(&xs.clone()), fb] {
            ensure!(same(f64::from(g), want.v, tol), "joint-f32", "joint log-density of {xs:?} is {g}, expected {} (tolerance {tol:e})", want.v);
        }
    }, else unreachable!());
    Ok(())
}

// ---------------------------------------------------------------- C11

use measures_exponential_family::exponential_family::jit::{
    StaticInlineJITCompiler, ZeroOverheadOptimizer, generate_zero_overhead_exp_fam, generate_zero_overhead_exp_fam_wrt,
};
fn c11_cont(s: &mut Src, o: &mut Obs) -> R {
    let c = gen_c(s);
    let b = if s.bool() { gen_c(s) } else { C::generate(s) };
    let n = 1 + s.length(7, 3000);
    let xs: Vec<f64> = s.many(n, |s| c.point(s));
    o.note(|| format!("{c:?} (wrt {b:?}) at {xs:?}"));
    o.label(c.kind());
    o.nontrivial(n > 1 && xs.iter().any(|x| c.supports(*x)));
    with_cef!(&c, f64, m => with_c!(&b, f64, base => {
        let f1 = generate_zero_overhead_exp_fam(m.clone());
        let f2 = ZeroOverheadOptimizer::<f64, f64>::zero_overhead_optimize(m.clone());
        let g1 = generate_zero_overhead_exp_fam_wrt(m.clone(), base.clone());
        let g2 = ZeroOverheadOptimizer::<f64, f64>::zero_overhead_optimize_wrt(m.clone(), base.clone());
        let h1 = generate_zero_overhead_exp_fam_wrt(m.clone(), LebesgueMeasure::<f64>::new());
        let order: Vec<usize> = s.many(2 * n, |s| s.usize(n)).into_iter().chain(0..n).collect();
        for i in order {
            let x = xs[i];
            let want: f64 = m.log_density().at(&x);
            let wb: f64 = base.log_density().at(&x);
            let mut v = form_value(&form_c(&c, x));
            if !c.supports(x) { v = Vm::c(0.0); }
            v.v = want;
            v.m += want.abs().min(1e300);
            for (name, g) in [("zero_overhead", f1(&x)), ("zero_overhead_optimize", f2(&x)), ("zero_overhead_wrt(Lebesgue)", h1(&x))] {
                ensure!(v.ok(g), "closure", "{name} at {x} is {g}, generic {want}");
            }
            if wb.is_finite() || want.is_finite() {
                let mut d = v;
                d.v = want - wb;
                d.m += if wb.is_finite() { wb.abs() } else { 0.0 };
                for (name, g) in [("zero_overhead_wrt", g1(&x)), ("zero_overhead_optimize_wrt", g2(&x))] {
                    ensure!(d.ok(g), "closure-wrt", "{name} at {x} is {g}, generic {}", d.v);
                }
            }
        }
    }), else unreachable!());
    Ok(())
}
macro_rules! with_u64 {
    ($c:expr, $m:ident => $body:expr) => {{
        use measures_distributions as md;
        match $c {
            D::Binomial(n, a) => { let $m = md::Binomial::<f64>::new(*n, *a); $body }
            D::Geometric(a) => { let $m = md::Geometric::<f64>::new(*a); $body }
            D::NegBin(n, a) => { let $m = md::NegativeBinomial::<f64>::new(*n, *a); $body }
            D::Poisson(a) => { let $m = md::Poisson::<f64>::new(*a); $body }
            _ => unreachable!(),
        }
    }};
}
/// Closures with respect to another distribution on the naturals.
fn c11_disc_wrt(s: &mut Src, o: &mut Obs) -> R {
    let gen_u = |s: &mut Src| {
        let k = s.pick(&[1usize, 3, 4, 5]);
        if s.chance(1, 12) { D::wide(s, k) } else { D::gen_kind(s, k, false) }
    };
    let (d, b) = (gen_u(s), gen_u(s));
    let n = 1 + s.usize(6);
    let ks: Vec<u64> = s.many(n, |s| if s.bool() { discrete_point(&d, s) } else { discrete_point(&b, s) }.min(30_000));
    o.note(|| format!("{d:?} wrt {b:?} at {ks:?}"));
    o.label(d.kind());
    o.nontrivial(ks.iter().any(|k| d.supports(*k) && b.supports(*k)));
    with_u64!(&d, m => with_u64!(&b, base => {
        let g1 = generate_zero_overhead_exp_fam_wrt::<_, _, u64, f64>(m.clone(), base.clone());
        let g2 = ZeroOverheadOptimizer::<u64, f64>::zero_overhead_optimize_wrt(m.clone(), base.clone());
        let order: Vec<usize> = s.many(n, |s| s.usize(n)).into_iter().chain(0..n).collect();
        for i in order {
            let k = ks[i];
            let (want, wb): (f64, f64) = (m.log_density_wrt_root(&k), base.log_density_wrt_root(&k));
            if !want.is_finite() && !wb.is_finite() {
                continue;
            }
            let plain: f64 = m.log_density().wrt(base.clone()).at(&k);
            let (mut v, extra) = if d.supports(k) { (form_value(&form_d(&d, k)).noise(k as f64).add(d.reference(k)), b.reference(k)) } else { (Vm::c(0.0), Vm::c(0.0)) };
            v.v = plain;
            if extra.v.is_finite() {
                v.m += extra.m;
                v.n += extra.n;
            }
            for (name, g) in [("zero_overhead_wrt", g1(&k)), ("zero_overhead_optimize_wrt", g2(&k))] {
                if v.ok(g) { continue; }
                if let Some(a) = nb_alt(&d, k) {
                    let mut a = a;
                    a.v -= wb;
                    a.m += v.m;
                    a.n += v.n;
                    if a.ok_tol(g, 2.0) {
                        o.known(NB_SIG, || format!("{name} at {k} is {g}, generic {plain}"))?;
                        continue;
                    }
                }
                bail!("closure-wrt", "{name} at {k} is {g}, generic {plain}");
            }
        }
    }));
    Ok(())
}
/// Closures of the f32 distributions.
fn c11_f32(s: &mut Src, o: &mut Obs) -> R {
    let gen_c = |s: &mut Src| {
        match s.below(5) {
            0 => C::Normal(s.real(-10.0, 10.0), s.pos(0.2, 20.0)),
            1 => C::Exponential(s.pos(0.05, 20.0)),
            2 => C::Gamma(s.pos(0.1, 20.0), s.pos(0.05, 20.0)),
            3 => C::Beta(s.pos(0.1, 20.0), s.pos(0.1, 20.0)),
            _ => C::Chi2(s.pos(0.1, 40.0)),
        }
        .to_f32()
    };
    let (c, b) = (gen_c(s), gen_c(s));
    let n = 1 + s.usize(6);
    let xs: Vec<f32> = s.many(n, |s| narrow(c.point(s)));
    o.note(|| format!("f32 {c:?} wrt {b:?} at {xs:?}"));
    o.label(c.kind());
    o.nontrivial(n > 1);
    with_cef!(&c, f32, m => with_cef!(&b, f32, base => {
        let f1 = generate_zero_overhead_exp_fam(m.clone());
        let f2 = ZeroOverheadOptimizer::<f32, f32>::zero_overhead_optimize(m.clone());
        let g1 = generate_zero_overhead_exp_fam_wrt(m.clone(), base.clone());
        let g2 = ZeroOverheadOptimizer::<f32, f32>::zero_overhead_optimize_wrt(m.clone(), base.clone());
        for i in s.many(n, |s| s.usize(n)).into_iter().chain(0..n) {
            let x = xs[i];
            let y = f64::from(x);
            if x != 0.0 && x.abs() < 1e-18 || x.abs() > 1e15 {
                continue; // squares and products leave the range of f32
            }
            let want: f32 = m.log_density_wrt_root(&x);
            let wb: f32 = base.log_density_wrt_root(&x);
            let mut v = Vm::c(0.0);
            if c.supports(y) {
                v = form_value(&form_c(&c, y)).add(c.reference(y));
            }
            v.v = w(want);
            let t = 2.0 * v.tol32();
            for (name, g) in [("zero_overhead", f1(&x)), ("zero_overhead_optimize", f2(&x))] {
                ensure!(same(w(g), w(want), t), "closure-f32", "f32 {name} at {x} is {g}, generic {want}");
            }
            if want.is_finite() || wb.is_finite() {
                let e = w(want) - w(wb);
                let t = t + if wb.is_finite() { 4e-6 * w(wb).abs() } else { 0.0 };
                for (name, g) in [("zero_overhead_wrt", g1(&x)), ("zero_overhead_optimize_wrt", g2(&x))] {
                    ensure!(same(w(g), e, t), "closure-f32", "f32 {name} at {x} is {g}, generic {e}");
                }
            }
        }
    }, else unreachable!()), else unreachable!());
    Ok(())
}
fn c11_disc(s: &mut Src, o: &mut Obs) -> R {
    let d = D::generate(s, false);
    let n = 1 + s.length(5, 3000);
    let ks: Vec<u64> = s.many(n, |s| discrete_point(&d, s));
    o.note(|| format!("{d:?} at {ks:?}"));
    o.label(d.kind());
    o.nontrivial(n > 1 && ks.iter().any(|k| d.supports(*k)));
    with_d!(&d, f64, m, X => {
        let f1 = generate_zero_overhead_exp_fam::<_, X, f64>(m.clone());
        let f2 = ZeroOverheadOptimizer::<X, f64>::zero_overhead_optimize(m.clone());
        let g1 = generate_zero_overhead_exp_fam_wrt::<_, _, X, f64>(m.clone(), measures_core::CountingMeasure::<X>::new());
        let order: Vec<usize> = s.many(n, |s| s.usize(n)).into_iter().chain(0..n).collect();
        for i in order {
            let k = ks[i];
            let x = k as X;
            let want: f64 = HasLogDensity::<X, f64>::log_density_wrt_root(&m, &x);
            let mut v = Vm::c(0.0);
            if d.supports(k) {
                v = form_value(&form_d(&d, k)).noise(k as f64);
                v.m += d.reference(k).m;
                v.n += d.reference(k).n;
            }
            v.v = want;
            for (name, g) in [("zero_overhead", f1(&x)), ("zero_overhead_optimize", f2(&x)), ("zero_overhead_wrt(counting)", g1(&x))] {
                if v.ok(g) { continue; }
                if let Some(a) = nb_alt(&d, k) {
                    if a.ok_tol(g, 2.0) {
                        o.known(NB_SIG, || format!("{name} at {k} is {g}, generic {want}"))?;
                        continue;
                    }
                }
                bail!("closure", "{name} at {k} is {g}, generic {want}");
            }
        }
    });
    Ok(())
}
/// a single expression value under direct interpreters
fn c11_patterns(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions::distributions::final_tagless::{DistributionEval as DE, patterns as dp};
    use measures_exponential_family::final_tagless::{ExpFamEval as EE, patterns as ep};
    use symbolic_math::final_tagless::DirectEval as DI;
    let k = s.below(7);
    o.nontrivial(true);
    o.label(["normal", "exponential", "gamma", "cauchy", "log_gamma", "standard normal", "poisson"][k as usize]);
    let chk = |name: &str, g: f64, e: Vm| -> R {
        ensure!(e.ok(g), "pattern", "{name} is {g}, generic log-density {}", e.v);
        Ok(())
    };
    match k {
        0 => {
            let c = C::gen_kind(s, 0);
            let x = c.inside(s);
            let C::Normal(m, d) = c else { unreachable!() };
            o.note(|| format!("{c:?} at {x}"));
            let e = c.reference(x);
            chk("DistributionEval::normal_log_density", DE::normal_log_density(x, m, d), e)?;
            chk("distribution pattern (DirectEval)", dp::normal_log_density::<DI>(x, m, d), e)?;
            chk("distribution pattern (DistributionEval)", dp::normal_log_density::<DE>(x, m, d), e)?;
            chk("exponential-family pattern (DirectEval)", ep::normal_log_density::<DI>(x, m, d), e)?;
            chk("exponential-family pattern (ExpFamEval)", ep::normal_log_density::<EE>(x, m, d), e)?;
            let f = StaticInlineJITCompiler::compile_normal(m, d);
            let again = f.call(x);
            chk("compile_normal", again, e)?;
            let _ = f.call(x + 1.0);
            ensure!(same(f.call(x), again, 0.0), "repeat", "compile_normal gives {} on repetition, {again} before", f.call(x));
        }
        1 => {
            let c = C::gen_kind(s, 1);
            let x = c.point(s);
            let C::Exponential(r) = c else { unreachable!() };
            o.note(|| format!("{c:?} at {x}"));
            let e = c.reference(x);
            chk("DistributionEval::exponential_log_density", DE::exponential_log_density(x, r), e)?;
            chk("compile_exponential", StaticInlineJITCompiler::compile_exponential(r).call(x), e)?;
            if x >= 0.0 {
                chk("distribution pattern", dp::exponential_log_density::<DI>(x, r), e)?;
                chk("distribution pattern (DistributionEval)", dp::exponential_log_density::<DE>(x, r), e)?;
                chk("exponential-family pattern", ep::exponential_log_density::<DI>(x, r), e)?;
                chk("exponential-family pattern (ExpFamEval)", ep::exponential_log_density::<EE>(x, r), e)?;
            }
        }
        2 => {
            let c = C::gen_kind(s, 2);
            let x = c.point(s);
            let C::Gamma(a, b) = c else { unreachable!() };
            o.note(|| format!("{c:?} at {x}"));
            chk("DistributionEval::gamma_log_density", DE::gamma_log_density(x, a, b), c.reference(x))?;
        }
        3 => {
            let c = C::gen_kind(s, 6);
            let x = c.inside(s);
            let C::Cauchy(a, b) = c else { unreachable!() };
            o.note(|| format!("{c:?} at {x}"));
            // 1 + z^2 is rounded before the logarithm is taken
            let e = c.reference(x).noise(1.0);
            chk("cauchy pattern", dp::cauchy_log_density::<DI>(x, a, b), e)?;
            chk("cauchy pattern (DistributionEval)", dp::cauchy_log_density::<DE>(x, a, b), e)?;
        }
        4 => {
            let x = s.pos(1e-3, 1e6);
            o.note(|| format!("log_gamma({x})"));
            let e = lgamma(x);
            let g = DE::log_gamma(x);
            ensure!(same(g, e, 1e-11 * (1.0 + e.abs() + x)), "log-gamma", "log_gamma({x}) = {g}, expected {e}");
        }
        5 => {
            let n = if s.bool() { s.below(40) } else { s.log_uniform(1.0, 1e6) as u64 };
            let l = s.log_uniform(1e-3, 1e4);
            o.note(|| format!("Poisson({l}) at {n}"));
            let e = or::poisson(l, n);
            let x = n as f64;
            for g in [ep::poisson_log_density::<DI>(x, l), ep::poisson_log_density::<EE>(x, l)] {
                ensure!(same(g, e.v, 1e-9 * (1.0 + e.m)), "pattern", "the exponential-family Poisson pattern is {g} at {n} with rate {l}, expected {}", e.v);
            }
        }
        _ => {
            let x = s.real(-1e3, 1e3);
            o.note(|| format!("standard normal at {x}"));
            let e = or::normal(0.0, 1.0, x);
            chk("standard normal pattern", dp::standard_normal_log_density::<DI>(x), e)?;
            chk("standard normal pattern", dp::standard_normal_log_density::<DE>(x), e)?;
            chk("standard normal pattern", ep::standard_normal_log_density::<DI>(x), e)?;
            chk("standard normal pattern", ep::standard_normal_log_density::<EE>(x), e)?;
        }
    }
    Ok(())
}
/// the assembling helpers of the tagless interface against plain arithmetic
fn c11_helpers(s: &mut Src, o: &mut Obs) -> R {
    use measures_exponential_family::final_tagless::{ExpFamEval as EE, ExponentialFamilyExpr};
    use symbolic_math::final_tagless::DirectEval as DI;
    let k = s.length(5, 70);
    let n = s.length(5, 2000);
    let eta: Vec<f64> = (0..k).map(|_| s.real(-50.0, 50.0)).collect();
    let ts: Vec<Vec<f64>> = s.many(n, |s| (0..k).map(|_| s.real(-50.0, 50.0)).collect());
    let (a, h) = (s.real(-100.0, 100.0), s.real(-100.0, 100.0));
    o.note(|| format!("eta {eta:?}, statistics {ts:?}, A {a}, h {h}"));
    o.nontrivial(k > 0 && n > 1);
    let refs: Vec<&[f64]> = ts.iter().map(Vec::as_slice).collect();
    let mut sum = vec![0.0; k];
    let mut mag = vec![0.0; k];
    for t in &ts {
        for i in 0..k {
            sum[i] += t[i];
            mag[i] += t[i].abs();
        }
    }
    let got = DI::sum_sufficient_stats::<f64>(&ts);
    let got2 = EE::sum_stats_array(&refs);
    let len = if n == 0 { 0 } else { k };
    ensure!(got.len() == len && got2.len() == len, "helper", "summed statistics have lengths {} and {}, expected {len}", got.len(), got2.len());
    for i in 0..len {
        ensure!(same(got[i], sum[i], 1e-13 * (1.0 + mag[i])) && same(got2[i], sum[i], 1e-13 * (1.0 + mag[i])), "helper", "summed statistic {i} of {ts:?} is {} and {}, expected {}", got[i], got2[i], sum[i]);
    }
    let dot: f64 = eta.iter().zip(&sum).map(|(e, t)| e * t).sum();
    let dm: f64 = 1.0 + eta.iter().zip(&mag).map(|(e, t)| e.abs() * t).sum::<f64>();
    let g = DI::dot_product::<f64>(&eta, &sum);
    let g2 = EE::dot_product_array(&eta, &sum);
    let g3 = EE::dot_product::<f64>(&eta, &sum);
    for g in [g, g2, g3] {
        ensure!(same(g, dot, 1e-13 * dm), "helper", "dot product of {eta:?} and {sum:?} is {g}, expected {dot}");
    }
    let g = DI::exp_fam_log_density::<f64>(&eta, &sum, a, h);
    let e = dot - a + h;
    ensure!(same(g, e, 1e-13 * (dm + a.abs() + h.abs())), "helper", "exp_fam_log_density helper is {g}, expected {e}");
    let g = DI::iid_exp_fam_log_density::<f64>(&eta, &sum, a, n as f64, h);
    let e = dot - n as f64 * a + h;
    ensure!(same(g, e, 1e-13 * (dm + n as f64 * a.abs() + h.abs())), "helper", "iid_exp_fam_log_density helper is {g}, expected {e}");
    if k > 0 {
        ensure!(catch(|| DI::dot_product::<f64>(&eta, &sum[1..])).is_err(), "helper", "dot_product accepted lists of different lengths");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            facets: vec![
                facet("continuous-f64", 400_000, 15_000_000, "the point is in the support", c06_cont),
                facet("continuous-f32", 200_000, 6_000_000, "every point in the support", c06_cont32),
                facet("discrete-f64", 400_000, 15_000_000, "the point is in the support", c06_disc),
                facet("discrete-f32", 200_000, 6_000_000, "every point in the support", c06_disc32),
                facet("standard-normal", 50_000, 1_000_000, "every point", c06_std),
            ],
            assumptions: &[
                "rounding is bounded by the magnitudes of the terms of the form, 1e-11 relative in f64 and 4e-6 in f32",
                "degenerate probabilities (0, 1) have no finite natural parameter and are not generated",
            ],
        },
        Prop {
            id: "C07",
            facets: vec![
                facet("from-distribution", 400_000, 10_000_000, "parameters not at their neutral value", c07_dist),
                facet("from-natural", 400_000, 10_000_000, "natural parameters not zero", c07_natural),
                facet("f32", 200_000, 6_000_000, "every case", c07_f32),
            ],
            assumptions: &["round trips through p near 1 lose the digits that 1 - p has lost"],
        },
        Prop {
            id: "C08",
            facets: vec![
                facet("continuous", 150_000, 5_000_000, "at least two samples, all in the support", c08_cont),
                facet("discrete", 150_000, 5_000_000, "at least two samples, all in the support", c08_disc),
                facet("other", 100_000, 3_000_000, "at least two samples", c08_other),
                facet("f32", 100_000, 2_000_000, "at least two samples", c08_f32),
            ],
            assumptions: &["the joint form is compared with the sum up to the rounding of its terms"],
        },
        Prop {
            id: "C11",
            facets: vec![
                facet("continuous", 100_000, 4_000_000, "several points, one in the support", c11_cont),
                facet("discrete", 150_000, 4_000_000, "several points, one in the support", c11_disc),
                facet("discrete-wrt", 100_000, 3_000_000, "a point in both supports", c11_disc_wrt),
                facet("f32", 100_000, 3_000_000, "several points", c11_f32),
                facet("patterns", 400_000, 10_000_000, "every case", c11_patterns),
                facet("helpers", 100_000, 2_000_000, "at least two non-empty statistics", c11_helpers),
            ],
            assumptions: &[
                "the gamma, beta and Student t tagless patterns need a gamma function that no interpreter provides (they panic by design) and are not exercised",
            ],
        },
    ]
}
