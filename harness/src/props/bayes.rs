//! C23: symbolic densities and Bayesian models.
use crate::oracle::{self, Vm};
use crate::runner::*;
use crate::src::Src;
use crate::sym::*;
use crate::{bail, ensure};
use measures_bayesian::expressions::{hierarchical_normal, mixture_likelihood, mixture_likelihood_old, normal_likelihood, normal_prior, posterior_log_density};
use measures_bayesian::BayesianJITOptimizer;
use symbolic_math::expr::builders as eb;
use symbolic_math::{builders, EvalError, Expr};

const NAMES: [&str; 10] = ["x", "mu", "sigma", "tau", "y", "a", "theta_1", "Z", "b0", "s"];

/// Any real: ordinary, tiny, huge.
fn any(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.real(-1e6, 1e6),
        1 => s.pick(&[0.0, -0.0, 1e-12, -1e12, 1e60, -1e60, 1e-60]),
        2 => {
            let v = s.log_uniform(1e-40, 1e40);
            if s.bool() { v } else { -v }
        }
        _ => s.real(-20.0, 20.0),
    }
}
fn scale(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.log_uniform(1e-60, 1e60),
        1 => s.log_uniform(1e-3, 1e3),
        _ => s.pos(0.05, 20.0),
    }
}
/// The square of the standardised value neither over- nor underflows on the way.
fn in_range(x: f64, mu: f64, sigma: f64) -> bool {
    let d = x - mu;
    let ok = |v: f64| v == 0.0 || (v.abs() > 1e-290 && v.abs() < 1e290);
    ok(d * d) && ok(sigma * sigma) && ok((d / sigma) * (d / sigma)) && d.is_finite()
}
fn check(what: &str, x: &Expr, env: &Env, want: Vm) -> R {
    match x.evaluate(env) {
        Ok(v) if want.ok(v) => Ok(()),
        r => bail!(what, "{what}: {} at {} is {r:?}, expected {:?}", show(x), show_env(env), want.v),
    }
}
fn names(s: &mut Src, n: usize, repeat: bool) -> Vec<&'static str> {
    let mut p = NAMES.to_vec();
    (0..n)
        .map(|_| {
            let i = s.usize(p.len());
            if repeat { p[i] } else { p.remove(i) }
        })
        .collect()
}
fn env(s: &mut Src, reals: &[&str], scales: &[&str]) -> Env {
    let mut e = Env::new();
    for n in reals {
        let v = any(s);
        e.insert((*n).to_string(), v);
    }
    for n in scales {
        let v = scale(s);
        e.insert((*n).to_string(), v);
    }
    if s.chance(1, 6) {
        e.insert("other".into(), 5.5);
    }
    e
}
/// An operand with its value: a variable, a constant, or a formula in a variable.
fn operand(s: &mut Src, n: &str, positive: bool, e: &mut Env) -> Expr {
    let v = if positive { scale(s) } else { any(s) };
    match s.below(4) {
        0 => Expr::Const(v),
        1 if !positive => {
            // linear predictor
            let (a, b, t) = (s.real(-20.0, 20.0), s.real(-20.0, 20.0), s.real(-20.0, 20.0));
            e.insert(n.to_string(), t);
            Expr::Const(a) + Expr::Const(b) * Expr::variable(n)
        }
        1 => {
            e.insert(n.to_string(), s.real(-20.0, 20.0));
            Expr::exp(Expr::variable(n))
        }
        _ => {
            e.insert(n.to_string(), v);
            Expr::variable(n)
        }
    }
}
fn formulas(s: &mut Src, o: &mut Obs) -> R {
    let n = names(s, 4, false);
    let repeat = s.chance(1, 8);
    match s.below(12) {
        0 => {
            let mut e = Env::new();
            let (x, m, d) = (operand(s, n[0], false, &mut e), operand(s, n[1], false, &mut e), operand(s, n[2], true, &mut e));
            let f = builders::normal_log_pdf(x.clone(), m.clone(), d.clone());
            let g = builders::gaussian_kernel(x.clone(), m.clone(), d.clone());
            let (Ok(xv), Ok(mv), Ok(dv)) = (x.evaluate(&e), m.evaluate(&e), d.evaluate(&e)) else { bail!("operands", "an operand has no value") };
            if !in_range(xv, mv, dv) {
                o.label("out of range");
                return Ok(());
            }
            o.note(|| format!("normal_log_pdf({xv}, {mv}, {dv})"));
            o.label("normal_log_pdf, gaussian_kernel");
            o.nontrivial(xv != mv);
            check("normal_log_pdf", &f, &e, oracle::normal(mv, dv, xv))?;
            let q = -0.5 * ((xv - mv) / dv).powi(2);
            let want = q.exp();
            match g.evaluate(&e) {
                Ok(v) if (v - want).abs() <= want * 1e-13 * (1.0 + q.abs()) + 1e-320 => Ok(()),
                r => bail!("gaussian_kernel", "gaussian_kernel: {} at {} is {r:?}, expected {want:?}", show(&g), show_env(&e)),
            }
        }
        1 => {
            let n = if repeat { names(s, 3, true) } else { n };
            let e = env(s, &n[..2], &n[2..3]);
            let (x, m, d) = (e[n[0]], e[n[1]], e[n[2]]);
            if !in_range(x, m, d) || d <= 0.0 {
                o.label("out of range");
                return Ok(());
            }
            o.note(|| format!("normal_likelihood({n:?}) at {}", show_env(&e)));
            o.label("normal_likelihood");
            o.nontrivial(x != m);
            let f = if s.bool() { normal_likelihood(n[0], n[1], n[2]) } else { measures_bayesian::bayesian::likelihood(n[0], n[1], n[2]) };
            check("normal_likelihood", &f, &e, oracle::normal(m, d, x))
        }
        2 => {
            let e = env(s, &n[..1], &[]);
            let (x, m, d) = (e[n[0]], any(s), scale(s));
            if !in_range(x, m, d) {
                o.label("out of range");
                return Ok(());
            }
            o.note(|| format!("normal_prior({}, {m}, {d}) at {x}", n[0]));
            o.label("normal_prior");
            o.nontrivial(x != m);
            let f = if s.bool() { normal_prior(n[0], m, d) } else { measures_bayesian::bayesian::prior(n[0], m, d) };
            check("normal_prior", &f, &e, oracle::normal(m, d, x))
        }
        3 | 4 => {
            let n = if repeat { names(s, 4, true) } else { n };
            let mut e = env(s, &n[..2], &n[2..3]);
            if !e.contains_key(n[3]) {
                let v = if s.bool() { any(s) } else { scale(s) };
                e.insert(n[3].to_string(), v);
            }
            let (x, m, d, t) = (e[n[0]], e[n[1]], e[n[2]], e[n[3]]);
            let (pm, ps) = (any(s), scale(s));
            if !in_range(x, m, d) || d <= 0.0 || !in_range(m, pm, ps) || !in_range(t, 0.0, ps) {
                o.label("out of range");
                return Ok(());
            }
            o.note(|| format!("hierarchical_normal({n:?}, {pm}, {ps}) at {}", show_env(&e)));
            o.label("hierarchical_normal");
            o.nontrivial(x != m);
            let want = oracle::normal(m, d, x).add(oracle::normal(pm, ps, m)).add(oracle::normal(0.0, ps, t));
            check("hierarchical_normal", &hierarchical_normal(n[0], n[1], n[2], n[3], pm, ps), &e, want)
        }
        5 => {
            // Horner against powers
            let e = env(s, &[], &n[..1]);
            let sign = if s.bool() { 1.0 } else { -1.0 };
            let x = if s.bool() { sign * e[n[0]] } else { s.real(-20.0, 20.0) };
            let e = Env::from([(n[0].to_string(), x)]);
            let n_c = s.length(8, 400);
            let c: Vec<f64> = s.many(n_c, |s| s.real(-100.0, 100.0));
            let top = x.abs().max(1.0).powi(c.len() as i32 + 1) * 1e3;
            if !(top < 1e290 && (x == 0.0 || x.abs() > 1e-30)) {
                o.label("out of range");
                return Ok(());
            }
            o.note(|| format!("polynomial({c:?}) at {x}"));
            o.label("polynomial");
            o.nontrivial(c.len() > 2);
            let want = c.iter().rev().fold(0.0, |a, k| a * x + k);
            let mag = c.iter().rev().fold(0.0, |a, k| a * x.abs() + k.abs());
            match builders::polynomial(Expr::variable(n[0]), &c).evaluate(&e) {
                Ok(v) if (v - want).abs() <= 1e-13 * mag => Ok(()),
                r => bail!("polynomial", "polynomial {c:?} at {x} is {r:?}, expected {want:?}"),
            }
        }
        6 => {
            let e = env(s, &n[..1], &[]);
            let x = if s.bool() { s.uniform(-700.0, 700.0) } else { e[n[0]] };
            let e = Env::from([(n[0].to_string(), x)]);
            let v = Expr::variable(n[0]);
            o.label("logistic, softplus");
            o.note(|| format!("logistic and softplus at {x}"));
            o.nontrivial(x.abs() > 1.0);
            let want = oracle::sigmoid(x);
            match builders::logistic(v.clone()).evaluate(&e) {
                // 1 + exp(-x) carries a relative rounding
                Ok(v) if (v - want).abs() <= 1e-13 * want * (1.0 + x.abs() * 1e-3) + 1e-307 => {}
                r => bail!("logistic", "logistic at {x} is {r:?}, expected {want:?}"),
            }
            let want = oracle::softplus(x);
            match builders::softplus(v).evaluate(&e) {
                Ok(v) if (v - want).abs() <= 1e-13 * (1.0 + want) => Ok(()),
                Ok(v) if x > 709.7 && v == f64::INFINITY => o.known("exp-range", || format!("symbolic softplus({x}) is inf, expected {want}")),
                r => bail!("softplus", "softplus at {x} is {r:?}, expected {want:?}"),
            }
        }
        7 => {
            let (x, m, d, k) = (any(s), any(s), scale(s), any(s));
            let e = Env::from([(n[0].to_string(), x)]);
            o.note(|| format!("quadratic, linear and normal terms at {x}, {m}, {d}, {k}"));
            o.label("quadratic_term, linear_term, log_normal_constant");
            o.nontrivial(x != m && k != 0.0);
            check("linear_term", &eb::linear_term(n[0], k), &e, Vm::c(k * x))?;
            check("log_normal_constant", &eb::log_normal_constant(d), &e, Vm::sum(&[-0.5 * oracle::LN_2PI, -d.ln()]))?;
            if !in_range(x, m, d) {
                return Ok(());
            }
            let z = (x - m) / d;
            check("quadratic_term", &eb::quadratic_term(n[0], m, d), &e, Vm::c(-0.5 * z * z))
        }
        8 => {
            // the macros that build expressions
            let x = value(s);
            let e = Env::from([("x".to_string(), x)]);
            let k = constant(s, false);
            let f = symbolic_math::var!("x") * symbolic_math::const_expr!(k);
            o.label("macros");
            o.nontrivial(true);
            check("macros", &f, &e, Vm::c(x * k))
        }
        _ => {
            // a posterior is the sum of its two parts
            let g = Gen { names: &["x", "y", "z"], tame: s.chance(3, 4), mild: s.bool() };
            let (l, p) = (expr(s, &g, 3), expr(s, &g, 3));
            let e: Env = ["x", "y", "z"].iter().filter_map(|n| (!s.chance(1, 20)).then(|| ((*n).to_string(), value(s)))).collect();
            o.note(|| format!("posterior of {} and {} at {}", show(&l), show(&p), show_env(&e)));
            o.label("posterior_log_density");
            let post = if s.bool() { posterior_log_density(l.clone(), p.clone()) } else { measures_bayesian::bayesian::posterior(l.clone(), p.clone()) };
            let v = measures_bayesian::bayesian::variable("x").evaluate(&e);
            ensure!(v.as_ref().ok().map(|v| v.to_bits()) == e.get("x").map(|v| v.to_bits()), "variable", "variable(\"x\") is {v:?} at {}", show_env(&e));
            let got = post.evaluate(&e);
            match (l.evaluate(&e), p.evaluate(&e)) {
                (Ok(a), Ok(b)) => {
                    o.nontrivial(vars(&l).len() + vars(&p).len() > 0);
                    let want = a + b;
                    match got {
                        Ok(v) if oracle::same(v, want, 4.0 * f64::EPSILON * (a.abs() + b.abs())) => Ok(()),
                        r => bail!("posterior", "the posterior of {} and {} at {} is {r:?}, its parts are {a:?} and {b:?}", show(&l), show(&p), show_env(&e)),
                    }
                }
                _ => {
                    ensure!(got.is_err(), "posterior", "the posterior of {} and {} at {} is {got:?} although a part has no value", show(&l), show(&p), show_env(&e));
                    Ok(())
                }
            }
        }
    }
}
fn mixtures(s: &mut Src, o: &mut Obs) -> R {
    let k = s.length(5, 200);
    let far = s.chance(1, 10);
    let ws: Vec<f64> = (0..k)
        .map(|_| match s.below(6) {
            0 => 0.0,
            1 => s.log_uniform(1e-12, 1.0),
            2 => s.log_uniform(1.0, 1e6),
            _ => s.uniform(0.05, 1.0),
        })
        .collect();
    let ms: Vec<f64> = (0..k).map(|_| if s.chance(1, 8) { any(s) } else { s.real(-20.0, 20.0) }).collect();
    let ds: Vec<f64> = (0..k).map(|_| if s.chance(1, 8) { scale(s) } else { s.pos(0.1, 10.0) }).collect();
    let x = match s.below(4) {
        0 if k > 0 => ms[s.usize(k)] + s.uniform(-3.0, 3.0),
        _ if far => any(s),
        _ => s.real(-20.0, 20.0),
    };
    let name = s.pick(&NAMES);
    let e = Env::from([(name.to_string(), x)]);
    let f = mixture_likelihood(name, &ws, &ms, &ds);
    let parts: Vec<(f64, Expr)> = (0..k).map(|i| (ws[i], normal_prior(name, ms[i], ds[i]))).collect();
    let old = mixture_likelihood_old(&parts);
    o.note(|| format!("mixture of weights {ws:?}, means {ms:?}, deviations {ds:?} at {x}"));
    if k == 0 {
        o.label("empty");
        for g in [&f, &old] {
            ensure!(matches!(g.evaluate(&e), Ok(v) if v == f64::NEG_INFINITY), "empty", "the empty mixture is {:?}", g.evaluate(&e));
        }
        return Ok(());
    }
    if ws.iter().all(|w| *w == 0.0) || (0..k).any(|i| !in_range(x, ms[i], ds[i])) {
        o.label("out of range");
        return Ok(());
    }
    let terms: Vec<f64> = (0..k).map(|i| ws[i].ln() + oracle::normal(ms[i], ds[i], x).v).collect();
    let mags: f64 = (0..k).filter(|i| terms[*i] > -800.0).map(|i| ws[i].max(1e-300).ln().abs() + oracle::normal(ms[i], ds[i], x).m).fold(0.0, f64::max);
    let top = terms.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let want = oracle::log_sum_exp(&terms);
    o.label(if top < -708.0 { "underflow" } else { "in range" });
    o.nontrivial(top >= -708.0 && ws.iter().filter(|w| **w > 0.0).count() > 1);
    let tol = 1e-12 * (1.0 + mags) + if top < -700.0 { 5e-323 * k as f64 / top.max(-740.0).exp() } else { 0.0 };
    for (what, g) in [("mixture_likelihood", &f), ("mixture_likelihood_old", &old)] {
        match g.evaluate(&e) {
            Ok(v) if (v - want).abs() <= tol => {}
            Err(EvalError::InvalidLogarithm(_)) if top < -740.0 => o.known("mixture-underflow", || format!("{what} has no value (logarithm of 0), expected {want}: weights {ws:?}, means {ms:?}, deviations {ds:?} at {x}"))?,
            Ok(_) if top < -740.0 => o.known("mixture-underflow", || format!("{what} is imprecise, expected {want}: weights {ws:?}, means {ms:?}, deviations {ds:?} at {x}"))?,
            r => bail!(what, "{what} is {r:?}, expected {want:?}: weights {ws:?}, means {ms:?}, deviations {ds:?} at {x}"),
        }
    }
    Ok(())
}
/// A model of the optimiser: the expression in each slot, with the order of its arguments.
#[derive(Clone)]
struct Slot {
    x: Expr,
    data: Vec<String>,
    params: Vec<String>,
    consts: Env,
}
fn model(s: &mut Src, data: &[String], params: &[String]) -> Expr {
    let mut all: Vec<&str> = data.iter().chain(params).map(String::as_str).collect();
    if all.is_empty() {
        all.push("k0");
    }
    let pick = |s: &mut Src| s.pick(&all);
    match s.below(6) {
        0 => {
            let (a, b, c) = (pick(s), pick(s), pick(s));
            normal_likelihood(a, b, c)
        }
        1 => {
            let (a, b, c, d) = (pick(s), pick(s), pick(s), pick(s));
            hierarchical_normal(a, b, c, d, s.real(-3.0, 3.0), s.pos(0.1, 5.0))
        }
        2 => {
            let k = 1 + s.usize(3);
            let (ws, ms, ds): (Vec<f64>, Vec<f64>, Vec<f64>) = ((0..k).map(|_| s.uniform(0.1, 1.0)).collect(), (0..k).map(|_| s.real(-5.0, 5.0)).collect(), (0..k).map(|_| s.pos(0.5, 5.0)).collect());
            mixture_likelihood(pick(s), &ws, &ms, &ds)
        }
        3 => {
            // several observations and priors for the parameters
            let mut x = Expr::Const(0.0);
            for d in data {
                let (m, v) = (pick(s), pick(s));
                x = posterior_log_density(x, normal_likelihood(d, m, v));
            }
            for p in params {
                x = posterior_log_density(x, normal_prior(p, s.real(-3.0, 3.0), s.pos(0.1, 5.0)));
            }
            x
        }
        _ => {
            let g = Gen { names: &all, tame: true, mild: true };
            expr(s, &g, 4)
        }
    }
}
fn histories(s: &mut Src, o: &mut Obs) -> R {
    let mut opt = BayesianJITOptimizer::new();
    let mut slots: [Option<Slot>; 3] = [None, None, None];
    let mut shown = false;
    let mut log = String::new();
    for _ in 0..2 + s.usize(6) {
        let i = s.usize(3);
        if slots[i].is_none() || s.chance(1, 3) {
            let n = names(s, 8, false);
            let nd = if i == 2 { 0 } else { s.pick(&[1, 1, 1, 2, 0, 3, 4]) };
            let np = s.pick(&[1, 2, 0, 3, 4]);
            let data: Vec<String> = n[..nd].iter().map(|v| (*v).to_string()).collect();
            let params: Vec<String> = n[nd..nd + np].iter().map(|v| (*v).to_string()).collect();
            let mut consts = Env::new();
            let mut x = model(s, &data, &params);
            if s.chance(1, 3) || nd + np == 0 {
                consts.insert("k0".into(), s.pos(0.1, 10.0));
                x = x * Expr::variable("k0");
            }
            let bad = s.chance(1, 12);
            if bad {
                x = x + Expr::variable("nowhere");
            }
            log.push_str(&format!("slot {i}: {} of {data:?} and {params:?}; ", show(&x)));
            let r = match i {
                0 => opt.compile_posterior_jit(&x, &data, &params, &consts),
                1 => opt.compile_likelihood_jit(&x, &data, &params, &consts),
                _ => opt.compile_prior_jit(&x, &params, &consts),
            };
            match r {
                Ok(()) => {
                    ensure!(!bad, "undeclared", "compiling {} succeeds although a variable is not declared", show(&x));
                    slots[i] = Some(Slot { x, data, params, consts });
                }
                Err(e) => ensure!(bad, "compile", "compiling {} fails: {e}", show(&x)),
            }
        }
        // every slot answers with the function last compiled into it
        for (i, slot) in slots.iter().enumerate() {
            let (dv, pv): (Vec<f64>, Vec<f64>) = match slot {
                None => (vec![1.0], vec![2.0]),
                Some(t) => (t.data.iter().map(|_| positive_value(s)).collect(), t.params.iter().map(|_| if s.chance(1, 3) { value(s) } else { positive_value(s) }).collect()),
            };
            let got = catch(|| match i {
                0 => opt.evaluate_posterior(&dv, &pv),
                1 => opt.evaluate_likelihood(&dv, &pv),
                _ => opt.evaluate_prior(&pv),
            });
            let got = match got {
                Ok(v) => v,
                Err(p) => bail!("panic", "evaluating slot {i} at {dv:?}, {pv:?} panics: {p}\n{log}"),
            };
            match slot {
                None => ensure!(got.is_none(), "empty", "slot {i} has the value {got:?} before anything was compiled\n{log}"),
                Some(t) => {
                    let Some(got) = got else { bail!("missing", "slot {i} has no value\n{log}") };
                    let mut env = t.consts.clone();
                    env.extend(t.data.iter().cloned().zip(dv.iter().copied()));
                    env.extend(t.params.iter().cloned().zip(pv.iter().copied()));
                    let out = M64.eval(&t.x, &env);
                    if out.crisp() {
                        shown |= !vars(&t.x).is_empty();
                        ensure!((got - out.av.v).abs() <= 4.0 * out.av.e, "value", "slot {i} is {got:?} at {}, the expression {} is {:?}\n{log}", show_env(&env), show(&t.x), out.av.v);
                    }
                }
            }
        }
    }
    o.note(|| log.clone());
    o.label(match slots.iter().flatten().count() {
        0 => "nothing compiled",
        1 => "one slot",
        _ => "several slots",
    });
    o.nontrivial(shown);
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        facets: vec![
            facet("builders", 200_000, 4_000_000, "a formula in a variable had a value away from the centre of the density", formulas),
            facet("mixtures", 100_000, 2_000_000, "at least two components of positive weight, densities within the range of exp", mixtures),
            facet("optimizer", 1_500, 60_000, "a compiled function of at least one variable had a value", histories).chunked(1000),
        ],
        assumptions: &["squares of deviations and scales within the range of the number type", "mixtures have a positive weight; weights are used as given, not normalised"],
    }]
}
