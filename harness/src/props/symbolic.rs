//! C17 evaluation, C18 simplification, C21 generated text, C24 parameters, C26 caches.
use crate::oracle::same;
use crate::runner::*;
use crate::src::Src;
use crate::sym::*;
use crate::{bail, ensure};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use symbolic_math::expr::EvalError;
use symbolic_math::{CustomSymbolicLogDensity, Expr, SymbolicLogDensity, clear_caches, get_cache_stats};

pub fn bits_same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn error_kind_ok(out: &Out, e: &EvalError) -> bool {
    if out.maybe {
        return true;
    }
    out.errs.iter().any(|x| match (x, e) {
        (EvalError::UndefinedVariable(a), EvalError::UndefinedVariable(b)) => a == b,
        (EvalError::DivisionByZero, EvalError::DivisionByZero) => true,
        (EvalError::InvalidLogarithm(a), EvalError::InvalidLogarithm(b)) | (EvalError::InvalidSquareRoot(a), EvalError::InvalidSquareRoot(b)) => same(*a, *b, 1e-6 * (1.0 + a.abs())),
        _ => false,
    })
}
/// Compares a result with the meaning of the expression.
fn verdict(what: &str, x: &Expr, env: &Env, out: &Out, got: &Result<f64, EvalError>) -> R {
    match got {
        Ok(v) => {
            ensure!(out.errs.is_empty(), what, "{what} of {} at {} is {v:?} but it is undefined: {:?}", show(x), show_env(env), out.errs);
            ensure!(out.accepts(*v), what, "{what} of {} at {} is {v:?}, expected {:?} (within {:e})", show(x), show_env(env), out.av.v, out.av.e);
        }
        Err(e) => {
            ensure!(!out.errs.is_empty() || out.maybe, what, "{what} of {} at {} fails ({e}), expected {:?}", show(x), show_env(env), out.av.v);
            ensure!(error_kind_ok(out, e), what, "{what} of {} at {} fails with {e:?}, which is not among its failures {:?}", show(x), show_env(env), out.errs);
        }
    }
    Ok(())
}
fn names(s: &mut Src) -> Vec<&'static str> {
    some_names(s, 4, true)
}
fn env_for(s: &mut Src, names: &[&str], missing: bool) -> Env {
    let mut e = Env::new();
    for n in names {
        if !(missing && s.chance(1, 12)) {
            e.insert((*n).to_string(), value(s));
        }
    }
    if s.chance(1, 4) {
        e.insert("unused".into(), value(s));
    }
    e
}
fn labels(o: &mut Obs, x: &Expr, out: &Out) {
    o.label_if(!out.errs.is_empty(), "undefined");
    o.label_if(out.maybe, "too close to the edge of a domain");
    o.label_if(out.crisp(), "finite value");
    o.label_if(nodes(x) > 20, "more than 20 nodes");
}

// ------------------------------------------------------------------ C17

fn c17_eval(s: &mut Src, o: &mut Obs) -> R {
    let ns = names(s);
    let g = Gen { names: &ns, tame: s.bool(), mild: s.bool() };
    let d = 1 + s.usize(6);
    let x = any_expr(s, &g, d, 400, 300);
    let before = x.clone();
    let mut envs = vec![];
    for _ in 0..1 + s.usize(3) {
        envs.push(env_for(s, &ns, true));
    }
    o.note(|| format!("{} at {}", show(&x), show_env(&envs[0])));
    let mut all = Vec::new();
    for env in &envs {
        let out = M64.eval(&x, env);
        labels(o, &x, &out);
        o.nontrivial(nodes(&x) > 3 && (out.crisp() || !out.errs.is_empty()));
        let got = x.evaluate(env);
        verdict("evaluate", &x, env, &out, &got)?;
        all.push(got);
    }
    // several assignments at once
    let sets: Vec<Env> = envs.clone();
    let batch = x.evaluate_batch_vars(&sets);
    match batch {
        Ok(v) => {
            ensure!(v.len() == sets.len(), "evaluate_batch_vars", "{} results for {} assignments", v.len(), sets.len());
            for ((e, a), b) in sets.iter().zip(&v).zip(&all) {
                verdict("evaluate_batch_vars", &x, e, &M64.eval(&x, e), &Ok(*a))?;
                ensure!(b.is_ok(), "evaluate_batch_vars", "evaluate_batch_vars succeeds although evaluate fails for {}", show(&x));
            }
        }
        Err(e) => {
            ensure!(all.iter().any(|r| matches!(r, Err(_))), "evaluate_batch_vars", "evaluate_batch_vars of {} fails ({e}) although every single evaluation succeeds", show(&x));
        }
    }
    ensure!(show(&x) == show(&before), "evaluate", "evaluation changed the expression");
    Ok(())
}
fn linear_shape(s: &mut Src, x: &str, depth: usize) -> Expr {
    let c = |s: &mut Src| Expr::Const(constant(s, true));
    let v = || Expr::Var(x.to_string());
    if depth == 0 {
        return if s.bool() { c(s) } else { v() };
    }
    match s.below(6) {
        0 => Expr::add(linear_shape(s, x, depth - 1), linear_shape(s, x, depth - 1)),
        1 => Expr::sub(linear_shape(s, x, depth - 1), linear_shape(s, x, depth - 1)),
        2 => Expr::mul(c(s), v()),
        3 => Expr::mul(v(), c(s)),
        4 => v(),
        _ => c(s),
    }
}
fn poly_shape(s: &mut Src, x: &str, depth: usize) -> Expr {
    let v = || Expr::Var(x.to_string());
    if depth == 0 || s.chance(1, 3) {
        let n = s.pick(&[2.0, 3.0, 1.0, 0.0, 5.0, 0.5, -1.0, 7.0, 12.0]);
        return match s.below(4) {
            0 => Expr::Const(constant(s, true)),
            1 => v(),
            2 => Expr::mul(Expr::Const(constant(s, true)), v()),
            _ => Expr::pow(v(), Expr::Const(n)),
        };
    }
    match s.below(5) {
        0 | 1 => Expr::add(poly_shape(s, x, depth - 1), poly_shape(s, x, depth - 1)),
        2 => Expr::sub(poly_shape(s, x, depth - 1), poly_shape(s, x, depth - 1)),
        3 => Expr::mul(Expr::Const(constant(s, true)), Expr::pow(v(), Expr::Const(s.range(0, 6) as f64))),
        _ => Expr::mul(poly_shape(s, x, depth - 1), poly_shape(s, x, depth - 1)),
    }
}
/// The single-variable routes on one expression.
fn c17_routes(s: &mut Src, o: &mut Obs) -> R {
    let var = s.pick(&["x", "y", "t"]);
    let kind = s.below(5);
    let d = s.usize(5);
    let x = match kind {
        0 => linear_shape(s, var, d),
        1 => poly_shape(s, var, d),
        _ => {
            // sometimes another variable than the one bound
            let ns: Vec<&str> = if s.chance(1, 8) { vec![var, "other"] } else { vec![var] };
            let g = Gen { names: &ns, tame: s.bool(), mild: s.bool() };
            expr(s, &g, d + 1)
        }
    };
    o.label(["linear shape", "polynomial shape", "any shape", "any shape", "any shape"][kind as usize]);
    let vals = s.vec(4, value);
    o.note(|| format!("{} at {var} in {vals:?}", show(&x)));
    let mut outs = vec![];
    for v in &vals {
        let env: Env = [(var.to_string(), *v)].into_iter().collect();
        let out = M64.eval(&x, &env);
        labels(o, &x, &out);
        o.nontrivial(nodes(&x) > 3 && (out.crisp() || !out.errs.is_empty()));
        verdict("evaluate", &x, &env, &out, &x.evaluate(&env))?;
        verdict("evaluate_single_var", &x, &env, &out, &x.evaluate_single_var(var, *v))?;
        // collecting coefficients computes in another order
        let loose = loosen(&x, &env, &out);
        verdict("evaluate_smart", &x, &env, &loose, &x.evaluate_smart(var, *v))?;
        if let Some(r) = x.evaluate_linear(var, *v) {
            o.label("linear route");
            verdict("evaluate_linear", &x, &env, &loose, &Ok(r))?;
        }
        if let Some(r) = x.evaluate_polynomial(var, *v) {
            o.label("polynomial route");
            verdict("evaluate_polynomial", &x, &env, &loose, &Ok(r))?;
        }
        if let Some((a, b)) = x.extract_linear_coefficients(var) {
            verdict("extract_linear_coefficients", &x, &env, &loose, &Ok(a * v + b))?;
        }
        clear_caches();
        for _ in 0..2 {
            verdict("evaluate_cached", &x, &env, &out, &x.evaluate_cached(&env))?;
        }
        outs.push((env, out));
    }
    for (what, got) in [("evaluate_batch", x.evaluate_batch(var, &vals)), ("evaluate_batch_optimized", x.evaluate_batch_optimized(var, &vals))] {
        match got {
            Ok(r) => {
                ensure!(r.len() == vals.len(), what, "{what}: {} results for {} values", r.len(), vals.len());
                for ((env, out), v) in outs.iter().zip(&r) {
                    verdict(what, &x, env, out, &Ok(*v))?;
                }
            }
            Err(e) => {
                ensure!(outs.iter().any(|(_, out)| out.maybe || (!out.errs.is_empty() && error_kind_ok(out, &e))), what, "{what} of {} over {vals:?} fails with {e:?}", show(&x));
            }
        }
    }
    Ok(())
}
/// Adds the rounding of collecting the terms first: bounded by the sum of their sizes.
fn loosen(x: &Expr, env: &Env, out: &Out) -> Out {
    fn size(x: &Expr, env: &Env) -> f64 {
        match x {
            Expr::Add(l, r) | Expr::Sub(l, r) => size(l, env) + size(r, env),
            _ => {
                let a = M64.eval(x, env).av;
                let b = match x {
                    Expr::Mul(l, _) => M64.eval(l, env).av.v.abs(),
                    _ => 0.0,
                };
                a.v.abs() + b
            }
        }
    }
    let mut o = out.clone();
    let extra = size(x, env) * 1e-13 + 1e-280;
    o.av.e = if extra.is_finite() { o.av.e + extra } else { f64::INFINITY };
    o
}
/// `n` values in which neighbours may be equal, opposite or adjacent numbers.
fn values(s: &mut Src, n: usize) -> Vec<f64> {
    let alike = s.chance(1, 3);
    let mut out: Vec<f64> = vec![];
    for _ in 0..n {
        let v = match out.last() {
            Some(&last) if alike && s.bool() => match s.below(4) {
                0 => last,
                1 => f64::from_bits(last.to_bits() ^ 1),
                _ => -last,
            },
            _ if alike && s.chance(1, 4) => 0.0,
            _ => value(s),
        };
        out.push(v);
    }
    out
}
/// Many values at once, in order.
fn c17_many(s: &mut Src, o: &mut Obs) -> R {
    let g = Gen { names: &["x", "y"], tame: true, mild: s.bool() };
    let d = s.usize(4);
    let kind = s.below(3);
    let x = match kind {
        0 => linear_shape(s, "x", d),
        1 => poly_shape(s, "x", d),
        _ => expr(s, &g, d),
    };
    let n = s.size(2000);
    let vals = values(s, n);
    let y = value(s);
    let env = |v: f64| -> Env { [("x".to_string(), v), ("y".to_string(), y)].into_iter().collect() };
    let outs: Vec<Out> = vals.iter().map(|v| M64.eval(&x, &env(*v))).collect();
    o.note(|| format!("{} at {n} values", show(&x)));
    o.nontrivial(n > 1 && vars(&x).contains("x"));
    o.label(match n { 0..=16 => "up to 16 values", 17..=255 => "17 to 255 values", _ => "256 or more values" });
    let fail = |what: &str, e: &EvalError| -> R {
        ensure!(outs.iter().any(|out| out.maybe || (!out.errs.is_empty() && error_kind_ok(out, e))), what, "{what} of {} over {n} values fails with {e:?}", show(&x));
        Ok(())
    };
    let list = |what: &str, got: Result<Vec<f64>, EvalError>| -> R {
        match got {
            Ok(r) => {
                ensure!(r.len() == n, what, "{what}: {} results for {n} values", r.len());
                for ((out, v), x0) in outs.iter().zip(&r).zip(&vals) {
                    verdict(what, &x, &env(*x0), out, &Ok(*v))?;
                }
                Ok(())
            }
            Err(e) => fail(what, &e),
        }
    };
    if !vars(&x).contains("y") {
        list("evaluate_batch", x.evaluate_batch("x", &vals))?;
        list("evaluate_batch_optimized", x.evaluate_batch_optimized("x", &vals))?;
    }
    let sets: Vec<Env> = vals.iter().map(|v| env(*v)).collect();
    list("evaluate_batch_vars", x.evaluate_batch_vars(&sets))?;
    // a long, narrow grid
    let ys = [y];
    let wide = s.bool();
    match if wide { x.evaluate_grid("x", &vals, "y", &ys) } else { x.evaluate_grid("y", &ys, "x", &vals) } {
        Ok(rows) => {
            ensure!(if wide { rows.len() == 1 && rows[0].len() == n } else { rows.len() == n && rows.iter().all(|r| r.len() == 1) }, "evaluate_grid", "wrong shape for {n} values");
            list("evaluate_grid", Ok(rows.into_iter().flatten().collect()))
        }
        Err(e) => fail("evaluate_grid", &e),
    }
}
fn c17_grid(s: &mut Src, o: &mut Obs) -> R {
    let ns: Vec<&str> = if s.chance(1, 10) { vec!["x", "y", "z"] } else { vec!["x", "y"] };
    let g = Gen { names: &ns, tame: true, mild: s.bool() };
    let d = 1 + s.usize(4);
    let x = expr(s, &g, d);
    let (nx, ny) = if s.chance(1, 200) { (s.size(80), s.size(80)) } else { (s.usize(5), s.usize(5)) };
    let xs = values(s, nx);
    let ys = values(s, ny);
    let (xn, yn) = if s.chance(1, 10) { ("x", "x") } else if s.bool() { ("y", "x") } else { ("x", "y") };
    o.note(|| format!("{} on {xs:?} x {ys:?}", show(&x)));
    o.nontrivial(xs.len() > 1 && ys.len() > 1 && vars(&x).len() > 1);
    let got = x.evaluate_grid(xn, &xs, yn, &ys);
    let mut outs = vec![];
    for y in &ys {
        let mut row = vec![];
        for v in &xs {
            // the x-coordinate is bound last
            let mut env: Env = [(yn.to_string(), *y)].into_iter().collect();
            env.insert(xn.to_string(), *v);
            let out = M64.eval(&x, &env);
            row.push((env, out));
        }
        outs.push(row);
    }
    match got {
        Ok(rows) => {
            ensure!(rows.len() == ys.len() && rows.iter().all(|r| r.len() == xs.len()), "evaluate_grid", "wrong shape");
            for (r, w) in rows.iter().zip(&outs) {
                for (v, (env, out)) in r.iter().zip(w) {
                    verdict("evaluate_grid", &x, env, out, &Ok(*v))?;
                }
            }
        }
        Err(e) => {
            ensure!(outs.iter().flatten().any(|(_, out)| out.maybe || (!out.errs.is_empty() && error_kind_ok(out, &e))), "evaluate_grid", "evaluate_grid of {} over {xs:?} and {ys:?} fails with {e:?}", show(&x));
        }
    }
    Ok(())
}
fn c17_structure(s: &mut Src, o: &mut Obs) -> R {
    let ns = names(s);
    let g = Gen { names: &ns, tame: false, mild: false };
    let d = s.usize(7);
    let x = any_expr(s, &g, d, 400, 300);
    o.note(|| show(&x));
    o.nontrivial(nodes(&x) > 3);
    let want: Vec<String> = vars(&x).into_iter().collect();
    let got = x.variables();
    ensure!(got == want, "variables", "variables of {} are {got:?}, expected {want:?}", show(&x));
    let c = x.complexity();
    ensure!(c == operations(&x), "complexity", "complexity of {} is {c}, expected {}", show(&x), operations(&x));
    // building through functions, operators and methods
    let (a, b) = (x, expr(s, &g, 2));
    let k = constant(s, false);
    let pairs: Vec<(&str, Expr, Expr)> = vec![
        ("add", Expr::add(a.clone(), b.clone()), Expr::Add(Box::new(a.clone()), Box::new(b.clone()))),
        ("sub", Expr::sub(a.clone(), b.clone()), Expr::Sub(Box::new(a.clone()), Box::new(b.clone()))),
        ("mul", Expr::mul(a.clone(), b.clone()), Expr::Mul(Box::new(a.clone()), Box::new(b.clone()))),
        ("div", Expr::div(a.clone(), b.clone()), Expr::Div(Box::new(a.clone()), Box::new(b.clone()))),
        ("pow", Expr::pow(a.clone(), b.clone()), Expr::Pow(Box::new(a.clone()), Box::new(b.clone()))),
        ("ln", Expr::ln(a.clone()), Expr::Ln(Box::new(a.clone()))),
        ("exp", Expr::exp(a.clone()), Expr::Exp(Box::new(a.clone()))),
        ("sqrt", Expr::sqrt(a.clone()), Expr::Sqrt(Box::new(a.clone()))),
        ("neg", Expr::neg(a.clone()), Expr::Neg(Box::new(a.clone()))),
        ("+", a.clone() + b.clone(), Expr::Add(Box::new(a.clone()), Box::new(b.clone()))),
        ("-", a.clone() - b.clone(), Expr::Sub(Box::new(a.clone()), Box::new(b.clone()))),
        ("*", a.clone() * b.clone(), Expr::Mul(Box::new(a.clone()), Box::new(b.clone()))),
        ("/", a.clone() / b.clone(), Expr::Div(Box::new(a.clone()), Box::new(b.clone()))),
        ("unary -", -a.clone(), Expr::Neg(Box::new(a.clone()))),
        ("+ number", a.clone() + k, Expr::Add(Box::new(a.clone()), Box::new(Expr::Const(k)))),
        ("number +", k + a.clone(), Expr::Add(Box::new(Expr::Const(k)), Box::new(a.clone()))),
        ("- number", a.clone() - k, Expr::Sub(Box::new(a.clone()), Box::new(Expr::Const(k)))),
        ("number -", k - a.clone(), Expr::Sub(Box::new(Expr::Const(k)), Box::new(a.clone()))),
        ("* number", a.clone() * k, Expr::Mul(Box::new(a.clone()), Box::new(Expr::Const(k)))),
        ("number *", k * a.clone(), Expr::Mul(Box::new(Expr::Const(k)), Box::new(a.clone()))),
        ("/ number", a.clone() / k, Expr::Div(Box::new(a.clone()), Box::new(Expr::Const(k)))),
        ("number /", k / a.clone(), Expr::Div(Box::new(Expr::Const(k)), Box::new(a.clone()))),
        ("powf", a.clone().powf(b.clone()), Expr::Pow(Box::new(a.clone()), Box::new(b.clone()))),
        ("powf number", a.clone().powf(k), Expr::Pow(Box::new(a.clone()), Box::new(Expr::Const(k)))),
        ("natural_log", a.clone().natural_log(), Expr::Ln(Box::new(a.clone()))),
        ("exponential", a.clone().exponential(), Expr::Exp(Box::new(a.clone()))),
        ("square_root", a.clone().square_root(), Expr::Sqrt(Box::new(a.clone()))),
        ("sin", a.clone().sin(), Expr::Sin(Box::new(a.clone()))),
        ("cos", a.clone().cos(), Expr::Cos(Box::new(a.clone()))),
        ("square", a.clone().square(), Expr::Pow(Box::new(a.clone()), Box::new(Expr::Const(2.0)))),
        ("cube", a.clone().cube(), Expr::Pow(Box::new(a.clone()), Box::new(Expr::Const(3.0)))),
        ("abs", a.clone().abs(), Expr::Sqrt(Box::new(Expr::Pow(Box::new(a.clone()), Box::new(Expr::Const(2.0)))))),
        ("from f64", Expr::from(k), Expr::Const(k)),
        ("from i32", Expr::from(k as i32), Expr::Const(f64::from(k as i32))),
        ("from str", Expr::from(ns[0]), Expr::Var(ns[0].into())),
        ("from string", Expr::from(ns[0].to_string()), Expr::Var(ns[0].into())),
        ("constant", Expr::constant(k), Expr::Const(k)),
        ("variable", Expr::variable(ns[0]), Expr::Var(ns[0].into())),
        ("var!", symbolic_math::var!(ns[0]), Expr::Var(ns[0].into())),
        ("const_expr!", symbolic_math::const_expr!(k), Expr::Const(k)),
    ];
    let env = env_for(s, &ns, false);
    for (what, got, want) in pairs {
        let out = M64.eval(&want, &env);
        let r = got.evaluate(&env);
        let loose = Out { av: Av { v: out.av.v, e: out.av.e * 4.0 + out.av.v.abs() * 1e-14 }, ..out };
        verdict(what, &got, &env, &loose, &r)?;
    }
    Ok(())
}
fn c17_macros(s: &mut Src, o: &mut Obs) -> R {
    use symbolic_math::expr;
    let (vx, vy) = (positive_value(s), positive_value(s));
    let env: Env = [("x".to_string(), vx), ("y".to_string(), vy)].into_iter().collect();
    o.nontrivial(vx != vy);
    o.note(|| format!("x={vx}, y={vy}"));
    let cases: Vec<(&str, Expr, f64)> = vec![
        ("x", expr!(x), vx),
        ("2.5", expr!(2.5), 2.5),
        ("x + y", expr!(x + y), vx + vy),
        ("x - y", expr!(x - y), vx - vy),
        ("x * y", expr!(x * y), vx * vy),
        ("x / y", expr!(x / y), vx / vy),
        ("x ^ y", expr!(x ^ y), vx.powf(vy)),
        ("ln(x)", expr!(ln(x)), vx.ln()),
        ("exp(x)", expr!(exp(x)), vx.exp()),
        ("sqrt(x)", expr!(sqrt(x)), vx.sqrt()),
        ("sin(x)", expr!(sin(x)), vx.sin()),
        ("cos(x)", expr!(cos(x)), vx.cos()),
        ("2 * x", expr!(2.0 * x), 2.0 * vx),
        ("(x)", expr!((x)), vx),
    ];
    for (what, e, want) in cases {
        let got = e.evaluate(&env);
        let ok = matches!(got, Ok(v) if same(v, want, 1e-13));
        ensure!(ok, "expr!", "expr!({what}) at x={vx:?}, y={vy:?} is {got:?}, expected {want:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

fn positive_env(s: &mut Src, ns: &[&str]) -> Env {
    ns.iter().map(|n| ((*n).to_string(), positive_value(s))).collect()
}
/// What an equivalent form may differ by: its own evaluation error as well as that of the original.
pub fn same_meaning(what: &str, x: &Expr, y: &Expr, envs: &[Env], o: &mut Obs) -> R {
    for env in envs {
        let out = M64.eval(x, env);
        labels(o, x, &out);
        if !out.crisp() {
            continue;
        }
        o.label("compared");
        let o2 = M64.eval(y, env);
        if o2.maybe && o2.errs.is_empty() {
            o.label("result too close to the edge of a domain");
            continue;
        }
        ensure!(o2.errs.is_empty(), what, "{what}: {} has the value {:?} at {}, but {} is undefined there: {:?}", show(x), out.av.v, show_env(env), show(y), o2.errs);
        let tol = 4.0 * (out.av.e + o2.av.e) + 1e-280;
        if !tol.is_finite() {
            o.label("result too inaccurate to compare");
            continue;
        }
        ensure!((out.av.v - o2.av.v).abs() <= tol, what, "{what}: {} is {:?} at {}, but {} is {:?} (tolerance {tol:e})", show(x), out.av.v, show_env(env), show(y), o2.av.v);
        // the real evaluator agrees
        verdict("evaluate", y, env, &o2, &y.evaluate(env))?;
        o.nontrivial(show(x) != show(y) && !vars(x).is_empty());
    }
    Ok(())
}
fn c18(s: &mut Src, o: &mut Obs) -> R {
    let ns = names(s);
    let g = Gen { names: &ns, tame: s.chance(2, 3), mild: s.chance(2, 3) };
    let d = 1 + s.usize(6);
    let x = any_expr(s, &g, d, 400, 300);
    let y = x.clone().simplify();
    o.note(|| format!("{} -> {}", show(&x), show(&y)));
    o.label_if(show(&x) != show(&y), "changed");
    let (vx, vy) = (vars(&x), vars(&y));
    ensure!(vy.is_subset(&vx), "new variable", "simplify turned {} into {}, which has new variables", show(&x), show(&y));
    ensure!(operations(&y) <= operations(&x), "larger", "simplify turned {} into the larger {}", show(&x), show(&y));
    let mut envs = vec![];
    for _ in 0..3 {
        envs.push(positive_env(s, &ns));
    }
    same_meaning("simplify", &x, &y, &envs, o)?;
    let z = y.clone().simplify();
    same_meaning("simplify again", &x, &z, &envs, o)?;
    clear_caches();
    for _ in 0..2 {
        let c = x.clone().simplify_cached();
        ensure!(show(&c) == show(&y), "simplify_cached", "simplify_cached of {} is {}, simplify gives {}", show(&x), show(&c), show(&y));
    }
    let sd = SymbolicLogDensity::new(x.clone(), HashMap::new()).simplify();
    ensure!(show(&sd.expression) == show(&y), "SymbolicLogDensity::simplify", "simplify of a density differs: {} and {}", show(&sd.expression), show(&y));
    let cd = CustomSymbolicLogDensity::new(x.clone(), HashMap::new()).simplify();
    ensure!(show(&cd.expression) == show(&y), "CustomSymbolicLogDensity::simplify", "simplify of a density differs: {} and {}", show(&cd.expression), show(&y));
    Ok(())
}
/// Every small tree over a few leaves, exhaustively.
fn c18_small(s: &mut Src, o: &mut Obs) -> R {
    let i = s.below(SMALL_N);
    let x = small_tree(i);
    let y = x.clone().simplify();
    o.note(|| format!("{} -> {}", show(&x), show(&y)));
    ensure!(vars(&y).is_subset(&vars(&x)) && operations(&y) <= operations(&x), "larger", "simplify turned {} into {}", show(&x), show(&y));
    let envs: Vec<Env> = [(0.5, 3.0), (1.0, 1.0), (2.0, 0.25), (3.5, 7.0)].iter().map(|(a, b)| [("x".to_string(), *a), ("y".to_string(), *b)].into_iter().collect()).collect();
    same_meaning("simplify", &x, &y, &envs, o)
}
fn leaf(i: u64) -> Expr {
    match i % 8 {
        0 => Expr::Var("x".into()),
        1 => Expr::Var("y".into()),
        2 => Expr::Const(0.0),
        3 => Expr::Const(1.0),
        4 => Expr::Const(2.0),
        5 => Expr::Const(-1.0),
        6 => Expr::Const(0.5),
        _ => Expr::Const(-3.0),
    }
}
fn un(i: u64, e: Expr) -> Expr {
    match i {
        0 => Expr::ln(e),
        1 => Expr::exp(e),
        2 => Expr::sqrt(e),
        3 => e.sin(),
        4 => e.cos(),
        _ => Expr::neg(e),
    }
}
fn bi(i: u64, a: Expr, b: Expr) -> Expr {
    match i {
        0 => Expr::add(a, b),
        1 => Expr::sub(a, b),
        2 => Expr::mul(a, b),
        3 => Expr::div(a, b),
        _ => Expr::pow(a, b),
    }
}
const L1: u64 = 8 + 6 * 8 + 5 * 64; // leaf, unary leaf, binary of leaves
pub const SMALL_N: u64 = L1 + 6 * L1 + 5 * L1 * 56 * 2;
fn level1(i: u64) -> Expr {
    if i < 8 {
        leaf(i)
    } else if i < 56 {
        un((i - 8) / 8, leaf(i))
    } else {
        let j = i - 56;
        bi(j / 64, leaf(j / 8 % 8), leaf(j % 8))
    }
}
pub fn small_tree(i: u64) -> Expr {
    if i < L1 {
        return level1(i);
    }
    let i = i - L1;
    if i < 6 * L1 {
        return un(i / L1, level1(i % L1));
    }
    let i = i - 6 * L1;
    let (op, i) = (i / (L1 * 112), i % (L1 * 112));
    let (flip, i) = (i / (L1 * 56), i % (L1 * 56));
    let (a, b) = (level1(i / 56), level1(i % 56));
    if flip == 1 { bi(op, b, a) } else { bi(op, a, b) }
}

// ------------------------------------------------------------------ C24

fn c24(s: &mut Src, o: &mut Obs) -> R {
    let ns = names(s);
    let g = Gen { names: &ns, tame: true, mild: s.bool() };
    let d = 1 + s.usize(5);
    let x = any_expr(s, &g, d, 400, 200);
    let mut params = Env::new();
    for n in &ns {
        if s.bool() {
            params.insert((*n).to_string(), value(s));
        }
    }
    if s.chance(1, 4) {
        params.insert("unused".into(), value(s));
    }
    let sd = SymbolicLogDensity::new(x.clone(), params.clone());
    let cd = CustomSymbolicLogDensity::new(x.clone(), params.clone());
    ensure!(show(&sd.expression) == show(&x) && sd.parameters == params && show(&cd.expression) == show(&x) && cd.parameters == params, "new", "a density does not hold the expression or parameters it was given");
    let want: Vec<String> = vars(&x).into_iter().collect();
    ensure!(sd.variables == want && cd.variables == want, "variables", "variables of {} are {:?} and {:?}", show(&x), sd.variables, cd.variables);
    let sub = sd.clone().substitute_parameters();
    let left: BTreeSet<String> = vars(&x).into_iter().filter(|v| !params.contains_key(v)).collect();
    ensure!(vars(&sub.expression) == left, "substitute_parameters", "substituting {} in {} leaves {:?}", show_env(&params), show(&x), vars(&sub.expression));
    o.note(|| format!("{} with {}", show(&x), show_env(&params)));
    for _ in 0..3 {
        let mut given = Env::new();
        for n in &ns {
            if (!params.contains_key(*n) && !s.chance(1, 10)) || s.chance(1, 5) {
                given.insert((*n).to_string(), value(s));
            }
        }
        let overrides = given.keys().any(|k| params.contains_key(k));
        o.label_if(overrides, "a variable overrides a parameter");
        let mut env = params.clone();
        env.extend(given.clone());
        let out = M64.eval(&x, &env);
        labels(o, &x, &out);
        o.nontrivial(vars(&x).len() > 1 && !left.is_empty() && left.len() < vars(&x).len());
        verdict("evaluate with parameters", &x, &env, &out, &sd.evaluate(&given))?;
        verdict("evaluate with parameters (custom)", &x, &env, &out, &cd.evaluate(&given))?;
        // after substitution a parameter no longer listens to the variables
        let mut env2 = given.clone();
        env2.extend(params.clone());
        let out2 = M64.eval(&x, &env2);
        verdict("substitute_parameters", &sub.expression, &env2, &out2, &sub.expression.evaluate(&given))?;
        if !overrides {
            verdict("evaluate after substitution", &x, &env, &out, &sub.evaluate(&given))?;
        }
        let name = ns[s.usize(ns.len())];
        let v = value(s);
        let mut env3 = params.clone();
        env3.insert(name.to_string(), v);
        let out3 = M64.eval(&x, &env3);
        verdict("evaluate_single", &x, &env3, &out3, &sd.evaluate_single(name, v))?;
        verdict("evaluate_single (custom)", &x, &env3, &out3, &cd.evaluate_single(name, v))?;
    }
    // simplification of the substituted density keeps its value at positive points
    if params.values().all(|v| *v > 0.0) {
        let mut envs = vec![];
        for _ in 0..2 {
            let mut e = positive_env(s, &ns);
            e.extend(params.clone());
            envs.push(e);
        }
        let simp = sub.clone().simplify();
        same_meaning("simplify after substitution", &x, &simp.expression, &envs, o)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

/// Expressions chosen to be mistaken for one another.
fn lookalikes(s: &mut Src) -> Vec<Expr> {
    let v = |n: &str| Expr::Var(n.into());
    let c = Expr::Const;
    let mut pool = vec![
        v("2"),
        c(2.0),
        v("-2"),
        c(-2.0),
        Expr::neg(c(2.0)),
        v("x"),
        v("x "),
        v("X"),
        c(0.0),
        c(-0.0),
        Expr::add(v("x"), c(1.0)),
        v("(x + 1)"),
        v("(x + 1.0)"),
        Expr::add(c(1.0), v("x")),
        Expr::sub(v("x"), c(1.0)),
        Expr::sub(v("x"), c(-1.0)),
        Expr::add(v("x + 1"), c(1.0)),
        Expr::neg(v("x")),
        v("-x"),
        v("(-x)"),
        Expr::ln(v("x")),
        v("ln(x)"),
        Expr::pow(v("x"), c(2.0)),
        Expr::pow(v("x"), c(2.000_000_000_000_000_4)),
        Expr::mul(v("x"), v("y")),
        Expr::mul(v("y"), v("x")),
        Expr::div(v("x"), v("y")),
        Expr::div(v("y"), v("x")),
        Expr::pow(v("x"), v("y")),
        Expr::pow(v("y"), v("x")),
        Expr::sub(v("x"), v("y")),
        Expr::add(v("x"), v("x")),
        Expr::add(Expr::add(v("x"), v("y")), v("x")),
        Expr::add(v("x"), Expr::add(v("y"), v("x"))),
        c(0.1 + 0.2),
        c(0.3),
        Expr::pow(Expr::pow(v("x"), c(2.0)), c(3.0)),
        Expr::pow(v("x"), Expr::pow(c(2.0), c(3.0))),
        v("Const(2.0)"),
        v("Var(\"x\")"),
        v("x\", Var(\"y"),
        c(f64::NAN),
        v("NaN"),
        c(f64::INFINITY),
        v("inf"),
    ];
    let ns = ["x", "y"];
    let g = Gen { names: &ns, tame: true, mild: true };
    for _ in 0..6 {
        let e = expr(s, &g, 3);
        // a near copy
        let f = Expr::neg(e.clone());
        pool.push(e);
        pool.push(f);
    }
    pool
}
fn lookalike_envs(s: &mut Src) -> Vec<Env> {
    let mk = |xs: &[(&str, f64)]| xs.iter().map(|(k, v)| ((*k).to_string(), *v)).collect::<Env>();
    let mut v = vec![
        mk(&[]),
        mk(&[("x", 1.0), ("y", 2.0)]),
        mk(&[("x", 2.0), ("y", 1.0)]),
        mk(&[("x", 1.0)]),
        mk(&[("y", 1.0)]),
        mk(&[("x", 0.0), ("y", 2.0)]),
        mk(&[("x", -0.0), ("y", 2.0)]),
        mk(&[("2", 7.0), ("x", 1.0), ("y", 2.0)]),
        mk(&[("(x + 1)", 9.0), ("ln(x)", 3.0), ("-x", 5.0), ("(-x)", 6.0), ("x", 1.5), ("NaN", 1.0), ("inf", 4.0), ("x ", 8.0), ("X", 11.0)]),
        mk(&[("x", 1.0), ("y", 2.000_000_000_000_000_4)]),
        mk(&[("Const(2.0)", 12.0), ("Var(\"x\")", 13.0), ("x\", Var(\"y", 14.0), ("(x + 1.0)", 15.0), ("x + 1", 16.0), ("-2", 17.0)]),
        mk(&[("x\": 1.0, \"y", 2.0)]),
    ];
    for _ in 0..3 {
        v.push(mk(&[("x", value(s)), ("y", value(s))]));
    }
    v
}
fn eval_same(a: &Result<f64, EvalError>, b: &Result<f64, EvalError>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => bits_same(*x, *y),
        (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
        _ => false,
    }
}
/// Results of cached calls must equal those of uncached ones up to an error bound of zero; the sign
/// of a zero counts only where the uncached result shows it.
fn c26_history(s: &mut Src, o: &mut Obs) -> R {
    clear_caches();
    let pool = lookalikes(s);
    let envs = lookalike_envs(s);
    let st = get_cache_stats();
    ensure!(st.simplification_hits + st.simplification_misses + st.evaluation_hits + st.evaluation_misses == 0, "clear", "counters are not zero after clearing");
    let steps = 1 + s.usize(if o.thorough { 300 } else { 60 });
    // a few of them, so that they meet again
    let (np, ne) = (2 + s.usize(12), 1 + s.usize(5));
    let mut pool: Vec<Expr> = (0..np).map(|_| pool[s.usize(pool.len())].clone()).collect();
    for _ in 0..s.usize(4) {
        pool.push(shape(s, &Gen { names: &["x", "y"], tame: false, mild: true }));
    }
    let envs: Vec<Env> = (0..ne).map(|_| envs[s.usize(envs.len())].clone()).collect();
    let (mut evals, mut simps) = (0usize, 0usize);
    let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut repeats = 0;
    for _ in 0..steps {
        let i = s.usize(pool.len());
        match s.below(20) {
            0 => {
                clear_caches();
                (evals, simps) = (0, 0);
                o.label("clear");
            }
            1..=6 => {
                let want = pool[i].clone().simplify();
                let got = pool[i].clone().simplify_cached();
                simps += 1;
                ensure!(show(&got) == show(&want), "simplify_cached", "simplify_cached of {} is {}, simplify gives {}", show(&pool[i]), show(&got), show(&want));
                // results are expressions like any other
                if pool.len() < 24 && s.bool() {
                    o.label_if(show(&want.clone().simplify()) != show(&want), "result that can be simplified further");
                    pool.push(got);
                }
            }
            _ => {
                let j = s.usize(envs.len());
                if !seen.insert((i, j)) {
                    repeats += 1;
                }
                let want = pool[i].evaluate(&envs[j]);
                let got = pool[i].evaluate_cached(&envs[j]);
                evals += 1;
                ensure!(eval_same(&got, &want), "evaluate_cached", "evaluate_cached of {} at {} is {got:?}, evaluate gives {want:?}", show(&pool[i]), show_env(&envs[j]));
            }
        }
        let st = get_cache_stats();
        ensure!(st.evaluation_hits + st.evaluation_misses == evals && st.simplification_hits + st.simplification_misses == simps, "statistics", "after {evals} cached evaluations and {simps} cached simplifications the counters are {st:?}");
        let (hr, sr) = (st.evaluation_hit_rate(), st.simplification_hit_rate());
        let rate = |h: usize, n: usize| if n == 0 { 0.0 } else { h as f64 / n as f64 };
        ensure!(same(hr, rate(st.evaluation_hits, evals), 1e-12) && same(sr, rate(st.simplification_hits, simps), 1e-12), "hit rate", "hit rates {hr} and {sr} of {st:?}");
    }
    o.nontrivial(repeats > 0);
    o.note(|| format!("{steps} steps, {repeats} repeated evaluations"));
    Ok(())
}
/// Many different expressions and assignments, then all of them again.
fn c26_many(s: &mut Src, o: &mut Obs) -> R {
    clear_caches();
    let most = if s.chance(1, 300) { 70_000 } else if s.chance(1, 30) { 12_000 } else { 2500 };
    let n = 2 + s.size(most);
    let form = s.below(4);
    let k0 = s.range(-100, 100) as f64;
    let v = |n: &str| Expr::Var(n.into());
    // different constants, variables, shapes or assignments
    let make = |i: usize| -> (Expr, Env) {
        let c = k0 + i as f64 * 0.25;
        let env = |x: f64| -> Env { [("x".to_string(), x), (format!("v{i}"), x + 1.0)].into_iter().collect() };
        match form {
            0 => (Expr::add(v("x"), Expr::Const(c)), env(1.5)),
            1 => (Expr::mul(v(&format!("v{i}")), Expr::Const(1.0)), env(2.0 + c)),
            2 => (Expr::pow(Expr::add(v("x"), Expr::Const(0.0)), Expr::Const(2.0)), env(c)),
            _ => (Expr::sub(Expr::Const(c), Expr::sin(v("x"))), env(c)),
        }
    };
    o.nontrivial(true);
    o.label(match n { 0..=255 => "up to 255 entries", 256..=1023 => "256 to 1023 entries", 1024..=4095 => "1024 to 4095 entries", _ => "4096 or more entries" });
    o.note(|| format!("{n} entries of form {form} from {k0}, twice"));
    let want: Vec<(Result<f64, EvalError>, String)> = (0..n).map(|i| { let (x, e) = make(i); (x.evaluate(&e), show(&x.simplify())) }).collect();
    let mut r = s.fork();
    for pass in 0..2 {
        for j in 0..n {
            let i = if pass == 0 { j } else { r.usize(n) };
            let (x, e) = make(i);
            let got = x.evaluate_cached(&e);
            ensure!(eval_same(&got, &want[i].0), "evaluate_cached", "entry {i} of {n}, pass {pass}: evaluate_cached of {} at {} is {got:?}, evaluate gives {:?}", show(&x), show_env(&e), want[i].0);
            let got = show(&x.clone().simplify_cached());
            ensure!(got == want[i].1, "simplify_cached", "entry {i} of {n}, pass {pass}: simplify_cached of {} is {got}, simplify gives {}", show(&x), want[i].1);
        }
        let st = get_cache_stats();
        let m = (pass + 1) * n;
        ensure!(st.evaluation_hits + st.evaluation_misses == m && st.simplification_hits + st.simplification_misses == m, "statistics", "after {m} cached evaluations and {m} cached simplifications the counters are {st:?}");
    }
    clear_caches();
    Ok(())
}
fn c26_threads(s: &mut Src, o: &mut Obs) -> R {
    clear_caches();
    let pool = lookalikes(s);
    let envs = lookalike_envs(s);
    let nt = 2 + s.usize(6);
    let (np, ne) = (2 + s.usize(12), 1 + s.usize(5));
    let mut pool: Vec<Expr> = (0..np).map(|_| pool[s.usize(pool.len())].clone()).collect();
    for _ in 0..s.usize(4) {
        pool.push(shape(s, &Gen { names: &["x", "y"], tame: false, mild: true }));
    }
    let envs: Vec<Env> = (0..ne).map(|_| envs[s.usize(envs.len())].clone()).collect();
    let mut scripts: Vec<Vec<(u64, usize, usize)>> = vec![];
    for _ in 0..nt {
        let n = 5 + s.usize(60);
        scripts.push((0..n).map(|_| (s.below(24), s.usize(pool.len()), s.usize(envs.len()))).collect());
    }
    let clears = scripts.iter().flatten().filter(|x| x.0 == 0).count();
    o.label_if(clears > 0, "cleared while in use");
    o.nontrivial(true);
    o.note(|| format!("{nt} threads, {} operations", scripts.iter().map(Vec::len).sum::<usize>()));
    let want_e: Vec<Vec<Result<f64, EvalError>>> = pool.iter().map(|e| envs.iter().map(|v| e.evaluate(v)).collect()).collect();
    let want_s: Vec<String> = pool.iter().map(|e| show(&e.clone().simplify())).collect();
    let start = std::sync::Barrier::new(nt);
    let (tx, rx) = std::sync::mpsc::channel::<Result<(), Fail>>();
    std::thread::scope(|sc| {
        for script in &scripts {
            let tx = tx.clone();
            let (start, pool, envs, want_e, want_s) = (&start, &pool, &envs, &want_e, &want_s);
            sc.spawn(move || {
                start.wait();
                let r = (|| {
                    for (op, i, j) in script {
                        match op {
                            0 => clear_caches(),
                            1..=8 => {
                                let got = show(&pool[*i].clone().simplify_cached());
                                ensure!(got == want_s[*i], "simplify_cached", "with {nt} threads, simplify_cached of {} is {got}, simplify gives {}", show(&pool[*i]), want_s[*i]);
                            }
                            9 => {
                                let st = get_cache_stats();
                                let (a, b) = (st.evaluation_hit_rate(), st.simplification_hit_rate());
                                ensure!((0.0..=1.0).contains(&a) && (0.0..=1.0).contains(&b), "hit rate", "hit rates {a} and {b}");
                            }
                            _ => {
                                let got = pool[*i].evaluate_cached(&envs[*j]);
                                ensure!(eval_same(&got, &want_e[*i][*j]), "evaluate_cached", "with {nt} threads, evaluate_cached of {} at {} is {got:?}, evaluate gives {:?}", show(&pool[*i]), show_env(&envs[*j]), want_e[*i][*j]);
                            }
                        }
                    }
                    Ok(())
                })();
                let _ = tx.send(r);
            });
        }
    });
    drop(tx);
    let mut n = 0;
    for r in rx {
        r?;
        n += 1;
    }
    ensure!(n == nt, "thread", "a thread did not finish");
    if clears == 0 {
        let st = get_cache_stats();
        let e = scripts.iter().flatten().filter(|x| x.0 > 9).count();
        let m = scripts.iter().flatten().filter(|x| (1..=8).contains(&x.0)).count();
        ensure!(st.evaluation_hits + st.evaluation_misses == e && st.simplification_hits + st.simplification_misses == m, "statistics", "after {e} cached evaluations and {m} cached simplifications by {nt} threads the counters are {st:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

/// Reads formulas by the usual rules of precedence; `tex` selects LaTeX.
pub struct Reader<'a> {
    t: &'a [u8],
    i: usize,
    tex: bool,
}
type P<T> = Result<T, String>;
impl<'a> Reader<'a> {
    pub fn read(text: &'a str, tex: bool) -> P<Expr> {
        let mut r = Reader { t: text.as_bytes(), i: 0, tex };
        let e = r.sum()?;
        r.ws();
        if r.i < r.t.len() {
            return Err(format!("unexpected {:?}", String::from_utf8_lossy(&r.t[r.i..])));
        }
        Ok(e)
    }
    fn ws(&mut self) {
        while self.i < self.t.len() && (self.t[self.i] == b' ' || self.t[self.i..].starts_with(b"\\,")) {
            self.i += if self.t[self.i] == b' ' { 1 } else { 2 };
        }
    }
    fn eat(&mut self, w: &str) -> bool {
        self.ws();
        if self.t[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, w: &str) -> P<()> {
        if self.eat(w) { Ok(()) } else { Err(format!("{w:?} expected at {:?}", String::from_utf8_lossy(&self.t[self.i..]))) }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.t.get(self.i).copied().unwrap_or(0)
    }
    fn sum(&mut self) -> P<Expr> {
        let mut e = if self.eat("-") { Expr::neg(self.product()?) } else { self.product()? };
        loop {
            if self.eat("+") {
                e = Expr::add(e, self.signed()?);
            } else if self.eat("-") {
                e = Expr::sub(e, self.signed()?);
            } else {
                return Ok(e);
            }
        }
    }
    /// after a binary operator a minus sign still binds more loosely than a product
    fn signed(&mut self) -> P<Expr> {
        if self.eat("-") { Ok(Expr::neg(self.signed_product()?)) } else { self.product() }
    }
    fn signed_product(&mut self) -> P<Expr> {
        if self.eat("-") { Ok(Expr::neg(self.signed_product()?)) } else { self.product() }
    }
    fn product(&mut self) -> P<Expr> {
        let mut e = self.unary()?;
        loop {
            if self.tex {
                if self.eat("\\cdot") || self.eat("\\times") {
                    e = Expr::mul(e, self.unary()?);
                } else if self.juxtaposed() {
                    e = Expr::mul(e, self.power()?);
                } else {
                    return Ok(e);
                }
            } else if self.eat("*") {
                e = Expr::mul(e, self.unary()?);
            } else if self.eat("/") {
                e = Expr::div(e, self.unary()?);
            } else {
                return Ok(e);
            }
        }
    }
    fn juxtaposed(&mut self) -> bool {
        let c = self.peek();
        c.is_ascii_alphanumeric() || c == b'\\' || c == b'(' || c == b'.'
    }
    fn unary(&mut self) -> P<Expr> {
        if self.eat("-") { Ok(Expr::neg(self.unary()?)) } else { self.power() }
    }
    fn power(&mut self) -> P<Expr> {
        let b = self.atom()?;
        if self.eat("^") {
            let e = if self.tex && self.eat("{") {
                let e = self.sum()?;
                self.need("}")?;
                e
            } else {
                self.unary()?
            };
            if self.tex && self.peek() == b'^' {
                return Err("two superscripts".into());
            }
            return Ok(Expr::pow(b, e));
        }
        Ok(b)
    }
    fn group(&mut self, open: &str, close: &str) -> P<Expr> {
        self.need(open)?;
        let e = self.sum()?;
        self.need(close)?;
        Ok(e)
    }
    fn atom(&mut self) -> P<Expr> {
        let c = self.peek();
        if c == b'(' {
            return self.group("(", ")");
        }
        if c.is_ascii_digit() || c == b'.' {
            let st = self.i;
            while self.i < self.t.len() && (self.t[self.i].is_ascii_digit() || self.t[self.i] == b'.') {
                self.i += 1;
            }
            // an exponent part, in plain text only
            if !self.tex && self.i + 1 < self.t.len() && (self.t[self.i] | 32) == b'e' && (self.t[self.i + 1].is_ascii_digit() || self.t[self.i + 1] == b'-') {
                self.i += 2;
                while self.i < self.t.len() && self.t[self.i].is_ascii_digit() {
                    self.i += 1;
                }
            }
            let w = std::str::from_utf8(&self.t[st..self.i]).unwrap();
            return w.parse().map(Expr::Const).map_err(|e| format!("number {w:?}: {e}"));
        }
        if self.tex {
            for (w, f) in [("\\left(", 0), ("\\ln", 1), ("\\sin", 2), ("\\cos", 3), ("\\log", 1)] {
                if self.eat(w) {
                    if f == 0 {
                        let e = self.sum()?;
                        self.need("\\right)")?;
                        return Ok(e);
                    }
                    let a = if self.eat("\\left(") {
                        let e = self.sum()?;
                        self.need("\\right)")?;
                        e
                    } else {
                        self.group("(", ")")?
                    };
                    return Ok(match f {
                        1 => Expr::ln(a),
                        2 => a.sin(),
                        _ => a.cos(),
                    });
                }
            }
            if self.eat("\\frac") {
                let a = self.group("{", "}")?;
                let b = self.group("{", "}")?;
                return Ok(Expr::div(a, b));
            }
            if self.eat("\\sqrt") {
                return Ok(Expr::sqrt(self.group("{", "}")?));
            }
            if self.eat("\\exp") {
                return Ok(Expr::exp(self.group("(", ")")?));
            }
            if self.t[self.i..].starts_with(b"e^") {
                self.i += 2;
                return Ok(Expr::exp(self.group("{", "}")?));
            }
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = self.i;
            while self.i < self.t.len() && (self.t[self.i].is_ascii_alphanumeric() || self.t[self.i] == b'_') {
                self.i += 1;
            }
            let w = String::from_utf8_lossy(&self.t[st..self.i]).into_owned();
            if !self.tex && self.peek() == b'(' {
                let a = self.group("(", ")")?;
                return match w.as_str() {
                    "ln" | "log" => Ok(Expr::ln(a)),
                    "exp" => Ok(Expr::exp(a)),
                    "sqrt" => Ok(Expr::sqrt(a)),
                    "sin" => Ok(a.sin()),
                    "cos" => Ok(a.cos()),
                    _ => Err(format!("function {w}")),
                };
            }
            return Ok(Expr::Var(w));
        }
        Err(format!("cannot read {:?}", String::from_utf8_lossy(&self.t[self.i..])))
    }
}
fn c21_expr(s: &mut Src, depth: usize) -> (Expr, Vec<&'static str>) {
    let ns = some_names(s, 3, false);
    let g = Gen { names: &ns, tame: s.chance(3, 4), mild: s.chance(2, 3) };
    let d = 1 + s.usize(depth);
    let x = match s.below(40) {
        0..10 => texty(s, &ns, d.min(4)),
        // Nesting stays within what Python's parser accepts
        10 => { let n = s.size(60); long(s, &g, n.max(1)) }
        _ => expr(s, &g, d),
    };
    (x, ns)
}
/// Shapes in which precedence matters.
fn texty(s: &mut Src, ns: &[&'static str], d: usize) -> Expr {
    if d == 0 {
        return match s.below(3) {
            0 => Expr::Var(ns[s.usize(ns.len())].into()),
            1 => Expr::Const(s.pick(&[-2.0, -1.0, 1.0, 3.0, 0.5, -0.5, 2.0, -3.0])),
            _ => Expr::neg(Expr::Var(ns[s.usize(ns.len())].into())),
        };
    }
    let a = texty(s, ns, d - 1);
    match s.below(8) {
        0 => Expr::pow(a, Expr::Const(s.pick(&[2.0, -1.0, 3.0, -2.0, 0.5]))),
        1 => Expr::pow(a, texty(s, ns, d - 1)),
        2 => Expr::neg(a),
        3 => Expr::mul(a, texty(s, ns, d - 1)),
        4 => Expr::sub(a, texty(s, ns, d - 1)),
        5 => Expr::div(a, texty(s, ns, d - 1)),
        6 => Expr::add(a, texty(s, ns, d - 1)),
        _ => Expr::mul(Expr::Const(s.pick(&[-1.0, 1.0, 2.0, -2.0, 0.5])), a),
    }
}
fn c21_read(s: &mut Src, o: &mut Obs) -> R {
    let (x, ns) = c21_expr(s, 5);
    o.note(|| show(&x));
    let display = format!("{x}");
    let latex = x.to_latex();
    let dl = symbolic_math::display::latex(&x);
    let pretty = format!("{}", symbolic_math::display::PrettyExpr(&x));
    let eq = symbolic_math::display::equation("f", &x);
    let Some(dl) = dl.strip_prefix('$').and_then(|t| t.strip_suffix('$')) else { bail!("display::latex", "not between dollar signs: {dl}") };
    let Some(eq) = eq.strip_prefix("f = ") else { bail!("equation", "not an equation: {eq}") };
    let mut forms: BTreeMap<&str, (&str, Expr)> = BTreeMap::new();
    for (what, text, tex) in [("Display", display.as_str(), false), ("to_latex", &latex, true), ("display::latex", dl, true), ("PrettyExpr", &pretty, false), ("equation", eq, false)] {
        match Reader::read(text, tex) {
            Ok(e) => {
                forms.insert(what, (text, e));
            }
            Err(e) => bail!(what, "{what} of {} is {text:?}, which cannot be read: {e}", show(&x)),
        }
    }
    for _ in 0..4 {
        let env: Env = if s.bool() { positive_env(s, &ns) } else { env_for(s, &ns, false) };
        let out = M64.eval(&x, &env);
        labels(o, &x, &out);
        if !out.crisp() {
            continue;
        }
        o.nontrivial(operations(&x) > 2);
        for (what, (text, e)) in &forms {
            let o2 = M64.eval(e, &env);
            if o2.maybe && o2.errs.is_empty() {
                continue;
            }
            let tol = 4.0 * (out.av.e + o2.av.e) + 1e-280;
            let ok = o2.errs.is_empty() && (!tol.is_finite() || (out.av.v - o2.av.v).abs() <= tol);
            ensure!(ok, what, "{what} of {} is {text:?}, which reads as {}: at {} they are {:?} and {:?}{}", show(&x), show(e), show_env(&env), out.av.v, o2.av.v, if o2.errs.is_empty() { String::new() } else { format!(" ({:?})", o2.errs) });
        }
    }
    Ok(())
}
/// Python runs the generated source.
fn c21_python(s: &mut Src, o: &mut Obs) -> R {
    use std::fmt::Write as _;
    use std::io::Write as _;
    let mut prog = String::from("import math\ndef run(f, *a):\n    try:\n        v = f(*a)\n    except Exception as e:\n        return type(e).__name__\n    return repr(v)\n");
    let n = 1 + s.usize(if o.thorough { 60 } else { 25 });
    let mut cases = vec![];
    for i in 0..n {
        let (x, ns) = c21_expr(s, 5);
        let py = x.to_python();
        let lam = symbolic_math::display::python(&x);
        let _ = writeln!(prog, "def f{i}({}):\n    return {py}\ng{i} = {lam}", ns.join(", "));
        for _ in 0..3 {
            let env: Env = if s.bool() { positive_env(s, &ns) } else { env_for(s, &ns, false).into_iter().filter(|(k, _)| k != "unused").collect() };
            let args: Vec<String> = ns.iter().map(|v| format!("{:?}", env[*v])).collect();
            let dict: Vec<String> = ns.iter().map(|v| format!("{v:?}: {:?}", env[*v])).collect();
            let globals: Vec<String> = ns.iter().map(|v| format!("{v} = {:?}", env[*v])).collect();
            let _ = writeln!(prog, "{}\nprint(run(f{i}, {}), run(g{i}, {{{}}}))", globals.join("; "), args.join(", "), dict.join(", "));
            cases.push((x.clone(), py.clone(), lam.clone(), env));
        }
    }
    o.note(|| cases[0].1.clone());
    let mut ch = std::process::Command::new("python3")
        .args(["-I", "-S", "-"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("python3 starts");
    let mut pipe = ch.stdin.take().unwrap();
    let text = prog.clone();
    let w = std::thread::spawn(move || {
        let _ = pipe.write_all(text.as_bytes());
    });
    let res = ch.wait_with_output().expect("python3 runs");
    let _ = w.join();
    let lines: Vec<&str> = std::str::from_utf8(&res.stdout).unwrap_or("").lines().collect();
    ensure!(
        res.status.success() && lines.len() == cases.len(),
        "to_python",
        "the generated Python does not run ({}): {}\n{}",
        res.status,
        String::from_utf8_lossy(&res.stderr).lines().rev().take(4).collect::<Vec<_>>().join(" | "),
        cases[lines.len().min(cases.len() - 1)].1
    );
    for (line, (x, py, lam, env)) in lines.iter().zip(&cases) {
        let out = M64.eval(x, env);
        labels(o, x, &out);
        if !out.crisp() || overflows(x, env) {
            continue;
        }
        o.nontrivial(operations(x) > 2);
        let mut it = line.split(' ');
        for (what, src) in [("to_python", py), ("display::python", lam)] {
            let got = it.next().unwrap_or("");
            let ok = got.parse::<f64>().is_ok_and(|v| (v - out.av.v).abs() <= 4.0 * out.av.e + out.av.v.abs() * 1e-15 || v == out.av.v);
            ensure!(ok, what, "{what} of {} is {src:?}; at {} Python gives {got}, expected {:?} (within {:e})", show(x), show_env(env), out.av.v, out.av.e);
        }
    }
    Ok(())
}
/// Some part overflows or is complex: Python stops where floating point carries on.
fn overflows(x: &Expr, env: &Env) -> bool {
    let v = M64.eval(x, env);
    if !v.av.v.is_finite() || v.av.v.abs() > 1e290 || v.maybe {
        return true;
    }
    match x {
        Expr::Const(_) | Expr::Var(_) => false,
        Expr::Pow(l, r) => {
            let (a, b) = (M64.eval(l, env).av, M64.eval(r, env).av);
            // zero to a negative power, or a base that might not be positive
            (a.v.abs() <= a.e && b.v - b.e < 0.0) || overflows(l, env) || overflows(r, env)
        }
        Expr::Add(l, r) | Expr::Sub(l, r) | Expr::Mul(l, r) | Expr::Div(l, r) => overflows(l, env) || overflows(r, env),
        Expr::Ln(i) | Expr::Exp(i) | Expr::Sqrt(i) | Expr::Sin(i) | Expr::Cos(i) | Expr::Neg(i) => overflows(i, env),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            facets: vec![
                facet("evaluate", 200_000, 8_000_000, "more than three nodes and a value known to be defined or undefined", c17_eval),
                facet("routes", 150_000, 6_000_000, "more than three nodes and a value known to be defined or undefined", c17_routes),
                facet("many", 1_000, 60_000, "two or more values of a variable that occurs", c17_many),
                facet("grid", 50_000, 2_000_000, "a grid of at least 2 by 2 and both variables used", c17_grid),
                facet("structure", 30_000, 1_000_000, "more than three nodes", c17_structure),
                facet("macros", 10_000, 200_000, "two different values", c17_macros),
            ],
            assumptions: &["variables have finite values", "results within the propagated rounding error of the edge of an operation's domain, or beyond 1e290, are not judged unless bit-equal"],
        },
        Prop {
            id: "C18",
            facets: vec![
                facet("random", 150_000, 6_000_000, "simplification changed the expression, which has variables and a value", c18),
                Facet { enumerated: true, ..facet("small", SMALL_N, SMALL_N, "simplification changed the expression, which has variables and a value", c18_small) },
            ],
            assumptions: &["variables are positive"],
        },
        Prop {
            id: "C21",
            facets: vec![
                facet("read-back", 100_000, 5_000_000, "more than two operations and a value", c21_read),
                facet("python", 1_200, 60_000, "more than two operations and a value", c21_python),
            ],
            assumptions: &["no variable is called e; variables are Python identifiers", "constants are finite", "Python is compared only where no part overflows"],
        },
        Prop {
            id: "C24",
            facets: vec![facet("bindings", 100_000, 4_000_000, "some variables of the expression are bound as parameters and some are not", c24)],
            assumptions: &["variables have finite values"],
        },
        Prop {
            id: "C26",
            facets: vec![
                facet("histories", 15_000, 400_000, "some evaluation is repeated", c26_history),
                facet("many", 60, 3_000, "always", c26_many),
                facet("threads", 2_000, 60_000, "always", c26_threads),
            ],
            assumptions: &["thread schedules are those the operating system produces"],
        },
    ]
}
