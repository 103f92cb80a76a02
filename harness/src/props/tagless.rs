//! C22: programs written against the abstract expression interface.
use crate::oracle as or;
use crate::props::symbolic::Reader;
use crate::runner::*;
use crate::src::Src;
use crate::sym::*;
use crate::{bail, ensure};
use measures_distributions::distributions::final_tagless::DistributionEval;
use measures_exponential_family::final_tagless::{ExpFamEval, ExponentialFamilyExpr};
use num_traits::Float;
use std::collections::HashMap;
use symbolic_math::Expr;
use symbolic_math::final_tagless::{JITEval, JITRepr};

/// The program that an expression tree stands for, written once against the interface of a crate.
macro_rules! programs {
    ($name:ident, $($krate:ident)::+) => {
        pub mod $name {
            use num_traits::Float;
            use symbolic_math::Expr;
            use $($krate)::+::{MathExpr, NumericType};
            pub fn build<E: MathExpr, T: NumericType + Float>(x: &Expr, c: &dyn Fn(f64) -> T, var: &dyn Fn(&str) -> E::Repr<T>) -> E::Repr<T> {
                let b = |y: &Expr| build::<E, T>(y, c, var);
                match x {
                    Expr::Const(v) => E::constant(c(*v)),
                    Expr::Var(n) => var(n),
                    Expr::Add(l, r) => E::add::<T, T, T>(b(l), b(r)),
                    Expr::Sub(l, r) => E::sub::<T, T, T>(b(l), b(r)),
                    Expr::Mul(l, r) => E::mul::<T, T, T>(b(l), b(r)),
                    Expr::Div(l, r) => E::div::<T, T, T>(b(l), b(r)),
                    Expr::Pow(l, r) => E::pow::<T>(b(l), b(r)),
                    Expr::Ln(i) => E::ln::<T>(b(i)),
                    Expr::Exp(i) => E::exp::<T>(b(i)),
                    Expr::Sqrt(i) => E::sqrt::<T>(b(i)),
                    Expr::Sin(i) => E::sin::<T>(b(i)),
                    Expr::Cos(i) => E::cos::<T>(b(i)),
                    Expr::Neg(i) => E::neg::<T>(b(i)),
                }
            }
        }
    };
}
programs!(sm, symbolic_math::final_tagless);
programs!(mj, mathjit::final_tagless);

fn near(out: &Out, got: f64) -> bool {
    (got - out.av.v).abs() <= 4.0 * out.av.e || (out.av.e.is_infinite() && !got.is_nan())
}
fn to32(c: f64) -> f32 {
    c.clamp(-1e30, 1e30) as f32
}
/// The same tree with constants of single precision.
fn single(x: &Expr) -> Expr {
    let b = |y: &Expr| Box::new(single(y));
    match x {
        Expr::Const(c) => Expr::Const(f64::from(to32(*c))),
        Expr::Var(v) => Expr::Var(v.clone()),
        Expr::Add(l, r) => Expr::Add(b(l), b(r)),
        Expr::Sub(l, r) => Expr::Sub(b(l), b(r)),
        Expr::Mul(l, r) => Expr::Mul(b(l), b(r)),
        Expr::Div(l, r) => Expr::Div(b(l), b(r)),
        Expr::Pow(l, r) => Expr::Pow(b(l), b(r)),
        Expr::Ln(i) => Expr::Ln(b(i)),
        Expr::Exp(i) => Expr::Exp(b(i)),
        Expr::Sqrt(i) => Expr::Sqrt(b(i)),
        Expr::Sin(i) => Expr::Sin(b(i)),
        Expr::Cos(i) => Expr::Cos(b(i)),
        Expr::Neg(i) => Expr::Neg(b(i)),
    }
}
fn constants(x: &Expr) -> usize {
    match x {
        Expr::Const(_) => 1,
        Expr::Var(_) => 0,
        Expr::Add(l, r) | Expr::Sub(l, r) | Expr::Mul(l, r) | Expr::Div(l, r) | Expr::Pow(l, r) => constants(l) + constants(r),
        Expr::Ln(i) | Expr::Exp(i) | Expr::Sqrt(i) | Expr::Sin(i) | Expr::Cos(i) | Expr::Neg(i) => constants(i),
    }
}
fn compile(what: &str, r: JITRepr) -> Result<(Vec<String>, symbolic_math::GeneralJITFunction), Fail> {
    let mut names: Vec<String> = r.collect_variables().into_iter().collect();
    names.sort();
    match JITEval::compile_with_signature(r, &names, &[]) {
        Ok(f) => Ok((names, f)),
        Err(e) => bail!(what, "{what} cannot be compiled: {e}"),
    }
}
fn call(names: &[String], f: &symbolic_math::GeneralJITFunction, env: &Env) -> f64 {
    let args: Vec<f64> = names.iter().map(|n| env[n]).collect();
    if args.len() == 1 { f.call_single(args[0]) } else { f.call_batch(&args, &[]) }
}
fn programs(s: &mut Src, o: &mut Obs) -> R {
    let ns = some_names(s, 3, false);
    let g = Gen { names: &ns, tame: s.chance(3, 4), mild: s.chance(3, 4) };
    let d = 1 + s.usize(5);
    let x = any_expr(s, &g, d, 200, 150);
    let x32 = single(&x);
    o.note(|| show(&x));
    // printed forms
    let p1 = sm::build::<symbolic_math::final_tagless::PrettyPrint, f64>(&x, &|c| c, &|n| n.to_string());
    let p2 = mj::build::<mathjit::final_tagless::PrettyPrint, f64>(&x, &|c| c, &|n| n.to_string());
    let p3 = sm::build::<symbolic_math::final_tagless::PrettyPrint, f32>(&x, &|c| to32(c), &|n| n.to_string());
    let p4 = mj::build::<mathjit::final_tagless::PrettyPrint, f32>(&x, &|c| to32(c), &|n| n.to_string());
    let mut forms = vec![];
    for (what, text, one) in [("PrettyPrint", p1, false), ("mathjit PrettyPrint", p2, false), ("PrettyPrint of f32", p3, true), ("mathjit PrettyPrint of f32", p4, true)] {
        match Reader::read(&text, false) {
            Ok(e) => forms.push((what, text, e, one)),
            Err(e) => bail!(what, "{what} of {} is {text:?}, which cannot be read: {e}", show(&x)),
        }
    }
    // compiled forms
    let r64 = sm::build::<JITEval, f64>(&x, &|c| c, &JITEval::var);
    let r32 = sm::build::<JITEval, f32>(&x, &|c| to32(c), &JITEval::var);
    for r in [&r64, &r32] {
        let names: std::collections::BTreeSet<String> = r.collect_variables().into_iter().collect();
        let want: std::collections::BTreeSet<String> = vars(&x).into_iter().map(|n| n.to_string()).collect();
        ensure!(names == want, "collect_variables", "collect_variables of {} gives {names:?}", show(&x));
        ensure!(r.count_constants() == constants(&x), "count_constants", "count_constants of {} gives {}, expected {}", show(&x), r.count_constants(), constants(&x));
    }
    let jit = s.chance(1, 3);
    let j = if jit { Some((compile("JITEval", r64)?, compile("JITEval of f32", r32)?)) } else { None };
    for _ in 0..3 {
        let mut env = Env::new();
        for n in &ns {
            let v = if s.bool() { value(s) } else { positive_value(s) };
            env.insert((*n).to_string(), v);
        }
        let env32: Env = env.iter().map(|(k, v)| (k.clone(), f64::from(*v as f32))).collect();
        let out = M64.eval(&x, &env);
        let out32 = M32.eval(&x32, &env32);
        let mix = MIX.eval(&x32, &env32);
        o.label_if(out.crisp(), "f64 value");
        o.label_if(out32.crisp(), "f32 value");
        o.label_if(jit && out.crisp(), "compiled");
        o.nontrivial(out.crisp() && operations(&x) > 1 && !vars(&x).is_empty());
        if out.crisp() {
            let v = |n: &str| env[n];
            let got = [
                ("DirectEval", sm::build::<symbolic_math::final_tagless::DirectEval, f64>(&x, &|c| c, &v)),
                ("ExpFamEval", sm::build::<ExpFamEval, f64>(&x, &|c| c, &v)),
                ("DistributionEval", sm::build::<DistributionEval, f64>(&x, &|c| c, &v)),
                ("mathjit DirectEval", mj::build::<mathjit::final_tagless::DirectEval, f64>(&x, &|c| c, &v)),
            ];
            for (what, got) in got {
                ensure!(near(&out, got), what, "{what} gives {got:?} for {} at {}, expected {:?} (error bound {:e})", show(&x), show_env(&env), out.av.v, out.av.e);
            }
            for (what, text, e, one) in &forms {
                if *one {
                    continue;
                }
                let o2 = M64.eval(e, &env);
                if o2.maybe && o2.errs.is_empty() {
                    continue;
                }
                let tol = 4.0 * (out.av.e + o2.av.e);
                ensure!(o2.errs.is_empty() && (!tol.is_finite() || (out.av.v - o2.av.v).abs() <= tol), *what, "{what} of {} is {text:?}, which reads as {}: at {} they are {:?} and {:?}", show(&x), show(e), show_env(&env), out.av.v, o2.av.v);
            }
            if let Some(((names, f), _)) = &j {
                let got = call(names, f, &env);
                ensure!(near(&out, got), "JITEval", "JITEval gives {got:?} for {} at {}, expected {:?} (error bound {:e})", show(&x), show_env(&env), out.av.v, out.av.e);
            }
        }
        if out32.crisp() {
            let v = |n: &str| env32[n] as f32;
            let got = [
                ("DirectEval of f32", sm::build::<symbolic_math::final_tagless::DirectEval, f32>(&x, &|c| to32(c), &v)),
                ("ExpFamEval of f32", sm::build::<ExpFamEval, f32>(&x, &|c| to32(c), &v)),
                ("DistributionEval of f32", sm::build::<DistributionEval, f32>(&x, &|c| to32(c), &v)),
                ("mathjit DirectEval of f32", mj::build::<mathjit::final_tagless::DirectEval, f32>(&x, &|c| to32(c), &v)),
            ];
            for (what, got) in got {
                ensure!(near(&out32, f64::from(got)), what, "{what} gives {got:?} for {} at {}, expected {:?} (error bound {:e})", show(&x32), show_env(&env32), out32.av.v, out32.av.e);
            }
        }
        if mix.crisp() {
            for (what, text, e, one) in &forms {
                if !*one {
                    continue;
                }
                let o2 = MIX.eval(&single(e), &env32);
                if o2.maybe && o2.errs.is_empty() {
                    continue;
                }
                let tol = 4.0 * (mix.av.e + o2.av.e);
                ensure!(o2.errs.is_empty() && (!tol.is_finite() || (mix.av.v - o2.av.v).abs() <= tol), *what, "{what} of {} is {text:?}, which reads as {}: at {} they are {:?} and {:?}", show(&x32), show(e), show_env(&env32), mix.av.v, o2.av.v);
            }
            if let Some((_, (names, f))) = &j {
                let got = call(names, f, &env32);
                ensure!(near(&mix, got), "JITEval of f32", "JITEval of f32 gives {got:?} for {} at {}, expected {:?} (error bound {:e})", show(&x32), show_env(&env32), mix.av.v, mix.av.e);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ polynomials

use mathjit::final_tagless::{DirectEval as MD, MathExpr as _, PrettyPrint as MP, polynomial as poly};

/// Exact: polynomials over the integers.
fn poly_int(s: &mut Src, o: &mut Obs) -> R {
    let n = if s.chance(1, 300) { s.size(1500) } else if s.chance(1, 30) { s.size(55) } else { s.usize(8) };
    let big = n > 7;
    let huge = n > 55; // a product of that many factors would overflow, and reading the printed form nests too deep
    let cs: Vec<i64> = (0..n).map(|_| if big { s.range(-1, 1) } else { s.range(-20, 20) }).collect();
    let x = if big { s.range(-1, 1) } else { s.range(-25, 25) };
    o.label_if(n > 16, "more than 16 coefficients");
    o.note(|| format!("coefficients or roots {cs:?} at {x}"));
    o.nontrivial(n >= 2 && x != 0);
    let mut v = 0i64;
    let mut dv = 0i64;
    let mut p = 1i64;
    let mut q = 0i64;
    for (i, c) in cs.iter().enumerate() {
        v += c * p;
        dv += c * q * i as i64;
        q = p;
        p *= x;
    }
    let got = poly::horner::<MD, i64>(&cs, x);
    ensure!(got == v, "horner", "horner of {cs:?} at {x} is {got}, expected {v}");
    let es: Vec<i64> = cs.iter().map(|c| MD::constant(*c)).collect();
    let got = poly::horner_expr::<MD, i64>(&es, x);
    ensure!(got == v, "horner_expr", "horner_expr of {cs:?} at {x} is {got}, expected {v}");
    let got = poly::horner_derivative::<MD, i64>(&cs, x);
    ensure!(got == dv, "horner_derivative", "horner_derivative of {cs:?} at {x} is {got}, expected {dv}");
    if huge {
        let r: i64 = cs.iter().product::<i64>() * if n % 2 == 0 { 1 } else { -1 };
        let got = poly::from_roots::<MD, i64>(&cs, 0);
        ensure!(got == r, "from_roots", "from_roots of {cs:?} at 0 is {got}, expected {r}");
        return Ok(());
    }
    let r: i64 = cs.iter().map(|c| x - c).product();
    let got = poly::from_roots::<MD, i64>(&cs, x);
    ensure!(got == r, "from_roots", "from_roots of {cs:?} at {x} is {got}, expected {r}");
    // printed, and read back
    let env: Env = [("x".to_string(), x as f64)].into_iter().collect();
    let fs: Vec<f64> = cs.iter().map(|c| *c as f64).collect();
    let es: Vec<String> = fs.iter().map(|c| MP::constant(*c)).collect();
    for (what, text, want) in [
        ("horner", poly::horner::<MP, f64>(&fs, "x".into()), v),
        ("horner_expr", poly::horner_expr::<MP, f64>(&es, "x".into()), v),
        ("horner_derivative", poly::horner_derivative::<MP, f64>(&fs, "x".into()), dv),
        ("from_roots", poly::from_roots::<MP, f64>(&fs, "x".into()), r),
        ("horner", poly::horner::<MP, i64>(&cs, "x".into()), v),
        ("from_roots", poly::from_roots::<MP, i64>(&cs, "x".into()), r),
    ] {
        match Reader::read(&text, false) {
            Ok(e) => {
                let got = M64.eval(&e, &env);
                ensure!(got.defined() && got.av.v == want as f64, what, "{what} of {cs:?} prints as {text:?}, which is {:?} at {x}, expected {want}", got.av.v);
            }
            Err(e) => bail!(what, "{what} prints as {text:?}, which cannot be read: {e}"),
        }
    }
    Ok(())
}
fn poly_of<T>(s: &mut Src, o: &mut Obs, unit: f64, mag: f64, c: fn(f64) -> T, f: fn(T) -> f64) -> R
where
    T: mathjit::final_tagless::NumericType + Float + num_traits::FromPrimitive,
{
    let n = if s.chance(1, 300) { s.size(2000) } else if s.chance(1, 30) { s.size(100) } else { s.usize(12) };
    let big = n > 11;
    let mag = if big { 1.0 } else { mag };
    let cs: Vec<T> = (0..n).map(|_| c(if s.chance(1, 8) { 0.0 } else { s.real(1e-3, mag) })).collect();
    let x = c(if s.chance(1, 12) { 0.0 } else if n > 100 { s.uniform(0.98, 1.01) } else if big { s.uniform(0.5, 1.5) } else { s.real(1e-3, 1e2) });
    o.label_if(n > 16, "more than 16 coefficients");
    let xf = f(x);
    let fs: Vec<f64> = cs.iter().map(|v| f(*v)).collect();
    o.note(|| format!("coefficients or roots {fs:?} at {xf}"));
    o.nontrivial(n >= 2 && xf != 0.0);
    let (mut v, mut m, mut dv, mut dm) = (0.0, 0.0, 0.0, 0.0);
    for (i, c) in fs.iter().enumerate() {
        let t = c * xf.powi(i as i32);
        v += t;
        m += t.abs();
        if i > 0 {
            let t = c * i as f64 * xf.powi(i as i32 - 1);
            dv += t;
            dm += t.abs();
        }
    }
    let u = unit * (4.0 + 3.0 * n as f64);
    let chk = |what: &str, got: T, want: f64, tol: f64| -> R {
        ensure!((f(got) - want).abs() <= tol + 1e-30, what, "{what} of {fs:?} at {xf} is {}, expected {want} (tolerance {tol:e})", f(got));
        Ok(())
    };
    chk("horner", poly::horner::<MD, T>(&cs, x), v, u * m)?;
    chk("horner_expr", poly::horner_expr::<MD, T>(&cs, x), v, u * m)?;
    chk("horner_derivative", poly::horner_derivative::<MD, T>(&cs, x), dv, u * dm)?;
    let r: f64 = fs.iter().map(|c| xf - c).product();
    if n > 100 && !(1e-30..1e30).contains(&fs.iter().map(|c| xf - c).fold((1f64, 1f64), |(p, w), d| (p * d, if (p * d).abs().ln().abs() > w.ln().abs() { (p * d).abs() } else { w })).1) {
        return Ok(()); // the partial products leave the range of the number type
    }
    chk("from_roots", poly::from_roots::<MD, T>(&cs, x), r, u * r.abs())
}
fn poly_64(s: &mut Src, o: &mut Obs) -> R {
    poly_of::<f64>(s, o, 2.3e-16, 1e6, |v| v, |v| v)
}
fn poly_32(s: &mut Src, o: &mut Obs) -> R {
    poly_of::<f32>(s, o, 1.3e-7, 1e1, |v| v as f32, f64::from)
}

// ------------------------------------------------------------------ helpers

fn softplus_ok(o: &mut Obs, what: &str, x: f64, got: f64, unit: f64, big: f64) -> R {
    let e = or::softplus(x);
    if x > big && got == f64::INFINITY {
        return o.known("exp-range", || format!("{what}({x}) is inf, expected {e}"));
    }
    ensure!((got - e).abs() <= 40.0 * unit * (1.0 + e.abs()), what, "{what}({x}) is {got}, expected {e}");
    Ok(())
}
fn logistic_ok(what: &str, x: f64, got: f64, unit: f64) -> R {
    let e = or::sigmoid(x);
    ensure!((got - e).abs() <= 20.0 * unit * (1.0 + x.abs()) * e + if unit > 1e-10 { 1e-37 } else { 1e-300 }, what, "{what}({x}) is {got}, expected {e}");
    Ok(())
}
fn lse_ok(o: &mut Obs, what: &str, xs: &[f64], got: f64, unit: f64, big: f64) -> R {
    let e = or::log_sum_exp(xs);
    let m = xs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    if xs.len() > 1 && ((m > big - 3.0 && got == f64::INFINITY) || (m.is_finite() && m < 3.0 - big && (got == f64::NEG_INFINITY || (got - e).abs() < 1.0 + 1e-6 * e.abs()))) {
        if (got - e).abs() <= 1e-5 * e.abs() {
            return Ok(());
        }
        return o.known("exp-range", || format!("{what}({xs:?}) is {got}, expected {e}"));
    }
    // the exponentials are rounded relative to the size of their arguments
    ensure!(got == e || (got - e).abs() <= 20.0 * unit * (xs.len() as f64 + m.abs()), what, "{what} of {xs:?} is {got}, expected {e}");
    Ok(())
}
fn at(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.pick(&[0.0, -0.0, 1.0, -1.0, 709.0, 710.0, -745.0, -710.0, 800.0, -800.0, 36.0, -37.0, 88.0, 89.0, -88.0, -104.0]),
        1 => s.uniform(-1000.0, 1000.0),
        2 => s.real(1e-20, 1e20),
        _ => s.uniform(-40.0, 40.0),
    }
}
fn read(what: &str, text: &str, env: &Env) -> Result<f64, Fail> {
    match Reader::read(text, false) {
        Ok(e) => Ok(plain(&e, env)),
        Err(e) => bail!(what, "{what} prints as {text:?}, which cannot be read: {e}"),
    }
}
/// Floating-point value with infinities.
fn plain(x: &Expr, env: &Env) -> f64 {
    let p = |y: &Expr| plain(y, env);
    match x {
        Expr::Const(c) => *c,
        Expr::Var(n) => env[n],
        Expr::Add(l, r) => p(l) + p(r),
        Expr::Sub(l, r) => p(l) - p(r),
        Expr::Mul(l, r) => p(l) * p(r),
        Expr::Div(l, r) => p(l) / p(r),
        Expr::Pow(l, r) => p(l).powf(p(r)),
        Expr::Ln(i) => p(i).ln(),
        Expr::Exp(i) => p(i).exp(),
        Expr::Sqrt(i) => p(i).sqrt(),
        Expr::Sin(i) => p(i).sin(),
        Expr::Cos(i) => p(i).cos(),
        Expr::Neg(i) => -p(i),
    }
}
fn helpers(s: &mut Src, o: &mut Obs) -> R {
    use mathjit::final_tagless::StatisticalExpr as MS;
    use symbolic_math::final_tagless::{DirectEval as SD, PrettyPrint as SP, StatisticalExpr as SS};
    const U: f64 = 1.2e-16;
    const U32: f64 = 6e-8;
    let x = at(s);
    let env: Env = [("x".to_string(), x)].into_iter().collect();
    o.note(|| format!("at {x}"));
    o.nontrivial(x != 0.0);
    let x32 = x as f32;
    let xf = f64::from(x32);
    let v = JITEval::var;
    // logistic
    let mut logistic: Vec<(&str, f64)> = vec![
        ("logistic", <SD as SS>::logistic::<f64>(x)),
        ("sigmoid", <SD as SS>::sigmoid::<f64>(x)),
        ("mathjit logistic", <MD as MS>::logistic::<f64>(x)),
        ("mathjit sigmoid", <MD as MS>::sigmoid::<f64>(x)),
        ("exponential-family logistic", <SD as ExponentialFamilyExpr>::logistic::<f64>(x)),
        ("exponential-family logistic", <ExpFamEval as ExponentialFamilyExpr>::logistic::<f64>(x)),
        ("exponential-family logistic", <DistributionEval as ExponentialFamilyExpr>::logistic::<f64>(x)),
        ("printed logistic", read("logistic", &<SP as SS>::logistic::<f64>("x".into()), &env)?),
        ("printed mathjit logistic", read("logistic", &<MP as MS>::logistic::<f64>("x".into()), &env)?),
        ("printed exponential-family logistic", read("logistic", &<SP as ExponentialFamilyExpr>::logistic::<f64>("x".into()), &env)?),
    ];
    let mut softplus: Vec<(&str, f64)> = vec![
        ("softplus", <SD as SS>::softplus::<f64>(x)),
        ("mathjit softplus", <MD as MS>::softplus::<f64>(x)),
        ("exponential-family softplus", <SD as ExponentialFamilyExpr>::softplus::<f64>(x)),
        ("exponential-family softplus", <ExpFamEval as ExponentialFamilyExpr>::softplus::<f64>(x)),
        ("printed softplus", read("softplus", &<SP as SS>::softplus::<f64>("x".into()), &env)?),
        ("printed mathjit softplus", read("softplus", &<MP as MS>::softplus::<f64>("x".into()), &env)?),
        ("printed exponential-family softplus", read("softplus", &<SP as ExponentialFamilyExpr>::softplus::<f64>("x".into()), &env)?),
    ];
    let n = s.length(5, 400);
    let xs: Vec<f64> = (0..n).map(|_| if s.chance(1, 12) { f64::NEG_INFINITY } else if s.bool() { at(s) } else { x + s.uniform(-5.0, 5.0) }).collect();
    if s.chance(1, 4) {
        o.label("compiled");
        let run = |what: &'static str, r: JITRepr| -> Result<f64, Fail> {
            let (names, f) = compile(what, r)?;
            Ok(call(&names, &f, &env))
        };
        logistic.push(("compiled logistic", run("compiled logistic", <JITEval as SS>::logistic::<f64>(v("x")))?));
        logistic.push(("compiled sigmoid", run("compiled sigmoid", <JITEval as SS>::sigmoid::<f64>(v("x")))?));
        logistic.push(("compiled exponential-family logistic", run("compiled logistic", <JITEval as ExponentialFamilyExpr>::logistic::<f64>(v("x")))?));
        softplus.push(("compiled softplus", run("compiled softplus", <JITEval as SS>::softplus::<f64>(v("x")))?));
        softplus.push(("compiled exponential-family softplus", run("compiled softplus", <JITEval as ExponentialFamilyExpr>::softplus::<f64>(v("x")))?));
        if n > 0 {
            let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
            let reprs: Vec<JITRepr> = names.iter().map(|n| v(n)).collect();
            let (names, f) = compile("compiled log_sum_exp", JITEval::log_sum_exp::<f64>(&reprs))?;
            let env: HashMap<String, f64> = names.iter().cloned().zip(xs.iter().copied()).collect();
            lse_ok(o, "compiled log_sum_exp", &xs, call(&names, &f, &env), U, 709.7)?;
        }
    }
    for (what, got) in logistic {
        logistic_ok(what, x, got, U)?;
    }
    for (what, got) in softplus {
        softplus_ok(o, what, x, got, U, 709.7)?;
    }
    for (what, got) in [
        ("logistic of f32", <SD as SS>::logistic::<f32>(x32)),
        ("sigmoid of f32", <SD as SS>::sigmoid::<f32>(x32)),
        ("mathjit logistic of f32", <MD as MS>::logistic::<f32>(x32)),
        ("exponential-family logistic of f32", <SD as ExponentialFamilyExpr>::logistic::<f32>(x32)),
    ] {
        logistic_ok(what, xf, f64::from(got), U32)?;
    }
    for (what, got) in [
        ("softplus of f32", <SD as SS>::softplus::<f32>(x32)),
        ("mathjit softplus of f32", <MD as MS>::softplus::<f32>(x32)),
        ("exponential-family softplus of f32", <SD as ExponentialFamilyExpr>::softplus::<f32>(x32)),
    ] {
        softplus_ok(o, what, xf, f64::from(got), U32, 88.0)?;
    }
    for (what, got) in [("log_sum_exp", SD::log_sum_exp::<f64>(&[])), ("exponential-family log_sum_exp", ExpFamEval::log_sum_exp::<f64>(&[]))] {
        ensure!(got == f64::NEG_INFINITY, what, "{what} of nothing is {got}, expected -inf");
    }
    lse_ok(o, "log_sum_exp", &xs, SD::log_sum_exp::<f64>(&xs), U, 709.7)?;
    lse_ok(o, "log_sum_exp", &xs, ExpFamEval::log_sum_exp::<f64>(&xs), U, 709.7)?;
    let ys: Vec<f32> = xs.iter().map(|v| *v as f32).collect();
    let yf: Vec<f64> = ys.iter().map(|v| f64::from(*v)).collect();
    lse_ok(o, "log_sum_exp of f32", &yf, f64::from(SD::log_sum_exp::<f32>(&ys)), U32, 88.0)?;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        facets: vec![
            facet("programs", 20_000, 400_000, "a program with a variable and two operations had a value", programs).chunked(4000),
            facet("integer polynomials", 20_000, 1_000_000, "two coefficients and a point other than 0", poly_int),
            facet("f64 polynomials", 20_000, 1_000_000, "two coefficients and a point other than 0", poly_64),
            facet("f32 polynomials", 20_000, 1_000_000, "two coefficients and a point other than 0", poly_32),
            facet("helpers", 20_000, 500_000, "a point other than 0", helpers).chunked(4000),
        ],
        assumptions: &["values where direct evaluation is finite and away from the edge of a domain", "single-precision constants may be rounded to their decimal form by the compiler"],
    }]
}
