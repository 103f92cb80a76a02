//! C19 equality saturation, C20 compiled code, C22 tagless programs, C23 Bayesian models.
use crate::runner::*;
use crate::src::Src;
use crate::sym::*;
use crate::props::symbolic::{same_meaning, small_tree};
use crate::{bail, ensure};
use std::collections::HashMap;
use measures_exponential_family::CustomJITOptimizer;
use symbolic_math::final_tagless::{JITEval, JITRepr};
use symbolic_math::optimization::{EgglogOptimize, EgglogOptimizer};
use symbolic_math::{CustomSymbolicLogDensity, Expr, GeneralJITCompiler, GeneralJITFunction, JITError, JITSignature};

// ------------------------------------------------------------------ C19

fn encode(x: &Expr, out: &mut String) {
    let (k, xs): (char, Vec<&Expr>) = match x {
        Expr::Const(c) => {
            out.push_str(&format!("#{:x} ", c.to_bits()));
            return;
        }
        Expr::Var(v) => {
            let hex: String = v.bytes().map(|b| format!("{b:02x}")).collect();
            out.push_str(&format!("${hex} "));
            return;
        }
        Expr::Add(a, b) => ('+', vec![&**a, &**b]),
        Expr::Sub(a, b) => ('-', vec![&**a, &**b]),
        Expr::Mul(a, b) => ('*', vec![&**a, &**b]),
        Expr::Div(a, b) => ('/', vec![&**a, &**b]),
        Expr::Pow(a, b) => ('^', vec![&**a, &**b]),
        Expr::Ln(a) => ('l', vec![&**a]),
        Expr::Exp(a) => ('e', vec![&**a]),
        Expr::Sqrt(a) => ('q', vec![&**a]),
        Expr::Sin(a) => ('s', vec![&**a]),
        Expr::Cos(a) => ('c', vec![&**a]),
        Expr::Neg(a) => ('n', vec![&**a]),
    };
    out.push(k);
    out.push(' ');
    for y in xs {
        encode(y, out);
    }
}
fn decode<'a>(it: &mut impl Iterator<Item = &'a str>) -> Option<Expr> {
    let t = it.next()?;
    if let Some(h) = t.strip_prefix('#') {
        return Some(Expr::Const(f64::from_bits(u64::from_str_radix(h, 16).ok()?)));
    }
    if let Some(v) = t.strip_prefix('$') {
        let bytes: Option<Vec<u8>> = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect();
        return Some(Expr::Var(String::from_utf8(bytes?).ok()?));
    }
    let a = Box::new(decode(it)?);
    Some(match t {
        "l" => Expr::Ln(a),
        "e" => Expr::Exp(a),
        "q" => Expr::Sqrt(a),
        "s" => Expr::Sin(a),
        "c" => Expr::Cos(a),
        "n" => Expr::Neg(a),
        _ => {
            let b = Box::new(decode(it)?);
            match t {
                "+" => Expr::Add(a, b),
                "-" => Expr::Sub(a, b),
                "*" => Expr::Mul(a, b),
                "/" => Expr::Div(a, b),
                _ => Expr::Pow(a, b),
            }
        }
    })
}
unsafe extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
const GAVE_UP: i32 = 77;
/// Runs `f` in a forked process that gives up when it needs too much memory or time: saturation is
/// exponential, and what is checked is what it returns, not how long it takes. None: gave up.
fn forked(f: impl FnOnce() -> String) -> Result<Option<String>, String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    if unsafe { pipe(fds.as_mut_ptr()) } != 0 {
        return Err("no pipe".into());
    }
    let pid = unsafe { fork() };
    if pid < 0 {
        return Err("no process".into());
    }
    if pid == 0 {
        std::thread::spawn(|| {
            let t = std::time::Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(10));
                let pages: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse().ok()).unwrap_or(0);
                if pages > 600 * 256 || t.elapsed().as_secs() >= 5 {
                    unsafe { _exit(GAVE_UP) }
                }
            }
        });
        let r = catch(f);
        let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = match r {
            Ok(v) => w.write_all(format!("k{v}").as_bytes()),
            Err(p) => w.write_all(format!("p{p}").as_bytes()),
        };
        unsafe { _exit(0) }
    }
    drop(unsafe { std::fs::File::from_raw_fd(fds[1]) });
    let mut text = vec![];
    let _ = unsafe { std::fs::File::from_raw_fd(fds[0]) }.read_to_end(&mut text);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    let text = String::from_utf8_lossy(&text).into_owned();
    if status == GAVE_UP << 8 {
        return Ok(None);
    }
    match text.split_at_checked(1) {
        Some(("k", v)) => Ok(Some(v.to_string())),
        Some((_, p)) => Err(p.to_string()),
        None => Err(format!("the process ends with status {status:#x}")),
    }
}
/// The optimised expressions of a history, by one optimiser.
fn optimise(xs: &[Expr], by_trait: bool) -> Result<Option<Vec<Expr>>, Fail> {
    let r = forked(|| {
        let mut out = String::new();
        let mut opt = match EgglogOptimizer::new() {
            Ok(v) => v,
            Err(e) => return format!("!the optimiser cannot be created: {e}"),
        };
        for x in xs {
            match if by_trait { x.optimize_with_egglog() } else { opt.optimize(x) } {
                Ok(y) => encode(&y, &mut out),
                Err(e) => return format!("!optimising {} fails: {e}", show(x)),
            }
            out.push('\n');
        }
        out
    });
    match r {
        Err(p) => bail!("panic", "optimising {:?} panics: {p}", xs.iter().map(show).collect::<Vec<_>>()),
        Ok(None) => Ok(None),
        Ok(Some(t)) => {
            if let Some(e) = t.strip_prefix('!') {
                bail!("fails", "{e}");
            }
            Ok(Some(t.lines().map(|l| decode(&mut l.split(' ')).expect("encoded expression")).collect()))
        }
    }
}

fn positive_env(s: &mut Src, ns: &[&str]) -> Env {
    ns.iter().map(|n| ((*n).to_string(), positive_value(s))).collect()
}
fn check_optimised(x: &Expr, y: &Expr, envs: &[Env], o: &mut Obs) -> R {
    ensure!(vars(y).is_subset(&vars(x)), "new variable", "optimising {} gives {}, which has new variables", show(x), show(y));
    o.label_if(show(x) != show(y), "changed");
    same_meaning("optimise", x, y, envs, o)
}
/// Rewriting may pass through forms that are computed less accurately, but the result must still have
/// the value; a history of expressions through one optimiser.
fn c19(s: &mut Src, o: &mut Obs) -> R {
    let n = 1 + s.usize(3);
    let mut xs = vec![];
    let mut envs = vec![];
    for _ in 0..n {
        let ns = some_names(s, 3, true);
        let g = Gen { names: &ns, tame: s.chance(2, 3), mild: s.chance(2, 3) };
        let mut x = if s.chance(2, 3) { shape(s, &g) } else { expr(s, &g, 3) };
        if nodes(&x) > 14 {
            x = expr(s, &g, 2);
        }
        xs.push(x);
        envs.push((0..3).map(|_| positive_env(s, &ns)).collect::<Vec<_>>());
    }
    let Some(ys) = optimise(&xs, n == 1)? else {
        o.label("gave up: over 600 MB or 5 s");
        return Ok(());
    };
    for ((x, y), e) in xs.iter().zip(&ys).zip(&envs) {
        o.note(|| format!("{} -> {}", show(x), show(y)));
        check_optimised(x, y, e, o)?;
    }
    Ok(())
}
fn c19_trait(s: &mut Src, o: &mut Obs) -> R {
    // small trees over a few leaves
    let x = small_tree(s.below(crate::props::symbolic::SMALL_N));
    let Some(ys) = optimise(std::slice::from_ref(&x), true)? else {
        o.label("gave up: over 600 MB or 5 s");
        return Ok(());
    };
    let y = &ys[0];
    o.note(|| format!("{} -> {}", show(&x), show(y)));
    let envs: Vec<Env> = [(0.5, 3.0), (1.0, 1.0), (2.0, 0.25), (3.5, 7.0)].iter().map(|(a, b)| [("x".to_string(), *a), ("y".to_string(), *b)].into_iter().collect()).collect();
    check_optimised(&x, y, &envs, o)
}

// ------------------------------------------------------------------ C20

const MORE: [&str; 20] = ["x", "y", "mu", "sigma", "z", "theta_1", "b", "k", "a", "t", "w1", "w2", "w10", "Q", "X", "x ", "α", "", "f(x)", "log_scale_of_the_third_group"];

pub fn repr(x: &Expr) -> JITRepr {
    let b = |y: &Expr| Box::new(repr(y));
    match x {
        Expr::Const(c) => JITRepr::Constant(*c),
        Expr::Var(v) => JITEval::var(v),
        Expr::Add(l, r) => JITRepr::Add(b(l), b(r)),
        Expr::Sub(l, r) => JITRepr::Sub(b(l), b(r)),
        Expr::Mul(l, r) => JITRepr::Mul(b(l), b(r)),
        Expr::Div(l, r) => JITRepr::Div(b(l), b(r)),
        Expr::Pow(l, r) => JITRepr::Pow(b(l), b(r)),
        Expr::Ln(i) => JITRepr::Ln(b(i)),
        Expr::Exp(i) => JITRepr::Exp(b(i)),
        Expr::Sqrt(i) => JITRepr::Sqrt(b(i)),
        Expr::Sin(i) => JITRepr::Sin(b(i)),
        Expr::Cos(i) => JITRepr::Cos(b(i)),
        Expr::Neg(i) => JITRepr::Neg(b(i)),
    }
}
/// The value of a compiled function by whichever entry point fits its signature.
fn call(f: &GeneralJITFunction, data: &[f64], params: &[f64]) -> Result<f64, Fail> {
    let (nd, np) = (data.len(), params.len());
    let fits = match &f.signature {
        JITSignature::SingleInput => (nd, np) == (1, 0),
        JITSignature::DataAndParameter => (nd, np) == (1, 1),
        JITSignature::DataAndParameters(n) => nd == 1 && np == *n,
        JITSignature::MultipleDataAndParameters { data_dims, param_dims } => nd == *data_dims && np == *param_dims,
        JITSignature::Custom { .. } => false,
    };
    ensure!(fits, "signature", "{nd} data variables and {np} parameters are compiled to the signature {:?}", f.signature);
    Ok(match &f.signature {
        JITSignature::SingleInput => f.call_single(data[0]),
        JITSignature::DataAndParameter => f.call_data_param(data[0], params[0]),
        JITSignature::DataAndParameters(_) => f.call_data_params(data[0], params),
        _ => f.call_batch(data, params),
    })
}
/// Within the error bound of the reference, with room for another way to round.
fn near(out: &Out, got: f64) -> bool {
    (got - out.av.v).abs() <= 4.0 * out.av.e || (out.av.e.is_infinite() && !got.is_nan())
}
fn compiled(what: &str, r: Result<GeneralJITFunction, JITError>, x: &Expr) -> Result<GeneralJITFunction, Fail> {
    match r {
        Ok(f) => Ok(f),
        Err(e) => bail!(what, "{what} of {} fails: {e}", show(x)),
    }
}
fn distinct(s: &mut Src, pool: &[&'static str], n: usize) -> Vec<String> {
    let mut p: Vec<&str> = pool.to_vec();
    let mut out = vec![];
    for _ in 0..n {
        let i = s.usize(p.len());
        out.push(p.remove(i).to_string());
    }
    out
}
fn c20(s: &mut Src, o: &mut Obs) -> R {
    let all = distinct(s, &MORE, MORE.len());
    let nd = s.pick(&[1, 1, 1, 1, 2, 3, 0, 4, 6]);
    let np = s.pick(&[0, 1, 2, 3, 4, 5, 0, 1, 7]);
    let nc = s.pick(&[0, 0, 1, 2]);
    let (data, rest) = all.split_at(nd);
    let (params, rest) = rest.split_at(np.min(rest.len()));
    let np = params.len();
    let consts: Vec<String> = rest.iter().take(nc).cloned().collect();
    // the expression uses some of the declared names
    let mut names: Vec<&str> = data.iter().chain(params).chain(&consts).map(String::as_str).collect();
    let undeclared = s.chance(1, 12);
    if undeclared || names.is_empty() {
        names.push("nowhere");
    }
    let g = Gen { names: &names, tame: s.chance(3, 4), mild: s.chance(2, 3) };
    let d = 1 + s.usize(5);
    let x = any_expr(s, &g, d, 60, 150);
    let mut constants: Env = consts.iter().map(|c| (c.clone(), constant(s, false))).collect();
    if s.chance(1, 8) {
        // a constant with the name of a declared variable is not used
        if let Some(n) = data.iter().chain(params).next() {
            constants.insert(n.clone(), 77.25);
        }
    }
    o.note(|| format!("{} of {data:?} and {params:?}, constants {}", show(&x), show_env(&constants)));
    let unknown = vars(&x).iter().any(|v| v == "nowhere");
    let sig = match (nd, np) {
        (1, 0) => "single",
        (1, 1) => "data and parameter",
        (1, 2..=3) => "data and 2-3 parameters",
        (1, _) => "data and more parameters",
        (0, _) => "no data",
        _ => "batch",
    };
    let new = || GeneralJITCompiler::new().map_err(|e| Fail { sig: "new".into(), msg: format!("no compiler: {e}") });
    let tagless = repr(&x);
    let mut routes: Vec<(&str, Result<GeneralJITFunction, JITError>)> = vec![];
    routes.push(("compile_expression", new()?.compile_expression(&x, data, params, &constants)));
    routes.push(("compile_final_tagless", new()?.compile_final_tagless(&tagless, data, params, &constants)));
    match s.below(2) {
        0 => routes.push(("compile_with_constants", JITEval::compile_with_constants(tagless.clone(), data, params, &constants))),
        _ if constants.is_empty() => {
            routes.push(("compile_with_signature", JITEval::compile_with_signature(tagless.clone(), data, params)));
            match (nd, np) {
                (1, 0) => routes.push(("compile_single_var", JITEval::compile_single_var(tagless.clone(), &data[0]))),
                (1, 1) => routes.push(("compile_data_param", JITEval::compile_data_param(tagless.clone(), &data[0], &params[0]))),
                (1, _) => routes.push(("compile_data_params", JITEval::compile_data_params(tagless.clone(), &data[0], params))),
                _ => {}
            }
        }
        _ => {}
    }
    if unknown {
        o.label("undeclared variable");
        for (what, r) in routes {
            ensure!(r.is_err(), what, "{what} of {} succeeds although a variable is not declared", show(&x));
        }
        return Ok(());
    }
    let mut fs = vec![];
    for (what, r) in routes {
        fs.push((what, compiled(what, r, &x)?));
    }
    let mut shown = false;
    for _ in 0..4 {
        let dv: Vec<f64> = data.iter().map(|_| value(s)).collect();
        let pv: Vec<f64> = params.iter().map(|_| if s.chance(1, 3) { value(s) } else { positive_value(s) }).collect();
        let mut env = constants.clone();
        env.extend(data.iter().cloned().zip(dv.iter().copied()));
        env.extend(params.iter().cloned().zip(pv.iter().copied()));
        let out = M64.eval(&x, &env);
        for (what, f) in &fs {
            let got = call(f, &dv, &pv)?;
            if out.crisp() {
                ensure!(near(&out, got), *what, "{what} of {} (data {data:?}, parameters {params:?}) is {got:?} at {}, interpreted {:?} (error bound {:e})", show(&x), show_env(&env), out.av.v, out.av.e);
                if let Ok(v) = x.evaluate(&env) {
                    ensure!((got - v).abs() <= 4.0 * out.av.e, *what, "{what} of {} is {got:?} at {}, evaluate {v:?}", show(&x), show_env(&env));
                }
                shown = true;
            }
        }
    }
    o.label_if(shown, sig);
    o.label_if(!shown, "no value at the points");
    o.nontrivial(shown && !vars(&x).is_empty() && operations(&x) > 1);
    Ok(())
}
/// One elementary function at one point of its whole domain, and densities with embedded parameters.
fn c20_custom(s: &mut Src, o: &mut Obs) -> R {
    let input = s.pick(&["x", "y", "a", "zz", "Q"]);
    let mut parameters = Env::new();
    let elementary = s.chance(1, 3);
    let x = if elementary {
        let v = Box::new(Expr::Var(input.to_string()));
        match s.below(8) {
            0 => Expr::Sin(v),
            1 => Expr::Cos(v),
            2 => Expr::Exp(v),
            3 => Expr::Ln(v),
            4 => Expr::Sqrt(v),
            5 => Expr::Pow(v, Box::new(Expr::Const(s.pick(&[2.0, 3.0, 4.0, 0.5, 1.0, 0.0, -1.0, 5.0, -2.0, 1.5, 0.25])))),
            6 => Expr::Pow(Box::new(Expr::Const(s.pick(&[2.0, 0.5, 10.0, -2.0, 1.0]))), v),
            _ => Expr::Neg(v),
        }
    } else {
        let ps = distinct(s, &["mu", "sigma", "b", "k", "x0", "R"], 4);
        let n = s.usize(4);
        let mut names: Vec<&str> = ps.iter().take(n).map(String::as_str).collect();
        for p in &names {
            parameters.insert((*p).to_string(), if s.bool() { positive_value(s) } else { constant(s, false) });
        }
        names.push(input);
        if s.chance(1, 4) {
            parameters.insert("unused".into(), 3.0);
        }
        let g = Gen { names: &names, tame: true, mild: s.bool() };
        let d = 1 + s.usize(4);
        any_expr(s, &g, d, 60, 150)
    };
    o.note(|| format!("{} with {}", show(&x), show_env(&parameters)));
    let sd = CustomSymbolicLogDensity::new(x.clone(), parameters.clone());
    let new = || GeneralJITCompiler::new().map_err(|e| Fail { sig: "new".into(), msg: format!("no compiler: {e}") });
    let f = match s.below(4) {
        // through the traits for a user's own distributions
        0 => {
            struct Own(CustomSymbolicLogDensity);
            impl CustomJITOptimizer<f64, f64> for Own {
                fn custom_symbolic_log_density(&self) -> CustomSymbolicLogDensity {
                    self.0.clone()
                }
            }
            compiled("compile_custom_jit", Own(sd.clone()).compile_custom_jit(), &x)?
        }
        _ => compiled("compile_custom_expression", new()?.compile_custom_expression(&sd), &x)?,
    };
    ensure!(matches!(f.signature, JITSignature::SingleInput), "signature", "a density compiled for one input has the signature {:?}", f.signature);
    // without parameters: all variables, alphabetically
    let auto = if s.chance(1, 2) { Some(compiled("compile", JITEval::compile(repr(&x)), &x)?) } else { None };
    let mut shown = 0;
    for _ in 0..6 {
        let v = if elementary {
            match s.below(4) {
                0 => s.real(1e-300, 1e300),
                1 => s.uniform(-720.0, 720.0),
                2 => s.pick(&[0.0, 1.0, -1.0, 2.0, std::f64::consts::PI, std::f64::consts::E, 1e-320, 0.5, 709.0, -745.0, 1e15, -3.0]),
                _ => s.uniform(-8.0, 8.0),
            }
        } else {
            value(s)
        };
        let mut env = parameters.clone();
        env.insert(input.to_string(), v);
        let out = M64.eval(&x, &env);
        if !out.crisp() {
            let _ = f.call_single(v);
            continue;
        }
        shown += 1;
        let got = f.call_single(v);
        ensure!(near(&out, got), "compile_custom_expression", "compile_custom_expression of {} with {} is {got:?} at {input}={v:?}, interpreted {:?} (error bound {:e})", show(&x), show_env(&parameters), out.av.v, out.av.e);
        if let Some(a) = &auto {
            let args: Vec<f64> = vars(&x).iter().map(|n| env[n]).collect();
            let got = call(a, &args, &[])?;
            ensure!(near(&out, got), "compile", "compile of {} is {got:?} at {}, interpreted {:?} (error bound {:e})", show(&x), show_env(&env), out.av.v, out.av.e);
        }
    }
    o.label(if elementary { "one elementary function" } else { "density with parameters" });
    o.nontrivial(shown > 0 && !vars(&x).is_empty());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _: HashMap<u8, u8> = HashMap::new();
    vec![Prop {
        id: "C19",
        facets: vec![
            facet("histories", 1_500, 60_000, "the optimiser changed an expression that has variables and a value", c19),
            facet("small", 3_000, 100_000, "the optimiser changed an expression that has variables and a value", c19_trait),
        ],
        assumptions: &["variables are positive and have identifier names", "expressions of at most 14 nodes (saturation is exponential)"],
    },
    Prop {
        id: "C20",
        facets: vec![
            facet("signatures", 3_000, 60_000, "an expression with a variable and two operations had a value at a point", c20).chunked(1000),
            facet("densities", 3_000, 60_000, "an expression with a variable had a value at a point", c20_custom).chunked(1000),
        ],
        assumptions: &["values where the interpreter has a finite value away from the edge of a domain", "a function is called with the entry point of its signature"],
    }]
}
