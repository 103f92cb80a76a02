//! C12 products, C13 mixtures, C14 pushforwards, C15 weighted and integral measures, C16 combinatorial
//! coefficients.
use super::density::nodes;
use crate::dists::{C, CN, D, DN, narrow};
use crate::oracle::{self as or, Vm, same};
use crate::runner::*;
use crate::src::Src;
use crate::{ensure, with_c, with_d};
use measures_combinators::measures::combinators::product::{ProductMeasure, ProductMeasureExt};
use measures_combinators::measures::combinators::pushforward::{PushforwardExt, PushforwardMeasure, transforms as tf};
use measures_combinators::measures::combinators::superposition::{MixtureExt, MixtureMeasure};
use measures_combinators::measures::derived::{
    BinomialCoefficientMeasure, FactorialMeasure, IntegralMeasure, NegativeBinomialCoefficientMeasure, WeightedMeasure,
    binomial_coefficient::log_binomial_coefficient, factorial::log_factorial,
    negative_binomial_coefficient::log_negative_binomial_coefficient,
};
use measures_combinators::measures::primitive::lebesgue::LebesgueMeasure as CLebesgue;
use measures_combinators::{mixture, product_measure};
use measures_core::{EvaluateAt, False, HasLogDensity, LogDensity, LogDensityBuilder, Measure, MeasureMarker};
use std::rc::Rc;

// ------------------------------------------------ measures of any shape, on the line

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tr {
    Log,
    Exp,
    Linear(f64, f64),
    Logit,
    Cube,
    Sinh,
    Neg,
    Recip,
}
#[derive(Clone, Copy, Debug)]
enum Fx {
    Line(f64, f64),
    Quad(f64),
    Sin(f64),
    Abs,
}
impl Fx {
    fn at(self, x: f64) -> f64 {
        match self {
            Fx::Line(a, b) => a * x + b,
            Fx::Quad(a) => -a * x * x,
            Fx::Sin(a) => a * x.sin(),
            Fx::Abs => -x.abs(),
        }
    }
}
#[derive(Debug)]
enum Node {
    Leaf(C),
    Weighted(Dyn, f64),
    Integral(Dyn, Fx),
    Mixture(Vec<Dyn>, Vec<f64>),
    Push(Dyn, Tr),
}
#[derive(Clone, Debug)]
struct Dyn(Rc<Node>);
impl MeasureMarker for Dyn {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
/// Runs $body with the library's transformation triple bound to $t.
macro_rules! with_tr {
    ($tr:expr, $t:ident => $body:expr) => {
        match $tr {
            Tr::Log => { let $t = tf::log_transform::<f64>(); $body }
            Tr::Exp => { let $t = tf::exp_transform::<f64>(); $body }
            Tr::Linear(a, b) => { let $t = tf::linear_transform::<f64>(a, b); $body }
            Tr::Logit => { let $t = tf::logit_transform::<f64>(); $body }
            Tr::Cube => { let $t = (|x: &f64| x * x * x, |y: &f64| y.cbrt(), |y: &f64| -(3f64.ln()) - 2.0 / 3.0 * y.abs().ln()); $body }
            Tr::Sinh => { let $t = (|x: &f64| x.sinh(), |y: &f64| y.asinh(), |y: &f64| -y.hypot(1.0).ln()); $body }
            Tr::Neg => { let $t = (|x: &f64| -x, |y: &f64| -y, |_: &f64| 0.0); $body }
            Tr::Recip => { let $t = (|x: &f64| 1.0 / x, |y: &f64| 1.0 / y, |y: &f64| -2.0 * y.abs().ln()); $body }
        }
    };
}
impl Measure<f64> for Dyn {
    type RootMeasure = CLebesgue<f64>;
    fn in_support(&self, x: f64) -> bool {
        match &*self.0 {
            Node::Leaf(c) => with_c!(c, f64, m => m.in_support(x)),
            Node::Weighted(b, w) => WeightedMeasure::<_, f64, f64>::new(b.clone(), *w).in_support(x),
            Node::Integral(b, f) => {
                let f = *f;
                IntegralMeasure::new(b.clone(), move |x: &f64| f.at(*x)).in_support(x)
            }
            Node::Mixture(c, w) => MixtureMeasure { components: c.clone(), weights: w.clone() }.in_support(x),
            Node::Push(b, t) => with_tr!(*t, t => PushforwardMeasure::new(b.clone(), t.0, t.1, t.2).in_support(x)),
        }
    }
    fn root_measure(&self) -> Self::RootMeasure {
        CLebesgue::new()
    }
}
impl HasLogDensity<f64, f64> for Dyn {
    fn log_density_wrt_root(&self, x: &f64) -> f64 {
        match &*self.0 {
            Node::Leaf(c) => with_c!(c, f64, m => m.log_density_wrt_root(x)),
            Node::Weighted(b, w) => WeightedMeasure::<_, f64, f64>::new(b.clone(), *w).log_density_wrt_root(x),
            Node::Integral(b, f) => {
                let f = *f;
                IntegralMeasure::new(b.clone(), move |x: &f64| f.at(*x)).log_density_wrt_root(x)
            }
            Node::Mixture(c, w) => MixtureMeasure::new(c.clone(), w.clone()).log_density_wrt_root(x),
            Node::Push(b, t) => with_tr!(*t, t => PushforwardMeasure::new(b.clone(), t.0, t.1, t.2).log_density_wrt_root(x)),
        }
    }
}

impl Tr {
    fn fwd(self, x: f64) -> f64 {
        match self {
            Tr::Log => x.ln(),
            Tr::Exp => x.exp(),
            Tr::Linear(a, b) => a * x + b,
            Tr::Logit => x.ln() - (-x).ln_1p(),
            Tr::Cube => x * x * x,
            Tr::Sinh => x.sinh(),
            Tr::Neg => -x,
            Tr::Recip => 1.0 / x,
        }
    }
    /// log |f'(x)|
    fn log_dfwd(self, x: f64) -> f64 {
        match self {
            Tr::Log => -x.ln(),
            Tr::Exp => x,
            Tr::Linear(a, _) => a.abs().ln(),
            Tr::Logit => -x.ln() - (-x).ln_1p(),
            Tr::Cube => 3f64.ln() + 2.0 * x.abs().ln(),
            Tr::Sinh => x.cosh().ln(),
            Tr::Neg => 0.0,
            Tr::Recip => -2.0 * x.abs().ln(),
        }
    }
    /// (inverse image, its error scale, log |derivative of the inverse|), None outside the image
    fn inv(self, y: f64) -> Option<(f64, f64, f64)> {
        let same = |x: f64, j: f64| Some((x, x.abs(), j));
        match self {
            Tr::Log => same(y.exp(), y),
            Tr::Exp => {
                if y > 0.0 {
                    same(y.ln(), -y.ln())
                } else {
                    None
                }
            }
            Tr::Linear(a, b) => Some(((y - b) / a, ((y / a).abs() + (b / a).abs()), -a.abs().ln())),
            Tr::Logit => same(or::sigmoid(y), -or::softplus(y) - or::softplus(-y)),
            Tr::Cube => same(y.cbrt(), -(3f64.ln()) - 2.0 / 3.0 * y.abs().ln()),
            Tr::Sinh => same(y.asinh(), if y.abs() > 1e9 { -y.abs().ln() } else { -0.5 * (y * y).ln_1p() }),
            Tr::Neg => same(-y, 0.0),
            Tr::Recip => {
                if y == 0.0 {
                    None
                } else {
                    same(1.0 / y, -2.0 * y.abs().ln())
                }
            }
        }
    }
    fn name(self) -> &'static str {
        match self {
            Tr::Log => "log",
            Tr::Exp => "exp",
            Tr::Linear(..) => "linear",
            Tr::Logit => "logit",
            _ => "user",
        }
    }
    /// y beyond which double precision cannot represent the inverse image
    fn representable(self, y: f64) -> bool {
        match self {
            Tr::Log => y.abs() < 600.0,
            Tr::Logit => y.abs() < 600.0,
            Tr::Recip => y == 0.0 || (y.abs() > 1e-200 && y.abs() < 1e200),
            Tr::Cube => y != 0.0,
            _ => true,
        }
    }
    fn gener(s: &mut Src, lib_only: bool) -> Tr {
        match s.below(if lib_only { 4 } else { 8 }) {
            0 => {
                let a = if lib_only && s.chance(1, 6) { s.log_uniform(1e-300, 1e300) } else { s.pos(1e-3, 1e3) };
                Tr::Linear(if s.bool() { -a } else { a }, s.real(-100.0, 100.0))
            }
            1 => Tr::Log,
            2 => Tr::Exp,
            3 => Tr::Logit,
            4 => Tr::Cube,
            5 => Tr::Sinh,
            6 => Tr::Neg,
            _ => Tr::Recip,
        }
    }
}

/// Reference log-density and support; `e` perturbs every inverse image (relative), `ok` is cleared
/// where double precision cannot represent the inverse image.
fn refd(n: &Dyn, x: f64, e: f64, ok: &mut bool) -> (Vm, bool) {
    match &*n.0 {
        Node::Leaf(c) => (c.reference(x), c.supports(x)),
        Node::Weighted(b, w) => {
            let (v, i) = refd(b, x, e, ok);
            (v.add(Vm::c(*w)), i)
        }
        Node::Integral(b, f) => {
            let (v, i) = refd(b, x, e, ok);
            (v.add(Vm::c(f.at(x))), i)
        }
        Node::Mixture(c, w) => {
            let parts: Vec<(Vm, bool)> = c
                .iter()
                .zip(w)
                .filter(|(_, w)| **w > 0.0)
                .map(|(c, w)| {
                    let (v, i) = refd(c, x, e, ok);
                    (v.add(Vm::c(w.ln())), i)
                })
                .collect();
            let vs: Vec<f64> = parts.iter().map(|p| p.0.v).collect();
            let v = or::log_sum_exp(&vs);
            let inside = parts.iter().any(|p| p.1);
            let top = parts.iter().filter(|p| p.0.v > v - 45.0);
            let m = top.clone().map(|p| p.0.m).fold(v.abs().min(1e300), f64::max);
            let nn = top.map(|p| p.0.n).fold(0.0, f64::max);
            (Vm { v, m: if m.is_finite() { m } else { 0.0 }, n: nn }, inside)
        }
        Node::Push(b, t) => {
            if !t.representable(x) {
                *ok = false;
            }
            match t.inv(x) {
                None => (Vm::neg_inf(), false),
                Some((z, scale, j)) => {
                    let (v, i) = refd(b, z + e * scale, e, ok);
                    (v.add(Vm::c(j)), i)
                }
            }
        }
    }
}
fn moderate(s: &mut Src) -> C {
    match s.below(CN as u64) {
        0 => C::Normal(s.real(-10.0, 10.0), s.pos(0.1, 20.0)),
        1 => C::Exponential(s.pos(0.05, 20.0)),
        2 => C::Gamma(s.pos(0.2, 20.0), s.pos(0.05, 20.0)),
        3 => C::Beta(s.pos(0.2, 20.0), s.pos(0.2, 20.0)),
        4 => C::Chi2(s.pos(0.5, 40.0)),
        5 => C::StudentT(s.pos(0.3, 40.0)),
        _ => C::Cauchy(s.real(-10.0, 10.0), s.pos(0.1, 20.0)),
    }
}
fn weights(s: &mut Src, n: usize) -> Vec<f64> {
    let mut w: Vec<f64> = (0..n)
        .map(|_| match s.below(6) {
            0 => 0.0,
            1 => s.log_uniform(1e-12, 1.0),
            2 if s.chance(1, 4) => s.log_uniform(1e-300, 1.0),
            _ => (1 + s.below(8)) as f64,
        })
        .collect();
    if w.iter().all(|x| *x == 0.0) {
        w[n - 1] = 1.0;
    }
    let t: f64 = w.iter().sum();
    w.iter().map(|x| x / t).collect()
}
/// kind of the root: 0 leaf, 1 weighted, 2 integral, 3 mixture, 4 push
fn tree(s: &mut Src, depth: usize, kind: Option<u64>) -> Dyn {
    let k = kind.unwrap_or_else(|| if depth == 0 { 0 } else { s.below(5) });
    let d = depth.saturating_sub(1);
    Dyn(Rc::new(match k {
        0 => Node::Leaf(moderate(s)),
        1 => Node::Weighted(tree(s, d, None), if s.chance(1, 10) { s.real(-1e6, 1e6) } else { s.real(-20.0, 20.0) }),
        2 => {
            let f = match s.below(4) {
                0 => Fx::Line(s.real(-3.0, 3.0), s.real(-3.0, 3.0)),
                1 => Fx::Quad(s.pos(0.01, 2.0)),
                2 => Fx::Sin(s.real(-4.0, 4.0)),
                _ => Fx::Abs,
            };
            Node::Integral(tree(s, d, None), f)
        }
        3 => {
            let n = 1 + s.usize(4);
            let w = weights(s, n);
            Node::Mixture((0..n).map(|_| tree(s, d, None)).collect(), w)
        }
        _ => {
            let t = Tr::gener(s, false);
            Node::Push(tree(s, d, None), t)
        }
    }))
}
fn tree_point(n: &Dyn, s: &mut Src) -> f64 {
    match &*n.0 {
        Node::Leaf(c) => c.point(s),
        Node::Weighted(b, _) | Node::Integral(b, _) => tree_point(b, s),
        Node::Mixture(c, _) => {
            let i = s.usize(c.len());
            tree_point(&c[i], s)
        }
        Node::Push(b, t) => {
            let y = if s.chance(1, 6) { f64::NAN } else { t.fwd(tree_point(b, s)) };
            if y.is_finite() { y } else { s.real(-30.0, 30.0) }
        }
    }
}
fn check_tree(n: &Dyn, x: f64, o: &mut Obs) -> R {
    let mut ok = true;
    let (v, i) = refd(n, x, 0.0, &mut ok);
    let mut spread = 0.0f64;
    let mut edge = false;
    for e in [1e-14, -1e-14, 3e-15, -3e-15] {
        let (u, j) = refd(n, x, e, &mut ok);
        edge |= i != j || u.v.is_finite() != v.v.is_finite();
        if u.v.is_finite() && v.v.is_finite() {
            spread = spread.max((u.v - v.v).abs());
        }
    }
    if !ok || edge || v.v.is_nan() || v.v == f64::INFINITY || spread > 1e-6 * (1.0 + v.v.abs()) {
        o.label("ill-conditioned");
        return Ok(());
    }
    o.nontrivial(true);
    o.label(if i { "inside" } else { "outside" });
    let g = n.log_density_wrt_root(&x);
    let tol = v.tol64() * 4.0 + spread * 4.0;
    ensure!(same(g, v.v, tol), "tree-density", "log-density of {n:?} at {x:?} is {g}, expected {} (tolerance {tol:e})", v.v);
    let b: f64 = n.log_density().at(&x);
    ensure!(same(b, g, 0.0), "tree-density", "log_density().at({x:?}) = {b}, log_density_wrt_root = {g}");
    let j = n.in_support(x);
    ensure!(j == i, "tree-support", "{n:?}: in_support({x:?}) = {j}, expected {i}");
    Ok(())
}
fn tree_case(s: &mut Src, o: &mut Obs, kind: u64) -> R {
    let d = 1 + s.usize(4);
    let t = tree(s, d, Some(kind));
    let x = tree_point(&t, s);
    o.note(|| format!("{t:?} at {x:?}"));
    o.label(&format!("depth {d}"));
    check_tree(&t, x, o)
}

// ---------------------------------------------------------------- C12

fn prod2<X1, X2, A, B>(a: &A, b: &B, x: &X1, y: &X2) -> R
where
    X1: Clone + std::fmt::Debug,
    X2: Clone + std::fmt::Debug,
    A: Measure<X1> + HasLogDensity<X1, f64> + Clone,
    B: Measure<X2> + HasLogDensity<X2, f64> + Clone,
    A::RootMeasure: HasLogDensity<X1, f64>,
    B::RootMeasure: HasLogDensity<X2, f64>,
{
    let (p, q) = (a.log_density_wrt_root(x), b.log_density_wrt_root(y));
    let e = p + q;
    let tol = 1e-13 * (1.0 + p.abs() + q.abs());
    let pt = (x.clone(), y.clone());
    let inside = a.in_support(x.clone()) && b.in_support(y.clone());
    let forms = [
        ("ProductMeasure::new", ProductMeasure::new(a.clone(), b.clone())),
        ("product()", a.clone().product(b.clone())),
        ("product_measure!", product_measure!(a.clone(), b.clone())),
    ];
    for (name, m) in &forms {
        let g: f64 = m.log_density_wrt_root(&pt);
        ensure!(same(g, e, tol), "product-density", "{name} at {pt:?}: {g}, the factors' densities are {p} and {q}");
        let g: f64 = m.log_density().at(&pt);
        ensure!(same(g, e, tol), "product-density", "{name} log_density().at({pt:?}): {g}, the factors' densities are {p} and {q}");
        let s = m.in_support(pt.clone());
        ensure!(s == inside, "product-support", "{name}: in_support({pt:?}) = {s}, expected {inside}");
        // the root is the product of the roots
        let r = m.root_measure();
        let z: f64 = r.log_density_wrt_root(&pt);
        ensure!(z == 0.0, "product-root", "the root measure's density is {z}");
        ensure!(r.in_support(pt.clone()), "product-root", "{pt:?} not in the support of the root");
        ensure!(r.measure1.in_support(x.clone()) && r.measure2.in_support(y.clone()), "product-root", "factors of the root");
    }
    // swapping the factors swaps the coordinates
    let sw = ProductMeasure::new(b.clone(), a.clone());
    let g: f64 = sw.log_density_wrt_root(&(y.clone(), x.clone()));
    ensure!(same(g, e, tol), "product-swap", "swapped product at {pt:?}: {g}, expected {e}");
    Ok(())
}
fn c12_pairs(s: &mut Src, o: &mut Obs) -> R {
    let (a, b, d, d2) = (C::generate(s), C::generate(s), D::generate(s, true), D::generate(s, true));
    let (x, y, k, k2) = (a.point(s), b.point(s), d.point(s), d2.point(s));
    o.note(|| format!("{a:?} x {b:?} x {d:?} x {d2:?} at {x:?}, {y:?}, {k}, {k2}"));
    o.nontrivial(a != b && (a.supports(x) || d.supports(k)));
    o.label_if(!a.supports(x) || !b.supports(y) || !d.supports(k), "some factor outside");
    match s.below(3) {
        0 => with_c!(&a, f64, m => with_c!(&b, f64, n => prod2::<f64, f64, _, _>(&m, &n, &x, &y))),
        1 => with_c!(&a, f64, m => with_d!(&d, f64, n, X => prod2::<f64, X, _, _>(&m, &n, &x, &(k as X)))),
        _ => with_d!(&d, f64, m, X => with_d!(&d2, f64, n, Y => prod2::<X, Y, _, _>(&m, &n, &(k as X), &(k2 as Y)))),
    }
}
fn c12_nested(s: &mut Src, o: &mut Obs) -> R {
    let kinds = [0u64, 1, 2, 3, 4];
    let t: Vec<Dyn> = (0..5)
        .map(|_| {
            let k = s.pick(&kinds);
            let dd = s.usize(2);
            tree(s, dd, Some(k))
        })
        .collect();
    let p: Vec<f64> = t.iter().map(|m| tree_point(m, s)).collect();
    let v: Vec<f64> = t.iter().zip(&p).map(|(m, x)| m.log_density_wrt_root(x)).collect();
    let i: Vec<bool> = t.iter().zip(&p).map(|(m, x)| m.in_support(*x)).collect();
    if v.iter().any(|x| x.is_nan() || *x == f64::INFINITY) {
        o.label("undefined factor");
        return Ok(());
    }
    o.nontrivial(true);
    o.note(|| format!("product of {t:?} at {p:?}"));
    o.label_if(i.iter().any(|x| !x), "some factor outside");
    let c = |n: usize| t[n].clone();
    macro_rules! chk {
        ($name:expr, $m:expr, $pt:expr, $($n:expr),+) => {{
            let m = $m;
            let pt = $pt;
            let e: f64 = 0.0 $(+ v[$n])+;
            let tol = 1e-12 * (1.0 $(+ v[$n].abs())+);
            let g: f64 = m.log_density().at(&pt);
            ensure!(same(g, e, tol), "nested-density", "{} at {pt:?}: {g}, factors {v:?}", $name);
            let ins = true $(&& i[$n])+;
            let h = m.in_support(pt.clone());
            ensure!(h == ins, "nested-support", "{}: in_support({pt:?}) = {h}, factors {i:?}", $name);
            let z: f64 = m.root_measure().log_density_wrt_root(&pt);
            ensure!(z == 0.0, "nested-root", "{}: density of the root {z}", $name);
        }};
    }
    chk!("((a,b),(c,d))", c(0).product(c(1)).product(c(2).product(c(3))), ((p[0], p[1]), (p[2], p[3])), 0, 1, 2, 3);
    chk!("(((a,b),c),d)", c(0).product(c(1)).product(c(2)).product(c(3)), (((p[0], p[1]), p[2]), p[3]), 0, 1, 2, 3);
    chk!("macro of 3", product_measure!(c(0), c(1), c(2)), (p[0], (p[1], p[2])), 0, 1, 2);
    chk!("macro of 4", product_measure!(c(3), c(1), c(2), c(0)), (p[3], (p[1], (p[2], p[0]))), 0, 1, 2, 3);
    chk!(
        "macro of 5",
        product_measure!(c(0), c(1), c(2), c(3), c(4)),
        (p[0], (p[1], (p[2], (p[3], p[4])))),
        0,
        1,
        2,
        3,
        4
    );
    // combinators over products: weighted, integral and mixture of joint measures
    let w = s.real(-10.0, 10.0);
    let ab = c(0).product(c(1));
    let pt = (p[0], p[1]);
    let e = v[0] + v[1];
    let tol = 1e-12 * (1.0 + v[0].abs() + v[1].abs() + w.abs());
    let we = WeightedMeasure::<_, f64, (f64, f64)>::new(ab.clone(), w);
    let g: f64 = we.log_density_wrt_root(&pt);
    ensure!(same(g, e + w, tol), "weighted-product", "exp({w}) times the product at {pt:?}: {g}, expected {}", e + w);
    let mi = MixtureMeasure::new(vec![ab.clone(), c(2).product(c(3))], vec![0.25, 0.75]);
    let g: f64 = mi.log_density_wrt_root(&pt);
    let (v2, v3): (f64, f64) = (t[2].log_density_wrt_root(&p[0]), t[3].log_density_wrt_root(&p[1]));
    let other = v2 + v3;
    if !other.is_nan() && other < f64::INFINITY {
        let ex = or::log_sum_exp(&[0.25f64.ln() + e, 0.75f64.ln() + other]);
        ensure!(same(g, ex, 1e-12 * (1.0 + v[0].abs() + v[1].abs() + v2.abs() + v3.abs())) || v2.is_infinite() || v3.is_infinite() && same(g, ex, 1e-9 * (1.0 + ex.abs())),
            "mixture-of-products", "mixture of products at {pt:?}: {g}, expected {ex}");
    }
    // relative density between products adds up over the factors
    let q = c(2).product(c(3));
    if e.is_finite() && other.is_finite() {
        let r: f64 = ab.log_density().wrt(q).at(&pt);
        let tol = 1e-12 * (1.0 + v[0].abs() + v[1].abs() + v2.abs() + v3.abs());
        ensure!(same(r, e - other, tol), "relative-product", "relative density of products at {pt:?}: {r}, expected {}", e - other);
    }
    Ok(())
}
fn c12_f32(s: &mut Src, o: &mut Obs) -> R {
    let (a, d) = (moderate(s).to_f32(), D::generate(s, false).to_f32());
    let (x, k) = (narrow(a.point(s)), d.point(s));
    o.note(|| format!("f32 {a:?} x {d:?} at {x:?}, {k}"));
    o.nontrivial(a.supports(f64::from(x)) && d.supports(k));
    with_c!(&a, f32, m => with_d!(&d, f32, n, X => {
        let (p, q): (f32, f32) = (m.log_density_wrt_root(&x), n.log_density_wrt_root(&(k as X)));
        let g: f32 = m.clone().product(n).log_density_wrt_root(&(x, k as X));
        ensure!(same(f64::from(g), f64::from(p + q), 1e-6 * f64::from(1.0 + p.abs() + q.abs())), "product-f32", "f32 product at ({x:?}, {k}): {g}, factors {p}, {q}");
        Ok::<(), Fail>(())
    }))
}

// ---------------------------------------------------------------- C13

/// a measure with a constant log-density and support
#[derive(Clone, Debug)]
struct Flat(f64, bool);
impl MeasureMarker for Flat {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<f64> for Flat {
    type RootMeasure = CLebesgue<f64>;
    fn in_support(&self, _: f64) -> bool {
        self.1
    }
    fn root_measure(&self) -> Self::RootMeasure {
        CLebesgue::new()
    }
}
impl HasLogDensity<f64, f64> for Flat {
    fn log_density_wrt_root(&self, _: &f64) -> f64 {
        self.0
    }
}
fn mix_expect(ld: &[f64], w: &[f64]) -> (f64, f64) {
    let t: Vec<f64> = ld.iter().zip(w).filter(|(_, w)| **w > 0.0).map(|(l, w)| w.ln() + l).collect();
    if t.iter().any(|x| *x == f64::INFINITY) {
        return (f64::INFINITY, 0.0);
    }
    let v = or::log_sum_exp(&t);
    (v, 1e-13 * (1.0 + v.abs()) * (1.0 + w.len() as f64 * 0.1))
}
fn permuted<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|i| v[*i].clone()).collect()
}
fn perm(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = s.usize(i + 1);
        p.swap(i, j);
    }
    p
}
fn mixture_laws<X, M>(comps: &[M], w: &[f64], x: &X, s: &mut Src) -> R
where
    X: Clone + std::fmt::Debug,
    M: Measure<X> + HasLogDensity<X, f64> + Clone,
{
    let ld: Vec<f64> = comps.iter().map(|m| m.log_density_wrt_root(x)).collect();
    let (e, tol) = mix_expect(&ld, w);
    let m = MixtureMeasure::new(comps.to_vec(), w.to_vec());
    ensure!(m.num_components() == comps.len(), "num-components", "{} components, expected {}", m.num_components(), comps.len());
    let g: f64 = m.log_density_wrt_root(x);
    ensure!(same(g, e, tol), "mixture-density", "weights {w:?}, component log-densities {ld:?} at {x:?}: mixture {g}, expected {e}");
    let sup = comps.iter().zip(w).any(|(c, w)| *w > 0.0 && c.in_support(x.clone()));
    let h = m.in_support(x.clone());
    ensure!(h == sup, "mixture-support", "weights {w:?} at {x:?}: in_support = {h}, expected {sup}");
    drop(m.root_measure());
    // order
    let p = perm(s, comps.len());
    let pm = MixtureMeasure::new(permuted(comps, &p), permuted(w, &p));
    let g2: f64 = pm.log_density_wrt_root(x);
    ensure!(same(g2, e, tol), "order", "component order {p:?}: {g2} instead of {e}");
    ensure!(pm.in_support(x.clone()) == sup, "order", "component order {p:?} changes the support");
    // components of weight zero can be left out, and put in anywhere
    let at = s.usize(comps.len() + 1);
    let (mut c2, mut w2) = (comps.to_vec(), w.to_vec());
    let dup = s.usize(comps.len());
    c2.insert(at, comps[dup].clone());
    w2.insert(at, 0.0);
    let g3: f64 = MixtureMeasure::new(c2, w2).log_density_wrt_root(x);
    ensure!(same(g3, e, tol), "zero-weight", "a component of weight zero at position {at} changes the density from {e} to {g3}");
    // splitting a component in two does nothing
    let i = s.usize(comps.len());
    let (mut c2, mut w2) = (comps.to_vec(), w.to_vec());
    let f = s.pick(&[0.5, 0.25, 0.125]);
    c2.push(comps[i].clone());
    w2.push(w[i] * f);
    w2[i] = w[i] - w[i] * f;
    let g4: f64 = MixtureMeasure::new(c2, w2).log_density_wrt_root(x);
    ensure!(same(g4, e, tol * 2.0), "split", "splitting component {i} changes the density from {e} to {g4}");
    // uniform mixtures
    let u: MixtureMeasure<M, f64> = MixtureMeasure::uniform(comps.to_vec());
    let uw = vec![1.0 / comps.len() as f64; comps.len()];
    let (e, tol) = mix_expect(&ld, &uw);
    let g: f64 = u.log_density_wrt_root(x);
    ensure!(same(g, e, tol), "uniform", "uniform mixture, component log-densities {ld:?} at {x:?}: {g}, expected {e}");
    ensure!(u.weights.iter().all(|v| same(*v, uw[0], 1e-16)), "uniform", "weights {:?}", u.weights);
    // two-component shorthand
    if comps.len() >= 2 {
        let (a, b) = match s.below(8) {
            0 => (0.0, s.pos(1e-3, 1e3)),
            1 => (s.pos(1e-3, 1e3), 0.0),
            2 => (s.log_uniform(1e-150, 1e150), s.log_uniform(1e-150, 1e150)),
            3 => {
                let a = s.prob();
                (a, 1.0 - a)
            }
            _ => (s.pos(1e-3, 1e3), s.pos(1e-3, 1e3)),
        };
        let m = comps[0].clone().mixture(comps[1].clone(), a, b);
        let nw = [a / (a + b), b / (a + b)];
        ensure!(
            m.weights.len() == 2 && same(m.weights[0], nw[0], 1e-15) && same(m.weights[1], nw[1], 1e-15),
            "shorthand",
            "mixture(_, {a}, {b}) has weights {:?}, expected {nw:?}",
            m.weights
        );
        let (e, tol) = mix_expect(&ld[..2], &nw);
        let g: f64 = m.log_density_wrt_root(x);
        ensure!(same(g, e, tol), "shorthand", "mixture(_, {a}, {b}) of log-densities {:?} is {g}, expected {e}", &ld[..2]);
        let m = comps[0].clone().uniform_mixture(comps[1].clone());
        let (e, tol) = mix_expect(&ld[..2], &[0.5, 0.5]);
        let g: f64 = m.log_density_wrt_root(x);
        ensure!(same(g, e, tol), "shorthand", "uniform_mixture of {:?} is {g}, expected {e}", &ld[..2]);
        let m: MixtureMeasure<M, f64> = mixture!(uniform: comps[0].clone(), comps[1].clone());
        let g: f64 = m.log_density_wrt_root(x);
        ensure!(same(g, e, tol), "macro", "mixture!(uniform: ..) of {:?} is {g}, expected {e}", &ld[..2]);
        let v = s.pick(&[0.25, 0.5, 0.75, 1.0, 0.0]);
        let m: MixtureMeasure<M, f64> = mixture!((v, comps[0].clone()), (1.0 - v, comps[1].clone()));
        let (e, tol) = mix_expect(&ld[..2], &[v, 1.0 - v]);
        let g: f64 = m.log_density_wrt_root(x);
        ensure!(same(g, e, tol), "macro", "mixture!(({v}, a), ({}, b)) of {:?} is {g}, expected {e}", 1.0 - v, &ld[..2]);
    }
    Ok(())
}
fn c13_cont(s: &mut Src, o: &mut Obs) -> R {
    let k = s.usize(CN);
    let n = 1 + s.usize(6);
    let cs: Vec<C> = (0..n).map(|_| C::gen_kind(s, k)).collect();
    let w = weights(s, n);
    let i = s.usize(n);
    let x = if s.chance(1, 4) { s.real(-1e5, 1e5) } else { cs[i].point(s) };
    o.label(cs[0].kind());
    o.nontrivial(n > 1);
    o.label_if(w.iter().any(|x| *x == 0.0), "zero weight");
    o.note(|| format!("mixture of {cs:?}, weights {w:?}, at {x:?}"));
    use measures_distributions as md;
    macro_rules! go {
        ($p:pat => $e:expr) => {{
            let v: Vec<_> = cs.iter().map(|c| match *c { $p => $e, _ => unreachable!() }).collect();
            mixture_laws::<f64, _>(&v, &w, &x, s)
        }};
    }
    match k {
        0 => go!(C::Normal(a, b) => md::Normal::new(a, b)),
        1 => go!(C::Exponential(a) => md::Exponential::new(a)),
        2 => go!(C::Gamma(a, b) => md::Gamma::new(a, b)),
        3 => go!(C::Beta(a, b) => md::Beta::new(a, b)),
        4 => go!(C::Chi2(a) => md::ChiSquared::new(a)),
        5 => go!(C::StudentT(a) => md::StudentT::new(a)),
        _ => go!(C::Cauchy(a, b) => md::Cauchy::new(a, b)),
    }
}
fn c13_disc(s: &mut Src, o: &mut Obs) -> R {
    let k = s.usize(DN);
    let n = 1 + s.usize(6);
    let cs: Vec<D> = (0..n).map(|_| D::gen_kind(s, k, true)).collect();
    let w = weights(s, n);
    let i = s.usize(n);
    let x = cs[i].point(s);
    o.label(cs[0].kind());
    o.nontrivial(n > 1);
    o.label_if(w.iter().any(|x| *x == 0.0), "zero weight");
    o.note(|| format!("mixture of {cs:?}, weights {w:?}, at {x:?}"));
    use measures_distributions as md;
    macro_rules! go {
        ($t:ty, $p:pat => $e:expr) => {{
            let v: Vec<_> = cs.iter().map(|c| match c { $p => $e, _ => unreachable!() }).collect();
            mixture_laws::<$t, _>(&v, &w, &(x as $t), s)
        }};
    }
    match k {
        0 => go!(u8, D::Bernoulli(a) => md::Bernoulli::new(*a)),
        1 => go!(u64, D::Binomial(n, a) => md::Binomial::new(*n, *a)),
        2 => go!(usize, D::Categorical(a) => md::Categorical::new(a.clone())),
        3 => go!(u64, D::Geometric(a) => md::Geometric::new(*a)),
        4 => go!(u64, D::NegBin(n, a) => md::NegativeBinomial::new(*n, *a)),
        _ => go!(u64, D::Poisson(a) => md::Poisson::new(*a)),
    }
}
/// components of any magnitude, from user-defined measures
fn c13_magnitude(s: &mut Src, o: &mut Obs) -> R {
    let n = 1 + s.usize(8);
    let w = weights(s, n);
    let base = s.pick(&[0.0, 0.0, 700.0, 1e4, 1e15, -1e15, -745.0, -1e4, 1e300, -1e300]);
    let vs: Vec<f64> = w
        .iter()
        .map(|w| match s.below(10) {
            0 => f64::NEG_INFINITY,
            1 if *w == 0.0 => s.pick(&[f64::INFINITY, 1e308, 800.0]),
            1 => s.real(-1000.0, 1000.0),
            2 => -base,
            _ => base + s.real(-30.0, 30.0),
        })
        .collect();
    let c: Vec<Flat> = vs.iter().map(|v| Flat(*v, *v > f64::NEG_INFINITY)).collect();
    o.note(|| format!("log-densities {vs:?}, weights {w:?}"));
    o.nontrivial(n > 1);
    o.label_if(base.abs() > 600.0, "beyond exp range");
    o.label_if(vs.iter().all(|v| *v == f64::NEG_INFINITY), "all zero");
    mixture_laws::<f64, _>(&c, &w, &0.0, s)
}
fn c13_many(s: &mut Src, o: &mut Obs) -> R {
    let max = if s.chance(1, 20) { 70_000 } else { 500 };
    let n = 2 + s.size(max);
    let same_ld = s.bool();
    let v0 = s.real(-900.0, 900.0);
    let c: Vec<Flat> = s.many(n, |s| Flat(if same_ld { v0 } else { s.real(-900.0, 900.0) }, true));
    o.note(|| format!("uniform mixture of {n} components"));
    o.nontrivial(true);
    let ld: Vec<f64> = c.iter().map(|c| c.0).collect();
    let u: MixtureMeasure<Flat, f64> = MixtureMeasure::uniform(c);
    let g: f64 = u.log_density_wrt_root(&0.0);
    let t: Vec<f64> = ld.iter().map(|l| l - (n as f64).ln()).collect();
    let e = or::log_sum_exp(&t);
    ensure!(same(g, e, 1e-12 * (1.0 + e.abs())), "many", "uniform mixture of {n} components: {g}, expected {e}");
    if same_ld {
        ensure!(same(g, v0, 1e-12 * (1.0 + v0.abs())), "many", "uniform mixture of {n} equal components of log-density {v0} has {g}");
    }
    Ok(())
}
fn c13_f32(s: &mut Src, o: &mut Obs) -> R {
    use measures_distributions as md;
    let n = 1 + s.usize(5);
    let ps: Vec<(f32, f32)> = (0..n).map(|_| (s.real(-20.0, 20.0) as f32, s.pos(0.05, 10.0) as f32)).collect();
    let w: Vec<f32> = weights(s, n).iter().map(|x| *x as f32).collect();
    let x = s.real(-300.0, 300.0) as f32;
    o.note(|| format!("f32 normals {ps:?}, weights {w:?}, at {x}"));
    o.nontrivial(n > 1);
    let comps: Vec<_> = ps.iter().map(|(m, d)| md::Normal::<f32>::new(*m, *d)).collect();
    let ld: Vec<f64> = comps.iter().map(|c| f64::from(c.log_density_wrt_root(&x))).collect();
    let wd: Vec<f64> = w.iter().map(|x| f64::from(*x)).collect();
    let (e, _) = mix_expect(&ld, &wd);
    let g: f32 = MixtureMeasure::new(comps, w.clone()).log_density_wrt_root(&x);
    ensure!(same(f64::from(g), e, 2e-6 * (1.0 + e.abs())), "mixture-f32", "f32 mixture of normals {ps:?}, weights {w:?} at {x}: {g}, expected {e}");
    // uniform mixtures and the shorthand
    let comps: Vec<_> = ps.iter().map(|(m, d)| md::Normal::<f32>::new(*m, *d)).collect();
    let u: MixtureMeasure<_, f32> = MixtureMeasure::uniform(comps.clone());
    let (e, _) = mix_expect(&ld, &vec![1.0 / n as f64; n]);
    let g: f32 = u.log_density_wrt_root(&x);
    ensure!(same(f64::from(g), e, 2e-6 * (1.0 + e.abs())), "uniform-f32", "f32 uniform mixture of normals {ps:?} at {x}: {g}, expected {e}");
    if n >= 2 {
        let (a, b) = match s.below(6) {
            0 => (0.0, s.pos(1e-3, 1e3) as f32),
            1 => (s.log_uniform(1e-15, 1e15) as f32, s.log_uniform(1e-15, 1e15) as f32),
            _ => (s.pos(1e-3, 1e3) as f32, s.pos(1e-3, 1e3) as f32),
        };
        let t = f64::from(a) + f64::from(b);
        let (e, _) = mix_expect(&ld[..2], &[f64::from(a) / t, f64::from(b) / t]);
        let m: MixtureMeasure<_, f32> = MixtureExt::<f32>::mixture(comps[0].clone(), comps[1].clone(), a, b);
        let g: f32 = m.log_density_wrt_root(&x);
        ensure!(same(f64::from(g), e, 4e-6 * (1.0 + e.abs())), "shorthand-f32", "f32 mixture(_, {a}, {b}) of log-densities {:?} is {g}, expected {e}", &ld[..2]);
    }
    Ok(())
}
fn c13_tree(s: &mut Src, o: &mut Obs) -> R {
    tree_case(s, o, 3)
}

// ---------------------------------------------------------------- C14

fn c14_transforms(s: &mut Src, o: &mut Obs) -> R {
    let t = Tr::gener(s, true);
    o.label(t.name());
    o.nontrivial(true);
    // a point of the domain, and one of the image
    let (x, y) = match t {
        Tr::Log => (s.pos(1e-300, 1e300), s.uniform(-690.0, 690.0)),
        Tr::Exp => (s.real(-690.0, 690.0), s.pos(1e-300, 1e300)),
        Tr::Logit => {
            let x = match s.below(3) {
                0 => s.prob(),
                1 => s.log_uniform(1e-300, 0.5),
                _ => s.uniform(1e-9, 1.0 - 1e-9),
            };
            (x, if s.bool() { s.real(-30.0, 30.0) } else { s.uniform(-745.0, 745.0) })
        }
        _ => (s.real(-1e6, 1e6), s.real(-1e6, 1e6)),
    };
    o.note(|| format!("{t:?} at x = {x:?}, y = {y:?}"));
    let (f, g, j) = with_tr!(t, t => (t.0(&x), t.1(&y), t.2(&y)));
    let back = with_tr!(t, t => t.1(&t.0(&x)));
    let fe = t.fwd(x);
    let b = if let Tr::Linear(_, b) = t { b.abs() } else { 0.0 };
    ensure!(same(f, fe, 1e-13 * (1.0 + fe.abs() + b)) || t == Tr::Logit && same(f, fe, 1e-13 * (1.0 + fe.abs()) + 4e-16 / (1.0 - x)),
        "forward", "{t:?}: forward({x:?}) = {f}, expected {fe}");
    // inverse of forward, with the conditioning of the inverse
    let cond = match t {
        Tr::Log => x * (2.0 + fe.abs()),
        Tr::Exp => 1.0 + x.abs(),
        Tr::Logit => x * (1.0 - x) * (2.0 + fe.abs()) + 4.0 * x,
        Tr::Linear(a, b) => x.abs() + (b / a).abs(),
        _ => unreachable!(),
    };
    ensure!(same(back, x, 4e-15 * cond), "round-trip", "{t:?}: inverse(forward({x:?})) = {back}");
    let (ge, gs, je) = t.inv(y).unwrap();
    ensure!(same(g, ge, 1e-14 * gs * (2.0 + if t == Tr::Log { y.abs() } else { 0.0 })) , "inverse", "{t:?}: inverse({y:?}) = {g}, expected {ge}");
    ensure!(same(j, je, 1e-13 * (1.0 + je.abs())), "jacobian", "{t:?}: log|d inverse/dy|({y:?}) = {j}, expected {je}");
    // the stated Jacobian is the derivative of the library's own inverse
    let h = match t {
        Tr::Exp => y * 1e-4,
        _ => 1e-4 * (1.0 + if matches!(t, Tr::Linear(..)) { y.abs() } else { 0.0 }),
    };
    let d = with_tr!(t, t => (t.1(&(y + h)) - t.1(&(y - h))) / (2.0 * h));
    let (ga, gb) = with_tr!(t, t => (t.1(&(y + h)), t.1(&(y - h))));
    let noise = 4e-16 * (ga.abs() + gb.abs() + if matches!(t, Tr::Linear(..)) { gs } else { 0.0 }) / h;
    if d.abs() > 1e-280 && d.is_finite() && noise < 1e-6 * d.abs() {
        o.label("derivative checked");
        ensure!((d.abs().ln() - j).abs() < 1e-5, "derivative", "{t:?}: the inverse has derivative {d} at {y:?}, the stated log-Jacobian is {j}");
    }
    Ok(())
}
fn c14_f32(s: &mut Src, o: &mut Obs) -> R {
    let k = s.below(4);
    let a = if s.chance(1, 8) { s.log_uniform(1e-30, 1e30) } else { s.pos(0.01, 100.0) } as f32 * if s.bool() { -1.0 } else { 1.0 };
    let b = s.real(-10.0, 10.0) as f32;
    let y = match k {
        1 => s.real(-80.0, 80.0) as f32,
        2 => s.pos(1e-30, 1e30) as f32,
        _ => s.real(-85.0, 85.0) as f32,
    };
    let (t, g, j) = match k {
        0 => { let t = tf::linear_transform::<f32>(a, b); (Tr::Linear(f64::from(a), f64::from(b)), t.1(&y), t.2(&y)) }
        1 => { let t = tf::log_transform::<f32>(); (Tr::Log, t.1(&y), t.2(&y)) }
        2 => { let t = tf::exp_transform::<f32>(); (Tr::Exp, t.1(&y), t.2(&y)) }
        _ => { let t = tf::logit_transform::<f32>(); (Tr::Logit, t.1(&y), t.2(&y)) }
    };
    o.label(t.name());
    o.nontrivial(true);
    o.note(|| format!("f32 {t:?} at y = {y}"));
    let (ge, gs, je) = t.inv(f64::from(y)).unwrap();
    ensure!(same(f64::from(g), ge, 1e-6 * gs * (1.0 + f64::from(y.abs())) + 1e-40), "inverse-f32", "f32 {t:?}: inverse({y}) = {g}, expected {ge}");
    ensure!(same(f64::from(j), je, 1e-6 * (1.0 + je.abs())), "jacobian-f32", "f32 {t:?}: log-Jacobian({y}) = {j}, expected {je}");
    Ok(())
}
/// the formula on the library's own distributions
fn c14_lib(s: &mut Src, o: &mut Obs) -> R {
    let c = if s.bool() { moderate(s) } else { C::generate(s) };
    let t = Tr::gener(s, false);
    let d = Dyn(Rc::new(Node::Leaf(c.clone())));
    let n = Dyn(Rc::new(Node::Push(d, t)));
    let y = tree_point(&n, s);
    o.label(t.name());
    o.label(c.kind());
    o.note(|| format!("{t:?} of {c:?} at {y:?}"));
    check_tree(&n, y, o)?;
    let g: f64 = n.log_density_wrt_root(&y);
    // directly, and through the fluent interface, on the concrete types
    let (a, b) = with_c!(&c, f64, m => with_tr!(t, t => {
        let p = m.clone().pushforward(t.0.clone(), t.1.clone(), t.2.clone());
        let q = PushforwardMeasure::new(m, t.0, t.1, t.2);
        (p.log_density_wrt_root(&y), q.log_density_wrt_root(&y))
    }));
    ensure!(same(a, g, 0.0) && same(b, g, 0.0), "concrete", "{t:?} of {c:?} at {y:?}: {a} / {b}, expected {g}");
    Ok(())
}
fn c14_image(s: &mut Src, o: &mut Obs) -> R {
    // points outside the image, and extreme points
    let c = moderate(s);
    let y = match s.below(4) {
        0 => 0.0,
        1 => -s.pos(1e-300, 1e300),
        2 => s.pick(&[-0.0, f64::NEG_INFINITY, -f64::MIN_POSITIVE, -5e-324]),
        _ => s.real(-100.0, -1e-9),
    };
    o.label(c.kind());
    o.nontrivial(true);
    o.note(|| format!("exp of {c:?} at {y:?}"));
    let n = Dyn(Rc::new(Node::Push(Dyn(Rc::new(Node::Leaf(c.clone()))), Tr::Exp)));
    let g = n.log_density_wrt_root(&y);
    ensure!(g == f64::NEG_INFINITY, "outside-image", "exp of {c:?} at {y:?}: log-density {g}, the image is the positive numbers");
    ensure!(!n.in_support(y), "outside-image", "exp of {c:?}: {y:?} is reported to be in the support");
    // a base outside its support
    let d = C::Gamma(s.pos(0.2, 5.0), 1.0);
    let z = -s.pos(1e-3, 1e3);
    let n = Dyn(Rc::new(Node::Push(Dyn(Rc::new(Node::Leaf(d.clone()))), Tr::Linear(2.0, 0.0))));
    let g = n.log_density_wrt_root(&z);
    ensure!(g == f64::NEG_INFINITY && !n.in_support(z), "outside-base", "2 * {d:?} at {z:?}: log-density {g}");
    // extreme arguments give no NaN
    let y = s.pick(&[1e3, -1e3, 1e6, -1e6, 1e300, -1e300, 710.0, -745.0, -800.0, 37.0, 40.0]);
    for t in [Tr::Log, Tr::Logit, Tr::Linear(3.0, 1.0), Tr::Neg] {
        let n = Dyn(Rc::new(Node::Push(Dyn(Rc::new(Node::Leaf(c.clone()))), t)));
        let g = n.log_density_wrt_root(&y);
        ensure!(!g.is_nan() && g < f64::INFINITY, "extreme", "{t:?} of {c:?} at {y:?}: log-density {g}");
        n.in_support(y);
    }
    Ok(())
}
fn c14_mass(s: &mut Src, o: &mut Obs) -> R {
    let c = match s.below(7) {
        0 => C::Normal(s.real(-3.0, 3.0), s.pos(0.2, 3.0)),
        1 => C::Exponential(s.pos(0.1, 10.0)),
        2 => C::Gamma(s.pos(1.0, 20.0), s.pos(0.1, 10.0)),
        3 => C::Beta(s.pos(1.0, 20.0), s.pos(1.0, 20.0)),
        4 => C::Chi2(s.pos(2.0, 40.0)),
        5 => C::StudentT(s.pos(2.0, 40.0)),
        _ => C::Cauchy(s.real(-3.0, 3.0), s.pos(0.2, 3.0)),
    };
    let pos = matches!(c, C::Exponential(_) | C::Gamma(..) | C::Beta(..) | C::Chi2(_));
    let t = match s.below(5) {
        0 => Tr::Linear(s.pos(0.01, 100.0) * if s.bool() { -1.0 } else { 1.0 }, s.real(-10.0, 10.0)),
        1 if pos => Tr::Log,
        2 if matches!(c, C::Beta(..)) => Tr::Logit,
        3 if matches!(c, C::Normal(..) | C::Exponential(_) | C::Gamma(..) | C::Beta(..)) => Tr::Exp,
        _ => Tr::Neg,
    };
    o.label(t.name());
    o.nontrivial(true);
    o.note(|| format!("{t:?} of {c:?}: total mass"));
    // quadrature nodes of the base, carried to the image: dy = |f'(x)| dx
    let q = nodes(&c);
    let mass: f64 = with_c!(&c, f64, m => with_tr!(t, tt => {
        let p = PushforwardMeasure::new(m, tt.0, tt.1, tt.2);
        let mut sum = 0.0;
        for (x, w) in &q {
            let y = t.fwd(*x);
            let d = t.log_dfwd(*x);
            if y.is_finite() && d.is_finite() && t.inv(y).is_some_and(|i| i.0.is_finite()) && c.supports(t.inv(y).unwrap().0) {
                sum += w * (p.log_density_wrt_root(&y) + d).exp();
            }
        }
        sum
    }));
    ensure!((mass - 1.0).abs() < 2e-5, "mass", "{t:?} of {c:?}: the density integrates to {mass}");
    Ok(())
}
fn c14_tree(s: &mut Src, o: &mut Obs) -> R {
    tree_case(s, o, 4)
}

// ---------------------------------------------------------------- C15

type We<M, X> = WeightedMeasure<M, f64, X>;
type In<M, X> = IntegralMeasure<M, fn(&X) -> f64, X>;
fn scaled<X, M>(m: &M, x: &X, w: f64, v: f64, f: fn(&X) -> f64) -> R
where
    X: Clone + std::fmt::Debug + 'static,
    M: Measure<X> + HasLogDensity<X, f64> + Clone,
    M::RootMeasure: HasLogDensity<X, f64>,
    LogDensity<X, We<M, X>, M>: EvaluateAt<X, f64>,
    LogDensity<X, In<M, X>, M>: EvaluateAt<X, f64>,
    LogDensity<X, M, In<M, X>>: EvaluateAt<X, f64>,
    LogDensity<X, We<We<M, X>, X>, We<M, X>>: EvaluateAt<X, f64>,
    LogDensity<X, We<M, X>, M::RootMeasure>: EvaluateAt<X, f64>,
    LogDensity<X, In<We<M, X>, X>, M::RootMeasure>: EvaluateAt<X, f64>,
{
    let b = m.log_density_wrt_root(x);
    let fx = f(x);
    let tol = 1e-13 * (1.0 + b.abs() + w.abs() + v.abs() + fx.abs());
    let we = WeightedMeasure::<M, f64, X>::new(m.clone(), w);
    ensure!(we.log_weight == w, "weight", "log_weight is {}, expected {w}", we.log_weight);
    let g: f64 = we.log_density_wrt_root(x);
    ensure!(same(g, b + w, tol), "weighted", "base {b} with log-weight {w} at {x:?} gives {g}");
    let g: f64 = we.log_density().at(x);
    ensure!(same(g, b + w, tol), "weighted", "base {b} with log-weight {w} at {x:?} gives {g} through log_density()");
    let we2 = WeightedMeasure::<_, f64, X>::new(we.clone(), v);
    let g: f64 = we2.log_density_wrt_root(x);
    ensure!(same(g, b + w + v, tol), "weighted-twice", "base {b} with log-weights {w}, {v} at {x:?} gives {g}");
    let int = IntegralMeasure::new(m.clone(), f);
    let g: f64 = int.log_density_wrt_root(x);
    ensure!(same(g, b + fx, tol), "integral", "base {b} with log-density {fx} at {x:?} gives {g}");
    let iw = IntegralMeasure::new(we.clone(), f);
    let g: f64 = iw.log_density().at(x);
    ensure!(same(g, b + w + fx, tol), "integral-of-weighted", "base {b}, weight {w}, function {fx} at {x:?} give {g}");
    let wi = WeightedMeasure::<_, f64, X>::new(int.clone(), w);
    let g: f64 = wi.log_density_wrt_root(x);
    ensure!(same(g, b + w + fx, tol), "weighted-integral", "base {b}, function {fx}, weight {w} at {x:?} give {g}");
    let i = m.in_support(x.clone());
    let j = [we.in_support(x.clone()), we2.in_support(x.clone()), int.in_support(x.clone()), iw.in_support(x.clone()), wi.in_support(x.clone())];
    ensure!(j.iter().all(|k| *k == i), "support", "base in_support({x:?}) = {i}, scaled {j:?}");
    // relative to the base measure, exactly the weight or function
    if b.is_finite() {
        let g: f64 = we.log_density().wrt(m.clone()).at(x);
        ensure!(same(g, w, tol), "relative-weight", "weighted relative to its base at {x:?}: {g}, weight {w}");
        let g: f64 = int.log_density().wrt(m.clone()).at(x);
        ensure!(same(g, fx, tol), "relative-function", "integral relative to its base at {x:?}: {g}, function {fx}");
        let g: f64 = we2.log_density().wrt(we).at(x);
        ensure!(same(g, v, tol), "relative-weight", "twice weighted relative to once weighted at {x:?}: {g}, weight {v}");
        let g: f64 = m.log_density().wrt(int).at(x);
        ensure!(same(g, -fx, tol), "relative-function", "base relative to the integral at {x:?}: {g}, function {fx}");
    }
    Ok(())
}
fn logw(s: &mut Src) -> f64 {
    match s.below(6) {
        0 if s.bool() => s.log_uniform(1e9, 1e290) * s.pick(&[1.0, -1.0]),
        0 => s.real(-1e9, 1e9),
        1 => s.pick(&[0.0, 1e-300, -1e-300, 1e-9]),
        _ => s.real(-50.0, 50.0),
    }
}
fn c15_lib(s: &mut Src, o: &mut Obs) -> R {
    let (w, v) = (logw(s), logw(s));
    if s.bool() {
        let c = C::generate(s);
        let x = c.point(s);
        o.label(c.kind());
        o.nontrivial(w != 0.0 && c.supports(x));
        o.note(|| format!("{c:?} at {x:?}, log-weights {w}, {v}"));
        with_c!(&c, f64, m => scaled::<f64, _>(&m, &x, w, v, |x| 0.5 * x.sin() - 3.0))
    } else {
        let d = D::generate(s, true);
        let k = d.point(s);
        o.label(d.kind());
        o.nontrivial(w != 0.0 && d.supports(k));
        o.note(|| format!("{d:?} at {k}, log-weights {w}, {v}"));
        with_d!(&d, f64, m, X => scaled::<X, _>(&m, &(k as X), w, v, |x| (*x as f64) * 0.25 - 1.0))
    }
}
fn c15_f32(s: &mut Src, o: &mut Obs) -> R {
    let c = moderate(s).to_f32();
    let x = narrow(c.point(s));
    let w = s.real(-50.0, 50.0) as f32;
    o.nontrivial(c.supports(f64::from(x)));
    o.note(|| format!("f32 {c:?} at {x}, log-weight {w}"));
    with_c!(&c, f32, m => {
        let b: f32 = m.log_density_wrt_root(&x);
        let g: f32 = WeightedMeasure::<_, f32, f32>::new(m.clone(), w).log_density_wrt_root(&x);
        let i: f32 = IntegralMeasure::new(m, |x: &f32| x.sin()).log_density_wrt_root(&x);
        let tol = 1e-6 * f64::from(1.0 + b.abs() + w.abs());
        ensure!(same(f64::from(g), f64::from(b + w), tol), "weighted-f32", "base {b}, log-weight {w}: {g}");
        ensure!(same(f64::from(i), f64::from(b + x.sin()), tol), "integral-f32", "base {b}, function {}: {i}", x.sin());
        Ok::<(), Fail>(())
    })
}
/// deep chains of weights and functions
fn c15_deep(s: &mut Src, o: &mut Obs) -> R {
    let c = moderate(s);
    let x = c.inside(s);
    let n = 1 + s.usize(if o.thorough { 60 } else { 30 });
    let mut d = Dyn(Rc::new(Node::Leaf(c.clone())));
    let base = d.log_density_wrt_root(&x);
    let (mut e, mut m) = (base, base.abs());
    for _ in 0..n {
        if s.bool() {
            let w = logw(s);
            e += w;
            m += w.abs();
            d = Dyn(Rc::new(Node::Weighted(d, w)));
        } else {
            let f = s.pick(&[Fx::Line(0.5, -1.0), Fx::Sin(3.0), Fx::Abs, Fx::Quad(0.125)]);
            e += f.at(x);
            m += f.at(x).abs();
            d = Dyn(Rc::new(Node::Integral(d, f)));
        }
    }
    o.nontrivial(n > 1);
    o.note(|| format!("{n} nested weights and functions on {c:?} at {x}"));
    let g = d.log_density_wrt_root(&x);
    ensure!(same(g, e, 1e-13 * (1.0 + m)), "deep", "{n} nested weights and functions on {c:?} at {x}: {g}, expected {e}");
    ensure!(d.in_support(x) == c.supports(x), "deep-support", "{n} nested weights and functions on {c:?} at {x} change the support");
    Ok(())
}
fn c15_tree(s: &mut Src, o: &mut Obs) -> R {
    let k = 1 + s.below(2);
    tree_case(s, o, k)
}

// ---------------------------------------------------------------- C16

/// ln C(n, k), accurate to a few units in the last place for any n up to 2^53
fn ln_choose(n: u64, k: u64) -> f64 {
    if k > n {
        return f64::NEG_INFINITY;
    }
    let k = k.min(n - k);
    if k <= 200 {
        // exact products of small blocks of ratios, compensated sum of their logarithms
        let (mut s, mut c) = (0.0f64, 0.0f64);
        for i in 1..=k {
            let r = (n - k + i) as f64 / i as f64;
            let t = r.ln() - c;
            let u = s + t;
            c = (u - s) - t;
            s = u;
        }
        return s;
    }
    let (nf, kf, r) = (n as f64, k as f64, (n - k) as f64);
    let d = |x: f64| {
        let i = 1.0 / x;
        let i2 = i * i;
        i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 * (1.0 / 1680.0 - i2 / 1188.0))))
    };
    kf * (nf / kf).ln() + r * -((-kf / nf).ln_1p()) + 0.5 * ((nf / kf) / r).ln() - 0.5 * or::LN_2PI + d(nf) - d(kf) - d(r)
}
fn big(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => s.below(25),
        1 => s.below(200),
        2 => s.below(10_000),
        3 => 1u64 << s.below(64),
        4 if s.chance(1, 8) => u64::MAX - s.below(4),
        4 => s.log_uniform(1.0, 1.8e19) as u64,
        _ => s.log_uniform(1.0, 9.007e15) as u64,
    }
}
fn close(name: &str, got: f64, want: f64, r: f64) -> R {
    ensure!(same(got, want, r * want.abs()), "value", "{name} = {got}, expected {want}");
    Ok(())
}
fn c16_factorial(s: &mut Src, o: &mut Obs) -> R {
    let k = big(s);
    o.label(if k <= 20 { "table" } else if k <= 200 { "around the switch" } else { "large" });
    o.nontrivial(k > 1);
    o.note(|| format!("log {k}!"));
    let g: f64 = log_factorial(k);
    let e = or::lfact(k);
    close(&format!("log_factorial({k})"), g, e, 4e-15)?;
    let g32: f32 = log_factorial(k);
    close(&format!("log_factorial::<f32>({k})"), f64::from(g32), e, 1e-6)?;
    // recurrence
    if k > 0 {
        let p: f64 = log_factorial(k - 1);
        let l = (k as f64).ln();
        ensure!(same(g - p, l, 4e-15 * (1.0 + e)), "recurrence", "log {k}! - log {}! = {}, ln {k} = {l}", k - 1, g - p);
    }
    let m = FactorialMeasure::<f64>::new();
    let d: f64 = m.log_density_wrt_root(&k);
    ensure!(same(d, -g, 0.0), "measure", "FactorialMeasure at {k}: {d}, expected {}", -g);
    let d: f64 = m.log_density().at(&k);
    ensure!(same(d, -g, 0.0), "measure", "FactorialMeasure log_density().at({k}): {d}, expected {}", -g);
    let d: f32 = FactorialMeasure::<f32>::default().log_density_wrt_root(&k);
    ensure!(same(f64::from(d), f64::from(-g32), 0.0), "measure", "FactorialMeasure<f32> at {k}: {d}, expected {}", -g32);
    ensure!(m.in_support(k), "measure", "{k} is not in the support of FactorialMeasure");
    Ok(())
}
fn c16_small(s: &mut Src, o: &mut Obs) -> R {
    // n! and C(n, k) as integers
    let n = s.below(31);
    let k = s.below(n + 3);
    o.nontrivial(n > 1 && k > 0 && k < n);
    o.note(|| format!("exact integers: {n}! and C({n},{k})"));
    let mut f: u128 = 1;
    for i in 1..=u128::from(n) {
        f *= i;
    }
    close(&format!("log_factorial({n})"), log_factorial::<f64>(n), (f as f64).ln(), 2e-15)?;
    let mut b: u128 = if k > n { 0 } else { 1 };
    for i in 0..u128::from(k.min(n)) {
        b = b * (u128::from(n) - i) / (i + 1);
    }
    let g: f64 = log_binomial_coefficient(n, k);
    ensure!(same(g, (b as f64).ln(), 2e-15 * (1.0 + (b as f64).ln().max(0.0))), "value", "log C({n},{k}) = {g}, expected ln {b}");
    let r = n + 1;
    // C(k + r - 1, k)
    let mut b: u128 = 1;
    for i in 0..u128::from(k) {
        b = b * (u128::from(r) + i) / (i + 1);
    }
    let g: f64 = log_negative_binomial_coefficient(r, k);
    ensure!(same(g, (b as f64).ln(), 4e-15 * (1.0 + (b as f64).ln())), "value", "log of the negative binomial coefficient ({r}, {k}) = {g}, expected ln {b}");
    Ok(())
}
fn c16_binomial(s: &mut Src, o: &mut Obs) -> R {
    let n = big(s);
    let k = match s.below(6) {
        0 => s.below(40).min(n),
        1 => n - s.below(40).min(n),
        2 => n / 2,
        3 if s.bool() => u64::MAX,
        3 => n.saturating_add(1 + s.below(5)),
        4 => big(s).min(n),
        _ => s.below(n.saturating_add(1)),
    };
    o.label(if k > n { "k > n" } else if k.min(n - k) <= 32 { "k near an end" } else { "k in the middle" });
    o.label_if(n > 1_000_000, "n above 10^6");
    o.nontrivial(n > 1);
    o.note(|| format!("log C({n},{k})"));
    let e = ln_choose(n, k);
    let g: f64 = log_binomial_coefficient(n, k);
    ensure!(same(g, e, 2e-14 * e.abs() + 2e-15), "value", "log_binomial_coefficient({n}, {k}) = {g}, expected {e}");
    let g32: f32 = log_binomial_coefficient(n, k);
    ensure!(same(f64::from(g32), e, 1e-6 * e.abs() + 1e-6), "value-f32", "log_binomial_coefficient::<f32>({n}, {k}) = {g32}, expected {e}");
    let tol = 6e-14 * (e.abs() + 1.0);
    if k <= n {
        let h: f64 = log_binomial_coefficient(n, n - k);
        ensure!(same(g, h, tol), "symmetry", "log C({n},{k}) = {g}, log C({n},{}) = {h}", n - k);
    }
    if k >= 1 && k <= n {
        // k C(n,k) = n C(n-1,k-1)
        let h: f64 = log_binomial_coefficient(n - 1, k - 1);
        let d = (n as f64 / k as f64).ln();
        ensure!(same(g - h, d, tol), "recurrence", "log C({n},{k}) - log C({},{}) = {}, expected {d}", n - 1, k - 1, g - h);
    }
    let m = BinomialCoefficientMeasure::<f64>::new(n);
    let d: f64 = m.log_density_wrt_root(&k);
    ensure!(same(d, g, 0.0), "measure", "BinomialCoefficientMeasure({n}) at {k}: {d}, expected {g}");
    let d: f64 = m.log_density().at(&k);
    ensure!(same(d, g, 0.0), "measure", "BinomialCoefficientMeasure({n}) log_density().at({k}): {d}, expected {g}");
    ensure!(m.in_support(k) == (k <= n), "measure", "BinomialCoefficientMeasure({n}): in_support({k}) = {}", m.in_support(k));
    let d: f32 = BinomialCoefficientMeasure::<f32>::new(n).log_density_wrt_root(&k);
    ensure!(same(f64::from(d), f64::from(g32), 0.0), "measure", "BinomialCoefficientMeasure<f32>({n}) at {k}: {d}, expected {g32}");
    Ok(())
}
fn c16_negbin(s: &mut Src, o: &mut Obs) -> R {
    let r = big(s) / 2;
    let x = match s.below(4) {
        0 => s.below(40),
        1 => r / 2,
        2 => big(s) / 2,
        _ => s.below((2 * r).saturating_add(2)) / 2,
    };
    o.label(if r == 0 { "r = 0" } else if x > 1_000_000 || r > 1_000_000 { "above 10^6" } else { "moderate" });
    o.nontrivial(r > 1 && x > 0);
    o.note(|| format!("log of the negative binomial coefficient r = {r}, x = {x}"));
    let e = if x == 0 {
        0.0
    } else if r == 0 {
        f64::NEG_INFINITY
    } else {
        ln_choose(x + r - 1, x)
    };
    let g: f64 = log_negative_binomial_coefficient(r, x);
    ensure!(same(g, e, 2e-14 * e.abs() + 2e-15), "value", "log_negative_binomial_coefficient({r}, {x}) = {g}, expected {e}");
    let g32: f32 = log_negative_binomial_coefficient(r, x);
    ensure!(same(f64::from(g32), e, 1e-6 * e.abs() + 1e-6), "value-f32", "log_negative_binomial_coefficient::<f32>({r}, {x}) = {g32}, expected {e}");
    if r >= 1 {
        // (x+1) c(r,x+1) = (x+r) c(r,x)
        let h: f64 = log_negative_binomial_coefficient(r, x + 1);
        let d = ((x + r) as f64 / (x + 1) as f64).ln();
        ensure!(same(h - g, d, 6e-14 * (e.abs() + 1.0)), "recurrence", "r = {r}: coefficient({}) - coefficient({x}) = {}, expected {d}", x + 1, h - g);
    }
    let m = NegativeBinomialCoefficientMeasure::<f64>::new(r);
    let d: f64 = m.log_density_wrt_root(&x);
    ensure!(same(d, g, 0.0), "measure", "NegativeBinomialCoefficientMeasure({r}) at {x}: {d}, expected {g}");
    let d: f64 = m.log_density().at(&x);
    ensure!(same(d, g, 0.0), "measure", "NegativeBinomialCoefficientMeasure({r}) log_density().at({x}): {d}, expected {g}");
    let d: f32 = NegativeBinomialCoefficientMeasure::<f32>::new(r).log_density_wrt_root(&x);
    ensure!(same(f64::from(d), f64::from(g32), 0.0), "measure", "NegativeBinomialCoefficientMeasure<f32>({r}) at {x}: {d}, expected {g32}");
    Ok(())
}
/// every argument of the table and of the range around the switch, and every (n, k) with n < 64
fn c16_enum(s: &mut Src, o: &mut Obs) -> R {
    let i = s.below(1 << 20);
    o.nontrivial(true);
    if i < 3000 {
        o.note(|| format!("log {i}!"));
        o.label("factorial");
        let e = or::lfact(i);
        close(&format!("log_factorial({i})"), log_factorial::<f64>(i), e, 4e-15)?;
        close(&format!("log_factorial::<f32>({i})"), f64::from(log_factorial::<f32>(i)), e, 1e-6)
    } else {
        let j = i - 3000;
        let (n, k) = (j / 130, j % 130);
        o.note(|| format!("log C({n},{k})"));
        o.label("binomial");
        let e = ln_choose(n, k);
        let g: f64 = log_binomial_coefficient(n, k);
        ensure!(same(g, e, 2e-14 * e.abs() + 2e-15), "value", "log_binomial_coefficient({n}, {k}) = {g}, expected {e}");
        // Pascal's rule
        if n > 0 && k > 0 && k <= n {
            let (a, b): (f64, f64) = (log_binomial_coefficient(n - 1, k - 1), log_binomial_coefficient(n - 1, k));
            let p = or::log_sum_exp(&[a, b]);
            ensure!(same(g, p, 1e-13 * (1.0 + g.abs())), "pascal", "log C({n},{k}) = {g}, the sum of the two above is {p}");
        }
        let e = if k == 0 { 0.0 } else if n == 0 { f64::NEG_INFINITY } else { ln_choose(k + n - 1, k) };
        let g: f64 = log_negative_binomial_coefficient(n, k);
        ensure!(same(g, e, 2e-14 * e.abs() + 2e-15), "value", "log_negative_binomial_coefficient({n}, {k}) = {g}, expected {e}");
        Ok(())
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            assumptions: &["densities of the factors themselves are the subject of C02; here the product is compared with them"],
            facets: vec![
                facet("pairs", 300_000, 12_000_000, "two different factors, at least one evaluated inside its support", c12_pairs),
                facet("nested", 100_000, 4_000_000, "five factors (each itself a combination), all with a defined density", c12_nested),
                facet("f32", 100_000, 3_000_000, "both factors inside their supports", c12_f32),
            ],
        },
        Prop {
            id: "C13",
            assumptions: &["a component of weight zero may have any density, infinite or undefined"],
            facets: vec![
                facet("continuous", 150_000, 8_000_000, "at least two components", c13_cont),
                facet("discrete", 150_000, 8_000_000, "at least two components", c13_disc),
                facet("magnitude", 200_000, 8_000_000, "at least two components", c13_magnitude),
                facet("many", 3_000, 60_000, "every case", c13_many),
                facet("f32", 100_000, 3_000_000, "at least two components", c13_f32),
                facet("tree", 150_000, 6_000_000, "well-conditioned point", c13_tree),
            ],
        },
        Prop {
            id: "C14",
            assumptions: &[
                "points whose inverse image is not representable in double precision (|y| > 600 for log and logit, inverse images within a few ulps of a support edge) are not compared",
                "library distributions have a different Lebesgue type as root, so the support predicate of a pushforward is tested on user-defined measures wrapping them",
            ],
            facets: vec![
                facet("transforms", 400_000, 20_000_000, "every case: one point of the domain and one of the image", c14_transforms),
                facet("f32", 200_000, 6_000_000, "every case", c14_f32),
                facet("library", 200_000, 10_000_000, "well-conditioned point", c14_lib),
                facet("image", 100_000, 3_000_000, "every case: a point outside the image", c14_image),
                facet("mass", 8_000, 160_000, "every case integrates one transformed density", c14_mass),
                facet("tree", 150_000, 6_000_000, "well-conditioned point", c14_tree),
            ],
        },
        Prop {
            id: "C15",
            assumptions: &[],
            facets: vec![
                facet("library", 300_000, 12_000_000, "non-zero weight and a point in the support", c15_lib),
                facet("f32", 100_000, 3_000_000, "point in the support", c15_f32),
                facet("deep", 30_000, 1_000_000, "at least two levels", c15_deep),
                facet("tree", 150_000, 6_000_000, "well-conditioned point", c15_tree),
            ],
        },
        Prop {
            id: "C16",
            assumptions: &["arguments up to 2^53; near machine precision means 2e-15 relative for factorials, 2e-14 for coefficients, 1e-6 in f32"],
            facets: vec![
                facet("factorial", 300_000, 10_000_000, "k > 1", c16_factorial),
                facet("exact", 100_000, 1_000_000, "0 < k < n", c16_small),
                facet("binomial", 300_000, 10_000_000, "n > 1", c16_binomial),
                facet("negbin", 300_000, 10_000_000, "r > 1 and x > 0", c16_negbin),
                Facet { enumerated: true, ..facet("table", 20_000, 200_000, "every case, exhaustively", c16_enum) },
            ],
        },
    ]
}
