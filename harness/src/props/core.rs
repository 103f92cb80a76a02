//! C09 log-density decompositions, C10 caching of log-densities, C25 numeric helpers.
use crate::dists::C;
use crate::oracle::{Vm, same};
use crate::runner::*;
use crate::src::{Src, fnv};
use crate::ensure;
use measures_core::{
    CachedLogDensity, CountingMeasure, DecompositionBuilder, DotProduct, EvaluateAt, False, HasLogDensity,
    HasLogDensityDecomposition, LogDensityBuilder, LogDensityCaching, LogDensityDecomposition, LogDensityTrait, Measure,
    MeasureMarker, float_constant, safe_convert, safe_convert_or, safe_float_convert,
};
use measures_exponential_family::exponential_family::array_utils::{add_arrays, default_array, sum_arrays};
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ------------------------------------------------------------------ C09

type Th = (i32, i32);
/// Terms with small integer or half-integer values: every sum below is exact in any order.
macro_rules! pools {
    ($name:ident, $t:ty) => {
        mod $name {
            use super::Th;
            pub const DATA: [fn(&i32) -> $t; 8] = [
                |x| *x as $t,
                |x| (x % 7) as $t,
                |x| -(*x as $t) * 0.5,
                |x| (x * x % 101) as $t,
                |_| 3.0,
                |x| if *x > 0 { 17.0 } else { -17.0 },
                |x| (x >> 2) as $t * 2.0,
                |_| 0.0,
            ];
            pub const PARAM: [fn(&Th) -> $t; 8] = [
                |t| t.0 as $t,
                |t| t.1 as $t,
                |t| (t.0 * 3 - t.1) as $t,
                |t| (t.0 % 5) as $t * 0.5,
                |_| -11.0,
                |t| if t.0 == t.1 { 1.0 } else { 64.0 },
                |t| (t.0 & 15) as $t + (t.1 & 3) as $t,
                |_| 0.0,
            ];
            pub const MIXED: [fn(&i32, &Th) -> $t; 8] = [
                |x, t| (x + t.0) as $t,
                |x, t| (x % 11) as $t * (t.1 % 13) as $t,
                |x, t| ((x - t.0) * (x - t.0) % 97) as $t * -0.5,
                |x, t| if *x == t.0 { 5.0 } else { -5.0 },
                |_, _| 2.0,
                |x, t| (x ^ t.1) as $t,
                |x, t| (x - t.1) as $t,
                |_, t| (t.0 - t.1) as $t,
            ];
        }
    };
}
pools!(p64, f64);
pools!(p32, f32);

macro_rules! decomposition {
    ($fname:ident, $pool:ident, $t:ty) => {
        fn $fname(s: &mut Src, o: &mut Obs) -> R {
            let n = s.usize(9);
            let fluent = s.bool();
            let mut b = DecompositionBuilder::<i32, Th, $t>::new();
            let mut d = if s.bool() { LogDensityDecomposition::<i32, Th, $t>::new() } else { LogDensityDecomposition::default() };
            let (mut dt, mut pt, mut mt, mut cs) = (vec![], vec![], vec![], vec![]);
            for _ in 0..n {
                let k = s.usize(8);
                match s.below(4) {
                    0 => { dt.push(k); b = b.data_term($pool::DATA[k], "d"); d = d.add_data_term($pool::DATA[k], None) }
                    1 => { pt.push(k); b = b.param_term($pool::PARAM[k], "p"); d = d.add_param_term($pool::PARAM[k], Some("p".into())) }
                    2 => { mt.push(k); b = b.mixed_term($pool::MIXED[k], "m"); d = d.add_mixed_term($pool::MIXED[k], None) }
                    _ => { let c = s.range(-40, 40) as $t * 0.25; cs.push(c); b = b.constant(c); d = d.add_constant(c) }
                }
            }
            let mut dec = if fluent { b.build() } else { d };
            if s.bool() {
                dec = dec.clone();
            }
            ensure!((dec.data_terms.len(), dec.param_terms.len(), dec.mixed_terms.len()) == (dt.len(), pt.len(), mt.len()) && dec.constant_terms == cs,
                "terms", "{} data, {} parameter, {} mixed terms and constants {:?} were kept of {dt:?} {pt:?} {mt:?} {cs:?}",
                dec.data_terms.len(), dec.param_terms.len(), dec.mixed_terms.len(), dec.constant_terms);
            let theta: Th = (s.range(-50, 50) as i32, s.range(-50, 50) as i32);
            let big = if o.thorough { 200 } else { 40 };
            let m = if s.chance(1, 8) { s.length(big, 70_000) } else { s.usize(6) };
            let xs: Vec<i32> = s.many(m, |s| s.range(-60, 60) as i32);
            o.label_if(m > 255, "more than 255 samples");
            let cd = |x: &i32| dt.iter().map(|k| f64::from($pool::DATA[*k](x))).sum::<f64>();
            let cp = pt.iter().map(|k| f64::from($pool::PARAM[*k](&theta))).sum::<f64>();
            let cm = |x: &i32| mt.iter().map(|k| f64::from($pool::MIXED[*k](x, &theta))).sum::<f64>();
            let cc: f64 = cs.iter().map(|c| f64::from(*c)).sum();
            o.nontrivial(n >= 2 && !xs.is_empty());
            o.label_if(xs.len() > 1 && !pt.is_empty(), "several samples, parameter term");
            o.label_if(xs.len() > 1 && !cs.is_empty(), "several samples, constant term");
            o.label_if(dt.len() > 1 || pt.len() > 1 || mt.len() > 1, "several terms of a kind");
            o.note(|| format!("terms d{dt:?} p{pt:?} m{mt:?} c{cs:?}, theta {theta:?}, samples {xs:?}"));
            let say = || format!("terms d{dt:?} p{pt:?} m{mt:?} c{cs:?}, theta {theta:?}");
            ensure!(f64::from(dec.evaluate_param_terms(&theta)) == cp, "param-part", "{}: parameter part {} expected {cp}", say(), dec.evaluate_param_terms(&theta));
            ensure!(f64::from(dec.constant_sum()) == cc, "constant-part", "{}: constants {} expected {cc}", say(), dec.constant_sum());
            let mut total = 0.0;
            for x in &xs {
                let one = f64::from(dec.evaluate(x, &theta));
                let want = cd(x) + cp + cm(x) + cc;
                ensure!(one == want, "evaluate", "{}: evaluate({x}) = {one}, expected {want}", say());
                ensure!(f64::from(dec.evaluate_data_terms(x)) == cd(x), "data-part", "{}: data part at {x} is {} expected {}", say(), dec.evaluate_data_terms(x), cd(x));
                let parts = f64::from(dec.evaluate_data_terms(x)) + f64::from(dec.evaluate_param_terms(&theta)) + f64::from(dec.constant_sum())
                    + dec.mixed_terms.iter().map(|m| f64::from((m.compute)(x, &theta))).sum::<f64>();
                ensure!(parts == one, "parts", "{}: the parts at {x} add to {parts}, evaluate gives {one}", say());
                total += want;
            }
            let joint = f64::from(dec.evaluate_iid(&xs, &theta));
            // every partial sum is exact while it stays below 2^24 in quarters
            let mag = m as f64 * n as f64 * 60.0 * 60.0;
            let tol = if std::mem::size_of::<$t>() == 8 || mag < 4e6 { 0.0 } else { mag * (6e-8 * (m + n) as f64).min(1e-3) };
            ensure!((joint - total).abs() <= tol, "iid", "{}: joint over {xs:?} is {joint}, the single evaluations add to {total}", say());
            Ok(())
        }
    };
}
decomposition!(c09_f64, p64, f64);
decomposition!(c09_f32, p32, f32);

const EDGE_D: [fn(&f64) -> f64; 4] = [|x| *x, |x| x.ln(), |x| -x * x, |_| 0.5];
const EDGE_P: [fn(&f64) -> f64; 4] = [|t| *t, |t| t.ln(), |t| 1.0 / t, |_| -0.5];
const EDGE_M: [fn(&f64, &f64) -> f64; 4] = [|x, t| x * t, |x, t| x - t, |x, t| (x / t).ln(), |x, t| if x > t { f64::NEG_INFINITY } else { 1.0 }];
/// Arbitrary real, infinite and undefined term values.
fn c09_edge(s: &mut Src, o: &mut Obs) -> R {
    let val = |s: &mut Src| s.pick(&[0.0, 1.0, -1.0, 2.5, 0.1, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-300, 3e5]);
    let (mut b, mut ks) = (DecompositionBuilder::<f64, f64, f64>::default(), vec![]);
    for _ in 0..s.usize(6) {
        let k = s.usize(4);
        let w = s.below(4);
        ks.push((w, k));
        b = match w {
            0 => b.data_term(EDGE_D[k], ""),
            1 => b.param_term(EDGE_P[k], ""),
            2 => b.mixed_term(EDGE_M[k], ""),
            _ => b.constant([0.25, -7.0, f64::NEG_INFINITY, 1e3][k]),
        };
    }
    let d = b.build();
    let t = val(s);
    let xs = s.vec(5, val);
    let single = |x: &f64| -> Vm {
        let v: Vec<f64> = ks
            .iter()
            .map(|(w, k)| match w {
                0 => EDGE_D[*k](x),
                1 => EDGE_P[*k](&t),
                2 => EDGE_M[*k](x, &t),
                _ => [0.25, -7.0, f64::NEG_INFINITY, 1e3][*k],
            })
            .collect();
        Vm::sum(&v)
    };
    let mut total = Vm::c(0.0);
    for x in &xs {
        let r = single(x);
        let g = d.evaluate(x, &t);
        ensure!(close(g, r), "evaluate", "terms {ks:?} at x={x} theta={t}: {g}, expected {}", r.v);
        total = total.add(r);
    }
    o.nontrivial(xs.len() > 1 && ks.len() > 1);
    o.label_if(!total.v.is_finite(), "joint value infinite or undefined");
    o.note(|| format!("terms {ks:?}, theta {t}, samples {xs:?}, joint {}", total.v));
    let g = d.evaluate_iid(&xs, &t);
    ensure!(close(g, total), "iid", "terms {ks:?} over {xs:?} theta={t}: joint {g}, the single evaluations add to {}", total.v);
    Ok(())
}
/// Vm comparison in which magnitudes may themselves be infinite.
fn close(g: f64, r: Vm) -> bool {
    if r.v.is_finite() && g.is_finite() { (g - r.v).abs() <= 1e-13 * (1.0 + r.m) } else { same(g, r.v, 0.0) }
}

macro_rules! library_decomposition {
    ($d:expr, $params:expr, $other:expr, $oparams:expr, $t:ty, $xs:expr, $tol:expr) => {{
        let dec = $d.log_density_decomposition();
        ensure!($d.params() == $params, "params", "params() = {:?}, constructed with {:?}", $d.params(), $params);
        let xs: Vec<$t> = $xs.iter().map(|x| *x as $t).collect();
        let mut total = Vm::c(0.0);
        let mut ototal = Vm::c(0.0);
        for x in &xs {
            let r = $other.0.reference(f64::from(*x));
            let ro = $other.1.reference(f64::from(*x));
            let g = f64::from(dec.evaluate(x, &$params));
            ensure!($tol(g, r), "evaluate", "{:?}: decomposition at {x} is {g}, the log-density is {}", $other.0, r.v);
            let direct: $t = EvaluateAt::at(&$d.log_density(), x);
            ensure!($tol(f64::from(direct), r), "direct", "{:?}: log-density at {x} is {direct}, expected {}", $other.0, r.v);
            let go = f64::from(dec.evaluate(x, &$oparams));
            ensure!($tol(go, ro), "other-params", "decomposition of {:?} at {x} with the parameters of {:?} is {go}, expected {}", $other.0, $other.1, ro.v);
            let parts = f64::from(dec.evaluate_data_terms(x)) + f64::from(dec.evaluate_param_terms(&$params)) + f64::from(dec.constant_sum())
                + dec.mixed_terms.iter().map(|m| f64::from((m.compute)(x, &$params))).sum::<f64>();
            ensure!($tol(parts, r), "parts", "{:?}: parts at {x} add to {parts}, the log-density is {}", $other.0, r.v);
            total = total.add(r);
            ototal = ototal.add(ro);
        }
        let j = f64::from($d.log_density_iid(&xs));
        ensure!($tol(j, total), "iid", "{:?}: joint log-density of {xs:?} is {j}, expected {}", $other.0, total.v);
        let j = f64::from(dec.evaluate_iid(&xs, &$oparams));
        ensure!($tol(j, ototal), "iid-other", "{:?}: joint of {xs:?} with the parameters of {:?} is {j}, expected {}", $other.0, $other.1, ototal.v);
    }};
}
macro_rules! c09_library {
    ($fname:ident, $t:ty, $wide:expr, $tol:expr) => {
        fn $fname(s: &mut Src, o: &mut Obs) -> R {
            use measures_distributions as md;
            let kind = s.pick(&[0usize, 5, 6]);
            let round = |c: C| if std::mem::size_of::<$t>() == 4 { c.to_f32() } else { c };
            let (a, b) = (round(C::gen_kind(s, kind)), round(C::gen_kind(s, kind)));
            let m = if s.chance(1, 10) { s.length(if o.thorough { 400 } else { 60 }, 70_000) } else { s.usize(6) };
            let xs: Vec<f64> = s.many(m, |s| {
                let x = if s.chance(1, 12) && kind != 0 { s.pick(&[1e20, -1e25, 1e30]) * $wide } else { a.inside(s) };
                f64::from(x as $t)
            });
            o.label_if(m > 255, "more than 255 samples");
            o.label(a.kind());
            o.label_if(xs.len() > 1, "several samples");
            o.nontrivial(!xs.is_empty());
            o.note(|| format!("{a:?} and {b:?} at {xs:?}"));
            match (&a, &b) {
                (C::Normal(m1, s1), C::Normal(m2, s2)) => {
                    let d = md::Normal::<$t>::new(*m1 as $t, *s1 as $t);
                    library_decomposition!(d, (*m1 as $t, *s1 as $t), (&a, &b), (*m2 as $t, *s2 as $t), $t, xs, $tol)
                }
                (C::Cauchy(m1, s1), C::Cauchy(m2, s2)) => {
                    let d = md::Cauchy::<$t>::new(*m1 as $t, *s1 as $t);
                    library_decomposition!(d, (*m1 as $t, *s1 as $t), (&a, &b), (*m2 as $t, *s2 as $t), $t, xs, $tol)
                }
                (C::StudentT(n1), C::StudentT(n2)) => {
                    let d = md::StudentT::<$t>::new(*n1 as $t);
                    library_decomposition!(d, *n1 as $t, (&a, &b), *n2 as $t, $t, xs, $tol)
                }
                _ => unreachable!(),
            }
            Ok(())
        }
    };
}
c09_library!(c09_lib64, f64, 1e220, |g: f64, r: Vm| r.ok(g));
// parameters and points are exact in f32, but their difference is rounded: allow for it
c09_library!(c09_lib32, f32, 1.0, |g: f64, r: Vm| (r.v.abs() > 3e37) || (g - r.v).abs() <= 3.0 * r.tol32());

// ------------------------------------------------------------------ C10

trait Key: Clone + Hash + Eq + Debug + 'static {
    fn generate(s: &mut Src) -> Self;
    fn code(&self) -> u64 {
        fnv(format!("{self:?}").as_bytes(), 7)
    }
}
fn word(s: &mut Src) -> u64 {
    if s.bool() { s.below(1 << 32) << 32 | s.below(1 << 32) } else { s.below(400) }
}
impl Key for u64 {
    fn generate(s: &mut Src) -> u64 {
        word(s)
    }
}
impl Key for u8 {
    fn generate(s: &mut Src) -> u8 {
        s.below(256) as u8
    }
}
impl Key for bool {
    fn generate(s: &mut Src) -> bool {
        s.bool()
    }
}
impl Key for (i32, u8) {
    fn generate(s: &mut Src) -> (i32, u8) {
        (s.range(-20, 20) as i32, s.below(3) as u8)
    }
}
impl Key for Vec<i16> {
    fn generate(s: &mut Src) -> Vec<i16> {
        s.vec(5, |s| s.range(-3, 3) as i16)
    }
}
impl Key for String {
    fn generate(s: &mut Src) -> String {
        s.vec(6, |s| s.pick(&['a', 'b', '\0', 'é', ' '])).into_iter().collect()
    }
}
/// Real numbers as keys: equality of bits; the hash deliberately collides.
#[derive(Clone, Debug)]
struct Real(f64);
impl PartialEq for Real {
    fn eq(&self, o: &Real) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Eq for Real {}
impl Hash for Real {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0.to_bits() >> 62).hash(h);
    }
}
impl Key for Real {
    fn generate(s: &mut Src) -> Real {
        Real(s.real(-10.0, 10.0))
    }
    fn code(&self) -> u64 {
        self.0.to_bits().wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
}

/// A measure on any key type: counts its evaluations and fails on request.
#[derive(Clone)]
struct Meas<K> {
    salt: u64,
    evals: Rc<Cell<u64>>,
    bomb: Rc<Cell<Option<u64>>>,
    p: std::marker::PhantomData<K>,
}
impl<K> Meas<K> {
    fn value(&self, code: u64) -> f64 {
        let h = fnv(&code.to_le_bytes(), self.salt);
        match h % 13 {
            0 => f64::NAN,
            1 => f64::NEG_INFINITY,
            2 => f64::INFINITY,
            3 => 0.0,
            4 => -0.0,
            _ => (h >> 11) as f64 * 1e-12 - 4000.0,
        }
    }
}
impl<K> MeasureMarker for Meas<K> {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<K: Key> Measure<K> for Meas<K> {
    type RootMeasure = CountingMeasure<K>;
    fn in_support(&self, _: K) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<K> {
        CountingMeasure::new()
    }
}
macro_rules! meas_density {
    ($t:ty) => {
        impl<K: Key> HasLogDensity<K, $t> for Meas<K> {
            fn log_density_wrt_root(&self, x: &K) -> $t {
                let c = x.code();
                assert!(self.bomb.get() != Some(c), "bomb");
                self.evals.set(self.evals.get() + 1);
                self.value(c) as $t
            }
        }
    };
}
meas_density!(f64);
meas_density!(f32);

struct Entry<'a, K> {
    name: &'static str,
    at: Box<dyn Fn(&K) -> u64 + 'a>,
    raw: Box<dyn Fn(&K) -> u64 + 'a>,
    /// measure evaluations of one uncached evaluation
    cost: u64,
    seen: std::collections::HashSet<K>,
}
fn bits64(x: f64) -> u64 {
    if x.is_nan() { u64::MAX } else { x.to_bits() }
}
fn bits32(x: f32) -> u64 {
    if x.is_nan() { u64::MAX } else { u64::from(x.to_bits()) }
}

fn c10_keys<K: Key>(s: &mut Src, o: &mut Obs) -> R {
    let salt = s.below(1 << 20);
    let mk = |d: u64| Meas::<K> { salt: salt + d, evals: Rc::default(), bomb: Rc::default(), p: std::marker::PhantomData };
    let (m1, m2) = (mk(0), mk(1));
    let count = || m1.evals.get() + m2.evals.get();
    let plain = m1.log_density();
    let relative = m1.log_density().wrt(m2.clone());
    let (c1, c2, c3) = (plain.clone().cached(), m2.log_density().cached(), relative.clone().cached());
    let c4: CachedLogDensity<_, K, f32> = plain.clone().cached_for::<f32>();
    let c5 = CachedLogDensity::<_, K, f64>::new(plain.clone().cached());
    let c6 = m1.log_density().cached();
    ensure!(LogDensityTrait::<K>::measure(&c3).salt == m1.salt && LogDensityTrait::<K>::base_measure(&c3).salt == m2.salt && LogDensityTrait::<K>::measure(&c5).salt == m1.salt,
        "measures", "the cached log-density reports other measures");
    let (p2, rel) = (m2.log_density(), relative.clone());
    macro_rules! entry {
        ($n:expr, $c:ident, $raw:ident, $t:ty, $b:ident, $cost:expr) => {
            Entry { name: $n, at: Box::new(|x: &K| { let v: $t = EvaluateAt::at(&$c, x); $b(v) }), raw: Box::new(|x: &K| { let v: $t = EvaluateAt::at(&$raw, x); $b(v) }), cost: $cost, seen: Default::default() }
        };
    }
    let mut es: Vec<Entry<K>> = vec![
        entry!("cached", c1, plain, f64, bits64, 1),
        entry!("cached (second measure)", c2, p2, f64, bits64, 1),
        entry!("cached, relative", c3, rel, f64, bits64, 2),
        entry!("cached_for f32", c4, plain, f32, bits32, 1),
        entry!("cached twice", c5, plain, f64, bits64, 1),
        entry!("cached (same measure again)", c6, plain, f64, bits64, 1),
    ];
    let pool: Vec<K> = (0..1 + s.usize(12)).map(|_| K::generate(s)).collect();
    let long = s.chance(1, 60);
    let ops = if long { s.usize(if o.thorough { 4000 } else { 1500 }) } else { s.usize(40) };
    let (mut repeats, mut panics) = (0u64, 0u64);
    for step in 0..ops {
        let e = if long { (step * 7 / 5) % 6 } else { s.usize(6) };
        // a long history visits many points; its points are still part of the recorded choices
        let x = if s.chance(1, if long { 3 } else { 10 }) { K::generate(s) } else { pool[s.usize(pool.len())].clone() };
        let armed = s.chance(1, 20);
        let en = &mut es[e];
        let want = (en.raw)(&x);
        let again = en.seen.contains(&x);
        let before = count();
        if armed {
            m1.bomb.set(Some(x.code()));
            m2.bomb.set(Some(x.code()));
        }
        let got = catch(|| (en.at)(&x));
        m1.bomb.set(None);
        m2.bomb.set(None);
        let used = count() - before;
        match got {
            Ok(v) => {
                ensure!(v == want, "value", "step {step}: {} at {x:?} gives bits {v:x}, the uncached log-density gives {want:x} (seen before: {again})", en.name);
                ensure!(!(armed && !again), "unevaluated", "step {step}: {} at {x:?} gave a value although the log-density could not be evaluated", en.name);
                let expect = if again { 0 } else { en.cost };
                ensure!(used == expect, "recomputed", "step {step}: {} at {x:?} evaluated the measures {used} times, expected {expect} (seen before: {again})", en.name);
                repeats += u64::from(again);
                en.seen.insert(x);
            }
            Err(m) => {
                ensure!(armed && !again && m.contains("bomb"), "panic", "step {step}: {} at {x:?} panicked: {m}", en.name);
                panics += 1;
            }
        }
    }
    o.nontrivial(repeats >= 2);
    o.label_if(long, "long history");
    o.label_if(panics > 0, "evaluation panicked in the history");
    o.note(|| format!("keys {}, {ops} evaluations, {repeats} repeated, {panics} panicked", std::any::type_name::<K>()));
    Ok(())
}
fn c10_history(s: &mut Src, o: &mut Obs) -> R {
    match s.below(7) {
        0 => c10_keys::<u64>(s, o),
        1 => c10_keys::<u8>(s, o),
        2 => c10_keys::<bool>(s, o),
        3 => c10_keys::<(i32, u8)>(s, o),
        4 => c10_keys::<Vec<i16>>(s, o),
        5 => c10_keys::<String>(s, o),
        _ => c10_keys::<Real>(s, o),
    }
}
/// Many different points: each is evaluated once, however many others came in between.
fn c10_large(s: &mut Src, o: &mut Obs) -> R {
    let n = if s.chance(1, 40) { s.size(70_000) } else { s.size(3000) };
    let m = Meas::<u64> { salt: s.below(1 << 20), evals: Rc::default(), bomb: Rc::default(), p: std::marker::PhantomData };
    let plain = m.log_density();
    let c = plain.clone().cached();
    let stride = s.pick(&[1u64, 2, 3, 64, 1 << 20, 1 << 32, 0x9E37_79B9_7F4A_7C15]);
    let start = s.below(1 << 32);
    let point = |i: usize| start.wrapping_add((i as u64).wrapping_mul(stride));
    let back = s.usize(4);
    o.nontrivial(n > 1);
    o.label(match n { 0..=16 => "up to 16 points", 17..=255 => "17 to 255 points", 256..=4095 => "256 to 4095 points", _ => "4096 or more points" });
    o.note(|| format!("{n} points from {start} in steps of {stride}, revisit order {back}"));
    let direct: Vec<u64> = (0..n).map(|i| bits64(EvaluateAt::<u64, f64>::at(&plain, &point(i)))).collect();
    m.evals.set(0);
    for (i, d) in direct.iter().enumerate() {
        let v: f64 = EvaluateAt::at(&c, &point(i));
        ensure!(bits64(v) == *d, "value", "point {i} of {n} ({}) is {v}, the uncached log-density has bits {d:x}", point(i));
    }
    ensure!(m.evals.get() == n as u64, "recomputed", "{n} different points were evaluated {} times", m.evals.get());
    let mut r = s.fork();
    for j in 0..n {
        let i = match back {
            0 => j,
            1 => n - 1 - j,
            2 => r.usize(n),
            _ => j / 2 + (j % 2) * (n - 1 - j / 2) % n,
        };
        let v: f64 = EvaluateAt::at(&c, &point(i));
        ensure!(bits64(v) == direct[i], "value", "revisited point {i} of {n} ({}) is {v}, the uncached log-density has bits {:x}", point(i), direct[i]);
        ensure!(m.evals.get() == n as u64, "recomputed", "point {i} of {n} was evaluated again when revisited ({} revisits)", j + 1);
    }
    Ok(())
}
fn c10_library(s: &mut Src, o: &mut Obs) -> R {
    use crate::dists::D;
    use crate::with_d;
    let d = D::generate(s, true);
    let pts: Vec<u64> = (0..1 + s.usize(30)).map(|_| d.point(s)).collect();
    let order: Vec<usize> = (0..s.usize(60)).map(|_| s.usize(pts.len())).collect();
    o.label(d.kind());
    o.nontrivial(order.len() > 5);
    o.note(|| format!("{d:?} over {pts:?} in order {order:?}"));
    with_d!(&d, f64, m, X => {
        let ld = m.log_density();
        let c = LogDensityCaching::<X>::cached(ld.clone());
        for i in &order {
            let x = pts[*i] as X;
            let (a, b): (f64, f64) = (EvaluateAt::at(&c, &x), EvaluateAt::at(&ld, &x));
            ensure!(bits64(a) == bits64(b), "value", "{d:?}: cached log-density at {x:?} is {a}, uncached {b}");
        }
    });
    Ok(())
}

// ------------------------------------------------------------------ C25

fn number(s: &mut Src, exact: bool) -> f64 {
    if exact {
        return s.range(-2000, 2000) as f64;
    }
    match s.below(12) {
        0 => s.pick(&[0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, -1e300, f64::MAX, f64::MIN_POSITIVE]),
        1 => s.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        _ => s.real(-1e6, 1e6),
    }
}
fn dot_check<V: DotProduct<Output = f64> + Debug>(a: &V, b: &V, x: &[f64], y: &[f64]) -> R {
    let n = x.len();
    let terms: Vec<f64> = x.iter().zip(y).map(|(p, q)| p * q).collect();
    let r: f64 = terms.iter().sum::<f64>() + 0.0;
    let mag: f64 = terms.iter().map(|t| t.abs()).sum();
    for (g, w) in [(a.dot(b), "a.b"), (b.dot(a), "b.a")] {
        let exact = x.iter().chain(y).all(|v| v.fract() == 0.0 && v.abs() < 1e4);
        let ok = if exact { g == r } else if mag.is_finite() { (g - r).abs() <= 1e-15 * n as f64 * mag } else { true };
        ensure!(ok, "dot", "{w} of {a:?} and {b:?} is {g}, expected {r}");
        let undefined = terms.iter().any(|t| t.is_nan())
            || (terms.contains(&f64::INFINITY) && terms.contains(&f64::NEG_INFINITY));
        let one_sign = terms.iter().all(|t| *t >= 0.0) || terms.iter().all(|t| *t <= 0.0);
        if undefined {
            ensure!(g.is_nan(), "dot", "{w} of {a:?} and {b:?} is {g}, expected NaN");
        } else if terms.iter().any(|t| t.is_infinite()) && one_sign {
            ensure!(g == r, "dot", "{w} of {a:?} and {b:?} is {g}, expected {r}");
        }
    }
    Ok(())
}
fn arrays<const N: usize>(s: &mut Src, o: &mut Obs) -> R {
    let exact = s.bool();
    let a: [f64; N] = std::array::from_fn(|_| number(s, exact));
    let b: [f64; N] = std::array::from_fn(|_| number(s, exact));
    o.nontrivial(N > 1);
    o.note(|| format!("{a:?} and {b:?}"));
    dot_check(&a, &b, &a, &b)?;
    let sub = measures_core::traits::dot_product::array_sub(a, b);
    let add = add_arrays(a, b);
    for i in 0..N {
        ensure!(bits64(sub[i]) == bits64(a[i] - b[i]), "array_sub", "({a:?} - {b:?})[{i}] = {}", sub[i]);
        ensure!(bits64(add[i]) == bits64(a[i] + b[i]), "add_arrays", "({a:?} + {b:?})[{i}] = {}", add[i]);
    }
    // f32
    let (a32, b32) = (a.map(|x| x as f32), b.map(|x| x as f32));
    if exact {
        let e: f64 = a.iter().zip(&b).map(|(x, y)| x * y).sum();
        if a.iter().zip(&b).map(|(x, y)| (x * y).abs()).sum::<f64>() < 1.6e7 {
            ensure!(f64::from(a32.dot(&b32)) == e, "dot-f32", "f32 {a32:?}.{b32:?} = {}, expected {e}", a32.dot(&b32));
        }
    }
    let sub = measures_core::traits::dot_product::array_sub(a32, b32);
    let add = add_arrays(a32, b32);
    for i in 0..N {
        ensure!(bits32(sub[i]) == bits32(a32[i] - b32[i]) && bits32(add[i]) == bits32(a32[i] + b32[i]), "array-f32", "f32 {a32:?} {b32:?} at {i}: sub {} add {}", sub[i], add[i]);
    }
    // sums of any number of arrays, in exact arithmetic
    let k = s.length(11, 3000);
    let rows: Vec<[i64; N]> = s.many(k, |s| std::array::from_fn(|_| s.range(-1_000_000, 1_000_000)));
    let sum: [i64; N] = sum_arrays(rows.iter().copied());
    let rows_f: Vec<[f64; N]> = rows.iter().map(|r| r.map(|x| x as f64)).collect();
    let sum_f: [f64; N] = sum_arrays(rows_f.into_iter());
    for i in 0..N {
        let e: i64 = rows.iter().map(|r| r[i]).sum();
        ensure!(sum[i] == e && sum_f[i] == e as f64, "sum_arrays", "sum of {rows:?} at {i} = {} / {}, expected {e}", sum[i], sum_f[i]);
    }
    o.label_if(k > 1, "several arrays summed");
    let (d, du): ([f64; N], [u8; N]) = (default_array(), default_array());
    let ds: [String; N] = default_array();
    ensure!(d == [0.0; N] && du == [0; N] && ds.iter().all(String::is_empty), "default_array", "default array {d:?}");
    Ok(())
}
fn c25_arrays(s: &mut Src, o: &mut Obs) -> R {
    match s.below(9) {
        0 => arrays::<0>(s, o),
        1 => arrays::<1>(s, o),
        2 => arrays::<2>(s, o),
        3 => arrays::<3>(s, o),
        4 => arrays::<4>(s, o),
        5 => arrays::<7>(s, o),
        6 => arrays::<8>(s, o),
        7 => arrays::<16>(s, o),
        _ => arrays::<33>(s, o),
    }
}
fn c25_vec(s: &mut Src, o: &mut Obs) -> R {
    let exact = s.bool();
    let n = if s.chance(1, 6) { s.length(300, 70_000) } else { s.usize(10) };
    let a: Vec<f64> = s.many(n, |s| number(s, exact));
    let b: Vec<f64> = s.many(n, |s| number(s, exact));
    o.nontrivial(n > 1);
    o.label_if(n >= 16, "16 or more elements");
    o.note(|| format!("{a:?} . {b:?}"));
    dot_check(&a, &b, &a, &b)
}

/// An integer, exactly, or a float.
#[derive(Clone, Copy, Debug)]
enum Num {
    /// sign, magnitude
    I(bool, u128),
    F(f64),
}
trait Target: Copy + Debug {
    fn expect(v: Num) -> Option<Self>;
    fn bits(self) -> u128;
}
macro_rules! int_target {
    ($($t:ty)*) => {$(
        impl Target for $t {
            fn expect(v: Num) -> Option<$t> {
                match v {
                    Num::I(false, m) => <$t>::try_from(m).ok(),
                    Num::I(true, m) => {
                        // -m, with m up to 2^127
                        let neg = if m == 1 << 127 { i128::MIN } else { -(i128::try_from(m).ok()?) };
                        <$t>::try_from(neg).ok()
                    }
                    Num::F(f) => {
                        let t = f.trunc();
                        // the limits are exact as f64: -2^k (or 0) and 2^k
                        let lo = <$t>::MIN as f64;
                        let hi = 2f64.powi(if <$t>::MIN == 0 { <$t>::BITS as i32 } else { <$t>::BITS as i32 - 1 });
                        if t >= lo && t < hi { Some(t as $t) } else { None }
                    }
                }
            }
            fn bits(self) -> u128 { self as u128 }
        }
    )*};
}
int_target!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
/// Nearest float to an integer, rounding to even, computed with integer arithmetic only.
fn nearest(neg: bool, m: u128, mant: u32) -> f64 {
    let len = 128 - m.leading_zeros();
    let r = if len <= mant {
        m as f64
    } else {
        let sh = len - mant;
        let (q, rem, half) = (m >> sh, m & ((1u128 << sh) - 1), 1u128 << (sh - 1));
        let q = if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q };
        q as f64 * 2f64.powi(sh as i32)
    };
    if neg { -r } else { r }
}
macro_rules! float_target {
    ($t:ty, $m:expr, $b:ident) => {
        impl Target for $t {
            fn expect(v: Num) -> Option<$t> {
                Some(match v {
                    Num::I(s, m) => nearest(s, m, $m) as $t,
                    Num::F(f) => f as $t,
                })
            }
            fn bits(self) -> u128 {
                u128::from($b(self))
            }
        }
    };
}
float_target!(f64, 53, bits64);
float_target!(f32, 24, bits32);

fn integer(s: &mut Src, bits: u32) -> u128 {
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = match s.below(4) {
        0 => u128::from(s.below(300)),
        1 => {
            // around a power of two
            let k = s.below(u64::from(bits) + 1) as u32;
            let p = if k == 128 { 0 } else { 1u128 << k };
            p.wrapping_add(s.below(7) as u128).wrapping_sub(3)
        }
        2 => {
            // halfway between two floats
            let k = 24 + s.below(60) as u32;
            (1u128 << k) | (1u128 << (k - s.pick(&[24u32, 23, 22]))) | (u128::from(s.below(3)) << (k.saturating_sub(53)))
        }
        _ => u128::from(s.below(1 << 32)) << 96 | u128::from(s.below(1 << 32)) << 64 | u128::from(s.below(1 << 32)) << 32 | u128::from(s.below(1 << 32)),
    };
    (v >> if s.bool() { 0 } else { s.below(u64::from(bits)) as u32 }) & mask
}
fn float(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, -0.5, -0.999_999_9, 1e300, -1e300, 5e-324, f64::MAX, 3.402_823_5e38, 1e-46]),
        1 => {
            let p = 2f64.powi(s.range(0, 130) as i32);
            let v = match s.below(4) {
                0 => p,
                1 => p - 0.5,
                2 => p + 0.5,
                _ => p * (1.0 - f64::EPSILON / 2.0),
            };
            if s.bool() { v } else { -v }
        }
        2 => s.real(-300.0, 300.0),
        _ => {
            let v = f64::from_bits(s.below(1 << 32) << 32 | s.below(1 << 32));
            if v.is_nan() { 1.5 } else { v }
        }
    }
}

fn conv<A, B>(a: A, v: Num, other: B) -> R
where
    A: num_traits::ToPrimitive + Copy + Debug,
    B: Target + num_traits::FromPrimitive + Default,
{
    let want = B::expect(v);
    let got: B = safe_convert(a);
    let e = want.unwrap_or_default();
    let (na, nb) = (std::any::type_name::<A>(), std::any::type_name::<B>());
    ensure!(got.bits() == e.bits(), "safe_convert", "safe_convert::<{na}, {nb}>({a:?}) = {got:?}, expected {e:?}");
    let got: B = safe_convert_or(a, other);
    let e = want.unwrap_or(other);
    ensure!(got.bits() == e.bits(), "safe_convert_or", "safe_convert_or::<{na}, {nb}>({a:?}, {other:?}) = {got:?}, expected {e:?}");
    Ok(())
}
macro_rules! to_all {
    ($s:expr, $a:expr, $v:expr) => {
        match $s.below(14) {
            0 => conv($a, $v, 17u8)?,
            1 => conv($a, $v, -17i8)?,
            2 => conv($a, $v, 1717u16)?,
            3 => conv($a, $v, -1717i16)?,
            4 => conv($a, $v, 77u32)?,
            5 => conv($a, $v, -77i32)?,
            6 => conv($a, $v, u64::MAX - 5)?,
            7 => conv($a, $v, i64::MIN + 5)?,
            8 => conv($a, $v, usize::MAX)?,
            9 => conv($a, $v, -3isize)?,
            10 => conv($a, $v, u128::MAX)?,
            11 => conv($a, $v, i128::MIN)?,
            12 => conv($a, $v, -2.5f32)?,
            _ => conv($a, $v, f64::NAN)?,
        }
    };
}
macro_rules! from_int {
    ($s:expr, $o:expr, $t:ty) => {{
        let x = integer($s, <$t>::BITS) as $t;
        #[allow(unused_comparisons)]
        let v = if x < 0 { Num::I(true, (x as i128).unsigned_abs()) } else { Num::I(false, x as u128) };
        $o.note(|| format!("{} {x}", stringify!($t)));
        $o.label_if(matches!(v, Num::I(_, m) if m > 1 << 53), "integer beyond 2^53");
        to_all!($s, x, v);
    }};
}
fn c25_convert(s: &mut Src, o: &mut Obs) -> R {
    o.nontrivial = true;
    match s.below(14) {
        0 => from_int!(s, o, u8),
        1 => from_int!(s, o, i8),
        2 => from_int!(s, o, u16),
        3 => from_int!(s, o, i16),
        4 => from_int!(s, o, u32),
        5 => from_int!(s, o, i32),
        6 => from_int!(s, o, u64),
        7 => from_int!(s, o, i64),
        8 => from_int!(s, o, usize),
        9 => from_int!(s, o, isize),
        10 => from_int!(s, o, u128),
        11 => from_int!(s, o, i128),
        12 => {
            let x = float(s);
            o.note(|| format!("f64 {x:e}"));
            to_all!(s, x, Num::F(x))
        }
        _ => {
            let x = float(s) as f32;
            o.note(|| format!("f32 {x:e}"));
            to_all!(s, x, Num::F(f64::from(x)))
        }
    }
    Ok(())
}
fn c25_floats(s: &mut Src, o: &mut Obs) -> R {
    let x = float(s);
    let y = x as f32;
    o.nontrivial(x.is_finite());
    o.label_if(!x.is_finite(), "not finite");
    o.note(|| format!("{x:e}"));
    let a = safe_float_convert::<f64, f32>(x).map(bits32);
    let b = safe_float_convert::<f32, f64>(y).map(bits64);
    let c = safe_float_convert::<f64, f64>(x).map(bits64);
    let d = safe_float_convert::<f32, f32>(y).map(bits32);
    ensure!(a == Ok(bits32(y)) && b == Ok(bits64(f64::from(y))) && c == Ok(bits64(x)) && d == Ok(bits32(y)), "safe_float_convert", "conversions of {x:e} give bits {a:x?} {b:x?} {c:x?} {d:x?}");
    let (p, q) = (float_constant::<f64>(x), float_constant::<f32>(x));
    ensure!(bits64(p) == bits64(x) && bits32(q) == bits32(y), "float_constant", "float_constant of {x:e} is {p:e} as f64 and {q:e} as f32");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            facets: vec![
                facet("builder-f64", 400_000, 20_000_000, "two or more terms and at least one sample", c09_f64),
                facet("builder-f32", 200_000, 10_000_000, "two or more terms and at least one sample", c09_f32),
                facet("infinite-terms", 200_000, 10_000_000, "several terms and several samples", c09_edge),
                facet("library-f64", 300_000, 15_000_000, "at least one sample", c09_lib64),
                facet("library-f32", 200_000, 10_000_000, "at least one sample", c09_lib32),
            ],
            assumptions: &["terms are function pointers: a pool of eight per kind, combined in every multiplicity and order"],
        },
        Prop {
            id: "C10",
            facets: vec![
                facet("histories", 60_000, 3_000_000, "at least two evaluations of a point already seen", c10_history),
                facet("large", 600, 30_000, "two or more points", c10_large),
                facet("library", 100_000, 5_000_000, "more than five evaluations", c10_library),
            ],
            assumptions: &["a cache is used from one thread (it is not Sync)", "the measure itself gives the same value each time it is asked"],
        },
        Prop {
            id: "C25",
            facets: vec![
                facet("arrays", 300_000, 10_000_000, "more than one element", c25_arrays),
                facet("vectors", 300_000, 10_000_000, "more than one element", c25_vec),
                facet("conversions", 2_000_000, 60_000_000, "every case converts one number of one type to another", c25_convert),
                facet("floats", 500_000, 20_000_000, "a finite number", c25_floats),
            ],
            assumptions: &["operands of a dot product have equal lengths"],
        },
    ]
}
