//! Estimators and the solver builder.
use crate::gen::*;
use crate::pen::norm;
use crate::single;
use crate::R;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::*;
use sparseglm::datafits::single_task::*;
use sparseglm::datasets::*;
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::*;
use sparseglm::penalties::separable::*;
use sparseglm::solvers::anderson_bcd::block_coordinate_descent;
use sparseglm::solvers::anderson_cd::coordinate_descent;
use sparseglm::solvers::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Set {
    alpha: f64,
    extra: f64,
    it: usize,
    ep: usize,
    ws: usize,
    tol: f64,
    k: usize,
    acc: bool,
    verbose: bool,
}

fn settings(rng: &mut Rng, mcp: bool) -> Set {
    Set {
        alpha: rng.pick(&[0.0, 0.1, 0.5, 1.5]),
        extra: if mcp { rng.pick(&[1.0, 1.5, 3.0, 8.0]) } else { rng.pick(&[0.0, 0.25, 0.5, 1.0]) },
        it: rng.range(0, 6),
        ep: rng.range(0, 30),
        ws: rng.range(1, 7),
        tol: rng.pick(&[0.0, 1e-8, 1e-3, 0.3]),
        k: rng.range(1, 6),
        acc: rng.chance(0.5),
        verbose: false,
    }
}

macro_rules! set {
    ($p:expr, $s:expr, $($extra:ident)?) => {
        $p.alpha($s.alpha)$(.$extra($s.extra))?.max_iterations($s.it).max_epochs($s.ep).ws_start_size($s.ws).tolerance($s.tol).K($s.k)
            .use_acceleration($s.acc).verbose($s.verbose)
    };
}

macro_rules! read {
    ($v:expr, $d:expr, $($extra:ident)?) => {{
        let v = &$v;
        #[allow(unused_mut)]
        let mut r = Set { alpha: v.alpha(), extra: $d, it: v.max_iterations(), ep: v.max_epochs(), ws: v.ws_start_size(), tol: v.tolerance(), k: v.K(),
              acc: v.use_acceleration(), verbose: v.verbose() };
        $(r.extra = v.$extra();)?
        r
    }};
}

// ------------------------------------------------------------------ C12
fn expected(s: &Set, mcp: bool, has: bool) -> Vec<(&'static str, f64)> {
    let mut v = vec![];
    if s.alpha < 0.0 {
        v.push(("InvalidRegularization", s.alpha));
    }
    if s.tol < 0.0 {
        v.push(("InvalidTolerance", s.tol));
    }
    if s.k == 0 {
        v.push(("InvalidK", 0.0));
    }
    if s.ws == 0 {
        v.push(("InvalidWSSize", 0.0));
    }
    if has && mcp && s.extra < 1.0 {
        v.push(("InvalidGamma", s.extra));
    }
    if has && !mcp && !(0.0..=1.0).contains(&s.extra) {
        v.push(("InvalidL1Ratio", s.extra));
    }
    v
}

fn err_of(e: &EstimatorError) -> (&'static str, f64) {
    match e {
        EstimatorError::InvalidRegularization(v) => ("InvalidRegularization", *v as f64),
        EstimatorError::InvalidGamma(v) => ("InvalidGamma", *v as f64),
        EstimatorError::InvalidTolerance(v) => ("InvalidTolerance", *v as f64),
        EstimatorError::InvalidK(v) => ("InvalidK", *v as f64),
        EstimatorError::InvalidWSSize(v) => ("InvalidWSSize", *v as f64),
        EstimatorError::InvalidL1Ratio(v) => ("InvalidL1Ratio", *v as f64),
    }
}

macro_rules! c12_one {
    ($rng:expr, $name:ident, $mcp:expr, $has:expr, $multi:tt, $($extra:ident)?) => {{
        let mut s = settings($rng, $mcp);
        if $rng.chance(0.7) {
            match $rng.below(5) {
                0 => s.alpha = $rng.pick(&[-1.0, -1e-3, -0.5]),
                1 => s.tol = $rng.pick(&[-1.0, -1e-9]),
                2 => s.k = 0,
                3 => s.ws = 0,
                _ => s.extra = if $mcp { $rng.pick(&[0.999, 0.5, 0.0, -2.0]) } else { $rng.pick(&[-0.25, 1.001, 2.0, -1e-6]) },
            }
            if $rng.chance(0.2) {
                s.k = 0;
                s.alpha = -2.0;
            }
        }
        let want = expected(&s, $mcp, $has);
        let mk = || set!($name::<f64>::params(), s, $($extra)?);
        let what = format!("{} with {:?}", stringify!($name), s);
        let verdict = |e: &EstimatorError| {
            let (n, v) = err_of(e);
            want.iter().any(|(a, b)| *a == n && (*b as f32) as f64 == v)
        };
        match mk().check() {
            Ok(v) => {
                if !want.is_empty() {
                    return Err(format!("{}: accepted", what));
                }
                let got = read!(v, s.extra, $($extra)?);
                if got != s {
                    return Err(format!("{}: came back as {:?}", what, got));
                }
                match mk().check_ref() {
                    Ok(r) if *r == v => {}
                    o => return Err(format!("{}: check gives {:?} but check_ref {:?}", what, v, o)),
                }
            }
            Err(e) => {
                if !verdict(&e) {
                    return Err(format!("{}: rejected with {:?}", what, e));
                }
                match mk().check_ref() {
                    Err(f) if err_of(&f) == err_of(&e) => {}
                    o => return Err(format!("{}: check fails with {:?} but check_ref gives {:?}", what, e, o)),
                }
            }
        }
        let x = $rng.matrix(4, 3);
        let ds = c12_one!(@ds $multi, $rng, x);
        match (mk().fit(&ds), want.is_empty()) {
            (Ok(_), true) => {}
            (Err(e), false) if verdict(&e) => {}
            (r, _) => return Err(format!("{}: fit returned {}", what, if r.is_ok() { "Ok".into() } else { format!("{:?}", r.err()) })),
        }
    }};
    (@ds single, $rng:expr, $x:expr) => { DatasetBase::from(($x, $rng.array(4))) };
    (@ds multi, $rng:expr, $x:expr) => { DatasetBase::from(($x, $rng.matrix(4, 2))) };
}

pub fn c12(rng: &mut Rng) -> R {
    c12_one!(rng, Lasso, false, false, single,);
    c12_one!(rng, ElasticNet, false, true, single, l1_ratio);
    c12_one!(rng, MCPEstimator, true, true, single, gamma);
    c12_one!(rng, MultiTaskLasso, false, false, multi,);
    c12_one!(rng, MultiTaskElasticNet, false, true, multi, l1_ratio);
    c12_one!(rng, BlockMCPEstimator, true, true, multi, gamma);
    Ok(())
}

// ------------------------------------------------------------------ C13
macro_rules! c13_one {
    ($rng:expr, $name:ident, $mcp:expr, $multi:tt, $d0:expr, $pen:expr, $($extra:ident)?) => {{
        let s = settings($rng, $mcp);
        let d = $name::<f64>::params().check().unwrap();
        let dflt = read!(d, $d0, $($extra)?);
        let doc = Set { alpha: 1.0, extra: $d0, it: 50, ep: 1000, ws: 10, tol: 1e-6, k: 5, acc: true, verbose: true };
        if dflt != doc {
            return Err(format!("{}: defaults {:?}, documented {:?}", stringify!($name), dflt, doc));
        }
        let (n, p) = ($rng.range(1, 7), $rng.range(1, 7));
        let m = mat($rng, n, p);
        let y = c13_one!(@y $multi, $rng, n);
        let pen = $pen(s.alpha, s.extra);
        let est = set!($name::<f64>::params(), s, $($extra)?);
        let what = format!("{} with {:?} on X={:?} y={:?}", stringify!($name), s, m, y);
        let dd = DatasetBase::from((m.dense.clone(), y.clone()));
        let sd = DatasetBase::from((m.csc(), y.clone()));
        let a = est.fit(&dd).unwrap();
        let b = c13_one!(@run $multi, dd, pen, s);
        if a.coefficients() != b {
            return Err(format!("{}: dense fit {:?}, solver {:?}", what, a.coefficients(), b));
        }
        let a = est.fit(&sd).unwrap();
        let b = c13_one!(@run $multi, sd, pen, s);
        if a.coefficients() != b {
            return Err(format!("{}: sparse fit {:?}, solver {:?}", what, a.coefficients(), b));
        }
        // setters in another order, each setting only itself
        let base = est.clone().check().unwrap();
        let t = settings($rng, $mcp);
        for q in 0..9 {
            let e = est.clone();
            let mut want = s;
            let e = match q {
                0 => { want.alpha = t.alpha; e.alpha(t.alpha) }
                1 => { want.it = t.it; e.max_iterations(t.it) }
                2 => { want.ep = t.ep; e.max_epochs(t.ep) }
                3 => { want.ws = t.ws; e.ws_start_size(t.ws) }
                4 => { want.tol = t.tol; e.tolerance(t.tol) }
                5 => { want.k = t.k; e.K(t.k) }
                6 => { want.acc = t.acc; e.use_acceleration(t.acc) }
                7 => { want.verbose = !s.verbose; e.verbose(!s.verbose) }
                _ => { $(want.extra = t.extra; let e = e.$extra(t.extra);)? e }
            };
            let got = read!(e.check().unwrap(), s.extra, $($extra)?);
            if got != want {
                return Err(format!("{}: setter {} on {:?} gives {:?}, expected {:?}", stringify!($name), q, base, got, want));
            }
        }
    }};
    (@y single, $rng:expr, $n:expr) => { $rng.array($n) };
    (@y multi, $rng:expr, $n:expr) => {{ let t = $rng.range(1, 3); $rng.matrix($n, t) }};
    (@run single, $ds:expr, $pen:expr, $s:expr) => {
        coordinate_descent(&$ds, &mut Quadratic::new(), &$pen, $s.ws, $s.it, $s.ep, $s.tol, $s.k, $s.acc, $s.verbose)
    };
    (@run multi, $ds:expr, $pen:expr, $s:expr) => {
        block_coordinate_descent(&$ds, &mut QuadraticMultiTask::new(), &$pen, $s.ws, $s.it, $s.ep, $s.tol, $s.k, $s.acc, $s.verbose)
    };
}

pub fn c13(rng: &mut Rng) -> R {
    c13_one!(rng, Lasso, false, single, 0.5, |a, _e| L1::new(a),);
    c13_one!(rng, ElasticNet, false, single, 0.5, |a, e| L1PlusL2::new(a, e), l1_ratio);
    c13_one!(rng, MCPEstimator, true, single, 3.0, |a, e| MCP::new(a, e), gamma);
    c13_one!(rng, MultiTaskLasso, false, multi, 0.5, |a, _e| L21::new(a),);
    c13_one!(rng, MultiTaskElasticNet, false, multi, 0.5, |a, e| BlockL1PlusL2::new(a, e), l1_ratio);
    c13_one!(rng, BlockMCPEstimator, true, multi, 3.0, |a, e| BlockMCP::new(a, e), gamma);
    // solver builder
    let d = Solver::<f64>::new();
    let doc = Solver { ws_start_size: 10, max_iterations: 50, max_epochs: 1000, tolerance: 1e-8, K: 5, use_acceleration: true, verbose: true };
    if d != doc || Solver::<f64>::default() != doc {
        return Err(format!("solver defaults {:?}", d));
    }
    let s = settings(rng, false);
    let b = Solver::new().ws_start_size(s.ws).max_iterations(s.it).max_epochs(s.ep).tolerance(s.tol).K(s.k).use_acceleration(s.acc).verbose(false);
    let want = Solver { ws_start_size: s.ws, max_iterations: s.it, max_epochs: s.ep, tolerance: s.tol, K: s.k, use_acceleration: s.acc, verbose: false };
    if b != want {
        return Err(format!("solver built as {:?}, expected {:?}", b, want));
    }
    let (n, p) = (rng.range(1, 7), rng.range(1, 7));
    let m = mat(rng, n, p);
    let ds = DatasetBase::from((m.dense.clone(), rng.array(n)));
    let pen = L1::new(s.alpha);
    let a = b.solve(&ds, &mut Quadratic::new(), &pen).unwrap();
    let e = coordinate_descent(&ds, &mut Quadratic::new(), &pen, s.ws, s.it, s.ep, s.tol, s.k, s.acc, false);
    if a != e {
        return Err(format!("solver {:?} returns {:?}, coordinate descent {:?} on {:?}", b, a, e, ds));
    }
    let ds = DatasetBase::from((m.dense.clone(), rng.matrix(n, 2)));
    let pen = L21::new(s.alpha);
    let a = b.solve_multi_task(&ds, &mut QuadraticMultiTask::new(), &pen).unwrap();
    let e = block_coordinate_descent(&ds, &mut QuadraticMultiTask::new(), &pen, s.ws, s.it, s.ep, s.tol, s.k, s.acc, false);
    if a != e {
        return Err(format!("solver {:?} returns {:?}, block coordinate descent {:?} on {:?}", b, a, e, ds));
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
pub fn c14(rng: &mut Rng) -> R {
    single::alpha_max(rng)?;
    let (n, p, t) = (rng.size(), rng.size(), rng.range(1, 3));
    let m = mat(rng, n, p);
    let y = rng.array(n);
    let yy = rng.matrix(n, t);
    let amax = (0..p).map(|j| m.dense.column(j).dot(&y).abs()).fold(0.0, f64::max) / n as f64;
    let mmax = (0..p).map(|j| norm(&(0..t).map(|k| m.dense.column(j).dot(&yy.column(k))).collect::<Vec<_>>())).fold(0.0, f64::max) / n as f64;
    let s = settings(rng, false);
    let up = 1.0 + rng.pick(&[1e-9, 0.01, 1.0]);
    let (it, ep, tol) = (s.it.max(1), s.ep.max(1), s.tol.min(1e-8));
    macro_rules! go {
        ($e:ident, $ds:expr, $a:expr) => {
            $e::<f64>::params().alpha($a).max_iterations(it).max_epochs(ep).ws_start_size(s.ws).tolerance(tol).K(s.k).use_acceleration(s.acc).verbose(false).fit(&$ds).unwrap()
        };
    }
    macro_rules! both {
        ($e:ident, $x:expr, $y:expr, $a:expr) => {{
            let ds = DatasetBase::from(($x, $y.clone()));
            let c = go!($e, ds, $a * up + 1e-12);
            if c.coefficients().iter().any(|&v| v != 0.0) {
                return Err(format!("{} at alpha={:?} (critical {:?}) returns {:?} on {:?} y={:?}", stringify!($e), $a * up, $a, c.coefficients(), m, $y));
            }
            if $a > 1e-6 {
                let low = $a * 0.9;
                let c = $e::<f64>::params().alpha(low).max_iterations(it).max_epochs(ep).ws_start_size(s.ws).tolerance(0.0).K(s.k).use_acceleration(false).verbose(false).fit(&ds).unwrap();
                if c.coefficients().iter().all(|&v| v == 0.0) {
                    return Err(format!("{} at alpha={:?} below the critical {:?} returns zero on {:?} y={:?}", stringify!($e), low, $a, m, $y));
                }
            }
        }};
    }
    both!(Lasso, m.dense.clone(), y, amax);
    both!(Lasso, m.csc(), y, amax);
    both!(MultiTaskLasso, m.dense.clone(), yy, mmax);
    both!(MultiTaskLasso, m.csc(), yy, mmax);
    Ok(())
}

// ------------------------------------------------------------------ C20
pub fn c20(rng: &mut Rng) -> R {
    single::reuse(rng)?;
    let (n, p) = (rng.range(1, 7), rng.range(1, 7));
    let m = mat(rng, n, p);
    let y = rng.array(n);
    let yy = rng.matrix(n, 2);
    let s = settings(rng, false);
    macro_rules! twice {
        ($est:expr, $x:expr, $y:expr) => {{
            let ds = DatasetBase::from(($x, $y.clone()));
            let est = $est;
            let (keep, kd) = (est.clone(), ds.clone());
            let a = est.fit(&ds).unwrap();
            let b = est.fit(&ds).unwrap();
            if a != b {
                return Err(format!("two fits of {:?} differ: {:?} {:?} on {:?}", est, a, b, ds));
            }
            if est != keep || ds != kd {
                return Err(format!("fitting modified {:?} or {:?}", est, ds));
            }
        }};
    }
    let g = Set { extra: 3.0, ..s };
    twice!(set!(Lasso::<f64>::params(), s,), m.dense.clone(), y);
    twice!(set!(Lasso::<f64>::params(), s,), m.csc(), y);
    twice!(set!(ElasticNet::<f64>::params(), s, l1_ratio), m.csc(), y);
    twice!(set!(ElasticNet::<f64>::params(), s, l1_ratio), m.dense.clone(), y);
    twice!(set!(MCPEstimator::<f64>::params(), g, gamma), m.dense.clone(), y);
    twice!(set!(MCPEstimator::<f64>::params(), g, gamma), m.csc(), y);
    twice!(set!(MultiTaskLasso::<f64>::params(), s,), m.dense.clone(), yy);
    twice!(set!(MultiTaskLasso::<f64>::params(), s,), m.csc(), yy);
    twice!(set!(MultiTaskElasticNet::<f64>::params(), s, l1_ratio), m.dense.clone(), yy);
    twice!(set!(MultiTaskElasticNet::<f64>::params(), s, l1_ratio), m.csc(), yy);
    twice!(set!(BlockMCPEstimator::<f64>::params(), g, gamma), m.dense.clone(), yy);
    twice!(set!(BlockMCPEstimator::<f64>::params(), g, gamma), m.csc(), yy);
    // a datafit reused by the solver behaves like a fresh one
    let other = mat(rng, 5, 4);
    let d0: DatasetBase<Array2<f64>, Array1<f64>> = DatasetBase::from((other.dense.clone(), rng.array(5)));
    let d1 = DatasetBase::from((m.dense.clone(), y.clone()));
    let b = Solver::new().ws_start_size(s.ws).max_iterations(s.it).max_epochs(s.ep).tolerance(s.tol).K(s.k).use_acceleration(s.acc).verbose(false);
    let pen = L1::new(s.alpha);
    let mut df = Quadratic::new();
    let _ = b.solve(&d0, &mut df, &pen);
    let r = b.solve(&d1, &mut df, &pen).unwrap();
    let f = b.solve(&d1, &mut Quadratic::new(), &pen).unwrap();
    if r != f {
        return Err(format!("a reused datafit gives {:?}, a fresh one {:?}; first {:?}, then {:?} {:?}", r, f, d0, d1, b));
    }
    Ok(())
}
