//! Solver-level checks.
use crate::gen::*;
use crate::pen::*;
use crate::single;
use crate::R;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::*;
use sparseglm::datafits::single_task::*;
use sparseglm::datasets::*;
use sparseglm::penalties::block_separable::MultiTaskPenalty;
use sparseglm::penalties::separable::Penalty;
use sparseglm::solvers::{anderson_bcd, anderson_cd};
use std::cell::RefCell;

#[derive(Debug, Clone)]
pub struct Cfg {
    pub ws: usize,
    pub it: usize,
    pub ep: usize,
    pub tol: f64,
    pub k: usize,
    pub acc: bool,
}

pub fn cfg(rng: &mut Rng, p: usize) -> Cfg {
    Cfg {
        ws: match rng.below(4) {
            0 => 1,
            1 => p,
            2 => p + rng.range(1, 5),
            _ => rng.range(1, p),
        },
        it: rng.pick(&[1, 1, 2, 3, 5, 20]),
        ep: rng.pick(&[1, 2, 3, 5, 8, 13, 40]),
        tol: rng.pick(&[0.0, 1e-10, 1e-6, 1e-3, 0.1]),
        k: rng.pick(&[1, 2, 3, 5, 5, 7]),
        acc: rng.chance(0.75),
    }
}

/// what the solver reports to the penalty: pairs of fits and weights
#[derive(Default)]
pub struct Log {
    fit: Option<Array2<f64>>,
    value_fit: Option<Array2<f64>>,
    bad: Option<String>,
    subdiff_calls: usize,
    check: bool,
}

pub struct SpyFit<'a, D> {
    inner: D,
    log: &'a RefCell<Log>,
}

pub struct SpyPen<'a, P> {
    inner: P,
    log: &'a RefCell<Log>,
    x: Array2<f64>,
}

fn two(v: ArrayView1<f64>) -> Array2<f64> {
    v.to_owned().insert_axis(ndarray::Axis(1))
}

impl<'a, DM: DesignMatrix<Elem = f64>, D: Datafit<f64, DM, Array1<f64>>> Datafit<f64, DM, Array1<f64>> for SpyFit<'a, D> {
    fn initialize(&mut self, d: &DatasetBase<DM, Array1<f64>>) {
        self.inner.initialize(d)
    }
    fn value(&self, d: &DatasetBase<DM, Array1<f64>>, u: ArrayView1<f64>) -> f64 {
        self.log.borrow_mut().value_fit = Some(two(u));
        self.inner.value(d, u)
    }
    fn gradient_j(&self, d: &DatasetBase<DM, Array1<f64>>, u: ArrayView1<f64>, j: usize) -> f64 {
        self.log.borrow_mut().fit = Some(two(u));
        self.inner.gradient_j(d, u, j)
    }
    fn full_grad(&self, d: &DatasetBase<DM, Array1<f64>>, u: ArrayView1<f64>) -> Array1<f64> {
        self.log.borrow_mut().fit = Some(two(u));
        self.inner.full_grad(d, u)
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        self.inner.step_size()
    }
}

impl<'a, DM: DesignMatrix<Elem = f64>, D: MultiTaskDatafit<f64, DM, Array2<f64>>> MultiTaskDatafit<f64, DM, Array2<f64>> for SpyFit<'a, D> {
    fn initialize(&mut self, d: &DatasetBase<DM, Array2<f64>>) {
        self.inner.initialize(d)
    }
    fn value(&self, d: &DatasetBase<DM, Array2<f64>>, u: ArrayView2<f64>) -> f64 {
        self.log.borrow_mut().value_fit = Some(u.to_owned());
        self.inner.value(d, u)
    }
    fn gradient_j(&self, d: &DatasetBase<DM, Array2<f64>>, u: ArrayView2<f64>, j: usize) -> Array1<f64> {
        self.log.borrow_mut().fit = Some(u.to_owned());
        self.inner.gradient_j(d, u, j)
    }
    fn full_grad(&self, d: &DatasetBase<DM, Array2<f64>>, u: ArrayView2<f64>) -> Array2<f64> {
        self.log.borrow_mut().fit = Some(u.to_owned());
        self.inner.full_grad(d, u)
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        self.inner.step_size()
    }
}

impl<'a, P> SpyPen<'a, P> {
    fn compare(&self, fit: Option<Array2<f64>>, w: Array2<f64>, when: &str) {
        if !self.log.borrow().check {
            return;
        }
        if let Some(f) = fit {
            // runs whose numbers overflow are out of scope
            if w.iter().chain(f.iter()).any(|v| !v.is_finite() || v.abs() > 1e8) {
                return;
            }
            let e = xw2(&self.x, &w);
            let scale = 1.0 + w.iter().fold(0.0f64, |s, v| s.max(v.abs())) * self.x.iter().fold(0.0f64, |s, v| s.max(v.abs()));
            let ok = e.dim() == f.dim() && e.iter().zip(&f).all(|(a, b)| (a - b).abs() <= 1e-6 * scale);
            if !ok && self.log.borrow().bad.is_none() {
                self.log.borrow_mut().bad = Some(format!("{}: fit {:?} but X w = {:?} for w = {:?}", when, f, e, w));
            }
        }
    }
}

impl<'a, P: Penalty<f64>> Penalty<f64> for SpyPen<'a, P> {
    fn value(&self, w: ArrayView1<f64>) -> f64 {
        let f = self.log.borrow_mut().value_fit.take();
        self.compare(f, two(w), "objective");
        self.inner.value(w)
    }
    fn prox(&self, v: f64, s: f64) -> f64 {
        self.inner.prox(v, s)
    }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let f = self.log.borrow_mut().fit.take();
        self.log.borrow_mut().subdiff_calls += 1;
        self.compare(f, two(w), "optimality violation");
        self.inner.subdiff_distance(w, g, ws)
    }
}

impl<'a, P: MultiTaskPenalty<f64>> MultiTaskPenalty<f64> for SpyPen<'a, P> {
    fn value(&self, w: ArrayView2<f64>) -> f64 {
        let f = self.log.borrow_mut().value_fit.take();
        self.compare(f, w.to_owned(), "objective");
        self.inner.value(w)
    }
    fn prox(&self, v: ArrayView1<f64>, s: f64) -> Array1<f64> {
        self.inner.prox(v, s)
    }
    fn subdiff_distance(&self, w: ArrayView2<f64>, g: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let f = self.log.borrow_mut().fit.take();
        self.log.borrow_mut().subdiff_calls += 1;
        self.compare(f, w.to_owned(), "optimality violation");
        self.inner.subdiff_distance(w, g, ws)
    }
}

/// one problem, single- or multi-task, on dense or sparse data
pub struct Prob {
    pub m: Mat,
    pub y: Array1<f64>,
    pub yy: Array2<f64>,
    pub logistic: bool,
    pub multi: bool,
    pub sparse: bool,
    pub s: Spec,
}

impl Prob {
    pub fn describe(&self, c: &Cfg) -> String {
        format!(
            "X={:?} {} {} penalty={:?} cfg={:?} targets={:?}",
            self.m.dense,
            if self.sparse { format!("csc(indices={:?} indptr={:?})", self.m.indices.to_vec(), self.m.indptr.to_vec()) } else { "dense".into() },
            if self.multi { "multi-task" } else if self.logistic { "logistic" } else { "quadratic" },
            self.s,
            c,
            if self.multi { self.yy.clone() } else { two(self.y.view()) }
        )
    }

    pub fn random(rng: &mut Rng, convex: bool) -> Prob {
        Prob::scaled(rng, convex, 1.0)
    }

    /// regression targets multiplied by a factor
    pub fn scaled(rng: &mut Rng, convex: bool, factor: f64) -> Prob {
        let (n, p) = (rng.size(), rng.size());
        let t = rng.range(1, 3);
        let m = mat(rng, n, p);
        let multi = rng.chance(0.4);
        let logistic = !multi && rng.chance(0.4);
        let steps = (0..p)
            .map(|j| n as f64 / m.dense.column(j).dot(&m.dense.column(j)) * if logistic { 4.0 } else { 1.0 })
            .filter(|v| v.is_finite())
            .fold(0.0, f64::max);
        let kind = if multi || convex { rng.pick(&BKINDS[..if convex { 2 } else { 3 }]) } else { rng.pick(&KINDS) };
        let mut s = Spec::random(rng, kind, steps * 1.05);
        let y = if logistic { labels(rng, n) } else { rng.array(n) * factor };
        let yy = rng.matrix(n, t) * factor;
        // strengths around the interesting range
        let amax = (0..p)
            .map(|j| if multi { norm(&(0..t).map(|k| m.dense.column(j).dot(&yy.column(k))).collect::<Vec<_>>()) } else { m.dense.column(j).dot(&y).abs() })
            .fold(0.0, f64::max)
            / n as f64
            * if logistic { 0.5 } else { 1.0 };
        if rng.chance(0.8) {
            s.alpha = amax * rng.pick(&[0.0, 0.01, 0.1, 0.3, 0.6, 0.9]);
        }
        Prob { m, y, yy, logistic, multi, sparse: rng.chance(0.5), s }
    }

    /// coefficients (one column per task) and what the spies saw
    pub fn solve(&self, c: &Cfg, check: bool) -> (Array2<f64>, usize, Option<String>) {
        let log = RefCell::new(Log { check, ..Log::default() });
        macro_rules! single {
            ($x:expr, $df:expr) => {{
                let ds = DatasetBase::from(($x, self.y.clone()));
                let mut df = SpyFit { inner: $df, log: &log };
                let pen = SpyPen { inner: self.s.single(), log: &log, x: self.m.dense.clone() };
                two(anderson_cd::coordinate_descent(&ds, &mut df, &pen, c.ws, c.it, c.ep, c.tol, c.k, c.acc, false).view())
            }};
        }
        macro_rules! multi {
            ($x:expr) => {{
                let ds = DatasetBase::from(($x, self.yy.clone()));
                let mut df = SpyFit { inner: QuadraticMultiTask::new(), log: &log };
                let pen = SpyPen { inner: self.s.block(), log: &log, x: self.m.dense.clone() };
                anderson_bcd::block_coordinate_descent(&ds, &mut df, &pen, c.ws, c.it, c.ep, c.tol, c.k, c.acc, false)
            }};
        }
        let w = match (self.multi, self.logistic, self.sparse) {
            (true, _, false) => multi!(self.m.dense.clone()),
            (true, _, true) => multi!(self.m.csc()),
            (false, true, false) => single!(self.m.dense.clone(), Logistic::new()),
            (false, true, true) => single!(self.m.csc(), Logistic::new()),
            (false, false, false) => single!(self.m.dense.clone(), Quadratic::new()),
            (false, false, true) => single!(self.m.csc(), Quadratic::new()),
        };
        let l = log.into_inner();
        (w, l.subdiff_calls, l.bad)
    }

    pub fn objective(&self, w: &Array2<f64>) -> f64 {
        let n = self.m.n() as f64;
        let u = xw2(&self.m.dense, w);
        let pen: f64 = rows(w).iter().map(|r| self.s.of(norm(r))).sum();
        let loss = if self.multi {
            (&self.yy - &u).iter().map(|r| r * r).sum::<f64>() / (2.0 * n)
        } else if self.logistic {
            (0..self.m.n()).map(|i| (1.0 + (-self.y[i] * u[[i, 0]]).exp()).ln()).sum::<f64>() / n
        } else {
            (0..self.m.n()).map(|i| (self.y[i] - u[[i, 0]]).powi(2)).sum::<f64>() / (2.0 * n)
        };
        loss + pen
    }

    pub fn violation(&self, w: &Array2<f64>) -> f64 {
        let n = self.m.n() as f64;
        let u = xw2(&self.m.dense, w);
        let t = w.ncols();
        let mut worst = f64::NEG_INFINITY;
        for j in 0..self.m.p() {
            let g: Vec<f64> = (0..t)
                .map(|k| {
                    (0..self.m.n())
                        .map(|i| {
                            self.m.dense[[i, j]]
                                * if self.multi {
                                    u[[i, k]] - self.yy[[i, k]]
                                } else if self.logistic {
                                    -self.y[i] / (1.0 + (self.y[i] * u[[i, 0]]).exp())
                                } else {
                                    u[[i, 0]] - self.y[i]
                                }
                        })
                        .sum::<f64>()
                        / n
                })
                .collect();
            worst = worst.max(self.s.dist(&w.row(j).to_vec(), &g));
        }
        worst
    }
}

fn quiet_nan(w: &Array2<f64>) -> bool {
    w.iter().all(|v| v.is_finite() && v.abs() < 1e8)
}

// ------------------------------------------------------------------ C06
pub fn c06(rng: &mut Rng) -> R {
    let (n, p) = (rng.size(), rng.size());
    let m = mat(rng, n, p);
    single::fits(rng, &m, true)?;
    let pr = Prob::random(rng, false);
    let c = cfg(rng, pr.m.p());
    let (w, _, bad) = pr.solve(&c, true);
    if let (Some(b), true) = (bad, quiet_nan(&w)) {
        return Err(format!("{}; {}", b, pr.describe(&c)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
pub fn c07(rng: &mut Rng) -> R {
    let pr = Prob::random(rng, false);
    let mut c = cfg(rng, pr.m.p());
    let t = if pr.multi { pr.yy.ncols() } else { 1 };
    let zero = pr.objective(&Array2::zeros((pr.m.p(), t)));
    let (w, _, _) = pr.solve(&c, false);
    let o = pr.objective(&w);
    if !(o <= zero + 1e-8 * (1.0 + zero.abs())) {
        return Err(format!("objective {:?} at the returned {:?} exceeds {:?} at zero; {}", o, w, zero, pr.describe(&c)));
    }
    // one more epoch of one working set never increases the objective
    c.it = 1;
    let mut last = zero;
    let big = rng.range(2, 14);
    for e in 1..=big {
        c.ep = e;
        let (w, _, _) = pr.solve(&c, false);
        let o = pr.objective(&w);
        if !(o <= last + 1e-8 * (1.0 + last.abs())) {
            return Err(format!("objective grows from {:?} to {:?} in epoch {}; {}", last, o, e, pr.describe(&c)));
        }
        last = o;
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
pub fn c08(rng: &mut Rng) -> R {
    let factor = if rng.chance(0.3) { rng.pick(&[1e-3, 30.0, 1e3, 1e5]) } else { 1.0 };
    let pr = Prob::scaled(rng, false, factor);
    let mut c = cfg(rng, pr.m.p());
    c.it = rng.pick(&[2, 5, 20, 60, 60, 1000]);
    c.tol = rng.pick(&[1e-8, 1e-6, 1e-4, 1e-2, 0.1, 0.5]);
    if rng.chance(0.4) {
        c.ep = rng.pick(&[11, 21, 55]);
    }
    let (w, calls, _) = pr.solve(&c, false);
    let v = pr.violation(&w);
    // every outer iteration measures the violation at least once
    if calls < c.it && !(v <= c.tol + 1e-9 * (1.0 + factor + v.abs())) {
        return Err(format!("returned after at most {} of {} outer iterations with violation {:?} above the tolerance {:?} at {:?}; {}", calls, c.it, v, c.tol, w, pr.describe(&c)));
    }
    // a violation within the tolerance at zero must end the run there
    let t = if pr.multi { pr.yy.ncols() } else { 1 };
    let z = Array2::<f64>::zeros((pr.m.p(), t));
    let v0 = pr.violation(&z);
    c.tol = v0 * (1.0 + 1e-9) + 1e-12 * (1.0 + factor);
    let (w, _, _) = pr.solve(&c, false);
    if pr.violation(&w) > c.tol * (1.0 + 1e-6) && c.it > 1 {
        // not certified: all iterations must have been used
        let (_, calls, _) = pr.solve(&c, false);
        if calls < c.it {
            return Err(format!("stopped early at {:?} with violation {:?} > {:?}; {}", w, pr.violation(&w), c.tol, pr.describe(&c)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
pub fn c09(rng: &mut Rng) -> R {
    let p = rng.size();
    let t = rng.range(1, 3);
    let mut w = Array2::<f64>::zeros((p, t));
    let dens = rng.pick(&[0.0, 0.2, 0.5, 1.0]);
    for j in 0..p {
        if rng.chance(dens) {
            let k = rng.below(t);
            w[[j, k]] = rng.nonzero();
            if rng.chance(0.5) {
                let k = rng.below(t);
                w[[j, k]] = rng.real();
            }
        }
    }
    let kkt = Array1::from_iter((0..p).map(|_| rng.real().abs()).collect::<Vec<_>>());
    let start = rng.range(1, p);
    for multi in [false, true] {
        let zero: Vec<bool> = (0..p).map(|j| if multi { w.row(j).iter().all(|&v| v == 0.0) } else { w[[j, 0]] == 0.0 }).collect();
        let mut k = kkt.clone();
        let (ws, size) = if multi {
            anderson_bcd::construct_ws_from_kkt(&mut k, w.view(), start)
        } else {
            let w1 = w.column(0).to_owned();
            anderson_cd::construct_ws_from_kkt(&mut k, w1.view(), start)
        };
        let nnz = zero.iter().filter(|z| !**z).count();
        let want = start.max((2 * nnz).min(p));
        let what = || format!("kkt={:?} w={:?} start={} multi={}: working set {:?} of reported size {}", kkt, w, start, multi, ws, size);
        if size != want || ws.len() != want {
            return Err(format!("{}, expected size {}", what(), want));
        }
        let mut seen = vec![false; p];
        for &j in &ws {
            if j >= p || seen[j] {
                return Err(format!("{}: not distinct valid features", what()));
            }
            seen[j] = true;
        }
        if (0..p).any(|j| !zero[j] && !seen[j]) {
            return Err(format!("{}: misses a feature with non-zero weight", what()));
        }
        for a in 0..p {
            for b in 0..p {
                if !seen[a] && seen[b] && zero[b] && kkt[a] > kkt[b] {
                    return Err(format!("{}: took {} and left out {}", what(), b, a));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
/// distance of v from the affine hull of the rows
fn affine_gap(rows: &Vec<Vec<f64>>, v: &[f64]) -> (f64, f64) {
    let d: Vec<Vec<f64>> = rows[1..].iter().map(|r| r.iter().zip(&rows[0]).map(|(a, b)| a - b).collect()).collect();
    let mut r: Vec<f64> = v.iter().zip(&rows[0]).map(|(a, b)| a - b).collect();
    // modified Gram-Schmidt, largest direction first, twice for accuracy
    let mut basis: Vec<Vec<f64>> = vec![];
    let mut d = d;
    let far = norm(&r);
    let mut least = f64::INFINITY;
    let top = d.iter().map(|x| norm(x)).fold(0.0, f64::max);
    while !d.is_empty() {
        let (k, nk) = d.iter().enumerate().map(|(i, x)| (i, norm(x))).fold((0, -1.0), |a, b| if b.1 > a.1 { b } else { a });
        let x = d.remove(k);
        if nk <= 1e-13 * (1.0 + top) {
            continue;
        }
        least = nk;
        let q: Vec<f64> = x.iter().map(|a| a / nk).collect();
        for y in d.iter_mut() {
            for _ in 0..2 {
                let s: f64 = y.iter().zip(&q).map(|(a, b)| a * b).sum();
                for i in 0..y.len() {
                    y[i] -= s * q[i];
                }
            }
        }
        basis.push(q);
    }
    for _ in 0..2 {
        for q in &basis {
            let s: f64 = r.iter().zip(q).map(|(a, b)| a * b).sum();
            for i in 0..r.len() {
                r[i] -= s * q[i];
            }
        }
    }
    // the second component bounds the coefficients, hence how rounding is amplified
    (norm(&r), 1.0 + far / least)
}

/// smallest over largest direction of the rows
fn spread(rows: &Vec<Vec<f64>>) -> f64 {
    let mut d = rows.clone();
    let top = d.iter().map(|x| norm(x)).fold(0.0, f64::max);
    let mut least = f64::INFINITY;
    while !d.is_empty() {
        let (k, nk) = d.iter().enumerate().map(|(i, x)| (i, norm(x))).fold((0, -1.0), |a, b| if b.1 > a.1 { b } else { a });
        let x = d.remove(k);
        least = least.min(nk);
        if nk <= 0.0 {
            return 0.0;
        }
        for y in d.iter_mut() {
            let s: f64 = y.iter().zip(&x).map(|(a, b)| a * b).sum::<f64>() / (nk * nk);
            for i in 0..y.len() {
                y[i] -= s * x[i];
            }
        }
    }
    if top > 0.0 { least / top } else { 0.0 }
}

pub fn c10(rng: &mut Rng) -> R {
    let pr = Prob::random(rng, false);
    let (p, n) = (pr.m.p(), pr.m.n());
    let t = if pr.multi { pr.yy.ncols() } else { 1 };
    let k = rng.pick(&[1usize, 2, 3, 5]);
    let mut ws = rng.subset(p, true);
    if rng.chance(0.5) {
        ws = (0..p).collect();
        rng.shuffle(&mut ws);
    }
    let wsa = Array1::from(ws.clone());
    // descend with the library's datafit and penalty, restricted to the working set
    let mut w = Array2::<f64>::zeros((p, t));
    if rng.chance(0.4) {
        // weights left over outside the working set
        for j in 0..p {
            if !ws.contains(&j) && rng.chance(0.5) {
                for q in 0..t {
                    w[[j, q]] = rng.real();
                }
            }
        }
    }
    let lip: Vec<f64> = (0..p).map(|j| pr.m.dense.column(j).dot(&pr.m.dense.column(j)) / n as f64 * if pr.logistic { 0.25 } else { 1.0 }).collect();
    let slow = rng.pick(&[1.0, 2.0, 5.0]);
    let mut last = Array2::<f64>::zeros((k + 1, ws.len() * t));
    let mut u = Array2::<f64>::zeros((k, ws.len() * t));
    let desc = |e: usize, w: &Array2<f64>, last: &Array2<f64>| {
        format!("K={} epoch={} ws={:?} weights={:?} stored={:?}; {}", k, e, ws, w, last, pr.describe(&Cfg { ws: 0, it: 0, ep: 0, tol: 0.0, k, acc: true }))
    };
    for e in 0..2 * (k + 1) {
        for &j in &ws {
            if lip[j] == 0.0 {
                continue;
            }
            let l = lip[j] * slow;
            let f = xw2(&pr.m.dense, &w);
            let step: Vec<f64> = (0..t)
                .map(|q| {
                    let g = (0..n)
                        .map(|i| {
                            pr.m.dense[[i, j]]
                                * if pr.multi {
                                    f[[i, q]] - pr.yy[[i, q]]
                                } else if pr.logistic {
                                    -pr.y[i] / (1.0 + (pr.y[i] * f[[i, 0]]).exp())
                                } else {
                                    f[[i, 0]] - pr.y[i]
                                }
                        })
                        .sum::<f64>()
                        / n as f64;
                    w[[j, q]] - g / l
                })
                .collect();
            if pr.multi {
                let z = pr.s.block().prox(Array1::from(step).view(), 1.0 / l);
                for q in 0..t {
                    w[[j, q]] = z[q];
                }
            } else {
                w[[j, 0]] = pr.s.single().prox(step[0], 1.0 / l);
            }
        }
        if !quiet_nan(&w) {
            return Ok(());
        }
        let before = w.clone();
        let xb = xw2(&pr.m.dense, &w);
        let lb = last.clone();
        let mut xa = xb.clone();
        macro_rules! call {
            ($x:expr, $df:expr) => {{
                let ds = DatasetBase::from(($x, pr.y.clone()));
                let mut df = $df;
                df.initialize(&ds);
                let (mut w1, mut x1) = (w.column(0).to_owned(), xa.column(0).to_owned());
                anderson_cd::anderson_accel(&ds, &df, &pr.s.single(), &mut last, &mut u, &mut w1, &mut x1, wsa.view(), e, k, false);
                w = two(w1.view());
                xa = two(x1.view());
            }};
        }
        macro_rules! callm {
            ($x:expr) => {{
                let ds = DatasetBase::from(($x, pr.yy.clone()));
                let mut df = QuadraticMultiTask::new();
                df.initialize(&ds);
                anderson_bcd::anderson_accel(&ds, &mut w, &mut xa, &df, &pr.s.block(), wsa.view(), &mut last, &mut u, e, k, false);
            }};
        }
        match (pr.multi, pr.logistic, pr.sparse) {
            (true, _, false) => callm!(pr.m.dense.clone()),
            (true, _, true) => callm!(pr.m.csc()),
            (false, true, false) => call!(pr.m.dense.clone(), Logistic::new()),
            (false, true, true) => call!(pr.m.csc(), Logistic::new()),
            (false, false, false) => call!(pr.m.dense.clone(), Quadratic::new()),
            (false, false, true) => call!(pr.m.csc(), Quadratic::new()),
        }
        // the current iterate is recorded in its slot, and nowhere else
        let slot = e % (k + 1);
        for r in 0..=k {
            for (i, &j) in ws.iter().enumerate() {
                for q in 0..t {
                    let want = if r == slot { before[[j, q]] } else { lb[[r, i * t + q]] };
                    if last[[r, i * t + q]] != want {
                        return Err(format!("stored iterate {} is {:?}, expected {:?}; {}", r, last[[r, i * t + q]], want, desc(e, &before, &lb)));
                    }
                }
            }
        }
        if w == before && xa == xb {
            continue;
        }
        if slot != k {
            return Err(format!("changed weights or fit before the window is complete: {:?}; {}", w, desc(e, &before, &lb)));
        }
        for j in 0..p {
            if !ws.contains(&j) && (0..t).any(|q| w[[j, q]] != 0.0) {
                return Err(format!("weight outside the working set: {:?}; {}", w, desc(e, &before, &lb)));
            }
        }
        let iter: Vec<Vec<f64>> = (0..k).map(|r| last.row(r).to_vec()).collect();
        let v: Vec<f64> = ws.iter().flat_map(|&j| w.row(j).to_vec()).collect();
        // only where the extrapolation system is well conditioned: its
        // coefficients are otherwise dominated by rounding
        let diffs: Vec<Vec<f64>> = (0..k).map(|r| (0..ws.len() * t).map(|c| last[[r + 1, c]] - last[[r, c]]).collect()).collect();
        let well = spread(&diffs) >= 1e-3;
        let (gap, amp) = affine_gap(&iter, &v);
        let size = 1.0 + norm(&v) + iter.iter().map(|r| norm(r)).fold(0.0, f64::max);
        if well && gap > (1e-6 + 1e-12 * amp) * size {
            return Err(format!("accepted {:?} is {:?} away from the affine hull of the stored iterates; {}", w, gap, desc(e, &before, &lb)));
        }
        let f = xw2(&pr.m.dense, &w);
        if !f.iter().zip(&xa).all(|(a, b)| (a - b).abs() <= 1e-7 * (1.0 + a.abs() + size)) {
            return Err(format!("accepted fit {:?} but X w = {:?}; {}", xa, f, desc(e, &before, &lb)));
        }
        let (a, b) = (pr.objective(&before), pr.objective(&w));
        if !(b < a + 1e-10 * (1.0 + a.abs())) {
            return Err(format!("accepted an increase of the objective from {:?} to {:?}; {}", a, b, desc(e, &before, &lb)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
pub fn c15(rng: &mut Rng) -> R {
    let pr = Prob::random(rng, false);
    let mut c = cfg(rng, pr.m.p());
    c.it = rng.pick(&[0, 1, 2, 5, 20]);
    c.ep = rng.pick(&[0, 1, 2, 7, 25, 60]);
    c.k = rng.pick(&[1, 2, 5, 9, 30]);
    let what = pr.describe(&c);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.solve(&c, false))) {
        Ok((w, _, _)) => {
            if w.nrows() != pr.m.p() {
                return Err(format!("{} coefficients; {}", w.nrows(), what));
            }
        }
        Err(e) => {
            return Err(format!("panic: {}; {}", crate::msg(&e), what));
        }
    }
    single::datafits("C16", rng)?;
    single::alpha_max(rng)?;
    single::c11(rng)
}

// ------------------------------------------------------------------ C22
pub fn c22(rng: &mut Rng) -> R {
    let mut pr = Prob::random(rng, false);
    if pr.s.kind == Kind::L05 {
        pr.s.kind = Kind::L1;
    }
    // the same problem in other units
    let f = rng.pick(&[1.0, 1.0, 1e-3, 1e-6, 1e3]);
    pr.m.dense *= f;
    pr.m.data *= f;
    pr.s.alpha *= f;
    pr.s.gamma = (pr.s.gamma / (f * f)).max(1.0);
    let mut c = cfg(rng, pr.m.p());
    let its = rng.range(1, 3);
    c.tol = 0.0;
    c.ep = rng.range(0, 4);
    // the acceleration step leaves an incomplete window alone
    c.acc = c.acc && c.k >= c.ep;
    let (n, p) = (pr.m.n(), pr.m.p());
    let t = if pr.multi { pr.yy.ncols() } else { 1 };
    let mut w = Array2::<f64>::zeros((p, t));
    let mut fit = Array2::<f64>::zeros((n, t));
    let all = Array1::from((0..p).collect::<Vec<usize>>());
    let start = c.ws.min(p);
    let mut after = vec![];
    macro_rules! passes {
        ($ds:expr, $df:expr, $pen:expr, $m:ident, $step:expr, $grad:expr, $prox:expr, $view:expr) => {{
            let (ds, df, pen) = (&$ds, &$df, &$pen);
            for _ in 0..its {
            let (mut kkt, worst) = $m::opt_cond_violation(ds, $view(&w), $view(&fit), all.view(), df, pen);
            if worst > c.tol {
                let (ws, _) = $m::construct_ws_from_kkt(&mut kkt, $view(&w), start);
                for _ in 0..c.ep {
                    for &j in &ws {
                        let l: f64 = $step(ds, df, j);
                        if l == 0.0 {
                            continue;
                        }
                        let g: Vec<f64> = $grad(ds, df, &fit, j);
                        let x: Vec<f64> = (0..t).map(|q| w[[j, q]] - g[q] / l).collect();
                        let z: Vec<f64> = $prox(pen, x, 1.0 / l);
                        for q in 0..t {
                            for i in 0..n {
                                fit[[i, q]] += pr.m.dense[[i, j]] * (z[q] - w[[j, q]]);
                            }
                            w[[j, q]] = z[q];
                        }
                    }
                }
            }
            after.push(w.clone());
            }
        }};
    }
    fn one(a: &Array2<f64>) -> ArrayView1<'_, f64> {
        a.column(0)
    }
    fn whole(a: &Array2<f64>) -> ArrayView2<'_, f64> {
        a.view()
    }
    macro_rules! single {
        ($x:expr, $df:expr) => {{
            let ds = DatasetBase::from(($x, pr.y.clone()));
            let mut df = $df;
            df.initialize(&ds);
            let pen = pr.s.single();
            passes!(ds, df, pen, anderson_cd, step1, grad1, |pen: &Single, x: Vec<f64>, s| vec![pen.prox(x[0], s)], one)
        }};
    }
    macro_rules! multi {
        ($x:expr) => {{
            let ds = DatasetBase::from(($x, pr.yy.clone()));
            let mut df = QuadraticMultiTask::new();
            df.initialize(&ds);
            let pen = pr.s.block();
            passes!(ds, df, pen, anderson_bcd, step2, grad2, |pen: &Block, x: Vec<f64>, s| pen.prox(Array1::from(x).view(), s).to_vec(), whole)
        }};
    }
    match (pr.multi, pr.logistic, pr.sparse) {
        (true, _, false) => multi!(pr.m.dense.clone()),
        (true, _, true) => multi!(pr.m.csc()),
        (false, true, false) => single!(pr.m.dense.clone(), Logistic::new()),
        (false, true, true) => single!(pr.m.csc(), Logistic::new()),
        (false, false, false) => single!(pr.m.dense.clone(), Quadratic::new()),
        (false, false, true) => single!(pr.m.csc(), Quadratic::new()),
    }
    for (i, w) in after.iter().enumerate() {
        c.it = i + 1;
        let (got, _, _) = pr.solve(&c, false);
        let size = w.iter().fold(0.0f64, |s, v| s.max(v.abs()));
        if !size.is_finite() || size > 1e12 {
            return Ok(());
        }
        if got.dim() != w.dim() || !got.iter().zip(w).all(|(a, b)| (a - b).abs() <= 1e-6 * (size + 1e-300)) {
            return Err(format!("{} outer iterations of {} passes of proximal gradient steps give {:?}, the solver {:?}; {}", c.it, c.ep, w, got, pr.describe(&c)));
        }
        if got != w {
            // rounded differently: the next working set may be ordered differently
            break;
        }
    }
    // no outer iteration, no change
    c.it = 0;
    let (got, _, _) = pr.solve(&c, false);
    if got.iter().any(|&v| v != 0.0) {
        return Err(format!("weights {:?} without an iteration; {}", got, pr.describe(&c)));
    }
    Ok(())
}

fn step1<DM: DesignMatrix<Elem = f64>, D: Datafit<f64, DM, Array1<f64>>>(_ds: &DatasetBase<DM, Array1<f64>>, d: &D, j: usize) -> f64 {
    d.step_size()[j]
}

fn grad1<DM: DesignMatrix<Elem = f64>, D: Datafit<f64, DM, Array1<f64>>>(ds: &DatasetBase<DM, Array1<f64>>, d: &D, u: &Array2<f64>, j: usize) -> Vec<f64> {
    vec![d.gradient_j(ds, u.column(0), j)]
}

fn step2<DM: DesignMatrix<Elem = f64>, D: MultiTaskDatafit<f64, DM, Array2<f64>>>(_ds: &DatasetBase<DM, Array2<f64>>, d: &D, j: usize) -> f64 {
    d.step_size()[j]
}

fn grad2<DM: DesignMatrix<Elem = f64>, D: MultiTaskDatafit<f64, DM, Array2<f64>>>(ds: &DatasetBase<DM, Array2<f64>>, d: &D, u: &Array2<f64>, j: usize) -> Vec<f64> {
    d.gradient_j(ds, u.view(), j).to_vec()
}
