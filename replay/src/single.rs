//! Components: penalties, datafits, design matrices, helpers.
use crate::gen::*;
use crate::pen::*;
use crate::R;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::*;
use sparseglm::datafits::single_task::*;
use sparseglm::datasets::*;
use sparseglm::penalties::block_separable::MultiTaskPenalty;
use sparseglm::penalties::separable::Penalty;
use sparseglm::utils::helpers::*;

// ------------------------------------------------------------------ C01
fn better(z: f64, c: f64, scale: f64) -> bool {
    !z.is_finite() || z > c + 1e-9 * (1.0 + scale)
}

pub fn c01(rng: &mut Rng) -> R {
    let step = if rng.chance(0.3) { rng.range(1, 3) as f64 } else { rng.at_one(|r| r.pos()) };
    let kind = rng.pick(&KINDS);
    let s = Spec::random(rng, kind, step);
    let lam = match kind {
        Kind::Enet => s.alpha * step * s.ratio,
        _ => s.alpha * step,
    };
    let special = [
        0.0,
        lam,
        s.alpha * s.gamma,
        1.5 * (s.alpha * step).powf(2.0 / 3.0),
        lam * (1.0 + 1e-6),
        s.alpha * s.gamma * 0.9,
        s.alpha * s.gamma * 1.1,
        1.4 * (s.alpha * step).powf(2.0 / 3.0),
        1.6 * (s.alpha * step).powf(2.0 / 3.0),
    ];
    let sign = if rng.chance(0.5) { 1.0 } else { -1.0 };
    let x = if rng.chance(0.5) { sign * rng.pick(&special) } else { 2.0 * rng.real() };
    let p = s.single();
    let pv = |z: f64| p.value(Array1::from(vec![z]).view());
    let obj = |z: f64| (z - x) * (z - x) / 2.0 + step * pv(z);
    let z = p.prox(x, step);
    let fz = obj(z);
    let mut cands: Vec<f64> = vec![0.0, x, x / (1.0 + step * s.alpha * (1.0 - s.ratio)), -x];
    for k in 0..=60 {
        cands.push(x * k as f64 / 50.0);
    }
    for d in [1e-4, 1e-2, 0.1, 0.5] {
        cands.push(z + d);
        cands.push(z - d);
    }
    for c in cands {
        if better(fz, obj(c), x * x) {
            return Err(format!("prox of {:?} at x={:?} step={:?} returned {:?} with objective {:?}, but z={:?} has {:?}", s, x, step, z, fz, c, obj(c)));
        }
    }
    // rows
    let kind = rng.pick(&BKINDS);
    let s = Spec::random(rng, kind, step);
    let t = rng.range(1, 4);
    let mut v = rng.array(t);
    if rng.chance(0.4) {
        // exactly on a threshold
        let r = rng.pick(&[0.0, s.alpha * step, s.alpha * s.gamma, s.alpha * step * s.ratio]);
        v = Array1::zeros(t);
        let k = rng.below(t);
        v[k] = r;
    }
    let p = s.block();
    let obj = |z: &Array1<f64>| {
        (0..t).map(|i| (z[i] - v[i]).powi(2)).sum::<f64>() / 2.0
            + step * p.value(z.clone().into_shape((1, t)).unwrap().view())
    };
    let z = p.prox(v.view(), step);
    if z.len() != t {
        return Err(format!("block prox of {:?} at {:?}: wrong length {:?}", s, v, z));
    }
    let fz = obj(&z);
    let mut cands: Vec<Array1<f64>> = vec![Array1::zeros(t), v.clone()];
    for k in 0..=60 {
        cands.push(&v * (k as f64 / 50.0));
    }
    for _ in 0..4 {
        cands.push(&z + &(rng.array(t) * 0.01));
    }
    for c in cands {
        if better(fz, obj(&c), v.dot(&v)) {
            return Err(format!("block prox of {:?} at v={:?} step={:?} returned {:?} with objective {:?}, but z={:?} has {:?}", s, v, step, z, fz, c, obj(&c)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
pub fn c02(rng: &mut Rng) -> R {
    let p = rng.range(1, 7);
    let kind = rng.pick(&KINDS);
    let s = Spec::random(rng, kind, 1.0);
    let w = weights(rng, &s, p);
    let ws = rng.subset(p, true);
    let mut g = rng.array(ws.len());
    if rng.chance(0.3) {
        let k = rng.below(ws.len());
        g[k] = s.alpha;
    }
    let (d, m) = s.single().subdiff_distance(w.view(), g.view(), Array1::from(ws.clone()).view());
    if d.len() != ws.len() {
        return Err(format!("{:?}: {} distances for {} features", s, d.len(), ws.len()));
    }
    for (k, &j) in ws.iter().enumerate() {
        let e = s.dist(&[w[j]], &[g[k]]);
        if !s.near_break(&[w[j]]) && !close(d[k], e, 1e-9) {
            return Err(format!("{:?}: distance at w={:?} grad={:?} is {:?}, expected {:?}", s, w[j], g[k], d[k], e));
        }
    }
    let e = d.iter().fold(f64::NEG_INFINITY, |a, &b| a.max(b));
    if !close(m, e, 1e-12) {
        return Err(format!("{:?}: reported maximum {:?} of {:?}", s, m, d));
    }
    let kind = rng.pick(&BKINDS);
    let s = Spec::random(rng, kind, 1.0);
    let t = rng.range(1, 4);
    let mut w = rng.matrix(p, t);
    for j in 0..p {
        let z = rng.below(4);
        let col = rng.below(t);
        for k in 0..t {
            if z == 0 || (z == 1 && k != col) {
                w[[j, k]] = 0.0;
            }
            if z == 2 {
                w[[j, k]] *= 0.2 * s.alpha;
            }
        }
    }
    let g = rng.matrix(ws.len(), t);
    let (d, m) = s.block().subdiff_distance(w.view(), g.view(), Array1::from(ws.clone()).view());
    if d.len() != ws.len() {
        return Err(format!("{:?}: {} distances for {} features", s, d.len(), ws.len()));
    }
    for (k, &j) in ws.iter().enumerate() {
        let e = s.dist(&w.row(j).to_vec(), &g.row(k).to_vec());
        if !s.near_break(&w.row(j).to_vec()) && !close(d[k], e, 1e-9) {
            return Err(format!("block {:?}: distance at w={:?} grad={:?} is {:?}, expected {:?}", s, w.row(j), g.row(k), d[k], e));
        }
    }
    let e = d.iter().fold(f64::NEG_INFINITY, |a, &b| a.max(b));
    if !close(m, e, 1e-12) {
        return Err(format!("block {:?}: reported maximum {:?} of {:?}", s, m, d));
    }
    Ok(())
}

// ------------------------------------------------------------------ C03, C04, C16 (datafits)
type DS<DM> = DatasetBase<DM, Array1<f64>>;
type DM2<DM> = DatasetBase<DM, Array2<f64>>;

fn doc_loss(logistic: bool, y: &Array1<f64>, u: &Array1<f64>) -> f64 {
    let n = y.len() as f64;
    y.iter().zip(u).map(|(&a, &b)| if logistic { (1.0 + (-a * b).exp()).ln() } else { (a - b) * (a - b) / 2.0 }).sum::<f64>() / n
}

fn doc_grad(logistic: bool, x: &Array2<f64>, y: &Array1<f64>, u: &Array1<f64>, j: usize) -> f64 {
    let n = y.len() as f64;
    (0..y.len())
        .map(|i| x[[i, j]] * if logistic { -y[i] / (1.0 + (y[i] * u[i]).exp()) } else { u[i] - y[i] })
        .sum::<f64>()
        / n
}

fn datafit_checks<DM, D>(which: &str, rng: &mut Rng, mut df: D, ds: &DS<DM>, x: &Array2<f64>, y: &Array1<f64>, logistic: bool, what: &str) -> R
where
    DM: DesignMatrix<Elem = f64>,
    D: Datafit<f64, DM, Array1<f64>>,
{
    let p = x.ncols();
    df.initialize(ds);
    let w = rng.array(p) * 0.3;
    let u = xw(x, &w);
    let v = df.value(ds, u.view());
    if which == "C16" {
        let free = rng.array(y.len());
        for q in [&u, &free] {
            let (a, b) = (df.value(ds, q.view()), doc_loss(logistic, y, q));
            if !close(a, b, 1e-9) {
                return Err(format!("{}: value {:?} at fit {:?}, documented {:?}, y={:?}", what, a, q, b, y));
            }
        }
        return Ok(());
    }
    let full = df.full_grad(ds, u.view());
    if which == "C03" && full.len() != p {
        return Err(format!("{}: full gradient has {} entries for {} features", what, full.len(), p));
    }
    let lip = df.step_size().to_owned();
    if which == "C04" && lip.len() != p {
        return Err(format!("{}: {} step constants for {} features", what, lip.len(), p));
    }
    for j in 0..p {
        let g = df.gradient_j(ds, u.view(), j);
        let col: Array1<f64> = x.column(j).to_owned();
        let at = |d: f64| df.value(ds, (&u + &(&col * d)).view());
        if which == "C03" {
            if !close(full[j], g, 1e-12) {
                return Err(format!("{}: full gradient {:?} differs from gradient {:?} of feature {}", what, full[j], g, j));
            }
            let h = 1e-4;
            let fd = (at(h) - at(-h)) / (2.0 * h);
            if !((fd - g).abs() <= 1e-6 * (1.0 + g.abs() + v.abs() + col.dot(&col))) {
                return Err(format!("{}: gradient of feature {} is {:?}, slope of the value {:?}; X={:?} y={:?} fit={:?}", what, j, g, fd, x, y, u));
            }
            let e = doc_grad(logistic, x, y, &u, j);
            let c = doc_loss(logistic, y, &u);
            if close(v, c, 1e-12) && !close(g, e, 1e-9) {
                return Err(format!("{}: gradient of feature {} is {:?}, derivative {:?}; X={:?} y={:?} fit={:?}", what, j, g, e, x, y, u));
            }
        }
        if which == "C04" {
            let l = lip[j];
            if !(l >= 0.0) || (l == 0.0 && col.iter().any(|&c| c != 0.0)) {
                return Err(format!("{}: step constant of feature {} is {:?} for column {:?}", what, j, l, col));
            }
            // at the model fit and where the curvature is largest
            let zero = Array1::<f64>::zeros(y.len());
            for q in [&u, &zero] {
                let (v, g) = (df.value(ds, q.view()), df.gradient_j(ds, q.view(), j));
                for d in [1.0, -1.0, 0.05, -0.3, 3.0] {
                    let lhs = df.value(ds, (q + &(&col * d)).view());
                    let rhs = v + d * g + l * d * d / 2.0;
                    let tol = 1e-10 * (1.0 + lhs.abs() + rhs.abs());
                    if !(lhs <= rhs + tol) || (!logistic && !((lhs - rhs).abs() <= tol)) {
                        return Err(format!("{}: feature {} constant {:?}: value after move {:?} is {:?}, model {:?}; X={:?} y={:?} fit={:?}", what, j, l, d, lhs, rhs, x, y, q));
                    }
                }
            }
        }
    }
    Ok(())
}

fn mdatafit_checks<DM>(which: &str, rng: &mut Rng, ds: &DM2<DM>, x: &Array2<f64>, y: &Array2<f64>, what: &str) -> R
where
    DM: DesignMatrix<Elem = f64>,
    QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, Array2<f64>>,
{
    let (n, p, t) = (x.nrows(), x.ncols(), y.ncols());
    let mut df = QuadraticMultiTask::new();
    df.initialize(ds);
    let w = rng.matrix(p, t);
    let u = xw2(x, &w);
    if which == "C16" {
        let free = rng.matrix(n, t);
        for q in [&u, &free] {
            let e = (y - q).iter().map(|r| r * r).sum::<f64>() / (2.0 * n as f64);
            let a = df.value(ds, q.view());
            if !close(a, e, 1e-9) {
                return Err(format!("{}: value {:?}, documented {:?}; Y={:?} fit={:?}", what, a, e, y, q));
            }
        }
        return Ok(());
    }
    let full = df.full_grad(ds, u.view());
    if full.dim() != (p, t) {
        return Err(format!("{}: full gradient has shape {:?}", what, full.dim()));
    }
    let lip = df.step_size().to_owned();
    if lip.len() != p {
        return Err(format!("{}: {} step constants for {} features", what, lip.len(), p));
    }
    let v = df.value(ds, u.view());
    for j in 0..p {
        let g = df.gradient_j(ds, u.view(), j);
        if g.len() != t {
            return Err(format!("{}: gradient row of feature {} has {} entries", what, j, g.len()));
        }
        let col: Array1<f64> = x.column(j).to_owned();
        let cc = col.dot(&col);
        let at = |d: &Array1<f64>| {
            let mut q = u.clone();
            for i in 0..n {
                for k in 0..t {
                    q[[i, k]] += col[i] * d[k];
                }
            }
            df.value(ds, q.view())
        };
        if which == "C03" {
            for k in 0..t {
                if !close(full[[j, k]], g[k], 1e-12) {
                    return Err(format!("{}: full gradient {:?} differs from gradient {:?} of feature {}", what, full.row(j), g, j));
                }
                let mut e = Array1::zeros(t);
                e[k] = 1.0;
                // exact for a quadratic
                let fd = (at(&e) - at(&(-&e))) / 2.0;
                if !((fd - g[k]).abs() <= 1e-9 * (1.0 + g[k].abs() + v.abs() + cc)) {
                    return Err(format!("{}: gradient of feature {} task {} is {:?}, slope {:?}; X={:?} Y={:?} W={:?}", what, j, k, g[k], fd, x, y, w));
                }
            }
        }
        if which == "C04" {
            let l = lip[j];
            if !(l >= 0.0) || (l == 0.0 && cc > 0.0) {
                return Err(format!("{}: step constant of feature {} is {:?} for column {:?}", what, j, l, col));
            }
            let d = rng.array(t);
            let lhs = at(&d);
            let rhs = v + d.dot(&g) + l * d.dot(&d) / 2.0;
            if !((lhs - rhs).abs() <= 1e-9 * (1.0 + lhs.abs() + rhs.abs())) {
                return Err(format!("{}: feature {} constant {:?}: value after move {:?} is {:?}, model {:?}; X={:?} Y={:?}", what, j, l, d, lhs, rhs, x, y));
            }
        }
    }
    Ok(())
}

pub fn datafits(which: &str, rng: &mut Rng) -> R {
    let (n, p, t) = (rng.size(), rng.size(), rng.range(1, 4));
    let m = mat(rng, n, p);
    let logistic = rng.chance(0.5);
    let y = if logistic { labels(rng, n) } else { rng.array(n) };
    let dd = DatasetBase::from((m.dense.clone(), y.clone()));
    let sd = DatasetBase::from((m.csc(), y.clone()));
    if logistic {
        let scale = std::mem::replace(&mut rng.1, 1.0);
        datafit_checks(which, rng, Logistic::new(), &dd, &m.dense, &y, true, "Logistic dense")?;
        datafit_checks(which, rng, Logistic::new(), &sd, &m.dense, &y, true, &format!("Logistic sparse {:?}", m))?;
        rng.1 = scale;
    } else {
        datafit_checks(which, rng, Quadratic::new(), &dd, &m.dense, &y, false, "Quadratic dense")?;
        datafit_checks(which, rng, Quadratic::new(), &sd, &m.dense, &y, false, &format!("Quadratic sparse {:?}", m))?;
    }
    let y = rng.matrix(n, t);
    let dd = DatasetBase::from((m.dense.clone(), y.clone()));
    let sd = DatasetBase::from((m.csc(), y.clone()));
    mdatafit_checks(which, rng, &dd, &m.dense, &y, "QuadraticMultiTask dense")?;
    mdatafit_checks(which, rng, &sd, &m.dense, &y, &format!("QuadraticMultiTask sparse {:?}", m))
}

pub fn c16(rng: &mut Rng) -> R {
    datafits("C16", rng)?;
    let p = rng.range(1, 7);
    let kind = rng.pick(&KINDS);
    let s = Spec::random(rng, kind, 1.0);
    let w = weights(rng, &s, p);
    let v = s.single().value(w.view());
    let e: f64 = w.iter().map(|&a| s.of(a)).sum();
    if !close(v, e, 1e-9) {
        return Err(format!("{:?}: value {:?} at {:?}, documented {:?}", s, v, w, e));
    }
    let kind = rng.pick(&BKINDS);
    let s = Spec::random(rng, kind, 1.0);
    let t = rng.range(1, 4);
    let mut w = rng.matrix(p, t);
    if rng.chance(0.5) {
        w *= 0.2;
    }
    let v = s.block().value(w.view());
    let e: f64 = rows(&w).iter().map(|r| s.of(norm(r))).sum();
    if !close(v, e, 1e-9) {
        return Err(format!("block {:?}: value {:?} at {:?}, documented {:?}", s, v, w, e));
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
fn same1(a: &Array1<f64>, b: &Array1<f64>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(&x, &y)| close(x, y, 1e-9))
}

fn same2(a: &Array2<f64>, b: &Array2<f64>) -> bool {
    a.dim() == b.dim() && a.iter().zip(b).all(|(&x, &y)| close(x, y, 1e-9))
}

macro_rules! cmp_datafit {
    ($df:ty, $m:expr, $y:expr, $rng:expr) => {{
        let dd = DatasetBase::from(($m.dense.clone(), $y.clone()));
        let sd = DatasetBase::from(($m.csc(), $y.clone()));
        let (mut a, mut b) = (<$df>::new(), <$df>::new());
        a.initialize(&dd);
        b.initialize(&sd);
        let u = $rng.array($m.n());
        let la = Datafit::<f64, Array2<f64>, Array1<f64>>::step_size(&a).to_owned();
        let lb = Datafit::<f64, sparseglm::datasets::csc_array::CSCArray<'_, f64>, Array1<f64>>::step_size(&b).to_owned();
        if !same1(&la, &lb) {
            return Err(format!("{}: step constants dense {:?} sparse {:?} for {:?}", stringify!($df), la, lb, $m));
        }
        let (va, vb) = (a.value(&dd, u.view()), b.value(&sd, u.view()));
        if !close(va, vb, 1e-9) {
            return Err(format!("{}: value dense {:?} sparse {:?}", stringify!($df), va, vb));
        }
        let (ga, gb) = (a.full_grad(&dd, u.view()), b.full_grad(&sd, u.view()));
        if !same1(&ga, &gb) {
            return Err(format!("{}: full gradient dense {:?} sparse {:?} for {:?} y={:?} fit={:?}", stringify!($df), ga, gb, $m, $y, u));
        }
        for j in 0..$m.p() {
            let (ga, gb) = (a.gradient_j(&dd, u.view(), j), b.gradient_j(&sd, u.view(), j));
            if !close(ga, gb, 1e-9) {
                return Err(format!("{}: gradient {} dense {:?} sparse {:?} for {:?} y={:?} fit={:?}", stringify!($df), j, ga, gb, $m, $y, u));
            }
        }
    }};
}

pub fn c05(rng: &mut Rng) -> R {
    let (n, p, t) = (rng.size(), rng.size(), rng.range(1, 4));
    let m = mat(rng, n, p);
    let y = rng.array(n);
    let lab = labels(rng, n);
    cmp_datafit!(Quadratic<f64>, m, y, rng);
    cmp_datafit!(Logistic<f64>, m, lab, rng);
    {
        let yy = rng.matrix(n, t);
        let dd = DatasetBase::from((m.dense.clone(), yy.clone()));
        let sd = DatasetBase::from((m.csc(), yy.clone()));
        let (mut a, mut b) = (QuadraticMultiTask::new(), QuadraticMultiTask::new());
        a.initialize(&dd);
        b.initialize(&sd);
        let u = rng.matrix(n, t);
        let la = MultiTaskDatafit::<f64, Array2<f64>, Array2<f64>>::step_size(&a).to_owned();
        let lb = MultiTaskDatafit::<f64, Array2<f64>, Array2<f64>>::step_size(&b).to_owned();
        if !same1(&la, &lb) || !same2(&a.XtY().to_owned(), &b.XtY().to_owned()) {
            return Err(format!("QuadraticMultiTask: initialisation dense {:?} sparse {:?} for {:?}", a, b, m));
        }
        if !close(a.value(&dd, u.view()), b.value(&sd, u.view()), 1e-9) {
            return Err(format!("QuadraticMultiTask: value differs for {:?}", m));
        }
        let (ga, gb) = (a.full_grad(&dd, u.view()), b.full_grad(&sd, u.view()));
        if !same2(&ga, &gb) {
            return Err(format!("QuadraticMultiTask: full gradient dense {:?} sparse {:?} for {:?}", ga, gb, m));
        }
        for j in 0..p {
            if !same1(&a.gradient_j(&dd, u.view(), j), &b.gradient_j(&sd, u.view(), j)) {
                return Err(format!("QuadraticMultiTask: gradient {} differs for {:?}", j, m));
            }
        }
    }
    fits(rng, &m, false)?;
    let (a, b) = (compute_alpha_max(m.dense.view(), y.view()), compute_alpha_max_sparse(&m.csc(), y.view()));
    if !close(a, b, 1e-9) {
        return Err(format!("critical regularisation dense {:?} sparse {:?} for {:?} y={:?}", a, b, m, y));
    }
    if m.dense.n_features() != m.csc().n_features() {
        return Err("number of features differs".into());
    }
    Ok(())
}

/// fit updates and extrapolated fits of both representations against X w
pub fn fits(rng: &mut Rng, m: &Mat, _oracle: bool) -> R {
    let (n, p) = (m.n(), m.p());
    let t = rng.range(1, 4);
    let j = rng.below(p);
    let d = rng.nonzero();
    let u = rng.array(n);
    let e = &u + &(&m.dense.column(j) * d);
    let (mut a, mut b) = (u.clone(), u.clone());
    m.dense.update_model_fit(&mut a, d, j);
    m.csc().update_model_fit(&mut b, d, j);
    if !same1(&a, &e) || !same1(&b, &e) {
        return Err(format!("fit update of {:?} by {:?} * column {}: dense {:?} sparse {:?} expected {:?} for {:?}", u, d, j, a, b, e, m));
    }
    let u = rng.matrix(n, t);
    let dd = rng.array(t);
    let mut e = u.clone();
    for i in 0..n {
        for k in 0..t {
            e[[i, k]] += dd[k] * m.dense[[i, j]];
        }
    }
    let (mut a, mut b) = (u.clone(), u.clone());
    m.dense.update_model_fit_multi_task(&mut a, dd.view(), j);
    m.csc().update_model_fit_multi_task(&mut b, dd.view(), j);
    if !same2(&a, &e) || !same2(&b, &e) {
        return Err(format!("multi-task fit update by {:?} x column {}: dense {:?} sparse {:?} expected {:?} for {:?}", dd, j, a, b, e, m));
    }
    let ws = rng.subset(p, false);
    let wsa = Array1::from(ws.clone());
    let (mut w, mut w2) = (Array1::zeros(p), Array2::zeros((p, t)));
    for &j in &ws {
        w[j] = rng.real();
        for k in 0..t {
            w2[[j, k]] = rng.real();
        }
    }
    let e = xw(&m.dense, &w);
    let (a, b) = (m.dense.compute_extrapolated_fit(wsa.view(), &w, n), m.csc().compute_extrapolated_fit(wsa.view(), &w, n));
    if !same1(&a, &e) || !same1(&b, &e) {
        return Err(format!("extrapolated fit: dense {:?} sparse {:?} expected {:?}; ws={:?} w={:?} {:?}", a, b, e, ws, w, m));
    }
    let e = xw2(&m.dense, &w2);
    let (a, b) = (
        m.dense.compute_extrapolated_fit_multi_task(wsa.view(), &w2, n, t),
        m.csc().compute_extrapolated_fit_multi_task(wsa.view(), &w2, n, t),
    );
    if !same2(&a, &e) || !same2(&b, &e) {
        return Err(format!("multi-task extrapolated fit: dense {:?} sparse {:?} expected {:?}; ws={:?} W={:?} {:?}", a, b, e, ws, w2, m));
    }
    Ok(())
}

// ------------------------------------------------------------------ C14 (helpers)
pub fn alpha_max(rng: &mut Rng) -> R {
    let (n, p, t) = (rng.size(), rng.size(), rng.range(1, 4));
    let m = mat(rng, n, p);
    let y = rng.array(n);
    let e = (0..p).map(|j| m.dense.column(j).dot(&y).abs()).fold(0.0, f64::max) / n as f64;
    let (a, b) = (compute_alpha_max(m.dense.view(), y.view()), compute_alpha_max_sparse(&m.csc(), y.view()));
    if !close(a, e, 1e-9) || !close(b, e, 1e-9) {
        return Err(format!("critical regularisation dense {:?} sparse {:?} expected {:?} for {:?} y={:?}", a, b, e, m, y));
    }
    let yy = rng.matrix(n, t);
    let e = (0..p)
        .map(|j| norm(&(0..t).map(|k| m.dense.column(j).dot(&yy.column(k))).collect::<Vec<_>>()))
        .fold(0.0, f64::max)
        / n as f64;
    let a = compute_alpha_max_mtl(m.dense.view(), yy.view());
    if !close(a, e, 1e-9) {
        return Err(format!("multi-task critical regularisation {:?} expected {:?} for {:?} Y={:?}", a, e, m.dense, yy));
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
fn det(a: &Vec<Vec<i128>>) -> i128 {
    let n = a.len();
    if n == 1 {
        return a[0][0];
    }
    let mut s = 0;
    for k in 0..n {
        if a[0][k] == 0 {
            continue;
        }
        let minor: Vec<Vec<i128>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, &v)| v).collect()).collect();
        s += if k % 2 == 0 { 1 } else { -1 } * a[0][k] * det(&minor);
    }
    s
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs().max(1) } else { gcd(b, a % b) }
}

/// is elimination (a null pivot being swapped with the first non-null one
/// below it, or not at all) exact in binary floating point?
fn dyadic(a: &Vec<Vec<i128>>) -> bool {
    let n = a.len();
    let mut m: Vec<Vec<(i128, i128)>> = a.iter().map(|r| r.iter().map(|&v| (v, 1)).collect()).collect();
    let norm = |x: i128, y: i128| {
        let g = gcd(x, y) * if y < 0 { -1 } else { 1 };
        (x / g, y / g)
    };
    for i in 0..n {
        if m[i][i].0 == 0 {
            if let Some(k) = (i + 1..n).find(|&k| m[k][i].0 != 0) {
                m.swap(i, k);
            }
        }
        if m[i][i].0 == 0 {
            continue;
        }
        for r in i + 1..n {
            let f = norm(m[r][i].0 * m[i][i].1, m[r][i].1 * m[i][i].0);
            if f.1 & (f.1 - 1) != 0 || f.1 > 1 << 12 || f.0.abs() > 1 << 12 {
                return false;
            }
            for c in i..n {
                let (x, y) = (m[r][c], m[i][c]);
                m[r][c] = norm(x.0 * f.1 * y.1 - f.0 * y.0 * x.1, x.1 * f.1 * y.1);
                if m[r][c].1 > 1 << 20 {
                    return false;
                }
            }
        }
    }
    true
}

/// a larger matrix of determinant 0 or +-1: rows of L U in any order
fn large(rng: &mut Rng) -> (Vec<Vec<i128>>, i128) {
    let n = rng.range(6, 14);
    let dens = 0.5 * rng.unit();
    let mut l = vec![vec![0i128; n]; n];
    let mut u = vec![vec![0i128; n]; n];
    for i in 0..n {
        l[i][i] = 1;
        u[i][i] = 1;
        for j in 0..i {
            if rng.chance(dens) {
                l[i][j] = rng.range(0, 2) as i128 - 1;
            }
            if rng.chance(dens) {
                u[j][i] = rng.range(0, 2) as i128 - 1;
            }
        }
    }
    let mut d = 1;
    if rng.chance(0.2) {
        let q = rng.range(0, n - 1);
        u[q][q] = 0;
        d = 0;
    }
    let mut a: Vec<Vec<i128>> = (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| l[i][k] * u[k][j]).sum()).collect()).collect();
    for _ in 0..rng.range(0, n) {
        let (i, j) = (rng.range(0, n - 1), rng.range(0, n - 1));
        a.swap(i, j);
    }
    (a, d)
}

pub fn c11(rng: &mut Rng) -> R {
    let big = rng.chance(0.3);
    let n = rng.range(1, 5);
    let small = big || n <= 3 && rng.chance(0.6);
    let mut a = vec![vec![0i128; n]; n];
    for i in 0..n {
        for j in 0..n {
            a[i][j] = if rng.chance(0.35) { 0 } else if small { rng.range(0, 2) as i128 - 1 } else { rng.range(0, 8) as i128 - 4 };
        }
    }
    let d = if big {
        let (m, d) = large(rng);
        a = m;
        d
    } else {
        det(&a)
    };
    let n = a.len();
    let b: Vec<f64> = (0..n).map(|_| rng.range(0, 8) as f64 - 4.0).collect();
    let b = if rng.chance(0.3) { vec![1.0; n] } else { b };
    let m = Array2::from_shape_fn((n, n), |(i, j)| a[i][j] as f64);
    let v = Array1::from(b.clone());
    // a singular system is only tried where every elimination order is exact
    if d == 0 && !small && !(0..n).any(|i| a[i].iter().all(|&x| x == 0) || (0..n).all(|k| a[k][i] == 0)) {
        return Ok(());
    }
    if !dyadic(&a) {
        return Ok(());
    }
    let r = solve_lin_sys(m.view(), v.view());
    match r {
        Ok(x) => {
            if x.len() != n {
                return Err(format!("A={:?} b={:?}: solution of length {}", a, b, x.len()));
            }
            let res = m.dot(&x) - &v;
            let scale = 1.0 + x.iter().fold(0.0f64, |s, q| s.max(q.abs())) * 5.0;
            if !res.iter().all(|q| q.abs() <= 1e-7 * scale) {
                return Err(format!("A={:?} b={:?}: returned {:?}, A x - b = {:?}", a, b, x, res));
            }
        }
        Err(e) => {
            if d != 0 {
                return Err(format!("A={:?} b={:?}: failure {:?} although det = {}", a, b, e, d));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn c17(rng: &mut Rng) -> R {
    let (n, p) = (rng.size(), rng.size());
    let m = mat(rng, n, p);
    let y = rng.array(n);
    let y2 = y.clone().into_shape((n, 1)).unwrap();
    let u = rng.array(n);
    let u2 = u.clone().into_shape((n, 1)).unwrap();
    macro_rules! one {
        ($x:expr) => {{
            let s = DatasetBase::from(($x.clone(), y.clone()));
            let d = DatasetBase::from(($x.clone(), y2.clone()));
            let (mut a, mut b) = (Quadratic::new(), QuadraticMultiTask::new());
            a.initialize(&s);
            b.initialize(&d);
            if !close(a.value(&s, u.view()), b.value(&d, u2.view()), 1e-10) {
                return Err(format!("values differ for {:?} y={:?} fit={:?}", m, y, u));
            }
            for j in 0..p {
                let (g, h) = (a.gradient_j(&s, u.view(), j), b.gradient_j(&d, u2.view(), j));
                if h.len() != 1 || !close(g, h[0], 1e-10) {
                    return Err(format!("gradient {}: {:?} and {:?} for {:?} y={:?} fit={:?}", j, g, h, m, y, u));
                }
            }
            let g = a.full_grad(&s, u.view());
            let h = b.full_grad(&d, u2.view());
            if h.dim() != (p, 1) || !same1(&g, &h.column(0).to_owned()) {
                return Err(format!("full gradient: {:?} and {:?}", g, h));
            }
        }};
    }
    one!(m.dense);
    one!(m.csc());
    {
        let s = DatasetBase::from((m.dense.clone(), y.clone()));
        let d = DatasetBase::from((m.dense.clone(), y2.clone()));
        let (mut a, mut b) = (Quadratic::<f64>::new(), QuadraticMultiTask::<f64>::new());
        a.initialize(&s);
        b.initialize(&d);
        let la = Datafit::<f64, Array2<f64>, Array1<f64>>::step_size(&a).to_owned();
        let lb = MultiTaskDatafit::<f64, Array2<f64>, Array2<f64>>::step_size(&b).to_owned();
        if !same1(&la, &lb) {
            return Err(format!("step constants {:?} and {:?}", la, lb));
        }
    }
    // penalties
    let step = rng.pos();
    let kind = rng.pick(&BKINDS);
    let s = Spec::random(rng, kind, step);
    let (a, b) = (s.single(), s.block());
    let w = weights(rng, &s, p);
    let w2 = w.clone().into_shape((p, 1)).unwrap();
    if !close(a.value(w.view()), b.value(w2.view()), 1e-9) {
        return Err(format!("{:?}: penalty values at {:?} differ: {:?} {:?}", s, w, a.value(w.view()), b.value(w2.view())));
    }
    let x = if rng.chance(0.4) { rng.pick(&[0.0, s.alpha * step, s.alpha * s.gamma]) } else { 2.0 * rng.real() };
    let (za, zb) = (a.prox(x, step), b.prox(Array1::from(vec![x]).view(), step));
    let edge = [s.alpha * step, s.alpha * s.gamma, s.alpha * step * s.ratio].iter().any(|t| (x.abs() - t).abs() < 1e-9 * (1.0 + t));
    if zb.len() != 1 || !(close(za, zb[0], 1e-9) || (edge && close(za, zb[0], 1e-6))) {
        return Err(format!("{:?}: prox at {:?} step {:?}: {:?} and {:?}", s, x, step, za, zb));
    }
    let ws = rng.subset(p, true);
    let g = rng.array(ws.len());
    let g2 = g.clone().into_shape((ws.len(), 1)).unwrap();
    let wsa = Array1::from(ws.clone());
    if !(0..p).any(|j| s.near_break(&[w[j]])) {
        let (da, ma) = a.subdiff_distance(w.view(), g.view(), wsa.view());
        let (db, mb) = b.subdiff_distance(w2.view(), g2.view(), wsa.view());
        if !same1(&da, &db) || !close(ma, mb, 1e-9) {
            return Err(format!("{:?}: distances {:?} {:?} and {:?} {:?} at w={:?} grad={:?} ws={:?}", s, da, ma, db, mb, w, g, ws));
        }
    }
    // design matrices
    let j = rng.below(p);
    let d = rng.real();
    macro_rules! upd {
        ($x:expr) => {{
            let (mut a, mut b) = (u.clone(), u2.clone());
            $x.update_model_fit(&mut a, d, j);
            $x.update_model_fit_multi_task(&mut b, Array1::from(vec![d]).view(), j);
            if !same1(&a, &b.column(0).to_owned()) {
                return Err(format!("fit updates {:?} and {:?} for {:?}", a, b, m));
            }
            let a = $x.compute_extrapolated_fit(wsa.view(), &w, n);
            let b = $x.compute_extrapolated_fit_multi_task(wsa.view(), &w2, n, 1);
            if b.dim() != (n, 1) || !same1(&a, &b.column(0).to_owned()) {
                return Err(format!("extrapolated fits {:?} and {:?} for {:?} ws={:?} w={:?}", a, b, m, ws, w));
            }
        }};
    }
    upd!(m.dense);
    upd!(m.csc());
    let (a, b) = (compute_alpha_max(m.dense.view(), y.view()), compute_alpha_max_mtl(m.dense.view(), y2.view()));
    if !close(a, b, 1e-9) {
        return Err(format!("critical regularisation {:?} and {:?}", a, b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C20 (datafits)
pub fn reuse(rng: &mut Rng) -> R {
    let (n, p, t) = (rng.size(), rng.size(), rng.range(1, 4));
    let (n0, p0, t0) = (rng.size(), if rng.chance(0.3) { p } else { rng.size() }, if rng.chance(0.5) { t } else { rng.range(1, 4) });
    let (m0, m) = (mat(rng, n0, p0), mat(rng, n, p));
    let (y0, y) = (labels(rng, n0), labels(rng, n));
    let (z0, z) = (rng.matrix(n0, t0), rng.matrix(n, t));
    macro_rules! check {
        ($df:ty, $x0:expr, $y0:expr, $x:expr, $y:expr) => {{
            let d0 = DatasetBase::from(($x0, $y0.clone()));
            let d = DatasetBase::from(($x, $y.clone()));
            let (mut a, mut b) = (<$df>::new(), <$df>::new());
            a.initialize(&d0);
            a.initialize(&d);
            b.initialize(&d);
            if a != b {
                return Err(format!("{} initialised after use on another dataset: {:?}, fresh: {:?}; first {:?}, then {:?}", stringify!($df), a, b, m0, m));
            }
        }};
    }
    check!(Quadratic<f64>, m0.dense.clone(), y0, m.dense.clone(), y);
    check!(Quadratic<f64>, m0.csc(), y0, m.csc(), y);
    check!(Logistic<f64>, m0.dense.clone(), y0, m.dense.clone(), y);
    check!(Logistic<f64>, m0.csc(), y0, m.csc(), y);
    check!(QuadraticMultiTask<f64>, m0.dense.clone(), z0, m.dense.clone(), z);
    check!(QuadraticMultiTask<f64>, m0.csc(), z0, m.csc(), z);
    Ok(())
}

// ------------------------------------------------------------------ C21
pub fn c21(rng: &mut Rng) -> R {
    let (n, p, t) = (rng.size(), rng.size(), rng.range(1, 4));
    let m = mat(rng, n, p);
    let y = rng.array(n);
    let yy = rng.matrix(n, t);
    macro_rules! ds {
        ($x:expr, $kind:expr) => {{
            for ctor in 0..2 {
                let d = if ctor == 0 { DatasetBase::from(($x.clone(), y.clone())) } else { DatasetBase::new($x.clone(), y.clone()) };
                let ok = *d.design_matrix() == $x && *d.targets() == y && d.design_matrix().n_features() == p && d.targets().n_samples() == n
                    && d.targets().n_tasks() == 1 && d.design_matrix().matrix_type() == $kind;
                if !ok {
                    return Err(format!("dataset of {:?} y={:?} misreports its parts: {:?}", m, y, d));
                }
                let d = if ctor == 0 { DatasetBase::from(($x.clone(), yy.clone())) } else { DatasetBase::new($x.clone(), yy.clone()) };
                let ok = *d.design_matrix() == $x && *d.targets() == yy && d.targets().n_samples() == n && d.targets().n_tasks() == t;
                if !ok {
                    return Err(format!("dataset of {:?} Y={:?} misreports its parts", m, yy));
                }
            }
            let r = &$x;
            if (&r).n_features() != p || (&r).matrix_type() != $kind {
                return Err("a reference to a design matrix misreports it".into());
            }
        }};
    }
    ds!(m.dense, DesignMatrixType::Dense);
    ds!(m.csc(), DesignMatrixType::Sparse);
    fits(rng, &m, false)?;
    let v = y.as_multi_tasks();
    if v.dim() != (n, 1) || v.column(0) != y {
        return Err(format!("targets {:?} viewed as a matrix: {:?}", y, v));
    }
    if yy.as_multi_tasks() != yy {
        return Err(format!("targets {:?} viewed as a matrix: {:?}", yy, yy.as_multi_tasks()));
    }
    match y.try_single_target() {
        Ok(s) if s == y => {}
        o => return Err(format!("targets {:?} as a vector: {:?}", y, o)),
    }
    if (&&y).n_samples() != n || (&&y).n_tasks() != 1 || (&&yy).n_tasks() != t || (&&yy).n_samples() != n || (&yy).as_multi_tasks() != yy {
        return Err("a reference to targets misreports them".into());
    }
    let o = Wrapped(yy.clone());
    match (o.try_single_target(), t) {
        (Ok(s), 1) if s == yy.column(0) => {}
        (Err(_), k) if k > 1 => {}
        (r, _) => return Err(format!("{:?} as a vector: {:?}", yy, r)),
    }
    Ok(())
}

/// two-dimensional targets that may be read as single ones
struct Wrapped(Array2<f64>);

impl AsMultiTargets for Wrapped {
    type Elem = f64;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ndarray::ArrayView2<'_, f64> {
        self.0.view()
    }
}

impl AsSingleTargets for Wrapped {}
