//! Deterministic generation of well-formed inputs.
use ndarray::{Array1, Array2};
use sparseglm::datasets::csc_array::CSCArray;

/// state, scale of the real numbers drawn
pub struct Rng(pub u64, pub f64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// a real number: small integers, dyadic fractions and generic values
    pub fn real(&mut self) -> f64 {
        self.1
            * match self.below(10) {
                0 => 0.0,
                1 | 2 | 3 => self.range(0, 6) as f64 - 3.0,
                4 => (self.range(0, 16) as f64 - 8.0) / 4.0,
                _ => (self.unit() - 0.5) * 5.0,
            }
    }
    /// of order one, whatever the scale of this case
    pub fn at_one<T>(&mut self, f: impl FnOnce(&mut Rng) -> T) -> T {
        let s = std::mem::replace(&mut self.1, 1.0);
        let r = f(self);
        self.1 = s;
        r
    }
    pub fn nonzero(&mut self) -> f64 {
        loop {
            let v = self.real();
            if v != 0.0 {
                return v;
            }
        }
    }
    pub fn pos(&mut self) -> f64 {
        self.nonzero().abs()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn array(&mut self, n: usize) -> Array1<f64> {
        Array1::from_iter((0..n).map(|_| self.real()).collect::<Vec<_>>())
    }
    pub fn matrix(&mut self, n: usize, m: usize) -> Array2<f64> {
        Array2::from_shape_vec((n, m), (0..n * m).map(|_| self.real()).collect()).unwrap()
    }
    pub fn subset(&mut self, p: usize, nonempty: bool) -> Vec<usize> {
        let mut v: Vec<usize> = (0..p).collect();
        self.shuffle(&mut v);
        let k = if nonempty { self.range(1.min(p), p) } else { self.range(0, p) };
        v.truncate(k);
        v
    }
    pub fn size(&mut self) -> usize {
        match self.below(8) {
            0 => 1,
            1 => 2,
            7 => self.range(9, 24),
            _ => self.range(2, 8),
        }
    }
}

/// one matrix in dense and CSC form
#[derive(Debug, Clone)]
pub struct Mat {
    pub dense: Array2<f64>,
    pub data: Array1<f64>,
    pub indices: Array1<i32>,
    pub indptr: Array1<i32>,
}

impl Mat {
    pub fn csc(&self) -> CSCArray<'_, f64> {
        CSCArray::new(self.data.view(), self.indices.view(), self.indptr.view())
    }
    pub fn n(&self) -> usize {
        self.dense.nrows()
    }
    pub fn p(&self) -> usize {
        self.dense.ncols()
    }
}

pub fn to_csc(rng: &mut Rng, x: &Array2<f64>, fancy: bool) -> Mat {
    let (n, p) = x.dim();
    let (mut data, mut ind, mut ptr) = (vec![], vec![], vec![0i32]);
    for j in 0..p {
        let mut rows: Vec<usize> = (0..n).filter(|&i| x[[i, j]] != 0.0 || (fancy && rng.chance(0.15))).collect();
        if fancy {
            rng.shuffle(&mut rows);
        }
        for i in rows {
            data.push(x[[i, j]]);
            ind.push(i as i32);
        }
        ptr.push(data.len() as i32);
    }
    Mat { dense: x.clone(), data: Array1::from(data), indices: Array1::from(ind), indptr: Array1::from(ptr) }
}

pub fn mat(rng: &mut Rng, n: usize, p: usize) -> Mat {
    let mut x = rng.at_one(|r| r.matrix(n, p));
    let zcol = rng.chance(0.2);
    let zrow = rng.chance(0.1);
    let sparse = rng.chance(0.4);
    for j in 0..p {
        let kill = zcol && rng.chance(0.3);
        let dup = j > 0 && rng.chance(0.05);
        for i in 0..n {
            if kill || (sparse && rng.chance(0.6)) {
                x[[i, j]] = 0.0;
            }
            if dup {
                x[[i, j]] = x[[i, j - 1]];
            }
        }
    }
    if zrow {
        let i = rng.below(n);
        for j in 0..p {
            x[[i, j]] = 0.0;
        }
    }
    let fancy = rng.chance(0.7);
    to_csc(rng, &x, fancy)
}

pub fn labels(rng: &mut Rng, n: usize) -> Array1<f64> {
    Array1::from_iter((0..n).map(|_| if rng.chance(0.5) { 1.0 } else { -1.0 }).collect::<Vec<_>>())
}

pub fn xw(x: &Array2<f64>, w: &Array1<f64>) -> Array1<f64> {
    let (n, p) = x.dim();
    Array1::from_iter((0..n).map(|i| (0..p).map(|j| x[[i, j]] * w[j]).sum::<f64>()).collect::<Vec<_>>())
}

pub fn xw2(x: &Array2<f64>, w: &Array2<f64>) -> Array2<f64> {
    let (n, p) = x.dim();
    let t = w.ncols();
    let mut r = Array2::zeros((n, t));
    for i in 0..n {
        for k in 0..t {
            r[[i, k]] = (0..p).map(|j| x[[i, j]] * w[[j, k]]).sum::<f64>();
        }
    }
    r
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
