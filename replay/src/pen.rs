//! Reference implementations of the documented penalties.
use crate::gen::Rng;
use ndarray::{Array1, Array2};
use sparseglm::penalties::block_separable::*;
use sparseglm::penalties::separable::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    L1,
    Enet,
    Mcp,
    L05,
}

/// documented penalty and its parameters
#[derive(Debug, Clone, Copy)]
pub struct Spec {
    pub kind: Kind,
    pub alpha: f64,
    pub ratio: f64,
    pub gamma: f64,
}

impl Spec {
    pub fn random(rng: &mut Rng, kind: Kind, min_gamma: f64) -> Spec {
        let alpha = match rng.below(6) {
            0 => 0.0,
            1 => rng.range(1, 3) as f64,
            2 => 0.01 * rng.pos(),
            _ => rng.pos(),
        };
        let ratio = match rng.below(5) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            _ => rng.unit(),
        };
        let lo = min_gamma.max(1.0);
        let gamma = match rng.below(4) {
            0 => lo * 1.0625,
            1 => lo + rng.range(1, 4) as f64,
            _ => lo * (1.01 + 3.0 * rng.unit()),
        };
        Spec { kind, alpha, ratio, gamma }
    }
    /// penalty of a weight (or of the norm of a row)
    pub fn of(&self, a: f64) -> f64 {
        let a = a.abs();
        match self.kind {
            Kind::L1 => self.alpha * a,
            Kind::Enet => self.alpha * (self.ratio * a + (1.0 - self.ratio) * a * a / 2.0),
            Kind::Mcp => {
                if a <= self.alpha * self.gamma {
                    self.alpha * a - a * a / (2.0 * self.gamma)
                } else {
                    self.gamma * self.alpha * self.alpha / 2.0
                }
            }
            Kind::L05 => self.alpha * a.sqrt(),
        }
    }
    /// distance of -g to the subdifferential at the row w
    pub fn dist(&self, w: &[f64], g: &[f64]) -> f64 {
        let nw = norm(w);
        let ng = norm(g);
        let lam = match self.kind {
            Kind::L05 => return 0.0,
            Kind::Enet => self.alpha * self.ratio,
            _ => self.alpha,
        };
        if w.iter().all(|&x| x == 0.0) {
            return (ng - lam).max(0.0);
        }
        let scale = match self.kind {
            Kind::L1 => self.alpha / nw,
            Kind::Enet => self.alpha * (self.ratio / nw + 1.0 - self.ratio),
            _ => {
                if nw < self.alpha * self.gamma {
                    self.alpha / nw - 1.0 / self.gamma
                } else {
                    0.0
                }
            }
        };
        w.iter().zip(g).map(|(&a, &b)| (b + scale * a) * (b + scale * a)).sum::<f64>().sqrt()
    }
    /// does the weight lie on a breakpoint of the documented formulas (up to rounding)?
    pub fn near_break(&self, w: &[f64]) -> bool {
        self.kind == Kind::Mcp && (norm(w) - self.alpha * self.gamma).abs() <= 1e-9 * (1.0 + norm(w))
    }
    pub fn single(&self) -> Single {
        match self.kind {
            Kind::L1 => Single::L1(L1::new(self.alpha)),
            Kind::Enet => Single::Enet(L1PlusL2::new(self.alpha, self.ratio)),
            Kind::Mcp => Single::Mcp(MCP::new(self.alpha, self.gamma)),
            Kind::L05 => Single::L05(L05::new(self.alpha)),
        }
    }
    pub fn block(&self) -> Block {
        match self.kind {
            Kind::L1 => Block::L1(L21::new(self.alpha)),
            Kind::Enet => Block::Enet(BlockL1PlusL2::new(self.alpha, self.ratio)),
            _ => Block::Mcp(BlockMCP::new(self.alpha, self.gamma)),
        }
    }
}

pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// the library's penalties behind one type
pub enum Single {
    L1(L1<f64>),
    Enet(L1PlusL2<f64>),
    Mcp(MCP<f64>),
    L05(L05<f64>),
}

pub enum Block {
    L1(L21<f64>),
    Enet(BlockL1PlusL2<f64>),
    Mcp(BlockMCP<f64>),
}

macro_rules! each {
    ($s:expr, $t:ident, [$($v:ident),*], $p:ident => $e:expr) => { match $s { $($t::$v($p) => $e),* } };
}

impl Penalty<f64> for Single {
    fn value(&self, w: ndarray::ArrayView1<f64>) -> f64 {
        each!(self, Single, [L1, Enet, Mcp, L05], p => p.value(w))
    }
    fn prox(&self, v: f64, s: f64) -> f64 {
        each!(self, Single, [L1, Enet, Mcp, L05], p => p.prox(v, s))
    }
    fn subdiff_distance(&self, w: ndarray::ArrayView1<f64>, g: ndarray::ArrayView1<f64>, ws: ndarray::ArrayView1<usize>) -> (Array1<f64>, f64) {
        each!(self, Single, [L1, Enet, Mcp, L05], p => p.subdiff_distance(w, g, ws))
    }
}

impl MultiTaskPenalty<f64> for Block {
    fn value(&self, w: ndarray::ArrayView2<f64>) -> f64 {
        each!(self, Block, [L1, Enet, Mcp], p => p.value(w))
    }
    fn prox(&self, v: ndarray::ArrayView1<f64>, s: f64) -> Array1<f64> {
        each!(self, Block, [L1, Enet, Mcp], p => p.prox(v, s))
    }
    fn subdiff_distance(&self, w: ndarray::ArrayView2<f64>, g: ndarray::ArrayView2<f64>, ws: ndarray::ArrayView1<usize>) -> (Array1<f64>, f64) {
        each!(self, Block, [L1, Enet, Mcp], p => p.subdiff_distance(w, g, ws))
    }
}

pub fn rows(w: &Array2<f64>) -> Vec<Vec<f64>> {
    w.rows().into_iter().map(|r| r.to_vec()).collect()
}

pub const KINDS: [Kind; 4] = [Kind::L1, Kind::Enet, Kind::Mcp, Kind::L05];
pub const BKINDS: [Kind; 3] = [Kind::L1, Kind::Enet, Kind::Mcp];

/// a weight vector hitting zeros and breakpoints
pub fn weights(rng: &mut Rng, s: &Spec, p: usize) -> Array1<f64> {
    Array1::from_iter(
        (0..p)
            .map(|_| match rng.below(8) {
                0 | 1 => 0.0,
                2 => s.alpha * s.gamma * if rng.chance(0.5) { 1.0 } else { -1.0 },
                3 => 0.5 * s.alpha * s.gamma,
                4 => 2.0 * s.alpha * s.gamma,
                _ => rng.real(),
            })
            .collect::<Vec<_>>(),
    )
}
