//! the library's own answer for one problem read from a file (numbers as bits)
use ndarray::{Array1, Array2, ShapeBuilder};
use sparseglm::{
    datasets::{csc_array::CSCArray, DatasetBase},
    estimators::{hyperparams::*, traits::Fit},
};

macro_rules! fit {
    ($ptype:ident, $s:expr, $x:expr, $y:expr $(, $e:ident)?) => {{
        let s = $s;
        let p = $ptype::new()
            .alpha(s.alpha)
            .max_iterations(s.max_iterations)
            .max_epochs(s.max_epochs)
            .tolerance(s.tolerance)
            .ws_start_size(s.ws)
            .use_acceleration(s.accel)
            .K(s.k)
            .verbose(s.verbose);
        $(let p = p.$e(s.extra);)?
        let d = DatasetBase::from(($x, $y));
        p.fit(&d).unwrap().coefficients().iter().cloned().collect::<Vec<f64>>()
    }};
}

struct Settings {
    alpha: f64,
    extra: f64,
    max_iterations: usize,
    max_epochs: usize,
    tolerance: f64,
    ws: usize,
    accel: bool,
    k: usize,
    verbose: bool,
}

pub fn run(input: &str, output: &str) {
    let txt = std::fs::read_to_string(input).unwrap();
    let mut it = txt.split_whitespace();
    let name = it.next().unwrap().to_string();
    let mut u = || it.next().unwrap().parse::<u64>().unwrap();
    let s = Settings {
        alpha: f64::from_bits(u()),
        extra: f64::from_bits(u()),
        max_iterations: u() as usize,
        max_epochs: u() as usize,
        tolerance: f64::from_bits(u()),
        ws: u() as usize,
        accel: u() == 1,
        k: u() as usize,
        verbose: u() == 1,
    };
    let sparse = u() == 1;
    let colmajor = u() == 1;
    let (n, p, t) = (u() as usize, u() as usize, u() as usize);
    let y: Vec<f64> = (0..n * t.max(1)).map(|_| f64::from_bits(u())).collect();
    let dense: Vec<f64> = (0..n * p).map(|_| f64::from_bits(u())).collect();
    // rounding depends on the memory layout
    let lay = |n: usize, p: usize, v: &Vec<f64>| {
        let a = Array2::from_shape_vec((n, p), v.clone()).unwrap();
        let mut b = Array2::zeros((n, p).set_f(colmajor));
        b.assign(&a);
        b
    };
    let x = lay(n, p, &dense);
    let (mut data, mut ix, mut ptr) = (vec![], vec![], vec![0i32]);
    for j in 0..p {
        for i in 0..n {
            if x[[i, j]] != 0.0 {
                data.push(x[[i, j]]);
                ix.push(i as i32);
            }
        }
        ptr.push(data.len() as i32);
    }
    let (data, ix, ptr) = (Array1::from(data), Array1::from(ix), Array1::from(ptr));
    let csc = CSCArray::new(data.view(), ix.view(), ptr.view());
    let y1 = Array1::from(y.clone());
    let y2 = || lay(n, t, &y);
    let c = match (name.as_str(), sparse) {
        ("LassoWrapper", false) => fit!(LassoParams, s, x, y1),
        ("LassoWrapper", true) => fit!(LassoParams, s, csc, y1),
        ("ElasticNetWrapper", false) => fit!(ElasticNetParams, s, x, y1, l1_ratio),
        ("ElasticNetWrapper", true) => fit!(ElasticNetParams, s, csc, y1, l1_ratio),
        ("MCPWrapper", false) => fit!(MCParams, s, x, y1, gamma),
        ("MCPWrapper", true) => fit!(MCParams, s, csc, y1, gamma),
        ("MultiTaskLassoWrapper", false) => fit!(MultiTaskLassoParams, s, x, y2()),
        ("MultiTaskLassoWrapper", true) => fit!(MultiTaskLassoParams, s, csc, y2()),
        ("MultiTaskElasticNetWrapper", false) => fit!(MultiTaskElasticNetParams, s, x, y2(), l1_ratio),
        ("MultiTaskElasticNetWrapper", true) => fit!(MultiTaskElasticNetParams, s, csc, y2(), l1_ratio),
        ("BlockMCPWrapper", false) => fit!(BlockMCParams, s, x, y2(), gamma),
        _ => fit!(BlockMCParams, s, csc, y2(), gamma),
    };
    let out: Vec<String> = c.iter().map(|v| v.to_bits().to_string()).collect();
    std::fs::write(output, out.join(" ")).unwrap();
}
