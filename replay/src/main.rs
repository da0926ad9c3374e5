//! replay PROPERTY SEED SECONDS OUTFILE: search for an input on which the
//! library built from the current tree breaks the property.
#![allow(non_snake_case)]
mod est;
mod gen;
mod pen;
mod pyref;
mod single;
mod solver;

use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}

fn run(prop: &str, rng: &mut gen::Rng) -> R {
    match prop {
        "C01" => single::c01(rng),
        "C02" => single::c02(rng),
        "C03" | "C04" => single::datafits(prop, rng),
        "C05" => single::c05(rng),
        "C06" => solver::c06(rng),
        "C07" => solver::c07(rng),
        "C08" => solver::c08(rng),
        "C09" => solver::c09(rng),
        "C10" => solver::c10(rng),
        "C11" => single::c11(rng),
        "C12" => est::c12(rng),
        "C13" => est::c13(rng),
        "C14" => est::c14(rng),
        "C15" => solver::c15(rng),
        "C16" => single::c16(rng),
        "C17" => single::c17(rng),
        "C20" => est::c20(rng),
        "C21" => single::c21(rng),
        "C22" => solver::c22(rng),
        _ => Ok(()),
    }
}

fn scales(prop: &str) -> &'static [f64] {
    match prop {
        "C01" | "C09" | "C12" | "C16" | "C20" | "C21" => &[1e-4, 1e-2, 30.0, 300.0, 1e4, 1e6, 1e8],
        "C02" | "C05" | "C17" => &[1e-2, 30.0, 100.0],
        _ => &[1.0],
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "pyref" {
        return pyref::run(&a[2], &a[3]);
    }
    let (prop, seed, secs) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut n = 0u64;
    let only = a.get(5).map(|s| s.parse::<u64>().unwrap());
    while Instant::now() < end {
        let case = only.unwrap_or(n);
        let mut rng = gen::Rng(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(case.wrapping_mul(0xD1B5_4A32_D192_ED03)), 1.0);
        // thresholds far from one need inputs of another magnitude
        if rng.chance(0.3) {
            rng.1 = rng.pick(scales(&prop));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&prop, &mut rng)));
        let bad = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(e) => Some(format!("panic: {}", msg(&e))),
        };
        n += 1;
        if let Some(b) = bad {
            std::fs::write(&a[4], format!("FAIL {}\n{}\n", case, b)).unwrap();
            std::process::exit(1);
        }
        if only.is_some() {
            break;
        }
    }
    std::fs::write(&a[4], format!("OK {}\n", n)).unwrap();
}
