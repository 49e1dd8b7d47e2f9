//! Files for oracles outside of this crate (real compilers and interpreters).

use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::decode::DIALECTS;
use crate::props::quotes;
use crate::rng::{hash_bytes, mix, Rng};

fn hex(s: &str) -> String {
    s.bytes().fold(String::new(), |mut o, b| {
        let _ = write!(o, "{b:02x}");
        o
    })
}

/// One line for each sample: its value, and its source.
pub fn emit(what: &str, seed: u64, n: usize, dir: &str) -> i32 {
    let lines = |name: &str, f: &dyn Fn(&mut Rng) -> Result<(String, String), String>| {
        let mut out = String::new();
        for i in 0..n {
            let mut r = Rng::new(mix(mix(seed ^ hash_bytes(name.as_bytes())).wrapping_add(i as u64)));
            match catch_unwind(AssertUnwindSafe(|| f(&mut r))) {
                Ok(Ok((v, s))) => {
                    let _ = writeln!(out, "{} {}", hex(&v), hex(&s));
                }
                // Note: also seen by the monitors of this crate.
                Ok(Err(e)) => {
                    let _ = writeln!(out, "error {}", hex(&e));
                }
                Err(_) => {
                    let _ = writeln!(out, "error {}", hex("panic"));
                }
            }
        }
        std::fs::write(format!("{dir}/{name}.txt"), out).unwrap();
    };
    match what {
        "C14" => {
            for d in DIALECTS {
                lines(&format!("{d:?}"), &|r| quotes::sample_literal(r, d));
            }
        }
        "C15" => lines("Js", &quotes::sample_expr),
        _ => return 2,
    }
    0
}
