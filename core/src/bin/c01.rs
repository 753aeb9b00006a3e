//! C01: hash_1..hash_7 against the reference machine, exhaustively over the input spaces.
use mc_core::*;
use refmodel::report::*;
use std::sync::Mutex;

fn main() {
    let run = Run::new("C01");
    check_conversion();
    let m = Model::new();
    let steps = m.textbook.len() as u64;
    let distinct: Vec<Mutex<std::collections::HashSet<u64>>> = (0..64).map(|_| Default::default()).collect();
    for rate in 1..=7 {
        for (k, sp) in spaces(&m, rate, run.thorough(), &repo_dir()).iter().enumerate() {
            run.begin();
            let r = run.par(sp.len(), |i| {
                let v = sp.get(i);
                let want = m.digest(rate, &v);
                let got = hash_guarded(rate, &v);
                run.count(steps + 1, steps, 1);
                distinct[(want.0[0] % 64) as usize].lock().unwrap().insert(want.0[1]);
                match got {
                    Ok(g) if g == want => {
                        if i == sp.len() / 2 && k < 4 {
                            run.sample(format!("hash_{rate}({}) = {}", show(&v), g.hex()));
                        }
                        Ok(())
                    }
                    Ok(g) => Err(bad(
                        format!("hash_{rate} {}", show(&v)),
                        format!("digest {} but the specification gives {}", g.hex(), want.hex()),
                    )),
                    Err(e) => Err(bad(format!("hash_{rate} {}", show(&v)), format!("panicked: {e}"))),
                }
            });
            run.end(&format!("rate {rate}: {} #{k}", sp.name()));
            run.check(r);
        }
    }
    let d: usize = distinct.iter().map(|s| s.lock().unwrap().len()).sum();
    run.extra("distinct_digests_observed", d.to_string());
    run.assume("decaf377's field arithmetic is correct (dependency, outside the repository); the reference uses its own arithmetic");
    run.assume("values outside the enumerated alphabets behave like those inside: the alphabets contain every literal written in the sources, bit/byte/limb patterns, and inputs that force special values at every step of both machines");
    run.small();
    run.pass()
}
