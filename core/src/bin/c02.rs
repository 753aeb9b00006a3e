//! C02: optimized and textbook permutations of the implementation, every word, same enumeration.
use mc_core::*;
use refmodel::report::*;

fn main() {
    let run = Run::new("C02");
    check_conversion();
    let m = Model::new();
    let steps = (m.textbook.len() + m.optimized.len()) as u64;
    for rate in 1..=7 {
        for (k, sp) in spaces(&m, rate, run.thorough(), &repo_dir()).iter().enumerate() {
            run.begin();
            let r = run.par(sp.len(), |i| {
                let v = sp.get(i);
                let a = perm_guarded(rate, true, &v);
                let b = perm_guarded(rate, false, &v);
                run.count(2, steps, 2);
                let case = || format!("rate {rate} state {}", show(&v));
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        if a != b {
                            return Err(bad(case(), format!("optimized digest {:?} words {:?}\ntextbook  digest {:?} words {:?}", a.0, a.1, b.0, b.1)));
                        }
                        if a.0 != a.1[1] {
                            return Err(bad(case(), format!("digest {:?} is not word 1 of {:?}", a.0, a.1)));
                        }
                        if i == sp.len() / 3 && k < 4 {
                            run.sample(format!("rate {rate} state {} -> {}", show(&v), show(&a.1)));
                        }
                        Ok(())
                    }
                    (a, b) => Err(bad(case(), format!("optimized {a:?} textbook {b:?}"))),
                }
            });
            run.end(&format!("rate {rate}: {} #{k}", sp.name()));
            run.check(r);
        }
    }
    run.assume("states outside the enumerated alphabets behave like those inside (literals of the sources, bit/byte/limb patterns, states forced at every step of both machines)");
    run.small();
    run.pass()
}
