//! C12: all pairs of different calls in the enumerated set are distinguished by their digests. No
//! reference is involved: a collision between two calls that differ in a single argument, in the
//! order or in the arity is the violation itself.
use mc_core::*;
use refmodel::report::*;
use refmodel::space::{self, *};
use refmodel::{Fe, Field};
use std::collections::HashMap;
use std::sync::Mutex;

fn main() {
    let run = Run::new("C12");
    check_conversion();
    let m = Model::new();
    // digest -> (rate, arguments)
    let seen: Vec<Mutex<HashMap<Fe, (u8, Box<[Fe]>)>>> = (0..256).map(|_| Mutex::new(HashMap::new())).collect();
    let call = |rate: usize, v: &[Fe]| -> Result<Fe, Bad> {
        let case = || format!("hash_{rate}({})", show(v));
        let d = hash_guarded(rate, v).map_err(|e| bad(case(), format!("panicked: {e}")))?;
        run.count(1, 1, 1);
        let mut g = seen[(d.0[0] % 256) as usize].lock().unwrap();
        if let Some((r, w)) = g.get(&d) {
            if (*r as usize, &w[..]) != (rate, v) {
                return Err(bad(case(), format!("digest {d:?} is also that of hash_{r}({})", show(w))));
            }
        } else {
            g.insert(d, (rate as u8, v.into()));
        }
        Ok(d)
    };
    let c = space::core();
    let ext: Vec<Fe> = c[..if run.thorough() { 6 } else { 3 }].to_vec();
    for rate in 1..=7usize {
        let t = rate + 1;
        let mut sps = spaces(&m, rate, run.thorough(), &repo_dir());
        let k = [0, 0, 24, 9, 6, 4, 3, 3, 2][t] + run.thorough() as usize * 2;
        sps.push(Space::Product { t, al: (0..k as u64).map(Fe::from_u64).collect() });
        for (k, sp) in sps.iter().enumerate() {
            run.begin();
            // arity and order closure on everything but the large single-position sweeps
            let close = !matches!(sp, Space::Sweep { .. }) || k == 4;
            // Inputs steered to a chosen inner state can be made to share a digest (that is how the
            // inverse works, all arguments differ): there only the neighbours of the base call count.
            let local = matches!(sp, Space::Steer(_));
            let r = run.par(sp.len(), |i| {
                let v = sp.get(i);
                let base = if local { Some(hash_guarded(rate, &v).map_err(|e| bad(format!("hash_{rate}({})", show(&v)), e))?) } else { None };
                let call = |r: usize, w: &[Fe]| -> Result<(), Bad> {
                    match base {
                        None => call(r, w).map(|_| ()),
                        Some(_) if r == rate && w == &v[..] => Ok(()),
                        Some(b) => {
                            run.count(1, 1, 1);
                            let case = || format!("hash_{r}({})", show(w));
                            let d = hash_guarded(r, w).map_err(|e| bad(case(), format!("panicked: {e}")))?;
                            if d == b {
                                return Err(bad(case(), format!("digest {d:?} is also that of hash_{rate}({})", show(&v))));
                            }
                            Ok(())
                        }
                    }
                };
                call(rate, &v)?;
                if close && (i % if run.thorough() { 1 } else if local { 9 } else { 4 } == 0) {
                    // all swaps
                    for a in 0..t {
                        for b in a + 1..t {
                            if v[a] != v[b] {
                                let mut w = v.clone();
                                w.swap(a, b);
                                call(rate, &w)?;
                            }
                        }
                    }
                    // rotations and reversal
                    for a in 1..t {
                        let mut w = v.clone();
                        w.rotate_left(a);
                        call(rate, &w)?;
                    }
                    // other arities: a value inserted at or removed from either end of the arguments
                    for x in &ext {
                        if rate < 7 {
                            let mut w = v.clone();
                            w.push(*x);
                            call(rate + 1, &w)?;
                            let mut w = v.clone();
                            w.insert(1, *x);
                            call(rate + 1, &w)?;
                            let mut w = v.clone();
                            w.insert(0, *x);
                            call(rate + 1, &w)?;
                        }
                    }
                    if rate > 1 {
                        call(rate - 1, &v[..t - 1])?;
                        call(rate - 1, &v[1..])?;
                    }
                    // every argument changed in turn, by one and by its negation
                    for a in 0..t {
                        for n in [v[a].add(Fe::one()), v[a].sub(Fe::one()), v[a].neg(), v[a].add(v[a]), v[a].add(space::p2(64))] {
                            let mut w = v.clone();
                            w[a] = n;
                            call(rate, &w)?;
                        }
                    }
                }
                if i == sp.len() / 2 && k < 4 {
                    run.sample(format!("hash_{rate}({})", show(&v)));
                }
                Ok(())
            });
            run.end(&format!("rate {rate}: {} #{k}", sp.name()));
            run.check(r);
        }
    }
    let n: usize = seen.iter().map(|s| s.lock().unwrap().len()).sum();
    run.extra("distinct_calls", n.to_string());
    run.extra("pairs_distinguished", format!("{}", n as u128 * (n as u128 - 1) / 2));
    run.assume("arguments outside the enumerated alphabets behave like those inside");
    run.pass()
}
