//! C11: every output state of the implementation, run backwards through the inverse rounds of the
//! specification, is the input state; no two enumerated input states share an output state.
use mc_core::custom::*;
use mc_core::*;
use poseidon_parameters::v1::PoseidonParameters;
use refmodel::poseidon::{self, Inv, Params, Sbox};
use refmodel::report::*;
use refmodel::space::{self, Space};
use refmodel::Fe;
use std::collections::HashMap;
use std::sync::Mutex;

fn explore<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(
    run: &Run,
    p: &Params<Fe>,
    inv: &Inv<Fe>,
    desc: &str,
    sps: &[Space],
) -> Result<(), Bad> {
    let pp: PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> =
        guard(|| build(p)).map_err(|e| bad(desc, format!("parameter construction panicked: {e}")))?;
    let (ts, os) = (poseidon::textbook_steps(p.r_f, p.r_p), poseidon::optimized_steps(p.r_f, p.r_p));
    for sp in sps {
        for i in 0..sp.len() {
            let v = sp.get(i);
            let case = || format!("{desc} state {}", show(&v));
            let ((_, ow), (_, uw)) = guard(|| eval(&pp, &v, true)).map_err(|e| bad(case(), format!("panicked: {e}")))?;
            let bo = inv.input_for(p, &os, os.len(), &ow);
            let bu = inv.input_for(p, &ts, ts.len(), &uw);
            run.count(2, (ts.len() + os.len()) as u64, 2);
            if bo != v {
                return Err(bad(case(), format!("optimized output {ow:?} has the preimage {bo:?}")));
            }
            if bu != v {
                return Err(bad(case(), format!("textbook output {uw:?} has the preimage {bu:?}")));
            }
        }
    }
    Ok(())
}
fn dispatch(run: &Run, p: &Params<Fe>, inv: &Inv<Fe>, desc: &str, sps: &[Space]) -> Result<(), Bad> {
    for_shapes!(p.t, p.r_f, p.r_p, explore(run, p, inv, desc, sps))
}

fn dispatch_rounds(run: &Run, p: &Params<Fe>, inv: &Inv<Fe>, desc: &str, sps: &[Space]) -> Result<(), Bad> {
    for_rounds!(p.t, p.r_f, p.r_p, explore(run, p, inv, desc, sps))
}

fn main() {
    let run = Run::new("C11");
    check_conversion();
    let m = Model::new();
    let steps = (m.textbook.len() + m.optimized.len()) as u64;
    for rate in 1..=7 {
        let p = m.params(rate);
        let inv = Inv::new(p).expect("the shipped parameters are invertible");
        // (the inverse of a round is ten times the cost of the round: smaller sweeps than C01 and C02)
        let sps = if run.thorough() { spaces_sized(&m, rate, true, &repo_dir(), 4096, true) } else { spaces_sized(&m, rate, false, &repo_dir(), 0, false) };
        // output state -> input state, to see collisions directly
        let seen: Vec<Mutex<HashMap<Vec<Fe>, Vec<Fe>>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
        for (k, sp) in sps.iter().enumerate() {
            run.begin();
            let r = run.par(sp.len(), |i| {
                let v = sp.get(i);
                let case = || format!("rate {rate} state {}", show(&v));
                let a = perm_guarded(rate, true, &v).map_err(|e| bad(case(), e))?;
                let b = perm_guarded(rate, false, &v).map_err(|e| bad(case(), e))?;
                run.count(2, steps, 2);
                for (name, w, st) in [("optimized", &a.1, &m.optimized), ("textbook", &b.1, &m.textbook)] {
                    if name == "textbook" && b.1 == a.1 {
                        continue; // the two reference machines are the same bijection
                    }
                    let back = inv.input_for(p, st, st.len(), w);
                    if back != v {
                        return Err(bad(case(), format!("{name} output {w:?} has the preimage {back:?}")));
                    }
                }
                let sh = (a.1[0].0[0] % 64) as usize;
                if let Some(o) = seen[sh].lock().unwrap().insert(a.1.clone(), v.clone()) {
                    if o != v {
                        return Err(bad(case(), format!("same output state as input {o:?}")));
                    }
                }
                if i == sp.len() / 2 && k < 3 {
                    run.sample(case());
                }
                Ok(())
            });
            run.end(&format!("rate {rate}: {} #{k}", sp.name()));
            run.check(r);
        }
    }
    // parameter sets of the caller's own
    let mut sets = vec![];
    for (t, rf, rp) in shapes() {
        for sb in [Sbox::Pow(1), Sbox::Pow(11), Sbox::Pow(17), Sbox::Pow(19), Sbox::Pow(257), Sbox::Inv] {
            for mk in [MatKind::Cauchy, MatKind::ShiftedCauchy, MatKind::Dense, MatKind::Circulant, MatKind::Identity] {
                for ak in [ArcKind::Dense, ArcKind::Zero] {
                    if rp > 10 && ak == ArcKind::Zero {
                        continue;
                    }
                    sets.push((t, rf, rp, sb, mk, ak));
                }
            }
        }
    }
    run.begin();
    let n = std::sync::atomic::AtomicU64::new(0);
    let c = space::core();
    let r = run.par(sets.len(), |i| {
        let (t, rf, rp, sb, mk, ak) = sets[i];
        let (p, consistent) = make(t, rf, rp, sb, mk, ak, false);
        let inv = match Inv::new(&p) {
            Some(x) if consistent => x,
            _ => return Ok(()),
        };
        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let desc = format!("t={t} r_F={rf} r_P={rp} {sb:?} mds={mk:?} constants={ak:?}");
        let mut sps = vec![Space::List(space::backgrounds(t)), Space::Sweep { t, al: c[..3].to_vec(), bg: space::backgrounds(t)[2..3].to_vec() }];
        if run.thorough() || (rp <= 10 && mk == MatKind::Cauchy && ak == ArcKind::Dense) {
            for o in [false, true] {
                sps.push(space::steer(&p, o, &c[..1], 1).unwrap());
            }
        }
        dispatch(&run, &p, &inv, &desc, &sps)
    });
    let n = n.load(std::sync::atomic::Ordering::Relaxed);
    run.end(&format!("{n} invertible parameter sets"));
    run.check(r);
    let rs = rounds();
    run.begin();
    let r = run.par(rs.len() * 2, |i| {
        let (t, rf, rp) = rs[i / 2];
        let sb = [Sbox::Pow(17), Sbox::Inv][i % 2];
        let (p, consistent) = make(t, rf, rp, sb, MatKind::Cauchy, ArcKind::Dense, false);
        let inv = match Inv::new(&p) {
            Some(x) if consistent => x,
            _ => return Ok(()),
        };
        let desc = format!("t={t} r_F={rf} r_P={rp} {sb:?} mds=Cauchy constants=Dense");
        let mut sps = vec![Space::List(space::backgrounds(t))];
        if i % 2 == 0 {
            sps.push(space::steer(&p, true, &c[..1], 1).unwrap());
        }
        dispatch_rounds(&run, &p, &inv, &desc, &sps)
    });
    run.end(&format!("{} round numbers", rs.len()));
    run.check(r);
    run.extra("invertible_parameter_sets", n.to_string());
    run.assume("states outside the enumerated alphabets behave like those inside");
    run.small();
    run.pass()
}
