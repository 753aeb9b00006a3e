//! C03: parameter sets enumerated over shape x S-box x matrix kind x constant kind, on enumerated
//! inputs and steered states, against the reference machine built from the same description.
use mc_core::custom::*;
use mc_core::*;
use poseidon_parameters::v1::PoseidonParameters;
use refmodel::poseidon::{self, Inv, Params, Sbox};
use refmodel::report::*;
use refmodel::space::{self, Space};
use refmodel::{Fe, Field};

fn explore<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(
    run: &Run,
    p: &Params<Fe>,
    consistent: bool,
    desc: &str,
    sps: &[Space],
) -> Result<(), Bad> {
    let pp: PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> =
        guard(|| build(p)).map_err(|e| bad(desc, format!("parameter construction panicked: {e}")))?;
    let (ts, os) = (poseidon::textbook_steps(p.r_f, p.r_p), poseidon::optimized_steps(p.r_f, p.r_p));
    for sp in sps {
        for i in 0..sp.len() {
            let v = sp.get(i);
            let wu = poseidon::run(p, &ts, &v);
            let wo = poseidon::run(p, &os, &v);
            if consistent {
                assert_eq!(wu, wo, "reference machines disagree: {desc}");
            }
            run.count(2, (ts.len() + os.len()) as u64, 2);
            let case = || format!("{desc} state {}", show(&v));
            let ((od, ow), (ud, uw)) = guard(|| eval(&pp, &v, true)).map_err(|e| bad(case(), format!("panicked: {e}")))?;
            if ow != wo || od != wo[1] {
                return Err(bad(case(), format!("optimized: digest {od:?} words {ow:?}, the parameters describe {wo:?}")));
            }
            if uw != wu || ud != wu[1] {
                return Err(bad(case(), format!("textbook: digest {ud:?} words {uw:?}, the parameters describe {wu:?}")));
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn dispatch(run: &Run, p: &Params<Fe>, c: bool, desc: &str, sps: &[Space]) -> Result<(), Bad> {
    for_shapes!(p.t, p.r_f, p.r_p, explore(run, p, c, desc, sps))
}

#[allow(clippy::too_many_arguments)]
fn dispatch_rounds(run: &Run, p: &Params<Fe>, c: bool, desc: &str, sps: &[Space]) -> Result<(), Bad> {
    for_rounds!(p.t, p.r_f, p.r_p, explore(run, p, c, desc, sps))
}

fn main() {
    let run = Run::new("C03");
    check_conversion();
    let mut sets = vec![];
    let kinds = [MatKind::Cauchy, MatKind::ShiftedCauchy, MatKind::Dense, MatKind::Circulant, MatKind::Identity, MatKind::Zero, MatKind::Swap];
    let exps: &[u64] = if run.thorough() {
        &[1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 15, 16, 17, 18, 19, 29, 31, 32, 33, 37, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1021, 65537]
    } else {
        &[1, 2, 3, 5, 7, 11, 16, 17, 257]
    };
    let mut sboxes: Vec<Sbox> = exps.iter().map(|e| Sbox::Pow(*e)).collect();
    sboxes.push(Sbox::Inv);
    sboxes.push(Sbox::Pow(65537));
    for (t, rf, rp) in shapes() {
        for sb in &sboxes {
            if *sb == Sbox::Pow(65537) && (t > 3 || rp > 2) {
                continue;
            }
            for mk in kinds {
                if *sb == Sbox::Pow(65537) && mk != MatKind::Cauchy {
                    continue;
                }
                for ak in [ArcKind::Dense, ArcKind::Zero, ArcKind::Counter] {
                    for poison in [false, true] {
                        // the long-round shapes are covered for every S-box and matrix, one constant kind
                        if rp > 10 && (ak != ArcKind::Dense || (poison && mk != MatKind::Cauchy)) {
                            continue;
                        }
                        if !run.thorough() && poison && ak != ArcKind::Dense {
                            continue;
                        }
                        sets.push((t, rf, rp, *sb, mk, ak, poison));
                    }
                }
            }
        }
    }
    run.begin();
    let c = space::core();
    let n_consistent = std::sync::atomic::AtomicU64::new(0);
    let r = run.par(sets.len(), |i| {
        let (t, rf, rp, sb, mk, ak, poison) = sets[i];
        let (p, cons) = make(t, rf, rp, sb, mk, ak, poison);
        n_consistent.fetch_add(cons as u64, std::sync::atomic::Ordering::Relaxed);
        let desc = format!("t={t} r_F={rf} r_P={rp} {sb:?} mds={mk:?} constants={ak:?}{}", if cons { "" } else { " independent optimized fields" });
        let k = if run.thorough() { [0, 0, 8, 4, 3, 2, 2, 2, 2][t] } else { [0, 0, 3, 2, 2, 1, 1, 1, 1][t] };
        let mut sps = vec![
            Space::List(space::backgrounds(t)),
            Space::Product { t, al: c[..k].to_vec() },
            Space::Sweep { t, al: c[..3].to_vec(), bg: space::backgrounds(t)[2..3].to_vec() },
        ];
        // force zero words at every step boundary when the set is invertible
        let steered = if run.thorough() {
            ak != ArcKind::Counter
        } else {
            rp <= 10 && ak == ArcKind::Dense && matches!(mk, MatKind::Cauchy | MatKind::Circulant) && sb != Sbox::Pow(65537)
        };
        if cons && steered && Inv::new(&p).is_some() {
            for o in [false, true] {
                sps.push(space::steer(&p, o, &c[..1], 1).unwrap());
            }
        }
        if i % 1500 == 0 {
            run.sample(desc.clone());
        }
        dispatch(&run, &p, cons, &desc, &sps)
    });
    run.end(&format!("{} parameter sets", sets.len()));
    run.check(r);
    // the exponent alone, in small shapes
    let mut exps = space::exponents(if run.thorough() { 5_000 } else { 1_000 });
    // the power function of the field takes a multiplication for every unit of the exponent
    exps.retain(|e| *e < if run.thorough() { 1 << 22 } else { 1 << 17 });
    let narrow: Vec<(usize, usize, usize)> = shapes().into_iter().filter(|(t, rf, rp)| *t <= 3 && rf + rp <= 3).collect();
    run.begin();
    let r = run.par(exps.len(), |i| {
        for (t, rf, rp) in narrow.iter().take(if exps[i] > 2_000 { 1 } else { narrow.len() }) {
            let (p, cons) = make(*t, *rf, *rp, Sbox::Pow(exps[i]), MatKind::Cauchy, ArcKind::Dense, false);
            let desc = format!("t={t} r_F={rf} r_P={rp} x^{} mds=Cauchy constants=Dense", exps[i]);
            let sps = [Space::List(vec![space::backgrounds(*t).pop().unwrap(), vec![c[0]; *t], vec![c[1].neg(); *t]])];
            dispatch(&run, &p, cons, &desc, &sps)?;
        }
        Ok(())
    });
    run.end(&format!("{} exponents in {} shapes", exps.len(), narrow.len()));
    run.check(r);
    // the round numbers alone
    let rs = rounds();
    run.begin();
    let r = run.par(rs.len() * 6, |i| {
        let (t, rf, rp) = rs[i / 6];
        let (sb, mk, poison) = [(Sbox::Pow(17), MatKind::Cauchy, false), (Sbox::Pow(17), MatKind::Cauchy, true), (Sbox::Pow(5), MatKind::Dense, false), (Sbox::Pow(1), MatKind::Circulant, true), (Sbox::Inv, MatKind::ShiftedCauchy, false), (Sbox::Inv, MatKind::Dense, true)][i % 6];
        let (p, cons) = make(t, rf, rp, sb, mk, ArcKind::Dense, poison);
        let desc = format!("t={t} r_F={rf} r_P={rp} {sb:?} mds={mk:?} constants=Dense{}", if cons { "" } else { " independent optimized fields" });
        let mut sps = vec![Space::List(space::backgrounds(t))];
        if cons && i % 6 == 0 && Inv::new(&p).is_some() {
            for o in [false, true] {
                sps.push(space::steer(&p, o, &c[..if run.thorough() { 3 } else { 1 }], 1).unwrap());
            }
        }
        dispatch_rounds(&run, &p, cons, &desc, &sps)
    });
    run.end(&format!("{} round numbers", rs.len()));
    run.check(r);
    run.extra("exponents", exps.len().to_string());
    run.extra("parameter_sets", sets.len().to_string());
    run.extra("self_consistent_sets", n_consistent.load(std::sync::atomic::Ordering::Relaxed).to_string());
    run.assume("parameter sets outside the enumerated shapes, exponents and matrix kinds behave like those inside");
    run.small();
    run.pass()
}
