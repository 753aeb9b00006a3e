//! C23: circuits of parameter sets of the caller's own: every word of the permuted state, any number of
//! permutations in a row, every allocation and sharing pattern, against the textbook reference machine;
//! the constraints determine every word; synthesis does not look at the values.
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystem, SynthesisError, SynthesisMode};
use decaf377::{r1cs::FqVar, Fq};
use mc_circ::forge::*;
use mc_circ::*;
use mc_core::custom::*;
use mc_core::*;
use poseidon_parameters::v1::PoseidonParameters;
use poseidon_permutation::r1cs::InstanceVar;
use refmodel::poseidon::{self, Inv, Params, Sbox};
use refmodel::report::*;
use refmodel::space::{self, Space};
use refmodel::{Fe, Field};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The implementation: the state after `k` permutations (k = 0: the digest of the hash).
type Circuit = Box<dyn Fn(Cs, Vec<FqVar>, usize) -> Vec<FqVar> + Sync>;
fn circuit<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(p: &Params<Fe>) -> Circuit {
    let pp: PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> = build(p);
    Box::new(move |cs, v, k| {
        if k == 0 {
            return vec![InstanceVar::n_to_1_fixed_hash(pp.clone(), cs, core::array::from_fn(|i| v[i].clone()))];
        }
        #[cfg(feature = "literal")]
        {
            let mut i = InstanceVar { parameters: pp.clone(), cs, state_words: v };
            for _ in 0..k {
                i.permute();
            }
            i.state_words
        }
        #[cfg(not(feature = "literal"))]
        unreachable!()
    })
}
fn dispatch(p: &Params<Fe>) -> Circuit {
    let go = || -> Circuit { for_shapes!(p.t, p.r_f, p.r_p, circuit(p)) };
    go()
}

fn dispatch_rounds(p: &Params<Fe>) -> Circuit {
    let go = || -> Circuit { for_rounds!(p.t, p.r_f, p.r_p, circuit(p)) };
    go()
}

struct Set<'a> {
    p: &'a Params<Fe>,
    steps: Vec<poseidon::Step>,
    f: Circuit,
    name: &'a str,
}
#[derive(Clone)]
struct Case {
    modes: Vec<Mode>,
    vals: Vec<Fe>,
    part: Vec<usize>,
    k: usize,
    setup: bool,
}
impl Case {
    fn own(modes: &[Mode], vals: &[Fe], k: usize) -> Case {
        Case { modes: modes.to_vec(), vals: vals.to_vec(), part: (0..vals.len()).collect(), k, setup: false }
    }
    fn show(&self, s: &Set) -> String {
        let v: Vec<String> = self.modes.iter().zip(&self.vals).map(|(m, x)| format!("{m:?}({})", x.hex())).collect();
        let what = if self.k == 0 { "n_to_1_fixed_hash".into() } else { format!("{} x permute", self.k) };
        format!("{} {what} {}variables [{}] words {:?}", s.name, if self.setup { "setup mode " } else { "" }, v.join(" "), self.part)
    }
    fn truth(&self, s: &Set) -> Vec<Fe> {
        let mut w: Vec<Fe> = self.part.iter().map(|i| self.vals[*i]).collect();
        for _ in 0..self.k.max(1) {
            w = poseidon::run(s.p, &s.steps, &w);
        }
        if self.k == 0 { vec![w[1]] } else { w }
    }
    /// Synthesize; every result is also copied to a public output.
    fn synth(&self, s: &Set) -> Result<Synth, Bad> {
        guard(|| -> Result<Synth, SynthesisError> {
            let cs = ConstraintSystem::<Fq>::new_ref();
            cs.set_mode(if self.setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
            let vars: Vec<FqVar> = self.modes.iter().zip(&self.vals).map(|(m, v)| alloc(&cs, *m, *v, self.setup)).collect::<Result<_, _>>()?;
            let before = counts(&cs);
            let ws = (s.f)(cs.clone(), self.part.iter().map(|i| vars[*i].clone()).collect(), self.k);
            let mut r = Synth { cs: cs.clone(), digests: vec![], before, outs: vec![], counts: vec![counts(&cs)] };
            for w in ws {
                r.digests.push(w.value().ok().map(fe));
                r.outs.push(cs.num_instance_variables());
                FqVar::new_input(cs.clone(), || w.value())?.enforce_equal(&w)?;
            }
            Ok(r)
        })
        .map_err(|e| bad(self.show(s), format!("synthesis panicked: {e}")))?
        .map_err(|e| bad(self.show(s), format!("synthesis error: {e}")))
    }
}
#[derive(Default)]
struct Stats {
    structural: AtomicU64,
    searched: AtomicU64,
    undecided: AtomicU64,
}
/// `base`: matrices that the synthesis must reproduce.
fn check(run: &Run, st: &Stats, s: &Set, c: &Case, base: Option<&(System, [usize; 3])>) -> Result<(System, [usize; 3]), Bad> {
    let r = c.synth(s)?;
    let truth = c.truth(s);
    if !c.setup {
        let got: Vec<Option<Fe>> = r.digests.clone();
        if got.len() != truth.len() || got.iter().zip(&truth).any(|(a, b)| *a != Some(*b)) {
            return Err(bad(c.show(s), format!("words in the circuit {got:?}, the parameters describe {truth:?}")));
        }
        if !r.cs.is_satisfied().unwrap_or(false) {
            return Err(bad(c.show(s), format!("the honest assignment violates {:?}", r.cs.which_is_unsatisfied())));
        }
    }
    let sys = System::from(&r);
    run.count(1, sys.rows.len() as u64, 1);
    match base {
        Some((b, k)) => {
            if *b != sys || *k != r.counts[0] {
                let first = b.rows.iter().zip(&sys.rows).position(|(x, y)| x != y);
                return Err(bad(c.show(s), format!("another constraint system than for the first assignment of this pattern: counts (constraints, public, witness) {k:?} and {:?}; first different row {first:?}", r.counts[0])));
            }
        }
        None if !c.setup => {
            let known: Vec<bool> = (0..sys.n).map(|i| if i < sys.n_inst { i < r.before[1] } else { i - sys.n_inst < r.before[2] }).collect();
            if sys.structural(&known).is_some() {
                st.structural.fetch_add(1, Relaxed);
            }
            let honest = System::honest(&r);
            let occ = sys.occurrences();
            let outs: Vec<(usize, Fe)> = r.outs.iter().copied().zip(truth.iter().copied()).collect();
            let fixed: Vec<Option<Fe>> = known.iter().zip(&honest).map(|(k, v)| k.then_some(*v)).collect();
            let mut se = Search { sys: &sys, occ: &occ, honest: &honest, outs, nodes: 0, leaves: 0, budget: 3000, undecided: false };
            st.searched.fetch_add(1, Relaxed);
            if let Some(w) = se.run(&fixed) {
                let wrong: Vec<String> = se.outs.iter().enumerate().filter(|(_, (o, v))| w[*o] != *v).map(|(j, (o, v))| format!("result {j} {:?} accepted, true one {v:?}", w[*o])).collect();
                return Err(bad(c.show(s), format!("{}\nassignment {}", wrong.join("; "), show(&w))));
            }
            if se.undecided || se.leaves == 0 {
                st.undecided.fetch_add(1, Relaxed);
            }
        }
        None => (),
    }
    Ok((sys, r.counts[0]))
}
/// All assignments of one pattern: the first decides the matrices, the others and setup mode follow.
fn pattern(run: &Run, st: &Stats, s: &Set, modes: &[Mode], part: &[usize], k: usize, vals: &[Vec<Fe>]) -> Result<(), Bad> {
    let c = Case { modes: modes.to_vec(), vals: vals[0].clone(), part: part.to_vec(), k, setup: false };
    let base = check(run, st, s, &c, None)?;
    check(run, st, s, &Case { setup: true, ..c.clone() }, Some(&base))?;
    for v in &vals[1..] {
        let fixed = modes.iter().any(|m| matches!(m, Mode::Const | Mode::Degenerate));
        check(run, st, s, &Case { vals: v.clone(), ..c.clone() }, if fixed { None } else { Some(&base) })?;
    }
    Ok(())
}

fn main() {
    let run = Run::new("C23");
    check_conversion();
    let th = run.thorough();
    let ks: Vec<usize> = if cfg!(feature = "literal") { if th { vec![0, 1, 2, 3, 4] } else { vec![0, 1, 2, 3] } } else { vec![0] };
    if !cfg!(feature = "literal") {
        println!("[C23] InstanceVar cannot be built from its three public fields in this tree: the hash alone is explored");
        run.assume("InstanceVar cannot be built from its public fields in this tree; only n_to_1_fixed_hash was explored");
    }
    let exps: Vec<u64> = if th { vec![17, 1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 15, 16, 18, 19, 31, 32, 33, 37, 63, 64, 65, 127, 128, 129, 255, 256, 257, 65537, u32::MAX as u64 - 1] } else { vec![17, 1, 2, 3, 4, 5, 7, 11, 13, 16, 19, 257, 65537, u32::MAX as u64 - 1] };
    let kinds = [MatKind::Cauchy, MatKind::ShiftedCauchy, MatKind::Dense, MatKind::Circulant, MatKind::Identity, MatKind::Zero, MatKind::Swap];
    let mut sets = vec![];
    for (t, rf, rp) in shapes() {
        for (ei, e) in exps.iter().enumerate() {
            for (mi, mk) in kinds.into_iter().enumerate() {
                for (ai, ak) in [ArcKind::Dense, ArcKind::Zero, ArcKind::Counter].into_iter().enumerate() {
                    // every pair (exponent, matrix), (exponent, constants), (matrix, constants)
                    if !th && (ei > 0 && mi > 0 && ai > 0 || rp > 2 && (ei > 0 && mi > 0 || ai > 0 && mi + ei > 0)) {
                        continue;
                    }
                    if (rp > 10 || *e > 300) && ei > 0 && (ai > 0 || mi > 0 && !(th && t < 4)) {
                        continue;
                    }
                    sets.push((t, rf, rp, *e, mk, ak));
                }
            }
        }
    }
    let st = Stats::default();
    let c = space::core();
    run.begin();
    let r = run.par(sets.len(), |i| {
        let (t, rf, rp, e, mk, ak) = sets[i];
        // the circuit reads no optimized field: make them unrelated to the others
        let (p, _) = make(t, rf, rp, Sbox::Pow(e), mk, ak, true);
        let name = format!("t={t} r_F={rf} r_P={rp} x^{e} mds={mk:?} constants={ak:?}");
        let f = guard(|| dispatch(&p)).map_err(|x| bad(name.clone(), format!("parameter construction panicked: {x}")))?;
        let s = Set { p: &p, steps: poseidon::textbook_steps(rf, rp), f, name: &name };
        let g = generic(t);
        let zero = vec![Fe::zero(); t];
        let one = vec![Fe::one(); t];
        let first = mk == MatKind::Cauchy && ak == ArcKind::Dense;
        let rich = first && (e == 17 || t < 4 && e < 20) && (rp <= 3 || th);
        let rot: Vec<Mode> = (0..t).map(|i| BASIC[i % 3]).collect();
        let own: Vec<usize> = (0..t).collect();
        for k in &ks {
            if *k > 1 && rp > 10 && !(first && e == 17) || *k > 2 && !rich {
                continue;
            }
            for m in if rich { &ALL[..] } else { &BASIC[..] } {
                pattern(&run, &st, &s, &vec![*m; t], &own, *k, &[g.clone(), zero.clone(), one.clone()])?;
            }
            pattern(&run, &st, &s, &rot, &own, *k, &[g.clone(), zero.clone()])?;
            if rich {
                for m in if t < 6 || th { one_off(t) } else { one_off(t).into_iter().step_by(5).collect() } {
                    pattern(&run, &st, &s, &m, &own, *k, &[g.clone()])?;
                }
                if t <= 4 || th && t <= 6 {
                    for m in basic_product(t) {
                        pattern(&run, &st, &s, &m, &own, *k, &[g.clone()])?;
                    }
                }
                for part in space::partitions(t) {
                    let n = part.iter().max().unwrap() + 1;
                    if t > 5 && !th && n > 1 && n < t - 1 {
                        continue;
                    }
                    for m in if t < 5 { &ALL[..3] } else { &ALL[2..3] } {
                        pattern(&run, &st, &s, &vec![*m; n], &part, *k, &[g[..n].to_vec(), zero[..n].to_vec()])?;
                    }
                }
            }
        }
        // values
        if rich && *ks.last().unwrap() > 0 {
            let mut sps = vec![Space::Sweep { t, al: c.clone(), bg: space::backgrounds(t)[2..3].to_vec() }, Space::Product { t, al: c[..[0, 0, 8, 4, 3, 2, 2, 2, 2][t]].to_vec() }];
            if gcd_ok(&p) {
                sps.push(space::steer(&p, false, &c[..if th { 4 } else { 1 }], 1).unwrap());
                sps.push(space::steer_patterns(&p, false).unwrap());
            }
            let w = vec![Mode::Witness; t];
            let base = check(&run, &st, &s, &Case::own(&w, &g, 1), None)?;
            for sp in &sps {
                for i in 0..sp.len() {
                    let v = sp.get(i);
                    check(&run, &st, &s, &Case::own(&w, &v, 1), Some(&base))?;
                    if i % 4 == 0 {
                        check(&run, &st, &s, &Case::own(&w, &v, 1), None)?;
                        check(&run, &st, &s, &Case::own(&vec![Mode::Const; t], &v, 1), None)?;
                    }
                }
            }
        }
        if i % 700 == 0 {
            run.sample(Case::own(&rot, &g, *ks.last().unwrap()).show(&s));
        }
        Ok(())
    });
    run.end(&format!("{} parameter sets", sets.len()));
    run.check(r);
    // the exponent alone, in small shapes
    let exps = space::exponents(if th { 2_000 } else { 300 });
    let narrow: Vec<(usize, usize, usize)> = shapes().into_iter().filter(|(t, rf, rp)| *t == 2 && rf + rp <= 3).collect();
    run.begin();
    let r = run.par(exps.len(), |i| {
        for (t, rf, rp) in &narrow {
            let (p, _) = make(*t, *rf, *rp, Sbox::Pow(exps[i]), MatKind::Cauchy, ArcKind::Dense, true);
            let name = format!("t={t} r_F={rf} r_P={rp} x^{} mds=Cauchy constants=Dense", exps[i]);
            let f = guard(|| dispatch(&p)).map_err(|x| bad(name.clone(), format!("parameter construction panicked: {x}")))?;
            let s = Set { p: &p, steps: poseidon::textbook_steps(*rf, *rp), f, name: &name };
            let own: Vec<usize> = (0..*t).collect();
            for m in BASIC {
                pattern(&run, &st, &s, &vec![m; *t], &own, ks[ks.len().min(2) - 1], &[generic(*t), vec![Fe::zero(); *t], vec![Fe::one().neg(); *t]])?;
            }
        }
        Ok(())
    });
    run.end(&format!("{} exponents in {} shapes", exps.len(), narrow.len()));
    run.check(r);
    // the round numbers alone
    let rs = rounds();
    run.begin();
    let r = run.par(rs.len() * 2, |i| {
        let (t, rf, rp) = rs[i / 2];
        let e = [17, 5][i % 2];
        let (p, _) = make(t, rf, rp, Sbox::Pow(e), MatKind::Cauchy, ArcKind::Dense, true);
        let name = format!("t={t} r_F={rf} r_P={rp} x^{e} mds=Cauchy constants=Dense");
        let f = guard(|| dispatch_rounds(&p)).map_err(|x| bad(name.clone(), format!("parameter construction panicked: {x}")))?;
        let s = Set { p: &p, steps: poseidon::textbook_steps(rf, rp), f, name: &name };
        let own: Vec<usize> = (0..t).collect();
        for m in BASIC {
            pattern(&run, &st, &s, &vec![m; t], &own, ks[ks.len().min(2) - 1], &[generic(t), vec![Fe::zero(); t]])?;
        }
        Ok(())
    });
    run.end(&format!("{} round numbers", rs.len()));
    run.check(r);
    run.extra("exponents", exps.len().to_string());
    let u = st.undecided.load(Relaxed);
    run.extra("parameter_sets", sets.len().to_string());
    run.extra("circuits_determined_by_structure", st.structural.load(Relaxed).to_string());
    run.extra("searches", st.searched.load(Relaxed).to_string());
    run.extra("searches_cut_by_budget", u.to_string());
    if u > 0 {
        run.exhaustive.store(false, Relaxed);
    }
    run.assume("parameter sets outside the enumerated shapes, exponents and matrix kinds behave like those inside");
    run.small();
    run.pass()
}
fn gcd_ok(p: &Params<Fe>) -> bool {
    Inv::new(p).is_some()
}
