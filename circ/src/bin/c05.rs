//! C05: the constraint system as an explicit model. (1) Structure: every wire is determined, step by
//! step, by a constraint in which it alone is undetermined and occurs linearly with a constant
//! coefficient; this covers every value of the inputs. (2) Search: with the inputs fixed, every
//! assignment of the remaining wires that the constraints leave open is enumerated (both roots of
//! quadratics, an alphabet for free wires) and a satisfying one with a wrong digest is a forgery.
use mc_circ::forge::*;
use mc_circ::*;
use mc_core::*;
use refmodel::report::*;
use refmodel::space::{self, Space};
use refmodel::{Fe, Field};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Default)]
struct Stats {
    structural: AtomicU64,
    searched: AtomicU64,
    undecided: AtomicU64,
}

/// Wires fixed from outside: what was allocated before the first call.
fn known(sys: &System, r: &Synth) -> Vec<bool> {
    (0..sys.n).map(|i| if i < sys.n_inst { i < r.before[1] } else { i - sys.n_inst < r.before[2] }).collect()
}
fn solve(run: &Run, st: &Stats, case: &dyn Fn() -> String, sys: &System, occ: &[Vec<usize>], honest: &[Fe], outs: Vec<(usize, Fe)>, fixed: &[Option<Fe>], budget: u64) -> Result<(), Bad> {
    let mut s = Search { sys, occ, honest, outs, nodes: 0, leaves: 0, budget, undecided: false };
    let f = s.run(fixed);
    run.count(s.nodes, sys.rows.len() as u64, 1);
    st.searched.fetch_add(1, Relaxed);
    if let Some(w) = f {
        let wrong: Vec<String> = s.outs.iter().filter(|(o, v)| w[*o] != *v).map(|(o, v)| format!("digest {:?} accepted, true digest {v:?}", w[*o])).collect();
        return Err(bad(case(), format!("{} (all {} constraints satisfied)\nassignment {}", wrong.join("; "), sys.rows.len(), show(&w))));
    }
    if s.undecided || s.leaves == 0 {
        st.undecided.fetch_add(1, Relaxed);
    }
    Ok(())
}
fn fix(k: &[bool], honest: &[Fe]) -> Vec<Option<Fe>> {
    k.iter().zip(honest).map(|(k, v)| k.then_some(*v)).collect()
}
/// Synthesize the scenario, decide its structure, and search from its own honest assignment.
fn check(run: &Run, st: &Stats, s: &Scenario) -> Result<(), Bad> {
    let case = || s.show();
    let r = synth(s, true).map_err(|e| bad(case(), e))?;
    let sys = System::from(&r);
    let honest = System::honest(&r);
    let occ = sys.occurrences();
    let k = known(&sys, &r);
    let truth: Vec<(usize, Fe)> = r.outs.iter().enumerate().map(|(c, o)| Ok((*o, guard(|| s.native(c)).map_err(|e| bad(case(), e))?))).collect::<Result<_, Bad>>()?;
    if sys.structural(&k).is_some() {
        st.structural.fetch_add(1, Relaxed);
    }
    solve(run, st, &case, &sys, &occ, &honest, truth, &fix(&k, &honest), 3000)
}

fn main() {
    let run = Run::new("C05");
    check_conversion();
    let m = Model::new();
    let th = run.thorough();
    let c = space::core();
    let st = Stats::default();
    use Mode::*;
    for rate in 1..=7usize {
        let t = rate + 1;
        let g = generic(t);
        let mut sc: Vec<Scenario> = vec![];
        for (i, p) in one_off(t).into_iter().enumerate() {
            for goal in if i < 8 || th { vec![0, 2, 3] } else { vec![0] } {
                sc.push(Scenario::single(&p, &g, goal));
            }
            sc.push(Scenario::single(&p, &vec![Fe::zero(); t], 0));
            sc.push(Scenario::single(&p, &vec![Fe::one(); t], 0));
        }
        let n_one = sc.len();
        for (i, p) in basic_product(t).into_iter().enumerate() {
            sc.push(Scenario::single(&p, &g, [0, 2, 3][i % 3]));
        }
        for p in space::partitions(t) {
            for md in BASIC {
                let k = p.iter().max().unwrap() + 1;
                sc.push(Scenario { vals: (0..k).map(|i| (md, g[i])).collect(), calls: vec![p.clone()], goal: 0, setup: false });
            }
        }
        run.begin();
        let r = run.par(sc.len(), |i| if !th && t == 8 && i >= n_one && i % 3 != 0 { Ok(()) } else { check(&run, &st, &sc[i]) });
        run.end(&format!("rate {rate}: {} allocation and sharing patterns", sc.len()));
        run.sample(sc[sc.len() / 2].show());
        run.check(r);
        // Values: the circuit is synthesized for them (so that hints the implementation computes are
        // the honest ones) and searched.
        let mut sps = vec![
            Space::List(space::backgrounds(t)),
            Space::Sweep { t, al: c.clone(), bg: space::backgrounds(t)[2..3].to_vec() },
            Space::Product { t, al: c[..if th { [0, 0, 32, 16, 8, 5, 4, 3, 3][t] } else { [0, 0, 12, 6, 4, 3, 2, 2, 2][t] }].to_vec() },
            Space::Patterns { pats: space::partitions(t), maps: vec![(0..t).map(|i| Fe::from_u64(i as u64)).collect()] },
            space::steer(m.params(rate), false, &[Fe::zero()], 1).unwrap(),
        ];
        if th {
            sps.push(Space::Sweep { t, al: space::dictionary(&repo_dir()), bg: space::backgrounds(t)[..1].to_vec() });
            sps.push(Space::Sweep { t, al: space::narrow(), bg: space::backgrounds(t)[..1].to_vec() });
            sps.push(space::steer(m.params(rate), false, &c[1..8], 2).unwrap());
            sps.push(space::steer_patterns(m.params(rate), false).unwrap());
        }
        for sp in &sps {
            let r = run.par(sp.len(), |i| {
                if !th && sp.len() > 1000 && i % 3 != 0 {
                    return Ok(());
                }
                check(&run, &st, &Scenario::single(&vec![Witness; t], &sp.get(i), 0))
            });
            run.end(&format!("rate {rate}: values, {}", sp.name()));
            run.check(r);
        }
        // One fixed circuit, many inputs: the model alone is moved to other inputs. Its only digest must
        // be the native hash of those inputs.
        let base = Scenario::single(&vec![Witness; t], &g, 0);
        let r = synth(&base, true).unwrap_or_else(|e| run.violation(&bad(base.show(), e)));
        let sys = System::from(&r);
        let occ = sys.occurrences();
        let k = known(&sys, &r);
        let honest = System::honest(&r);
        let out = r.outs[0];
        let n_inst = sys.n_inst;
        let decided = sys.structural(&k).is_some();
        drop(r);
        if decided {
            let mut sps = vec![
                Space::Sweep { t, al: c.clone(), bg: space::backgrounds(t)[..1].to_vec() },
                space::steer(m.params(rate), false, &c[..if th { 3 } else { 1 }], 1).unwrap(),
            ];
            if th {
                sps.push(Space::Sweep { t, al: space::narrow(), bg: space::backgrounds(t)[..1].to_vec() });
                sps.push(Space::Sweep { t, al: space::dictionary(&repo_dir()), bg: space::backgrounds(t)[..1].to_vec() });
            }
            for sp in &sps {
                let r = run.par(sp.len(), |i| {
                    let v = sp.get(i);
                    let mut f = fix(&k, &honest);
                    for (j, x) in v.iter().enumerate() {
                        f[n_inst + j] = Some(*x);
                    }
                    let case = || format!("{} with the inputs moved to {}", base.show(), show(&v));
                    let d = guard(|| mc_core::hash(rate, &v)).map_err(|e| bad(case(), e))?;
                    solve(&run, &st, &case, &sys, &occ, &honest, vec![(out, d)], &f, 100)
                });
                run.end(&format!("rate {rate}: fixed circuit, {}", sp.name()));
                run.check(r);
            }
        }
    }
    let mu = multi(run.seed);
    let r = run.par(mu.len(), |i| check(&run, &st, &mu[i]));
    run.end("several hashes in one circuit");
    run.check(r);
    let u = st.undecided.load(Relaxed);
    run.extra("circuits_determined_by_structure", st.structural.load(Relaxed).to_string());
    run.extra("searches", st.searched.load(Relaxed).to_string());
    run.extra("searches_cut_by_budget", u.to_string());
    if u > 0 {
        run.exhaustive.store(false, Relaxed);
        println!("[C05] {u} searches were cut by the node budget or had no satisfying leaf");
    }
    run.assume("free wires are tried over an alphabet of five values; inputs outside the alphabets are covered by the structural argument only");
    run.small();
    run.pass()
}
