//! C04: the in-circuit digest equals the native one, and the honest assignment satisfies the circuit,
//! over allocation patterns x values x optimization goals x sharing patterns.
use mc_circ::*;
use mc_core::*;
use refmodel::report::*;
use refmodel::space::{self, Space};
use refmodel::{Fe, Field};

fn check(run: &Run, s: &Scenario) -> Result<(), Bad> {
    check2(run, s, true)
}
/// `full`: also without the copy to a public output, and before the combinations are inlined.
fn check2(run: &Run, s: &Scenario, full: bool) -> Result<(), Bad> {
    let case = || s.show();
    for bind in [false, true] {
        if !full && !bind {
            continue;
        }
        let r = synth(s, bind).map_err(|e| bad(case(), e))?;
        for c in 0..s.calls.len() {
            let want = guard(|| s.native(c)).map_err(|e| bad(case(), format!("the native hash panicked: {e}")))?;
            if r.digests[c] != Some(want) {
                return Err(bad(case(), format!("call {c}: in-circuit digest {:?}, native {want:?}", r.digests[c])));
            }
        }
        // before and after the linear combinations are inlined
        for fin in [false, true] {
            if !full && !fin {
                continue;
            }
            if fin {
                r.cs.finalize();
            }
            if !r.cs.is_satisfied().unwrap_or(false) {
                return Err(bad(case(), format!("the honest assignment violates {:?}", r.cs.which_is_unsatisfied())));
            }
        }
        run.count(1, r.cs.num_constraints() as u64, 1);
        if r.cs.num_constraints() < 5 {
            break;
        }
    }
    Ok(())
}

fn main() {
    let run = Run::new("C04");
    check_conversion();
    let m = Model::new();
    let th = run.thorough();
    let c = space::core();
    for rate in 1..=7usize {
        let t = rate + 1;
        let mut sc: Vec<Scenario> = vec![];
        let g = generic(t);
        // allocation patterns
        for p in one_off(t) {
            for goal in 0..if th { 4 } else { 1 } {
                sc.push(Scenario::single(&p, &g, goal));
            }
            for v in [Fe::zero(), Fe::one(), Fe::one().neg()] {
                sc.push(Scenario::single(&p, &vec![v; t], 0));
            }
        }
        for md in ALL {
            for goal in 0..4 {
                sc.push(Scenario::single(&vec![md; t], &g, goal));
            }
        }
        let n = sc.len();
        run.begin();
        let r = run.par(n, |i| check(&run, &sc[i]));
        run.end(&format!("rate {rate}: allocation patterns"));
        run.sample(sc[n / 2].show());
        run.check(r);
        let bp = basic_product(t);
        let r = run.par(bp.len(), |i| check2(&run, &Scenario::single(&bp[i], &g, i % 4), th || t < 8));
        run.end(&format!("rate {rate}: all {} constant/input/witness patterns", bp.len()));
        run.check(r);
        // the same variable in several places
        let mut al = vec![];
        for p in space::partitions(t) {
            for md in if th || t < 6 { &ALL[..] } else if t < 8 { &BASIC[1..] } else { &BASIC[2..] } {
                let k = p.iter().max().unwrap() + 1;
                al.push(Scenario { vals: (0..k).map(|i| (*md, g[i])).collect(), calls: vec![p.clone()], goal: 0, setup: false });
            }
        }
        let r = run.par(al.len(), |i| check2(&run, &al[i], th || t < 7));
        run.end(&format!("rate {rate}: all sharing patterns"));
        run.check(r);
        // values
        let rot: Vec<Mode> = (0..t).map(|i| [Witness, Input, Const][i % 3]).collect();
        use Mode::*;
        let mut sps = vec![
            Space::List(space::backgrounds(t)),
            Space::Sweep { t, al: c.clone(), bg: space::backgrounds(t)[2..3].to_vec() },
            Space::Sweep { t, al: space::dictionary(&repo_dir()), bg: space::backgrounds(t)[..1].to_vec() },
            Space::Product { t, al: c[..if th { [0, 0, 32, 16, 8, 5, 4, 3, 3][t] } else { [0, 0, 12, 6, 4, 3, 2, 2, 2][t] }].to_vec() },
            Space::Patterns { pats: space::partitions(t), maps: vec![(0..t).map(|i| Fe::from_u64(i as u64)).collect()] },
            space::steer(m.params(rate), false, &[Fe::zero()], 1).unwrap(),
        ];
        if th {
            sps.extend(spaces_sized(&m, rate, true, &repo_dir(), 300, false));
        } else {
            sps.push(Space::Sweep { t, al: space::narrow(), bg: space::backgrounds(t)[..1].to_vec() });
        }
        for sp in &sps {
            let wide = sp.len() > 1000 && !th;
            let r = run.par(sp.len(), |i| {
                let v = sp.get(i);
                check2(&run, &Scenario::single(&vec![Witness; t], &v, 0), false)?;
                if !wide || i % 8 == 0 {
                    check2(&run, &Scenario::single(&rot, &v, 0), false)?;
                }
                if !wide || i % 4 == 0 {
                    check2(&run, &Scenario::single(&vec![Const; t], &v, 0), false)?;
                }
                Ok(())
            });
            run.end(&format!("rate {rate}: values, {}", sp.name()));
            run.check(r);
        }
    }
    let mu = multi(run.seed);
    let r = run.par(mu.len(), |i| check(&run, &mu[i]));
    run.end("several hashes in one circuit");
    run.check(r);
    run.assume("values outside the alphabets and allocation expressions outside the enumerated ones behave like those inside");
    run.small();
    run.pass()
}
