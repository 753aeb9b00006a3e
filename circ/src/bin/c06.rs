//! C06: for a fixed allocation pattern, every assignment and setup mode synthesize the same matrices.
use mc_circ::forge::System;
use mc_circ::*;
use mc_core::*;
use refmodel::report::*;
use refmodel::space::{self, Space};
use refmodel::{Fe, Field};

struct Shape {
    sys: System,
    counts: Vec<[usize; 3]>,
    before: [usize; 3],
}
fn shape(s: &Scenario) -> Result<Shape, Bad> {
    let r = synth(s, true).map_err(|e| bad(s.show(), e))?;
    Ok(Shape { sys: System::from(&r), counts: r.counts.clone(), before: r.before })
}
fn same(s: &Scenario, base: &Scenario, a: &Shape, b: &Shape) -> Result<(), Bad> {
    if a.counts != b.counts || a.before != b.before || a.sys != b.sys {
        let first = a.sys.rows.iter().zip(&b.sys.rows).position(|(x, y)| x != y);
        return Err(bad(
            format!("{} against {}", s.show(), base.show()),
            format!("counts (constraints, public, witness) {:?} and {:?}; rows {} and {}; first different row {first:?}", a.counts, b.counts, a.sys.rows.len(), b.sys.rows.len()),
        ));
    }
    Ok(())
}
/// A prover that does not construct matrices allocates the same variables with the same values.
fn bare(run: &Run, s: &Scenario) -> Result<(), Bad> {
    for bind in [false, true] {
        let with = synth(s, bind).map_err(|e| bad(s.show(), e))?;
        let n = Scenario { goal: s.goal + 4, ..s.clone() };
        let without = synth(&n, bind).map_err(|e| bad(n.show(), format!("without matrices: {e}")))?;
        run.count(1, 1, 2);
        let ok = with.digests == without.digests
            && with.counts == without.counts
            && with.before == without.before
            && with.outs == without.outs
            && counts(&with.cs) == counts(&without.cs)
            && assignment(&with.cs) == assignment(&without.cs);
        if !ok {
            return Err(bad(
                n.show(),
                format!("a prover without matrices gets counts {:?}, digests {:?}; with matrices {:?}, {:?} (or other variables)", without.counts, without.digests, with.counts, with.digests),
            ));
        }
    }
    Ok(())
}

fn main() {
    let run = Run::new("C06");
    check_conversion();
    let m = Model::new();
    let th = run.thorough();
    let c = space::core();
    use Mode::*;
    for rate in 1..=7usize {
        let t = rate + 1;
        let g = generic(t);
        // patterns: setup mode, and a handful of special assignments each (constants keep their value:
        // they are part of the circuit)
        let special: Vec<Vec<Fe>> = {
            let mut v = vec![vec![Fe::zero(); t], vec![Fe::one(); t], vec![Fe::one().neg(); t], (0..t as u64).map(Fe::from_u64).collect::<Vec<_>>()];
            v.push(vec![Fe::from_u64(5); t]); // makes the hidden witness of the shifted mode zero
            v
        };
        let mut pats = one_off(t);
        let n_one = pats.len();
        pats.extend(basic_product(t));
        run.begin();
        let r = run.par(pats.len(), |i| {
            let p = &pats[i];
            for goal in if i < n_one && (th || i < 8) { vec![0, 2, 3] } else { vec![[0, 2, 3][i % 3]] } {
                let base = Scenario::single(p, &g, goal);
                let b = shape(&base)?;
                let mut others: Vec<Scenario> = vec![Scenario { setup: true, ..base.clone() }];
                if i < n_one || th {
                    for v in &special {
                        // constants and degenerate combinations carry their value in the circuit itself
                        let w: Vec<Fe> = (0..t).map(|j| if matches!(p[j], Const | Degenerate) { g[j] } else { v[j] }).collect();
                        others.push(Scenario::single(p, &w, goal));
                    }
                }
                for s in &others {
                    let a = shape(s)?;
                    run.count(1, b.sys.rows.len() as u64, 1);
                    same(s, &base, &a, &b)?;
                }
            }
            Ok(())
        });
        run.end(&format!("rate {rate}: {} allocation patterns, setup mode and special values", pats.len()));
        run.sample(Scenario::single(&pats[n_one / 2], &g, 0).show());
        run.check(r);
        let r = run.par(pats.len(), |i| {
            if i >= n_one && t > 5 && i % 3 != 0 && !th {
                return Ok(());
            }
            bare(&run, &Scenario::single(&pats[i], &g, i % 4))?;
            if i < n_one {
                for v in [Fe::zero(), Fe::from_u64(5)] {
                    bare(&run, &Scenario::single(&pats[i], &vec![v; t], 0))?;
                }
            }
            Ok(())
        });
        run.end(&format!("rate {rate}: provers that do not construct matrices"));
        run.check(r);
        // sharing patterns in setup mode
        let sh: Vec<Scenario> = space::partitions(t)
            .into_iter()
            .flat_map(|p| BASIC.iter().map(move |md| (p.clone(), *md)))
            .filter(|(_, md)| *md != Const)
            .map(|(p, md)| {
                let k = p.iter().max().unwrap() + 1;
                Scenario { vals: (0..k).map(|i| (md, g[i])).collect(), calls: vec![p], goal: 0, setup: false }
            })
            .collect();
        let r = run.par(sh.len(), |i| {
            if !th && t == 8 && i % 4 != 0 {
                return Ok(());
            }
            let base = &sh[i];
            let b = shape(base)?;
            let mut w = base.clone();
            w.vals.iter_mut().for_each(|v| v.1 = Fe::from_u64(1));
            for s in [Scenario { setup: true, ..base.clone() }, w] {
                let a = shape(&s)?;
                run.count(1, b.sys.rows.len() as u64, 1);
                same(&s, base, &a, &b)?;
            }
            Ok(())
        });
        run.end(&format!("rate {rate}: sharing patterns"));
        run.check(r);
        // values, for the witness pattern and a mixed one
        let rot: Vec<Mode> = (0..t).map(|i| [Witness, Input][i % 2]).collect();
        let bases = [Scenario::single(&vec![Witness; t], &g, 0), Scenario::single(&rot, &g, 0), Scenario::single(&vec![Sum; t], &g, 0)];
        let shapes: Vec<Shape> = bases.iter().map(shape).collect::<Result<_, _>>().unwrap_or_else(|b| run.violation(&b));
        let mut sps = vec![
            Space::List(space::backgrounds(t)),
            Space::Sweep { t, al: c.clone(), bg: space::backgrounds(t)[2..3].to_vec() },
            Space::Sweep { t, al: space::dictionary(&repo_dir()), bg: space::backgrounds(t)[..1].to_vec() },
            Space::Sweep { t, al: if th { space::narrow() } else { space::core() }, bg: space::backgrounds(t)[..1].to_vec() },
            Space::Product { t, al: c[..if th { [0, 0, 32, 16, 8, 5, 4, 3, 3][t] } else { [0, 0, 12, 6, 4, 3, 2, 2, 2][t] }].to_vec() },
            Space::Patterns { pats: space::partitions(t), maps: vec![(0..t).map(|i| Fe::from_u64(i as u64)).collect()] },
            space::steer(m.params(rate), false, &[Fe::zero()], 1).unwrap(),
        ];
        if th {
            sps.extend(spaces_sized(&m, rate, false, &repo_dir(), 300, false));
        }
        for sp in &sps {
            let r = run.par(sp.len(), |i| {
                let v = sp.get(i);
                for (k, base) in bases.iter().enumerate() {
                    if !th && (k == 1 && i % 4 != 0 || k == 2 && i % 16 != 0 || t == 8 && i % 2 != 0 && sp.len() > 2000) {
                        continue;
                    }
                    let modes: Vec<Mode> = base.vals.iter().map(|x| x.0).collect();
                    let s = Scenario::single(&modes, &v, 0);
                    let a = shape(&s)?;
                    run.count(1, a.sys.rows.len() as u64, 1);
                    same(&s, base, &a, &shapes[k])?;
                }
                Ok(())
            });
            run.end(&format!("rate {rate}: values, {}", sp.name()));
            run.check(r);
        }
    }
    let mut mu = multi(run.seed);
    let other = multi(run.seed + 1);
    mu.retain(|s| s.vals[0].0 != Const);
    let other: Vec<Scenario> = other.into_iter().filter(|s| s.vals[0].0 != Const).collect();
    let r = run.par(mu.len(), |i| {
        let b = shape(&mu[i])?;
        for s in [Scenario { setup: true, ..mu[i].clone() }, other[i].clone()] {
            let a = shape(&s)?;
            run.count(1, b.sys.rows.len() as u64, 1);
            same(&s, &mu[i], &a, &b)?;
        }
        Ok(())
    });
    run.end("several hashes in one circuit");
    run.check(r);
    let r = run.par(mu.len(), |i| bare(&run, &mu[i]));
    run.end("several hashes in one circuit, provers that do not construct matrices");
    run.check(r);
    run.assume("values outside the alphabets behave like those inside");
    run.small();
    run.pass()
}
