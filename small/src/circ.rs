//! Circuits over a small field: every input, every allocation pattern, every assignment of every wire.
use crate::perm::shipped;
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, SynthesisError, SynthesisMode};
use decaf377::r1cs::FqVar;
use mc_small::sets::*;
use mc_small::*;
use poseidon_parameters::v1::PoseidonParameters;
use poseidon_permutation::{r1cs::InstanceVar, Instance};
use std::collections::HashMap;

type Cs = ConstraintSystemRef<Fq>;
type Synthesis = Box<dyn Fn(Cs, &[FqVar]) -> Result<Vec<FqVar>, SynthesisError> + Sync>;
type Native = Box<dyn Fn(&[Dy]) -> Vec<Vec<Dy>> + Sync>;
struct Target {
    name: String,
    t: usize,
    circuit: Synthesis,
    /// results that count as the true ones
    native: Native,
}
fn target<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(name: String, p: &Params<Dy>) -> Target {
    let pp: PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> = build(p);
    let p2 = pp.clone();
    Target {
        name,
        t: T,
        circuit: Box::new(move |cs, v| Ok(vec![InstanceVar::n_to_1_fixed_hash(pp.clone(), cs, core::array::from_fn(|i| v[i].clone()))])),
        native: Box::new(move |v| {
            let q: [Fq; T] = core::array::from_fn(|i| fq(v[i]));
            vec![vec![dy(Instance::new(&p2).n_to_1_fixed_hash(&q))]]
        }),
    }
}
/// All words after `k` permutations of one instance (k = 0: the digest), against the reference machine.
fn words<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(name: String, p: &Params<Dy>, k: usize) -> Target {
    let pp: PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> = build(p);
    let p = p.clone();
    let steps = poseidon::textbook_steps(p.r_f, p.r_p);
    Target {
        name: format!("{name} {}", if k == 0 { "n_to_1_fixed_hash".into() } else { format!("{k} x permute") }),
        t: T,
        circuit: Box::new(move |cs, v| {
            if k == 0 {
                return Ok(vec![InstanceVar::n_to_1_fixed_hash(pp.clone(), cs, core::array::from_fn(|i| v[i].clone()))]);
            }
            #[cfg(feature = "literal")]
            {
                let mut i = InstanceVar { parameters: pp.clone(), cs, state_words: v.to_vec() };
                for _ in 0..k {
                    i.permute();
                }
                Ok(i.state_words)
            }
            #[cfg(not(feature = "literal"))]
            unreachable!()
        }),
        native: Box::new(move |v| {
            let mut w = v.to_vec();
            for _ in 0..k.max(1) {
                w = poseidon::run(&p, &steps, &w);
            }
            vec![if k == 0 { vec![w[1]] } else { w }]
        }),
    }
}
/// The circuits of one parameter set.
fn permutation(d: &Desc, prop: &str, th: bool) -> Vec<Target> {
    let (p, c) = d.make();
    if prop == "C23" {
        let ks: &[usize] = if !cfg!(feature = "literal") { &[0] } else if th || d.t == 2 { &[0, 1, 2] } else if d.t == 3 { &[2] } else { &[1] };
        return ks
            .iter()
            .map(|k| {
                let go = || -> Target { for_shapes!(d.t, d.rf, d.rp, words(d.show(), &p, *k)) };
                go()
            })
            .collect();
    }
    if !c {
        return vec![];
    }
    let go = || -> Target { for_shapes!(d.t, d.rf, d.rp, target(d.show(), &p)) };
    vec![go()]
}
/// hash_1..hash_7 with the shipped constants modulo the small prime. The two forms of the permutation
/// differ for such constants; the digest of either counts.
fn library(rate: usize) -> Target {
    let p = shipped(rate);
    let (ts, os) = (poseidon::textbook_steps(8, 31), poseidon::optimized_steps(8, 31));
    Target {
        name: format!("F_{} hash_{rate}", Dy::order()),
        t: rate + 1,
        circuit: Box::new(move |cs, v| {
            let d = &v[0];
            let x = |i: usize| v[i].clone();
            use poseidon377::r1cs::*;
            Ok(vec![match rate {
                1 => hash_1(cs, d, x(1)),
                2 => hash_2(cs, d, (x(1), x(2))),
                3 => hash_3(cs, d, (x(1), x(2), x(3))),
                4 => hash_4(cs, d, (x(1), x(2), x(3), x(4))),
                5 => hash_5(cs, d, (x(1), x(2), x(3), x(4), x(5))),
                6 => hash_6(cs, d, (x(1), x(2), x(3), x(4), x(5), x(6))),
                7 => hash_7(cs, d, (x(1), x(2), x(3), x(4), x(5), x(6), x(7))),
                _ => unreachable!(),
            }?])
        }),
        native: Box::new(move |v| vec![vec![poseidon::run(&p, &ts, v)[1]], vec![poseidon::run(&p, &os, v)[1]]]),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Mode {
    Const,
    Input,
    Witness,
    /// witness + 1
    Shifted,
    /// (p - 1) * input
    Scaled,
    /// witness + input
    Sum,
    /// witness * witness
    Product,
}
use Mode::*;
const ALL: [Mode; 7] = [Const, Input, Witness, Shifted, Scaled, Sum, Product];
fn alloc(cs: &Cs, m: Mode, v: Dy, setup: bool) -> Result<FqVar, SynthesisError> {
    let one = Dy::one();
    let var = |x: Dy, mode| FqVar::new_variable(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(x)) }, mode);
    use AllocationMode as A;
    Ok(match m {
        Const => FqVar::new_constant(cs.clone(), fq(v))?,
        Input => var(v, A::Input)?,
        Witness => var(v, A::Witness)?,
        Shifted => var(v.sub(one), A::Witness)? + fq(one),
        Scaled => var(v.neg(), A::Input)? * fq(one.neg()),
        Sum => var(v.sub(one), A::Witness)? + var(one, A::Input)?,
        Product => var(one.neg(), A::Witness)? * var(v.neg(), A::Witness)?,
    })
}
/// One circuit: the variables, and which of them each argument is.
#[derive(Clone)]
struct Case<'a> {
    modes: &'a [Mode],
    part: &'a [usize],
    vals: Vec<Dy>,
    setup: bool,
}
impl Case<'_> {
    fn args(&self) -> Vec<Dy> {
        self.part.iter().map(|i| self.vals[*i]).collect()
    }
    fn show(&self, t: &Target) -> String {
        let v: Vec<String> = self.modes.iter().zip(&self.vals).map(|(m, v)| format!("{m:?}({})", v.0)).collect();
        format!("{} {}variables [{}] arguments {:?}", t.name, if self.setup { "setup mode " } else { "" }, v.join(" "), self.part)
    }
}
struct Synth {
    cs: Cs,
    results: Option<Vec<Dy>>,
    /// instance and witness variables before the call
    before: [usize; 2],
    counts: [usize; 3],
    outs: Vec<usize>,
}
fn synth(t: &Target, c: &Case) -> Result<Synth, Bad> {
    let go = || -> Result<Synth, SynthesisError> {
        let cs = ConstraintSystem::<Fq>::new_ref();
        cs.set_mode(if c.setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
        let vars: Vec<FqVar> = c.modes.iter().zip(&c.vals).map(|(m, v)| alloc(&cs, *m, *v, c.setup)).collect::<Result<_, _>>()?;
        let before = [cs.num_instance_variables(), cs.num_witness_variables()];
        let args: Vec<FqVar> = c.part.iter().map(|i| vars[*i].clone()).collect();
        let d = (t.circuit)(cs.clone(), &args)?;
        let counts = [cs.num_constraints(), cs.num_instance_variables(), cs.num_witness_variables()];
        let mut outs = vec![];
        for d in &d {
            outs.push(cs.num_instance_variables());
            FqVar::new_input(cs.clone(), || d.value())?.enforce_equal(d)?;
        }
        Ok(Synth { results: d.iter().map(|d| d.value().ok().map(dy)).collect(), cs, before, counts, outs })
    };
    match guard(go) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(bad(c.show(t), format!("synthesis error: {e}"))),
        Err(e) => Err(bad(c.show(t), format!("synthesis panicked: {e}"))),
    }
}
type Lc = Vec<(Dy, usize)>;
#[derive(PartialEq)]
struct System {
    n_inst: usize,
    n: usize,
    rows: Vec<[Lc; 3]>,
}
impl System {
    fn from(s: &Synth) -> System {
        s.cs.finalize();
        let m = s.cs.to_matrices().expect("matrices");
        let conv = |r: &Vec<(Fq, usize)>| -> Lc {
            let mut v: Lc = vec![];
            for (k, i) in r {
                match v.iter_mut().find(|(_, j)| j == i) {
                    Some(e) => e.0 = e.0.add(dy(*k)),
                    None => v.push((dy(*k), *i)),
                }
            }
            v.retain(|(k, _)| !k.is_zero());
            v.sort_by_key(|(_, i)| *i);
            v
        };
        System {
            n_inst: m.num_instance_variables,
            n: m.num_instance_variables + m.num_witness_variables,
            rows: (0..m.num_constraints).map(|i| [conv(&m.a[i]), conv(&m.b[i]), conv(&m.c[i])]).collect(),
        }
    }
}
fn honest(s: &Synth) -> Vec<Dy> {
    let b = s.cs.borrow().unwrap();
    b.instance_assignment.iter().chain(b.witness_assignment.iter()).map(|x| dy(*x)).collect()
}

/// Every satisfying assignment that extends a partial one.
struct Search<'a> {
    sys: &'a System,
    occ: &'a [Vec<usize>],
    outs: &'a [usize],
    truth: &'a [Vec<Dy>],
    nodes: u64,
    leaves: u64,
}
impl Search<'_> {
    /// A satisfying assignment with other values at the outputs.
    fn go(&mut self, mut w: Vec<Option<Dy>>, mut work: Vec<usize>) -> Option<Vec<Dy>> {
        self.nodes += 1;
        assert!(self.nodes < 5_000_000, "search space larger than planned");
        let p = Dy::order();
        let mut open: Option<(usize, Vec<Dy>)> = None;
        while let Some(r) = work.pop() {
            let row = &self.sys.rows[r];
            let mut u = None;
            let mut many = false;
            for (_, i) in row.iter().flatten() {
                if w[*i].is_none() {
                    match u {
                        None => u = Some(*i),
                        Some(j) if j == *i => (),
                        _ => many = true,
                    }
                }
            }
            if many {
                continue;
            }
            let holds = |x: Dy| -> bool {
                let e = |l: &Lc| l.iter().fold(Dy::zero(), |s, (k, i)| s.add(k.mul(w[*i].unwrap_or(x))));
                e(&row[0]).mul(e(&row[1])) == e(&row[2])
            };
            match u {
                None => {
                    if !holds(Dy::zero()) {
                        return None;
                    }
                }
                Some(i) => {
                    // every value the row admits
                    let vs: Vec<Dy> = (0..p).map(Dy).filter(|x| holds(*x)).collect();
                    match vs.len() {
                        0 => return None,
                        1 => {
                            w[i] = Some(vs[0]);
                            work.extend(self.occ[i].iter());
                        }
                        n if open.as_ref().is_none_or(|o| w[o.0].is_some() || o.1.len() > n) => open = Some((i, vs)),
                        _ => (),
                    }
                }
            }
        }
        if let Some((i, vs)) = open.filter(|o| w[o.0].is_none()) {
            return self.branch(&w, i, &vs);
        }
        if let Some(i) = (0..self.sys.n).find(|i| w[*i].is_none() && !self.occ[*i].is_empty()) {
            let all: Vec<Dy> = (0..p).map(Dy).collect();
            return self.branch(&w, i, &all);
        }
        self.leaves += 1;
        let got: Option<Vec<Dy>> = self.outs.iter().map(|o| w[*o]).collect();
        if got.is_none_or(|x| !self.truth.contains(&x)) {
            return Some(w.into_iter().map(|x| x.unwrap_or(Dy::zero())).collect());
        }
        None
    }
    fn branch(&mut self, w: &[Option<Dy>], i: usize, vs: &[Dy]) -> Option<Vec<Dy>> {
        for x in vs {
            let mut w2 = w.to_vec();
            w2[i] = Some(*x);
            if let Some(f) = self.go(w2, self.occ[i].clone()) {
                return Some(f);
            }
        }
        None
    }
}

fn c04(run: &Run, t: &Target, c: &Case) -> Result<(), Bad> {
    let s = synth(t, c)?;
    let truth = guard(|| (t.native)(&c.args())).map_err(|e| bad(c.show(t), format!("native hash panicked: {e}")))?;
    run.count(1, s.counts[0] as u64, 1);
    if s.results.as_ref().is_none_or(|d| !truth.contains(d)) {
        return Err(bad(c.show(t), format!("result {:?}, the true one is {truth:?}", s.results)));
    }
    if !s.cs.is_satisfied().unwrap_or(false) {
        return Err(bad(c.show(t), "the honest assignment does not satisfy the constraints"));
    }
    Ok(())
}
fn c05(run: &Run, t: &Target, c: &Case) -> Result<(), Bad> {
    let s = synth(t, c)?;
    let truth = guard(|| (t.native)(&c.args())).map_err(|e| bad(c.show(t), format!("native hash panicked: {e}")))?;
    let sys = System::from(&s);
    let h = honest(&s);
    let mut occ = vec![vec![]; sys.n];
    for (r, row) in sys.rows.iter().enumerate() {
        for (_, i) in row.iter().flatten() {
            if occ[*i].last() != Some(&r) {
                occ[*i].push(r);
            }
        }
    }
    let w: Vec<Option<Dy>> =
        (0..sys.n).map(|i| if i < sys.n_inst { (i < s.before[0]).then_some(h[i]) } else { (i - sys.n_inst < s.before[1]).then_some(h[i]) }).collect();
    let mut se = Search { sys: &sys, occ: &occ, outs: &s.outs, truth: &truth, nodes: 0, leaves: 0 };
    let f = se.go(w, (0..sys.rows.len()).rev().collect());
    run.count(se.nodes, sys.rows.len() as u64, 1);
    if let Some(f) = f {
        return Err(bad(c.show(t), format!("result {:?} is accepted, the true one is {truth:?}; assignment {f:?}", s.outs.iter().map(|o| f[*o]).collect::<Vec<_>>())));
    }
    Ok(())
}
/// All assignments of one pattern against each other and against setup mode.
fn c06(run: &Run, t: &Target, modes: &[Mode], part: &[usize]) -> Result<(), Bad> {
    let n = modes.len();
    let mut base: HashMap<Vec<Dy>, (System, [usize; 3], String)> = HashMap::new();
    for i in 0..Dy::order().pow(n as u32) {
        let c = Case { modes, part, vals: state(i, n), setup: false };
        let key: Vec<Dy> = c.vals.iter().zip(modes).filter(|(_, m)| **m == Const).map(|(v, _)| *v).collect();
        let mut cs = vec![c];
        if !base.contains_key(&key) {
            cs.insert(0, Case { setup: true, ..cs[0].clone() });
        }
        for c in cs {
            let s = synth(t, &c)?;
            let sys = System::from(&s);
            run.count(1, sys.rows.len() as u64, 1);
            match base.get(&key) {
                None => {
                    base.insert(key.clone(), (sys, s.counts, c.show(t)));
                }
                Some((b, k, name)) => {
                    if *b != sys || *k != s.counts {
                        return Err(bad(
                            format!("{} against {name}", c.show(t)),
                            format!("counts (constraints, public, witness) {:?} and {k:?}; first different row {:?}", s.counts, b.rows.iter().zip(&sys.rows).position(|(x, y)| x != y)),
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

/// (modes of the variables, variable of each argument)
fn patterns(t: usize, rich: bool) -> Vec<(Vec<Mode>, Vec<usize>)> {
    let own: Vec<usize> = (0..t).collect();
    let mut v: Vec<(Vec<Mode>, Vec<usize>)> = vec![];
    let k = if rich && t == 2 { 7 } else { 3 };
    if rich || t <= 3 {
        for i in 0..(k as u64).pow(t as u32) {
            let mut x = i as usize;
            let m = (0..t)
                .map(|_| {
                    let d = x % k;
                    x /= k;
                    ALL[d]
                })
                .collect();
            v.push((m, own.clone()));
        }
    }
    for m in ALL {
        v.push((vec![m; t], own.clone()));
        if rich {
            for i in 0..t {
                for bg in [Const, Input, Witness] {
                    let mut p = vec![bg; t];
                    p[i] = m;
                    v.push((p, own.clone()));
                }
            }
        }
    }
    v.push(((0..t).map(|i| ALL[i % 3]).collect(), own.clone()));
    for p in refmodel::space::partitions(t) {
        let n = p.iter().max().unwrap() + 1;
        // the rest of the larger partitions is left to the real field
        if n < t && (rich || t < 6 || n == 1 || n == t - 1) {
            for m in if rich { &ALL[..3] } else { &ALL[2..3] } {
                v.push((vec![*m; n], p.clone()));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

fn explore(run: &Run, prop: &str, ts: &[Target], rich: bool) -> u64 {
    let jobs: Vec<(&Target, Vec<Mode>, Vec<usize>)> = ts.iter().flat_map(|t| patterns(t.t, rich).into_iter().map(move |(m, p)| (t, m, p))).collect();
    let r = run.par(jobs.len(), |i| {
        let (t, modes, part) = &jobs[i];
        if prop == "C06" || prop == "C23" {
            c06(run, t, modes, part)?;
        }
        if prop == "C06" {
            return Ok(());
        }
        for i in 0..Dy::order().pow(modes.len() as u32) {
            let c = Case { modes, part, vals: state(i, modes.len()), setup: false };
            if prop != "C05" {
                c04(run, t, &c)?;
            }
            if prop != "C04" {
                guard(|| c05(run, t, &c)).unwrap_or_else(|e| Err(bad(c.show(t), format!("panicked: {e}"))))?
            }
        }
        Ok(())
    });
    run.check(r);
    jobs.len() as u64
}

pub fn all(run: &Run, prop: &str) {
    let th = run.thorough();
    for (t, cap) in [(2usize, 400u64), (3, 130), (4, 90), (5, 40)] {
        let cap = if th { cap * 8 } else { cap };
        let ps = primes(t, cap);
        run.begin();
        let mut n = 0;
        let mut sets = 0;
        for q in &ps {
            set_order(*q);
            let mut ts = vec![];
            for (rf, rp) in [(2usize, 1usize), (2, 2), (4, 3)] {
                if t > 3 && rp == 3 && !th {
                    continue;
                }
                let cs = constants(rf + rp, t);
                for (mi, m) in matrices(t).into_iter().enumerate() {
                    for (ai, a) in cs.iter().enumerate() {
                        for (ei, e) in [3u64, 17, 5, 2, 1].into_iter().enumerate() {
                            if !th && (mi + ai + ei > 1 || rp == 3 && ei > 0) {
                                continue;
                            }
                            let d = Desc { t, rf, rp, sb: Sbox::Pow(e), mds: (m_name(&m), m.1.clone()), arc: (a.0.into(), a.1.clone()), poison: false };
                            ts.extend(permutation(&d, prop, th));
                        }
                    }
                }
            }
            sets += ts.len();
            n += explore(run, prop, &ts, true);
            if let Some(t) = ts.last() {
                run.sample(t.name.clone());
            }
        }
        run.end(&format!("t={t}: {sets} parameter sets over {} fields, {n} circuits, all inputs", ps.len()));
    }
    if prop == "C23" {
        return;
    }
    for rate in 1..=7usize {
        let t = rate + 1;
        let ps = primes(t, if th { 3000 } else { [0, 0, 130, 130, 90, 40, 70, 130, 260][t] });
        run.begin();
        let mut n = 0;
        for q in &ps {
            set_order(*q);
            n += explore(run, prop, &[library(rate)], th || t <= 3);
        }
        run.end(&format!("rate {rate}: {n} circuits over {} fields, all inputs", ps.len()));
    }
}
fn m_name(m: &(&'static str, Mat<Dy>)) -> String {
    m.0.into()
}
