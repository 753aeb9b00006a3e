//! Circuits synthesized by the implementation and the constraint system as an explicit model: wires are
//! state variables, constraints are the transition relation, and the search below enumerates every
//! assignment reachable from fixed inputs.
pub mod forge;

use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError, SynthesisMode};
use decaf377::{r1cs::FqVar, Fq};
use mc_core::{fe, fq};
use refmodel::report::guard;
use refmodel::{Fe, Field};

/// How one argument is supplied to the circuit.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Const,
    Input,
    Witness,
    /// witness + constant
    Shifted,
    /// constant * input
    Scaled,
    /// witness + input
    Sum,
    /// witness * witness (the product wire)
    Product,
    /// sum of a wire and its own negation plus a constant: a linear combination that is constant
    Degenerate,
}
use Mode::*;
pub const BASIC: [Mode; 3] = [Const, Input, Witness];
pub const ALL: [Mode; 8] = [Const, Input, Witness, Shifted, Scaled, Sum, Product, Degenerate];

pub type Cs = ConstraintSystemRef<Fq>;

fn one_of(cs: &Cs, mode: AllocationMode, v: Option<Fe>) -> Result<FqVar, SynthesisError> {
    FqVar::new_variable(cs.clone(), || v.map(fq).ok_or(SynthesisError::AssignmentMissing), mode)
}
pub fn alloc(cs: &Cs, m: Mode, v: Fe, setup: bool) -> Result<FqVar, SynthesisError> {
    let some = |x: Fe| if setup { None } else { Some(x) };
    let five = Fe::from_u64(5);
    Ok(match m {
        Const => FqVar::new_constant(cs.clone(), fq(v))?,
        Input => one_of(cs, AllocationMode::Input, some(v))?,
        Witness => one_of(cs, AllocationMode::Witness, some(v))?,
        Shifted => one_of(cs, AllocationMode::Witness, some(v.sub(five)))? + fq(five),
        Scaled => one_of(cs, AllocationMode::Input, some(v.mul(five.inv().unwrap())))? * fq(five),
        Sum => {
            let a = one_of(cs, AllocationMode::Witness, some(v.sub(Fe::from_u64(11))))?;
            let b = one_of(cs, AllocationMode::Input, some(Fe::from_u64(11)))?;
            a + b
        }
        Product => {
            let a = one_of(cs, AllocationMode::Witness, some(five))?;
            let b = one_of(cs, AllocationMode::Witness, some(v.mul(five.inv().unwrap())))?;
            a * b
        }
        Degenerate => {
            // the constant is part of the circuit, so this mode fixes the value in the circuit
            let a = one_of(cs, AllocationMode::Witness, some(five))?;
            a.clone() - a + fq(v)
        }
    })
}
pub fn hash_var(cs: Cs, rate: usize, v: &[FqVar]) -> Result<FqVar, SynthesisError> {
    let d = &v[0];
    let x = |i: usize| v[i].clone();
    use poseidon377::r1cs::*;
    match rate {
        1 => hash_1(cs, d, x(1)),
        2 => hash_2(cs, d, (x(1), x(2))),
        3 => hash_3(cs, d, (x(1), x(2), x(3))),
        4 => hash_4(cs, d, (x(1), x(2), x(3), x(4))),
        5 => hash_5(cs, d, (x(1), x(2), x(3), x(4), x(5))),
        6 => hash_6(cs, d, (x(1), x(2), x(3), x(4), x(5), x(6))),
        7 => hash_7(cs, d, (x(1), x(2), x(3), x(4), x(5), x(6), x(7))),
        _ => unreachable!(),
    }
}

/// One call in a circuit: arguments refer to allocated values by index, so that the same variable can
/// appear more than once and several calls can share variables.
#[derive(Clone, Debug)]
pub struct Scenario {
    pub vals: Vec<(Mode, Fe)>,
    pub calls: Vec<Vec<usize>>,
    pub goal: usize,
    pub setup: bool,
}
impl Scenario {
    pub fn single(modes: &[Mode], vals: &[Fe], goal: usize) -> Scenario {
        Scenario {
            vals: modes.iter().copied().zip(vals.iter().copied()).collect(),
            calls: vec![(0..vals.len()).collect()],
            goal,
            setup: false,
        }
    }
    pub fn args(&self, c: usize) -> Vec<Fe> {
        self.calls[c]
            .iter()
            .map(|i| match i.checked_sub(self.vals.len()) {
                None => self.vals[*i].1,
                // the digest of an earlier call
                Some(k) => self.native(k),
            })
            .collect()
    }
    pub fn native(&self, c: usize) -> Fe {
        let a = self.args(c);
        mc_core::hash(a.len() - 1, &a)
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self.vals.iter().map(|(m, x)| format!("{m:?}({})", x.hex())).collect();
        format!("goal {} {}variables [{}] calls {:?}", self.goal, if self.setup { "setup mode " } else { "" }, v.join(" "), self.calls)
    }
}
/// Goals in the order they are offered; 0 leaves the default of the constraint system. From 4 on the
/// same again, for a prover that does not construct matrices.
pub fn goal(g: usize) -> Option<OptimizationGoal> {
    [None, Some(OptimizationGoal::None), Some(OptimizationGoal::Constraints), Some(OptimizationGoal::Weight)][g % 4]
}
/// Values of the public and of the witness variables.
pub fn assignment(cs: &Cs) -> (Vec<Fe>, Vec<Fe>) {
    let b = cs.borrow().unwrap();
    (b.instance_assignment.iter().map(|x| fe(*x)).collect(), b.witness_assignment.iter().map(|x| fe(*x)).collect())
}
pub struct Synth {
    pub cs: Cs,
    /// values of the digest variables
    pub digests: Vec<Option<Fe>>,
    /// counts after the inputs were allocated: constraints, instance, witness
    pub before: [usize; 3],
    /// instance variable that carries a copy of each digest (bound by an extra constraint)
    pub outs: Vec<usize>,
    /// counts right after each call, before the copies were bound
    pub counts: Vec<[usize; 3]>,
}
pub fn counts(cs: &Cs) -> [usize; 3] {
    [cs.num_constraints(), cs.num_instance_variables(), cs.num_witness_variables()]
}
/// Synthesize; `bind` also copies each digest to a public output, as an application would.
pub fn synth(s: &Scenario, bind: bool) -> Result<Synth, String> {
    guard(|| -> Result<Synth, SynthesisError> {
        let cs = ConstraintSystem::<Fq>::new_ref();
        if let Some(g) = goal(s.goal) {
            cs.set_optimization_goal(g);
        }
        cs.set_mode(if s.setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: s.goal < 4 } });
        let vars: Vec<FqVar> = s.vals.iter().map(|(m, v)| alloc(&cs, *m, *v, s.setup)).collect::<Result<_, _>>()?;
        let before = counts(&cs);
        let mut digests = vec![];
        let mut cnt = vec![];
        let mut ds: Vec<FqVar> = vec![];
        for c in &s.calls {
            let args: Vec<FqVar> = c.iter().map(|i| vars.get(*i).unwrap_or_else(|| &ds[*i - vars.len()]).clone()).collect();
            let d = hash_var(cs.clone(), c.len() - 1, &args)?;
            digests.push(d.value().ok().map(fe));
            cnt.push(counts(&cs));
            ds.push(d);
        }
        let mut outs = vec![];
        if bind {
            for d in &ds {
                outs.push(cs.num_instance_variables());
                let o = FqVar::new_input(cs.clone(), || d.value())?;
                o.enforce_equal(d)?;
            }
        }
        Ok(Synth { cs, digests, before, outs, counts: cnt })
    })?
    .map_err(|e| format!("synthesis error: {e}"))
}
pub fn words(k: usize, t: usize) -> usize {
    k.pow(t as u32)
}

/// Allocation patterns for t arguments: uniform ones, and a uniform background with one exception.
pub fn one_off(t: usize) -> Vec<Vec<Mode>> {
    let mut v: Vec<Vec<Mode>> = ALL.iter().map(|m| vec![*m; t]).collect();
    for bg in BASIC {
        for i in 0..t {
            for m in ALL {
                if m != bg {
                    let mut p = vec![bg; t];
                    p[i] = m;
                    v.push(p);
                }
            }
        }
    }
    v
}
pub fn basic_product(t: usize) -> Vec<Vec<Mode>> {
    (0..words(3, t)).map(|i| refmodel::space::word(i, 3, t).into_iter().map(|d| BASIC[d]).collect()).collect()
}
/// Values that look general, pairwise different.
pub fn generic(t: usize) -> Vec<Fe> {
    (0..t as u64).map(|i| Fe::from_u64(i * 1009 + 101).pow(9).add(refmodel::space::p2(190 + i as usize * 7))).collect()
}
/// Several hashes in one circuit: shared variables, chained digests, repeated calls.
pub fn multi(seed: u64) -> Vec<Scenario> {
    let g = |i: u64| Fe::from_u64(seed * 77 + i * 13 + 5).pow(11);
    let mut out = vec![];
    for m in [Witness, Input, Const, Shifted] {
        for (n, calls) in [
            (2, vec![vec![0, 1], vec![0, 1]]),
            (2, vec![vec![0, 1], vec![1, 0]]),
            (3, vec![vec![0, 1], vec![0, 2]]),
            (3, vec![vec![0, 1, 2], vec![0, 2, 1], vec![0, 1]]),
            (2, vec![vec![0, 1], vec![0, 2], vec![0, 3]]),
            (3, vec![vec![0, 1, 2], vec![0, 3, 2], vec![3, 4, 3]]),
            (3, vec![vec![0, 1], vec![0, 1, 2], vec![0, 1, 2, 2], vec![0, 1, 2, 2, 1]]),
            (8, vec![(0..8).collect(), (0..7).collect(), (1..8).collect(), (0..8).rev().collect()]),
            (8, (1..8).map(|r| (0..=r).collect()).collect()),
        ] {
            out.push(Scenario { vals: (0..n).map(|i| (m, g(i))).collect(), calls, goal: 0, setup: false });
        }
    }
    out
}
