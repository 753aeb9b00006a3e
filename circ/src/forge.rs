//! Exhaustive search for assignments of a constraint system with given inputs.
use crate::Synth;
use mc_core::fe;
use refmodel::{Fe, Field};

pub type Lc = Vec<(Fe, usize)>;
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct System {
    pub n_inst: usize,
    pub n: usize,
    pub rows: Vec<[Lc; 3]>,
}
impl System {
    pub fn from(s: &Synth) -> System {
        s.cs.finalize();
        let m = s.cs.to_matrices().expect("matrices");
        let conv = |r: &Vec<(decaf377::Fq, usize)>| -> Lc {
            let mut v: Lc = vec![];
            for (k, i) in r {
                match v.iter_mut().find(|(_, j)| j == i) {
                    Some(e) => e.0 = e.0.add(fe(*k)),
                    None => v.push((fe(*k), *i)),
                }
            }
            v.retain(|(k, _)| *k != Fe::zero());
            v.sort_by_key(|(_, i)| *i);
            v
        };
        System {
            n_inst: m.num_instance_variables,
            n: m.num_instance_variables + m.num_witness_variables,
            rows: (0..m.num_constraints).map(|i| [conv(&m.a[i]), conv(&m.b[i]), conv(&m.c[i])]).collect(),
        }
    }
    pub fn honest(s: &Synth) -> Vec<Fe> {
        let b = s.cs.borrow().unwrap();
        b.instance_assignment.iter().chain(b.witness_assignment.iter()).map(|x| fe(*x)).collect()
    }
    pub fn occurrences(&self) -> Vec<Vec<usize>> {
        let mut o = vec![vec![]; self.n];
        for (r, row) in self.rows.iter().enumerate() {
            for l in row {
                for (_, i) in l {
                    if o[*i].last() != Some(&r) {
                        o[*i].push(r);
                    }
                }
            }
        }
        o
    }
    pub fn eval(l: &Lc, w: &[Fe]) -> Fe {
        l.iter().fold(Fe::zero(), |s, (k, i)| s.add(k.mul(w[*i])))
    }
    pub fn satisfied(&self, w: &[Fe]) -> bool {
        self.rows.iter().all(|[a, b, c]| Self::eval(a, w).mul(Self::eval(b, w)) == Self::eval(c, w))
    }
    /// Order in which every wire becomes determined by the `known` ones whatever the values are: each
    /// step uses a constraint whose only undetermined wire occurs in C alone, with a constant
    /// coefficient. None when the structure alone does not determine everything that occurs.
    pub fn structural(&self, known: &[bool]) -> Option<Vec<usize>> {
        let occ = self.occurrences();
        let mut k = known.to_vec();
        let mut order = vec![];
        let mut work: Vec<usize> = (0..self.rows.len()).rev().collect();
        while let Some(r) = work.pop() {
            let [a, b, c] = &self.rows[r];
            let unk = |l: &Lc| l.iter().filter(|(_, i)| !k[*i]).map(|(_, i)| *i).collect::<Vec<_>>();
            let uc = unk(c);
            if unk(a).is_empty() && unk(b).is_empty() && uc.len() == 1 {
                k[uc[0]] = true;
                order.push(uc[0]);
                work.extend(occ[uc[0]].iter());
            } else if unk(c).is_empty() {
                // a constant factor: linear in the other one
                let constant = |l: &Lc| l.iter().all(|(_, i)| *i == 0) && !l.is_empty();
                for (x, y) in [(a, b), (b, a)] {
                    let ux = unk(x);
                    if ux.len() == 1 && constant(y) {
                        k[ux[0]] = true;
                        order.push(ux[0]);
                        work.extend(occ[ux[0]].iter());
                        break;
                    }
                }
            }
        }
        (0..self.n).all(|i| k[i] || occ[i].is_empty()).then_some(order)
    }
}

pub struct Search<'a> {
    pub sys: &'a System,
    pub occ: &'a [Vec<usize>],
    pub honest: &'a [Fe],
    /// wires that carry the digests, with the true values
    pub outs: Vec<(usize, Fe)>,
    pub nodes: u64,
    pub leaves: u64,
    pub budget: u64,
    pub undecided: bool,
}
impl Search<'_> {
    /// A satisfying assignment with a wrong digest, if one is found. Every branch is enumerated: both
    /// roots where a wire is the root of a quadratic, an alphabet where it is free.
    pub fn run(&mut self, fixed: &[Option<Fe>]) -> Option<Vec<Fe>> {
        let w = fixed.to_vec();
        let work: Vec<usize> = (0..self.sys.rows.len()).rev().collect();
        self.go(w, work)
    }
    fn go(&mut self, mut w: Vec<Option<Fe>>, mut work: Vec<usize>) -> Option<Vec<Fe>> {
        self.nodes += 1;
        if self.nodes > self.budget {
            self.undecided = true;
            return None;
        }
        let mut quad: Vec<(usize, Fe, Fe, Fe)> = vec![];
        while let Some(r) = work.pop() {
            let [a, b, c] = &self.sys.rows[r];
            let mut u: Option<usize> = None;
            let mut many = false;
            for l in [a, b, c] {
                for (_, i) in l {
                    if w[*i].is_none() {
                        match u {
                            None => u = Some(*i),
                            Some(j) if j == *i => {}
                            _ => many = true,
                        }
                    }
                }
            }
            if many {
                continue;
            }
            let part = |l: &Lc| -> (Fe, Fe) {
                let mut s = (Fe::zero(), Fe::zero());
                for (k, i) in l {
                    match w[*i] {
                        Some(v) => s.0 = s.0.add(k.mul(v)),
                        None => s.1 = s.1.add(*k),
                    }
                }
                s
            };
            let ((a0, a1), (b0, b1), (c0, c1)) = (part(a), part(b), part(c));
            let k0 = a0.mul(b0).sub(c0);
            let Some(i) = u else {
                if k0 != Fe::zero() {
                    return None;
                }
                continue;
            };
            let k1 = a0.mul(b1).add(a1.mul(b0)).sub(c1);
            let k2 = a1.mul(b1);
            if k2 != Fe::zero() {
                quad.push((i, k2, k1, k0));
            } else if k1 != Fe::zero() {
                w[i] = Some(k0.neg().mul(k1.inv().unwrap()));
                work.extend(self.occ[i].iter());
                continue;
            } else if k0 != Fe::zero() {
                return None;
            }
        }
        // wires pinned by a quadratic: both roots
        if let Some((i, k2, k1, k0)) = quad.into_iter().find(|q| w[q.0].is_none()) {
            let two = Fe::from_u64(2);
            let disc = k1.mul(k1).sub(k2.mul(k0).mul(Fe::from_u64(4)));
            let s = disc.sqrt()?;
            let d = k2.mul(two).inv().unwrap();
            let mut roots = vec![s.sub(k1).mul(d), s.neg().sub(k1).mul(d)];
            roots.dedup();
            // the other than honest root first
            roots.sort_by_key(|x| *x == self.honest[i]);
            return self.branch(&w, i, &roots);
        }
        // a free wire that occurs somewhere, the one in the most nearly determined constraint
        let free = (0..self.sys.n).filter(|i| w[*i].is_none() && !self.occ[*i].is_empty()).min_by_key(|i| {
            self.occ[*i]
                .iter()
                .map(|r| {
                    let mut v: Vec<usize> = self.sys.rows[*r].iter().flatten().filter(|(_, j)| w[*j].is_none()).map(|(_, j)| *j).collect();
                    v.sort();
                    v.dedup();
                    v.len()
                })
                .min()
        });
        if let Some(i) = free {
            let h = self.honest[i];
            let one = Fe::one();
            let mut al = vec![];
            for x in [h.add(one), Fe::zero(), one, h.neg(), h] {
                if !al.contains(&x) {
                    al.push(x);
                }
            }
            return self.branch(&w, i, &al);
        }
        self.leaves += 1;
        if self.outs.iter().any(|(o, v)| w[*o] != Some(*v)) {
            let full: Vec<Fe> = w.into_iter().map(|x| x.unwrap_or(Fe::zero())).collect();
            if self.sys.satisfied(&full) {
                return Some(full);
            }
        }
        None
    }
    fn branch(&mut self, w: &[Option<Fe>], i: usize, al: &[Fe]) -> Option<Vec<Fe>> {
        for x in al {
            let mut w2 = w.to_vec();
            w2[i] = Some(*x);
            if let Some(f) = self.go(w2, self.occ[i].clone()) {
                return Some(f);
            }
        }
        None
    }
}
