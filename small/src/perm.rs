use mc_small::sets::*;
use mc_small::*;
use poseidon_parameters::v1::{MatrixOperations, PoseidonParameters};
use poseidon_permutation::Instance;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// What is compared on every state of a parameter set.
#[derive(Clone, Copy, PartialEq)]
pub enum Goal {
    /// both forms of the implementation with each other
    Forms,
    /// both with the reference machines
    Reference,
    /// the image of either form is the whole space
    Bijection,
}
pub type Image = [Vec<AtomicU64>; 2];

#[allow(clippy::too_many_arguments)]
fn explore<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(
    run: &Run,
    g: Goal,
    p: &Params<Dy>,
    consistent: bool,
    desc: &str,
    lo: u64,
    hi: u64,
    img: Option<&Image>,
) -> Result<(), Bad> {
    let pp: PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> = guard(|| build(p)).map_err(|e| bad(desc, format!("parameter construction panicked: {e}")))?;
    let (ts, os) = (poseidon::textbook_steps(p.r_f, p.r_p), poseidon::optimized_steps(p.r_f, p.r_p));
    let at = AtomicU64::new(lo);
    let r = guard(|| -> Result<(), Bad> {
        for i in lo..hi {
            at.store(i, Relaxed);
            let v = state(i, T);
            let q: [Fq; T] = core::array::from_fn(|k| fq(v[k]));
            let words = |i: &Instance<T, T1, NM, NM1, ROWS, T, NE, RP>| -> Vec<Dy> { i.output_words().iter().map(|x| dy(*x)).collect() };
            let mut inst = Instance::new(&pp);
            let od = dy(inst.n_to_1_fixed_hash(&q));
            let ow = words(&inst);
            let mut inst = Instance::new(&pp);
            let ud = dy(inst.unoptimized_n_to_1_fixed_hash(q));
            let uw = words(&inst);
            let case = || format!("{desc} state {v:?}");
            match g {
                Goal::Forms => {
                    if od != ud || ow != uw {
                        return Err(bad(case(), format!("optimized digest {od:?} words {ow:?}, textbook digest {ud:?} words {uw:?}")));
                    }
                }
                Goal::Reference => {
                    let wu = poseidon::run(p, &ts, &v);
                    if uw != wu || ud != wu[1] {
                        return Err(bad(case(), format!("textbook: digest {ud:?} words {uw:?}, the parameters describe {wu:?}")));
                    }
                    let wo = poseidon::run(p, &os, &v);
                    assert!(!consistent || wo == wu, "reference machines disagree");
                    if ow != wo || od != wo[1] {
                        return Err(bad(case(), format!("optimized: digest {od:?} words {ow:?}, the parameters describe {wo:?}")));
                    }
                }
                Goal::Bijection => {
                    let img = img.unwrap();
                    for (k, w) in [&ow, &uw].into_iter().enumerate() {
                        let c = code(w);
                        // (stored value: input + 1)
                        let o = img[k][c as usize].swap(i + 1, Relaxed);
                        if o != 0 {
                            return Err(bad(case(), format!("{} output {w:?} is also that of {:?}", ["optimized", "textbook"][k], state(o - 1, T))));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    run.count(hi - lo, (hi - lo) * (ts.len() + os.len()) as u64, 2 * (hi - lo));
    match r {
        Ok(r) => r,
        Err(e) => Err(bad(format!("{desc} state {:?}", state(at.load(Relaxed), T)), format!("panicked: {e}"))),
    }
}
#[allow(clippy::too_many_arguments)]
fn dispatch(run: &Run, g: Goal, p: &Params<Dy>, c: bool, desc: &str, lo: u64, hi: u64, img: Option<&Image>) -> Result<(), Bad> {
    for_shapes!(p.t, p.r_f, p.r_p, explore(run, g, p, c, desc, lo, hi, img))
}
fn image(n: u64) -> Image {
    let f = || (0..n).map(|_| AtomicU64::new(0)).collect();
    [f(), f()]
}
fn bijective(p: &Params<Dy>) -> bool {
    let q = Dy::order();
    let s = match p.sbox {
        Sbox::Pow(e) => gcd(e, q - 1) == 1,
        Sbox::Inv => true,
    };
    s && linalg::det(&p.mds) != Dy::zero()
}
/// Does this set matter for the goal?
fn wanted(g: Goal, p: &Params<Dy>, consistent: bool) -> bool {
    match g {
        Goal::Forms => consistent,
        Goal::Reference => true,
        Goal::Bijection => consistent && bijective(p),
    }
}
const BLOCK: u64 = 4096;
fn explore_all(run: &Run, g: Goal, ds: &[Desc]) -> Result<usize, Bad> {
    let n = AtomicU64::new(0);
    if ds.is_empty() {
        return Ok(0);
    }
    let size = Dy::order().pow(ds[0].t as u32);
    if size <= 8 * BLOCK {
        run.par(ds.len(), |i| {
            let (p, c) = ds[i].make();
            if !wanted(g, &p, c) {
                return Ok(());
            }
            n.fetch_add(1, Relaxed);
            let img = (g == Goal::Bijection).then(|| image(size));
            dispatch(run, g, &p, c, &ds[i].show(), 0, size, img.as_ref())
        })?;
    } else {
        for d in ds {
            let (p, c) = d.make();
            if !wanted(g, &p, c) {
                continue;
            }
            n.fetch_add(1, Relaxed);
            let img = (g == Goal::Bijection).then(|| image(size));
            let s = d.show();
            run.par(size.div_ceil(BLOCK) as usize, |k| {
                let lo = k as u64 * BLOCK;
                dispatch(run, g, &p, c, &s, lo, (lo + BLOCK).min(size), img.as_ref())
            })?;
        }
    }
    Ok(n.load(Relaxed) as usize)
}

pub fn sets(run: &Run, prop: &str) {
    let g = match prop {
        "C02" => Goal::Forms,
        "C03" => Goal::Reference,
        _ => Goal::Bijection,
    };
    let th = run.thorough();
    // every parameter set of the smallest fields
    for (q, t, rf, rp, sbs) in [
        (2u64, 2usize, 2usize, 1usize, vec![Sbox::Pow(1), Sbox::Pow(2), Sbox::Pow(3), Sbox::Inv]),
        (2, 2, 2, 2, vec![Sbox::Pow(3), Sbox::Inv]),
        (2, 2, 0, 2, vec![Sbox::Pow(3), Sbox::Inv]),
        (3, 2, 2, 1, vec![Sbox::Pow(2), Sbox::Pow(3), Sbox::Inv]),
        (3, 2, 0, 2, vec![Sbox::Pow(2), Sbox::Pow(17), Sbox::Inv]),
        (2, 3, 2, 1, vec![Sbox::Pow(3), Sbox::Inv]),
        (3, 2, 2, 2, vec![Sbox::Pow(17)]),
        (5, 2, 0, 2, vec![Sbox::Pow(3), Sbox::Inv]),
        (2, 3, 2, 2, vec![Sbox::Pow(5)]),
    ] {
        let big = q.pow((t * t + (rf + rp) * t) as u32) > 300_000;
        if big && (!th || run.prop == "C17") {
            continue;
        }
        set_order(q);
        run.begin();
        let nm = q.pow((t * t) as u32);
        let na = q.pow(((rf + rp) * t) as u32);
        let cut = |mut i: u64, r: usize, c: usize| -> Mat<Dy> {
            (0..r)
                .map(|_| {
                    (0..c)
                        .map(|_| {
                            let d = i % q;
                            i /= q;
                            Dy(d)
                        })
                        .collect()
                })
                .collect()
        };
        let size = q.pow(t as u32);
        let done = AtomicU64::new(0);
        let r = run.par((nm * na) as usize, |k| {
            let k = k as u64;
            for sb in &sbs {
                let d = Desc { t, rf, rp, sb: *sb, mds: (String::new(), cut(k / na, t, t)), arc: (String::new(), cut(k % na, rf + rp, t)), poison: false };
                let (p, c) = d.make();
                if !wanted(g, &p, c) {
                    continue;
                }
                done.fetch_add(1, Relaxed);
                let img = (g == Goal::Bijection).then(|| image(size));
                dispatch(run, g, &p, c, &d.show(), 0, size, img.as_ref())?;
            }
            Ok(())
        });
        run.end(&format!("F_{q}: all {} parameter sets t={t} r_F={rf} r_P={rp}, all states", done.load(Relaxed)));
        run.check(r);
    }
    // families
    let exps: Vec<Sbox> = [1u64, 2, 3, 4, 5, 6, 7, 8, 11, 16, 17, 19, 257].iter().map(|e| Sbox::Pow(*e)).chain([Sbox::Inv]).collect();
    for (t, rf, rp) in shapes() {
        let brief = run.prop == "C17";
        let cap = if brief && !th { 20_000 } else if th { 600_000 } else { 100_000 };
        let mut total = 0;
        let mut space = 0;
        run.begin();
        let ps = primes(t, cap);
        for q in &ps {
            set_order(*q);
            let size = q.pow(t as u32);
            space += size;
            // effort per field: about the same number of executions
            let budget = if brief && !th { 20_000 } else if th { 3_000_000u64 } else { 100_000 } / if rp > 10 { 4 } else { 1 };
            let room = (budget / size).max(1) as usize;
            let mut ds = vec![];
            for poison in [false, true] {
                if poison && g != Goal::Reference {
                    continue;
                }
                for (an, a) in constants(rf + rp, t) {
                    for (mn, m) in matrices(t) {
                        for sb in &exps {
                            ds.push(Desc { t, rf, rp, sb: *sb, mds: (mn.into(), m.clone()), arc: (an.into(), a.clone()), poison });
                        }
                    }
                }
            }
            ds.retain(|d| {
                let (p, c) = d.make();
                wanted(g, &p, c)
            });
            // spread over the list when there is no room for all of them
            let n = ds.len();
            let ds: Vec<Desc> = if n <= room { ds } else { (0..room).map(|i| ds[i * n / room].clone()).collect() };
            match explore_all(run, g, &ds) {
                Ok(n) => total += n,
                Err(b) => run.violation(&b),
            }
            if let (Some(d), true) = (ds.last(), total % 7 == 0) {
                run.sample(d.show());
            }
        }
        run.end(&format!("t={t} r_F={rf} r_P={rp}: {total} parameter sets over {} fields, all states", ps.len()));
        let _ = space;
    }
}

macro_rules! read {
    ($p:expr, $t:expr) => {{
        let p = $p;
        let o = &p.optimized_mds;
        let rows = |v: &[Fq], c: usize| -> Mat<Dy> { v.chunks(c).map(|r| r.iter().map(|x| dy(*x)).collect()).collect() };
        let vec = |v: &[Fq]| -> Vec<Dy> { v.iter().map(|x| dy(*x)).collect() };
        Params {
            t: $t,
            m: 128,
            r_f: 8,
            r_p: 31,
            sbox: Sbox::Pow(17),
            mds: rows(&p.mds.elements(), $t),
            arc: rows(&p.arc.elements(), $t),
            opt: Opt {
                m_hat: rows(&o.M_hat.elements(), $t - 1),
                v: vec(&o.v.elements()),
                w: vec(&o.w.elements()),
                m_prime: rows(&o.M_prime.elements(), $t),
                m_doubleprime: rows(&o.M_doubleprime.elements(), $t),
                m_inverse: rows(&o.M_inverse.elements(), $t),
                m_hat_inverse: rows(&o.M_hat_inverse.elements(), $t - 1),
                m_00: dy(o.M_00),
                m_i: rows(&o.M_i.elements(), $t),
                v_coll: o.v_collection.iter().map(|x| vec(&x.elements())).collect(),
                w_hat_coll: o.w_hat_collection.iter().map(|x| vec(&x.elements())).collect(),
                arc: rows(&p.optimized_arc.elements(), $t),
            },
        }
    }};
}
/// The constants of the shipped sets, taken modulo the small prime: an arbitrary parameter set.
pub fn shipped(rate: usize) -> Params<Dy> {
    use poseidon377::*;
    match rate {
        1 => read!(&RATE_1_PARAMS, 2),
        2 => read!(&RATE_2_PARAMS, 3),
        3 => read!(&RATE_3_PARAMS, 4),
        4 => read!(&RATE_4_PARAMS, 5),
        5 => read!(&RATE_5_PARAMS, 6),
        6 => read!(&RATE_6_PARAMS, 7),
        7 => read!(&RATE_7_PARAMS, 8),
        _ => unreachable!(),
    }
}
pub fn hash(rate: usize, v: &[Dy]) -> Dy {
    let q: Vec<Fq> = v.iter().map(|x| fq(*x)).collect();
    use poseidon377::*;
    dy(match rate {
        1 => hash_1(&q[0], q[1]),
        2 => hash_2(&q[0], (q[1], q[2])),
        3 => hash_3(&q[0], (q[1], q[2], q[3])),
        4 => hash_4(&q[0], (q[1], q[2], q[3], q[4])),
        5 => hash_5(&q[0], (q[1], q[2], q[3], q[4], q[5])),
        6 => hash_6(&q[0], (q[1], q[2], q[3], q[4], q[5], q[6])),
        7 => hash_7(&q[0], (q[1], q[2], q[3], q[4], q[5], q[6], q[7])),
        _ => unreachable!(),
    })
}
/// hash_1..hash_7 on every input. Modulo a small prime the shipped constants are some parameter set, for
/// which the two forms differ; the digest has to be that of either.
pub fn hashes(run: &Run) {
    let (ts, os) = (poseidon::textbook_steps(8, 31), poseidon::optimized_steps(8, 31));
    for rate in 1..=7usize {
        let t = rate + 1;
        let ps = primes(t, match (run.thorough(), run.prop == "C17") {
            (false, true) => 40_000,
            (false, false) | (true, true) => 400_000,
            (true, false) => 6_000_000,
        });
        run.begin();
        for q in &ps {
            set_order(*q);
            let p = shipped(rate);
            let size = q.pow(t as u32);
            run.begin();
            let r = run.par(size as usize, |i| {
                let v = state(i as u64, t);
                let case = || format!("F_{q} hash_{rate} {v:?}");
                let got = guard(|| hash(rate, &v)).map_err(|e| bad(case(), format!("panicked: {e}")))?;
                let o = poseidon::run(&p, &os, &v)[1];
                run.count(1, os.len() as u64, 1);
                if got != o {
                    let u = poseidon::run(&p, &ts, &v)[1];
                    if got != u {
                        return Err(bad(case(), format!("digest {got:?}; the optimized permutation with the same constants gives {o:?}, the textbook one {u:?}")));
                    }
                }
                Ok(())
            });
            run.check(r);
        }
        run.end(&format!("rate {rate}: every input over {} fields", ps.len()));
    }
}
