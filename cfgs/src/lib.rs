//! The probe that is built once per configuration: it answers a list of questions about the code under
//! test using nothing but its public interface and the byte encoding of field elements.
#![no_std]
extern crate alloc;
use alloc::{vec, vec::Vec};
use decaf377::Fq;
use poseidon377::Instance;
use poseidon_parameters::v1::{Alpha, MatrixOperations};

fn rd(b: &[u8]) -> Fq {
    Fq::from_le_bytes_mod_order(b)
}
fn wr(o: &mut Vec<u8>, x: &Fq) {
    o.extend_from_slice(&x.to_bytes())
}
fn num(o: &mut Vec<u8>, x: usize) {
    o.extend_from_slice(&(x as u64).to_le_bytes())
}
fn mat(o: &mut Vec<u8>, r: usize, c: usize, e: &[Fq]) {
    num(o, r);
    num(o, c);
    num(o, e.len());
    e.iter().for_each(|x| wr(o, x))
}

macro_rules! dump {
    ($o:expr, $p:expr) => {{
        let p = $p;
        let o: &mut Vec<u8> = &mut *$o;
        num(o, p.M);
        o.extend_from_slice(&p.alpha.to_bytes_le());
        num(o, p.rounds.full());
        num(o, p.rounds.partial());
        num(o, p.rounds.total());
        let m = &p.optimized_mds;
        macro_rules! m { ($x:expr) => { mat(o, $x.n_rows(), $x.n_cols(), $x.elements()) } }
        m!(p.mds); m!(p.arc); m!(p.optimized_arc);
        m!(m.M_hat); m!(m.v); m!(m.w); m!(m.M_prime); m!(m.M_doubleprime); m!(m.M_inverse); m!(m.M_hat_inverse); m!(m.M_i);
        wr(o, &m.M_00);
        num(o, m.v_collection.len());
        m.v_collection.iter().for_each(|x| m!(x));
        num(o, m.w_hat_collection.len());
        m.w_hat_collection.iter().for_each(|x| m!(x));
    }};
}
fn dump_all(o: &mut Vec<u8>) {
    dump!(o, &poseidon377::RATE_1_PARAMS);
    dump!(o, &poseidon377::RATE_2_PARAMS);
    dump!(o, &poseidon377::RATE_3_PARAMS);
    dump!(o, &poseidon377::RATE_4_PARAMS);
    dump!(o, &poseidon377::RATE_5_PARAMS);
    dump!(o, &poseidon377::RATE_6_PARAMS);
    dump!(o, &poseidon377::RATE_7_PARAMS);
}

fn hash(rate: usize, q: &[Fq]) -> Fq {
    match rate {
        1 => poseidon377::hash_1(&q[0], q[1]),
        2 => poseidon377::hash_2(&q[0], (q[1], q[2])),
        3 => poseidon377::hash_3(&q[0], (q[1], q[2], q[3])),
        4 => poseidon377::hash_4(&q[0], (q[1], q[2], q[3], q[4])),
        5 => poseidon377::hash_5(&q[0], (q[1], q[2], q[3], q[4], q[5])),
        6 => poseidon377::hash_6(&q[0], (q[1], q[2], q[3], q[4], q[5], q[6])),
        7 => poseidon377::hash_7(&q[0], (q[1], q[2], q[3], q[4], q[5], q[6], q[7])),
        _ => unreachable!(),
    }
}

fn perms(o: &mut Vec<u8>, rate: usize, alpha: u32, q: &[Fq]) {
    macro_rules! go {
        ($p:ident, $t:expr) => {{
            let mut p = poseidon377::$p.clone();
            if alpha != u32::MAX {
                p.alpha = if alpha == 0 { Alpha::Inverse } else { Alpha::Exponent(alpha) };
            }
            let a: [Fq; $t] = core::array::from_fn(|i| q[i]);
            let mut i = Instance::new(&p);
            let d = i.n_to_1_fixed_hash(&a);
            wr(o, &d);
            i.output_words().iter().for_each(|x| wr(o, x));
            // the same instance again: what it computed before must not matter
            let d = i.unoptimized_n_to_1_fixed_hash(a);
            wr(o, &d);
            i.output_words().iter().for_each(|x| wr(o, x));
        }};
    }
    match rate {
        1 => go!(RATE_1_PARAMS, 2),
        2 => go!(RATE_2_PARAMS, 3),
        3 => go!(RATE_3_PARAMS, 4),
        4 => go!(RATE_4_PARAMS, 5),
        5 => go!(RATE_5_PARAMS, 6),
        6 => go!(RATE_6_PARAMS, 7),
        7 => go!(RATE_7_PARAMS, 8),
        _ => unreachable!(),
    }
}

#[cfg(feature = "r1cs")]
fn circuit(o: &mut Vec<u8>, rate: usize, q: &[Fq]) {
    use ark_r1cs_std::{alloc::AllocVar, R1CSVar};
    use ark_relations::r1cs::ConstraintSystem;
    use decaf377::r1cs::FqVar;
    let cs = ConstraintSystem::<Fq>::new_ref();
    let v: Vec<FqVar> = q
        .iter()
        .enumerate()
        .map(|(i, x)| match i % 2 {
            0 => FqVar::new_witness(cs.clone(), || Ok(*x)).unwrap(),
            _ => FqVar::new_input(cs.clone(), || Ok(*x)).unwrap(),
        })
        .collect();
    use poseidon377::r1cs as r;
    let c = cs.clone();
    let out = match rate {
        1 => r::hash_1(c, &v[0], v[1].clone()),
        2 => r::hash_2(c, &v[0], (v[1].clone(), v[2].clone())),
        3 => r::hash_3(c, &v[0], (v[1].clone(), v[2].clone(), v[3].clone())),
        4 => r::hash_4(c, &v[0], (v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone())),
        5 => r::hash_5(c, &v[0], (v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone())),
        6 => r::hash_6(c, &v[0], (v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), v[6].clone())),
        7 => r::hash_7(c, &v[0], (v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), v[6].clone(), v[7].clone())),
        _ => unreachable!(),
    }
    .unwrap();
    wr(o, &out.value().unwrap());
    o.push(cs.is_satisfied().unwrap() as u8);
}
#[cfg(not(feature = "r1cs"))]
fn circuit(_: &mut Vec<u8>, _: usize, _: &[Fq]) {}

/// Record: kind, rate, alpha (4 bytes), rate + 1 field elements.
/// Answer: length (4 bytes), then the bytes; length u32::MAX stands for a panic.
/// `guard` runs one question and catches its panic where the target can do that.
pub fn process(mut inp: &[u8], guard: fn(&dyn Fn() -> Vec<u8>) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut out = vec![];
    while !inp.is_empty() {
        let (kind, rate) = (inp[0], inp[1] as usize);
        let alpha = u32::from_le_bytes(inp[2..6].try_into().unwrap());
        let q: Vec<Fq> = (0..rate + 1).map(|i| rd(&inp[6 + 32 * i..38 + 32 * i])).collect();
        inp = &inp[6 + 32 * (rate + 1)..];
        let r = guard(&|| {
            let mut o = vec![];
            match kind {
                0 => dump_all(&mut o),
                1 => {
                    wr(&mut o, &hash(rate, &q));
                    perms(&mut o, rate, u32::MAX, &q);
                }
                2 => perms(&mut o, rate, alpha, &q),
                3 => circuit(&mut o, rate, &q),
                _ => unreachable!(),
            }
            o
        });
        match r {
            Some(o) => {
                out.extend_from_slice(&(o.len() as u32).to_le_bytes());
                out.extend_from_slice(&o);
            }
            None => out.extend_from_slice(&u32::MAX.to_le_bytes()),
        }
    }
    out
}

/// For targets without a standard input: the caller writes the records into a buffer.
#[cfg(target_family = "wasm")]
pub mod wasm {
    use alloc::vec::Vec;
    use core::alloc::{GlobalAlloc, Layout};
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        core::arch::wasm32::unreachable()
    }
    // One call per module instance: memory is handed out and never taken back, except the last block.
    struct Bump;
    static mut TOP: usize = 0;
    static mut END: usize = 0;
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if TOP == 0 {
                TOP = core::arch::wasm32::memory_size(0) << 16;
                END = TOP;
            }
            let p = (TOP + l.align() - 1) & !(l.align() - 1);
            if p + l.size() > END {
                let pages = (p + l.size() - END + 0xffff) >> 16;
                if core::arch::wasm32::memory_grow(0, pages) == usize::MAX {
                    return core::ptr::null_mut();
                }
                END += pages << 16;
            }
            TOP = p + l.size();
            p as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if p as usize + l.size() == TOP {
                TOP = p as usize
            }
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
    #[no_mangle]
    pub extern "C" fn alloc(n: usize) -> *mut u8 {
        let mut v = Vec::with_capacity(n);
        let p = v.as_mut_ptr();
        core::mem::forget(v);
        p
    }
    /// The answer is preceded by its length.
    #[no_mangle]
    pub extern "C" fn run(p: *mut u8, n: usize) -> *const u8 {
        let inp = unsafe { core::slice::from_raw_parts(p, n) };
        let o = super::process(inp, |f| Some(f()));
        let mut v = (o.len() as u32).to_le_bytes().to_vec();
        v.extend_from_slice(&o);
        let q = v.as_ptr();
        core::mem::forget(v);
        q
    }
}
