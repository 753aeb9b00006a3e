//! C21: Alpha and RoundNumbers. Every exponent (all 2^32) for the encodings; all operation sequences
//! up to a depth on round numbers over a boundary alphabet.
use poseidon_parameters::v1::{Alpha, RoundNumbers};
use refmodel::report::*;

fn main() {
    let run = Run::new("C21");
    run.begin();
    // all exponents, in blocks of 2^20
    let r = run.par(1 << 12, |b| {
        let (lo, hi) = ((b as u64) << 20, (b as u64 + 1) << 20);
        for e in lo..hi {
            let e = e as u32;
            let a = std::hint::black_box(Alpha::Exponent(e));
            let by = a.to_bytes_le();
            let want = [e as u8, (e >> 8) as u8, (e >> 16) as u8, (e >> 24) as u8];
            let f: f64 = a.into();
            if by != want || f != e as f64 || f.is_nan() {
                return Err(bad(format!("Alpha::Exponent({e})"), format!("bytes {by:?} value {f}, expected {want:?}")));
            }
            let c = a;
            if c != a || a.clone() != Alpha::Exponent(e) || a == Alpha::Inverse || a == Alpha::Exponent(e ^ 1) || a == Alpha::Exponent(e ^ 0x8000_0000) {
                return Err(bad(format!("Alpha::Exponent({e})"), "comparison or copy is wrong"));
            }
        }
        run.count(hi - lo, 2 * (hi - lo), hi - lo);
        Ok(())
    });
    run.end("every exponent");
    run.check(r);
    let i = Alpha::Inverse;
    let f: f64 = i.into();
    if i.to_bytes_le() != [0xff; 4] || f != -1.0 || i != Alpha::Inverse || i.clone() != i {
        run.violation(&bad("Alpha::Inverse", format!("bytes {:?} value {f}", i.to_bytes_le())));
    }
    // round numbers: states (r_F, r_P) over a boundary alphabet, every sequence of up to 4 operations
    let al: Vec<usize> = vec![0, 1, 2, 3, 8, 31, 39, 57, 99, 127, 128, 255, 256, 399, 65535, 65536, (1 << 31) - 1, 1 << 32, usize::MAX / 2];
    let read = |r: &RoundNumbers, f: usize, p: usize| -> Result<(), String> {
        if (r.full(), r.partial(), r.total(), r.r_F, r.r_P) != (f, p, f + p, f, p) {
            return Err(format!("full {} partial {} total {} r_F {} r_P {}, expected {f} {p}", r.full(), r.partial(), r.total(), r.r_F, r.r_P));
        }
        let c = *r;
        if c != *r || c.clone() != *r {
            return Err("a copy is not equal".into());
        }
        for (g, q) in [(f + 1, p), (f, p + 1), (f + 1, p.wrapping_sub(1)), (p, f)] {
            let o = RoundNumbers { r_F: g, r_P: q };
            if (o == *r) != ((g, q) == (f, p)) {
                return Err(format!("({f},{p}) == ({g},{q}) gives {}", o == *r));
            }
        }
        Ok(())
    };
    // operations: write full / partial through the accessor, through the field, add to each, copy and write the copy
    let vals = [0usize, 1, 7, 31, 256];
    let nops = 5 * vals.len();
    let depth = if run.thorough() { 4 } else { 3 };
    let total = al.len() * al.len() * nops.pow(depth);
    let r = run.par(al.len() * al.len(), |s| {
        let (f0, p0) = (al[s / al.len()], al[s % al.len()]);
        for h in 0..nops.pow(depth) {
            let mut r = RoundNumbers { r_F: f0, r_P: p0 };
            let (mut f, mut p) = (f0, p0);
            let mut k = h;
            let mut hist = format!("({f0},{p0})");
            let res = guard(|| {
                read(&r, f, p)?;
                for _ in 0..depth {
                    let (op, v) = ((k % nops) / vals.len(), vals[k % vals.len()]);
                    k /= nops;
                    match op {
                        0 => {
                            *r.full_mut() = v;
                            f = v
                        }
                        1 => {
                            *r.partial_mut() = v;
                            p = v
                        }
                        2 => {
                            *r.full_mut() += v;
                            f += v
                        }
                        3 => {
                            *r.partial_mut() += v;
                            p += v
                        }
                        _ => {
                            let mut c = r;
                            *c.full_mut() = v + 1;
                            *c.partial_mut() = v + 2;
                            read(&c, v + 1, v + 2)?;
                        }
                    }
                    hist.push_str(&format!(" op{op}({v})"));
                    read(&r, f, p)?;
                }
                Ok::<(), String>(())
            });
            run.count(depth as u64, depth as u64, 1);
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => {
                    // totals beyond the machine word are outside the property
                    if f.checked_add(p).and_then(|x| x.checked_add(2)).is_none() {
                        continue;
                    }
                    return Err(bad(hist, e));
                }
            }
        }
        Ok(())
    });
    run.end(&format!("{total} histories of {depth} operations"));
    run.check(r);
    run.sample("Alpha::Exponent(4294967295)");
    run.sample("(8,31) op0(7) op3(1) op4(0)");
    run.assume("round numbers outside the boundary alphabet behave like those inside; totals that exceed the machine word are not part of the property");
    run.pass()
}
