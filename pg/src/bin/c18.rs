//! C18: the generator's round numbers against the exact bounds, for every enumerated (M, t, p, S-box).
use ark_ff::BigInt;
use mc_pg::*;
use num_bigint::BigUint;
use poseidon_parameters::v1::Alpha;
use refmodel::poseidon::Sbox;
use refmodel::report::*;
use refmodel::rounds::Bounds;

fn big<const N: usize>(x: &BigUint) -> BigInt<N> {
    let mut l = [0u64; N];
    for (i, d) in x.to_u64_digits().into_iter().enumerate() {
        l[i] = d;
    }
    BigInt(l)
}
fn p2(k: usize) -> BigUint {
    BigUint::from(1u32) << k
}
fn dec(s: &str) -> BigUint {
    s.parse().unwrap()
}
fn alpha(s: Sbox) -> Alpha {
    match s {
        Sbox::Pow(e) => Alpha::Exponent(e as u32),
        Sbox::Inv => Alpha::Inverse,
    }
}

/// log2 with the error of one f64 operation: the leading 64 bits decide.
fn log2_ref(x: &BigUint) -> f64 {
    let b = x.bits();
    let s = b.saturating_sub(63);
    let top = (x >> s).to_u64_digits()[0] as f64;
    top.log2() + s as f64
}

/// The implementation decides with floating point; where one of its arguments is an integer up to rounding
/// the two sides of the comparison are both right, so such cases are not compared.
fn near_boundary(m: usize, t: usize, p: &BigUint, s: Sbox) -> bool {
    let near = |x: f64| (x - x.round()).abs() < 1e-7;
    let (mf, tf, lp) = (m as f64, t as f64, log2_ref(p));
    match s {
        Sbox::Pow(a) => {
            let a = a as f64;
            let l = 1.0 / a.log2();
            let pow = |x: f64| x.fract() == 0.0;
            near(l * mf) || near(l * lp) || near(tf.log2() * l)
                || near(l * mf / 3.0) || near(l * lp / 2.0) || near(l * mf / (tf + 1.0))
                || { let d = (lp.floor() - (a - 1.0).log2()) * (tf + 1.0) - mf; !pow((a - 1.0).log2()) && d.abs() < 1e-6 }
        }
        Sbox::Inv => near(0.5 * lp) || (!t.is_power_of_two() && (4..100).any(|r| near(r as f64 * tf.log2()))),
    }
}

#[derive(Clone)]
struct Case {
    m: usize,
    t: usize,
    p: usize,
    s: Sbox,
    v2: bool,
}

fn check(run: &Run, ps: &[(String, BigUint)], c: &Case, skipped: &std::sync::atomic::AtomicU64) -> Result<(), Bad> {
    let (name, p) = &ps[c.p];
    if near_boundary(c.m, c.t, p, c.s) {
        skipped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        return Ok(());
    }
    let want = Bounds::new(c.m, c.t, p, c.s).select(c.v2);
    let a = alpha(c.s);
    let got = guard(|| {
        macro_rules! ask {
            ($n:literal) => {{
                let i = input::InputParameters::generate(c.m, c.t, big::<$n>(p), true);
                if c.v2 { rounds::v2_generate(&i, &a) } else { rounds::v1_generate(&i, &a) }
            }};
        }
        // integers with the fewest limbs, and ever again with some unused ones
        let r = match p.bits() {
            0..=64 if c.m % 3 > 0 => ask!(1),
            0..=128 if c.m % 3 > 0 => ask!(2),
            0..=256 if c.m % 3 > 0 => ask!(4),
            0..=384 => ask!(6),
            _ => ask!(12),
        };
        (r.full(), r.partial())
    });
    run.count(96 * 399, 96 * 399, 1);
    let case = format!("Poseidon{} M={} t={} p={} ({name}) alpha={:?}", if c.v2 { "2" } else { "" }, c.m, c.t, p, a);
    match (&got, want) {
        (Ok(g), Some(w)) if *g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => {
            // what exactly is wrong with it
            let b = Bounds::new(c.m, c.t, p, c.s);
            let secure = g.0 % 2 == 0 && (1..400).filter(|rp| (43 * rp + 39) / 40 == g.1).any(|rp| g.0 >= 2 && if c.v2 { b.secure_v2(g.0 - 2, rp) } else { b.secure_v1(g.0 - 2, rp) });
            Err(bad(case, format!(
                "returns (r_F, r_P) = {g:?} with {} S-boxes, the bounds give {w:?} with {}; the returned numbers before the margin {}",
                c.t * g.0 + g.1, c.t * w.0 + w.1, if secure { "satisfy the bounds" } else { "violate the bounds" })))
        }
        (g, w) => Err(bad(case, format!("returns {g:?}, the bounds give {w:?}"))),
    }
}

fn log_case<const N: usize>(run: &Run, x: &BigUint) -> Result<(), Bad> {
    let got = guard(|| binary_logarithm(big::<N>(x))).map_err(|e| bad(format!("log2({x})"), e))?;
    run.count(1, 1, 1);
    // floor(256 log2 x) from the bit length of x^256, independent of floating point
    let exact = if x.bits() <= 64 { Some((x.pow(256u32).bits() - 1) as f64 / 256.0) } else { None };
    let want = log2_ref(x);
    if (got - want).abs() > 1e-9 || got.floor() != (x.bits() - 1) as f64 || exact.map(|e| got < e - 1e-9 || got > e + 1.0 / 256.0 + 1e-9).unwrap_or(false) {
        return Err(bad(format!("log2({x}) as a {N}-limb integer"), format!("is {got}, should be {want}")));
    }
    Ok(())
}

fn main() {
    let run = Run::new("C18");
    let th = run.thorough();
    // the binary logarithm
    run.begin();
    let mut xs: Vec<BigUint> = (1..if th { 1u64 << 20 } else { 1 << 14 }).map(BigUint::from).collect();
    for k in 1..768usize {
        for low in 0..10.min(k) {
            for m in 0..8u32 {
                // 2^k plus a pattern in the bits just below, and at the bottom
                xs.push(p2(k) + (BigUint::from(m) << (k - 1 - low)) % p2(k));
            }
            xs.push(p2(k) + p2(low));
            xs.push(p2(k) - p2(low));
        }
    }
    let r = run.par(xs.len(), |i| {
        let x = &xs[i];
        log_case::<12>(&run, x)?;
        if x.bits() <= 384 {
            log_case::<6>(&run, x)?;
        }
        if x.bits() <= 64 {
            log_case::<1>(&run, x)?;
        }
        if x.bits() <= 128 {
            log_case::<2>(&run, x)?;
        }
        if x.bits() <= 256 {
            log_case::<4>(&run, x)?;
        }
        Ok(())
    });
    run.end("binary logarithm");
    run.check(r);

    let mut ps: Vec<(String, BigUint)> = vec![
        ("decaf377 base".into(), refmodel::rounds::q()),
        ("BLS12-381 scalar".into(), dec("52435875175126190479447740508185965837690552500527637822603658699938581184513")),
        ("BN254 scalar".into(), dec("21888242871839275222246405745257275088548364400416034343698204186575808495617")),
        ("Goldilocks".into(), p2(64) - p2(32) + 1u32),
        ("M61".into(), p2(61) - 1u32),
        ("M31".into(), p2(31) - 1u32),
        ("BabyBear".into(), BigUint::from(2013265921u32)),
        ("BLS12-381 base".into(), dec("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787")),
        ("Curve25519".into(), p2(255) - 19u32),
        ("P-192".into(), p2(192) - p2(64) - 1u32),
    ];
    let sizes: Vec<usize> = if th { (20..760).collect() } else { vec![30, 40, 385, 448, 511, 512, 640, 667, 700, 759, 49, 50, 51, 60, 63, 80, 97, 98, 99, 127, 146, 160, 194, 224, 242, 252, 254, 290, 338, 383] };
    for k in sizes {
        for (n, x) in [("2^k+2^(k-3)+1", p2(k) + p2(k - 3) + 1u32), ("2^k+2^(k-2)+2^(k-3)+2^(k-4)-1", p2(k) + p2(k - 2) + p2(k - 3) + p2(k - 4) - 1u32), ("2^k+2^(k-1)+2^(k-2)+1", p2(k) + p2(k - 1) + p2(k - 2) + 1u32)] {
            ps.push((format!("{n}, k={k}"), x));
        }
    }
    let skipped = std::sync::atomic::AtomicU64::new(0);
    let go = |name: &str, cases: Vec<Case>| {
        run.begin();
        let r = run.par(cases.len(), |i| {
            if i == cases.len() / 3 {
                let c = &cases[i];
                run.sample(format!("{name}: M={} t={} p={} {:?} -> {:?}", c.m, c.t, ps[c.p].1, c.s, Bounds::new(c.m, c.t, &ps[c.p].1, c.s).select(c.v2)));
            }
            check(&run, &ps, &cases[i], &skipped)
        });
        run.end(name);
        run.check(r);
    };
    use Sbox::*;
    let chain: Vec<u64> = vec![3, 5, 9, 7, 17, 15, 13, 11, 33, 27, 25, 23, 21, 19, 65, 51, 49, 45, 43, 41, 39, 37, 35, 31, 29];
    let mut cs = vec![];
    // every security level, for the named moduli
    for m in 1..=256 {
        for t in if th { vec![2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24] } else { vec![2, 3, 5, 8, 12] } {
            for p in 0..if th { 10 } else { 5 } {
                for s in if th { vec![Pow(3), Pow(5), Pow(7), Pow(17), Inv] } else { vec![Pow(5), Pow(17), Inv] } {
                    cs.push(Case { m, t, p, s, v2: false });
                }
            }
        }
    }
    go("Poseidon: every security level", std::mem::take(&mut cs));
    // every width
    for t in 2..if th { 130 } else { 64 } {
        for m in [80, 128, 256] {
            for p in 0..8 {
                for s in [Pow(3), Pow(5), Pow(17), Inv] {
                    cs.push(Case { m, t, p, s, v2: false });
                }
            }
        }
    }
    go("Poseidon: every width", std::mem::take(&mut cs));
    // every modulus and every exponent
    for p in 0..ps.len() {
        for m in if th { vec![64, 80, 100, 128, 192, 256] } else { vec![80, 128, 256] } {
            for t in if th { vec![2, 3, 4, 6, 8, 12, 16, 24] } else { vec![2, 3, 5, 8] } {
                for s in chain.iter().take(if th { 25 } else { 8 }).map(|e| Pow(*e)).chain([Inv]) {
                    cs.push(Case { m, t, p, s, v2: false });
                }
            }
        }
    }
    go("Poseidon: every modulus and exponent", std::mem::take(&mut cs));
    // Poseidon2
    for p in 0..ps.len() {
        for m in if th { vec![64, 80, 100, 128, 192, 256, 384, 512] } else { vec![80, 128, 256] } {
            for t in if th { vec![2, 3, 4, 8, 12, 16, 20, 24] } else { vec![2, 3, 4, 8] } {
                for s in if th { vec![Pow(3), Pow(5), Pow(7), Pow(11), Pow(17)] } else { vec![Pow(3), Pow(5), Pow(7), Pow(17)] } {
                    cs.push(Case { m, t, p, s, v2: true });
                }
            }
        }
    }
    for m in (8..=if th { 512 } else { 256 }).step_by(if th { 2 } else { 4 }) {
        for t in [2, 3, 4] {
            for p in 0..5 {
                for s in [Pow(5), Pow(17)] {
                    cs.push(Case { m, t, p, s, v2: true });
                }
            }
        }
    }
    go("Poseidon2", std::mem::take(&mut cs));
    // high levels, for which many full rounds are chosen
    for (p, (_, x)) in ps.iter().enumerate() {
        if x.bits() < 500 {
            continue;
        }
        for m in (600..=1000).step_by(if th { 20 } else { 100 }) {
            for t in [2, 3, 4, 6, 8] {
                for s in [Pow(3), Pow(5), Pow(17)] {
                    cs.push(Case { m, t, p, s, v2: true });
                }
            }
        }
    }
    go("Poseidon2: high levels", std::mem::take(&mut cs));
    // refusals
    run.begin();
    for m in (257..if th { 3000 } else { 600 }).chain([1024, 4096, usize::MAX]) {
        for s in [Pow(5), Pow(17), Inv] {
            let a = alpha(s);
            let g = guard(|| {
                let i = input::InputParameters::generate(m, 3, big::<6>(&ps[0].1), true);
                rounds::v1_generate(&i, &a)
            });
            run.count(1, 1, 1);
            if let Ok(r) = g {
                run.violation(&bad(format!("Poseidon M={m}, alpha {a:?}"), format!("not refused: {r:?}")));
            }
        }
    }
    run.end("levels above 256 bits are refused");
    run.extra("cases_skipped_next_to_a_rounding_boundary", skipped.into_inner().to_string());
    run.assume("cases in which an argument of floor, ceil or a comparison is an integer up to 1e-7 are not compared (the bound itself is ambiguous there)");
    run.pass()
}
