//! C19: the generator's S-box exponent for prime fields that realize every relevant pattern of divisors.
use num_bigint::BigUint;
use refmodel::report::*;
use std::collections::BTreeMap;

/// Numbers by length of a shortest addition chain, found by exhaustive search over all chains.
fn by_chain_length(max: u32, len: usize) -> Vec<Vec<u32>> {
    let mut best: BTreeMap<u32, usize> = BTreeMap::new();
    fn go(chain: &mut Vec<u32>, max: u32, len: usize, best: &mut BTreeMap<u32, usize>) {
        let d = chain.len() - 1;
        let top = *chain.last().unwrap();
        let e = best.entry(top).or_insert(usize::MAX);
        *e = (*e).min(d);
        if d == len {
            return;
        }
        let mut next: Vec<u32> = vec![];
        for i in 0..chain.len() {
            for j in i..chain.len() {
                let s = chain[i] + chain[j];
                if s > top && s <= max && !next.contains(&s) {
                    next.push(s);
                }
            }
        }
        for s in next {
            chain.push(s);
            go(chain, max, len, best);
            chain.pop();
        }
    }
    go(&mut vec![1], max, len, &mut best);
    (0..=len)
        .map(|l| {
            let mut v: Vec<u32> = best.iter().filter(|(_, d)| **d == l).map(|(n, _)| *n).collect();
            v.reverse();
            v
        })
        .collect()
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn main() {
    let run = Run::new("C19");
    run.begin();
    // depths 2..7 as documented; a chain of length l reaches at most 2^l
    let order: Vec<u32> = by_chain_length(128, 7)[2..].iter().flatten().copied().collect();
    run.extra("candidates", order.len().to_string());
    run.end("all addition chains up to length 7");
    run.begin();
    let mut chosen: BTreeMap<String, u64> = BTreeMap::new();
    let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    for k in 0..8 {
        let o = std::process::Command::new(dir.join(format!("part{}", k))).output().expect("part");
        if !o.status.success() {
            run.violation(&bad(format!("part {}", k), format!("ended with {}", o.status)));
        }
        let text = String::from_utf8(o.stdout).unwrap();
        for (i, l) in text.lines().enumerate() {
            let w: Vec<&str> = l.splitn(3, ' ').collect();
            let m1: BigUint = w[0].parse::<BigUint>().unwrap() - 1u32;
            let want = order.iter().copied().find(|a| {
                let r: BigUint = &m1 % BigUint::from(*a);
                a % 2 == 1 && gcd(*a as u64, r.to_u64_digits().first().copied().unwrap_or(0)) == 1
            });
            let want = match want {
                Some(e) => format!("exponent {}", e),
                None if w[1] == "true" => "inverse".into(),
                None => "refused".into(),
            };
            run.count(order.len() as u64, order.len() as u64, 1);
            if w[2] != want {
                run.violation(&bad(format!("p = {}, allow_inverse = {}", w[0], w[1]), format!("generated {}, expected {}", w[2], want)));
            }
            if i == 7 {
                run.sample(l);
            }
            *chosen.entry(want).or_insert(0) += 1;
        }
    }
    run.end("prime fields");
    let chosen: Vec<String> = chosen.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    run.extra("questions_by_expected_answer", format!("{{{}}}", chosen.join(",")));
    run.assume("the choice depends on the modulus only through the divisors of p - 1 among the candidate exponents; the fields realize every prefix of blocked exponents, all subsets of the first six primes, and every set that misses at most two of the thirteen");
    run.pass()
}
