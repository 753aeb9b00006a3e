#!/usr/bin/env python3-vt
"""Generates pgf/src/bin/part*.rs: prime moduli with chosen small divisors of p - 1."""
import itertools, os
from sympy import isprime, primerange
L = [3, 5, 7, 17, 13, 11, 23, 19, 43, 41, 37, 31, 29]
def find(S, low, limbs):
    n = 2
    for s in S: n *= s
    m = max(1, low // n)
    while True:
        m += 1
        if any(m % l == 0 for l in L): continue
        p = n * m + 1
        if isprime(p):
            assert p < 1 << (64 * limbs - 1)
            return p
sets = []
for r in range(7):
    sets += [set(c) for c in itertools.combinations(L[:6], r)]
for r in range(8):
    sets += [set(L[:6]) | set(c) for c in itertools.combinations(L[6:], r)]
for r in (1, 2):  # all but one or two
    sets += [set(L) - set(c) for c in itertools.combinations(L, r)]
sets += [{l} for l in L]
u = []
for s in sets:
    if s not in u: u.append(s)
one = sorted(set(primerange(5, 600)) | {find(s, 1000, 1) for s in u})
extra = [2**31 - 1, 2013265921, 2**61 - 1, 2**62 - 57]
assert all(isprime(p) for p in extra)
one += extra
some = [set(), {3}, {3, 5}, {3, 5, 7}, set(L[:3]) | {17}, set(L[:5]), set(L[:6]), set(L[:7]), set(L[:9]), set(L[:12]), set(L), set(L) - {43}, {5}, {7, 11}, {3, 7}]
wide = {2: [find(s, 1 << k, 2) for s in some for k in (90, 126)],
        4: [find(s, 1 << k, 4) for s in some for k in (200, 253)] + [8444461749428370424248824938781546531375899335154063827935233455917409239041, 21888242871839275222246405745257275088548364400416034343698204186575808495617, 52435875175126190479447740508185965837690552500527637822603658699938581184513, 2**255 - 19],
        3: [find(s, 1 << 170, 3) for s in some[:6]],
        5: [find(s, 1 << 300, 5) for s in some[:6]],
        6: [find(s, 1 << 380, 6) for s in some]}
def limbs(p, n): return ", ".join(hex(p >> (64 * i) & (2**64 - 1)) for i in range(n))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
calls = [f"    one::<F1<{p}>>();" for p in [3] + one]
for n, ps in wide.items():
    calls += [f"    one::<F{n}<{limbs(p, n)}>>();" for p in ps]
for k in range(8):
    with open(os.path.join(here, f"pgf/src/bin/part{k}.rs"), "w") as f:
        f.write("// Generated by tools/mkprimes.py.\n#![allow(unused_imports)]\nuse mc_pgf::{fields::*, one};\nfn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n" + "\n".join(calls[k::8]) + "\n}\n")
print(len(calls), len(one), {n: len(p) for n, p in wide.items()})
