#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state model checking"
CHECKS = {
 "C01": ("exhaustive bounded enumeration of inputs against a reference transition system",
         "Every input in the enumerated spaces (full products, per-position sweeps, equality patterns, states forced at every step of the machine) is executed on the real code and compared with an independent model; values outside the alphabets are not covered."),
 "C02": ("exhaustive bounded enumeration of states, two machines compared in lock step",
         "Both permutations of the real code run on every enumerated state and all words are compared; values outside the alphabets are not covered."),
 "C03": ("exhaustive bounded enumeration of parameter sets and states against a reference transition system",
         "Every parameter set in the enumerated family (widths 2..8, round numbers, exponents, matrices, constants) is run on every enumerated state, textbook and optimized, and compared with an independent model."),
 "C08": ("stateless exploration of all thread interleavings of the real code under a controlled scheduler, with a preemption bound and happens-before race detection",
         "Every memory access of the code under test and of the standard library is hooked; all schedules up to the preemption bound are executed in fresh processes for every scenario (pairs and triples of operations, cold and warm). Accesses that do not conflict need no switch. Weak-memory effects are covered only through race detection."),
 "C09": ("exhaustive comparison of the complete finite constant table with an independent derivation",
         "Every field of every shipped parameter set is compared with the documented derivation; the space is finite and covered completely."),
 "C10": ("exhaustive enumeration of the finite criteria (all minors, all subspace-trail steps, all candidate round numbers)",
         "All square submatrices, all trail criteria and all candidate round numbers are enumerated in exact arithmetic; the space is covered completely."),
 "C04": ("exhaustive bounded enumeration of inputs, allocation patterns and synthesis modes against a reference transition system",
         "Every allocation pattern (all combinations of eight ways of supplying each argument up to the stated bound) and every enumerated input is synthesized by the real code; digest and all constraints are compared with the model."),
 "C05": ("exhaustive enumeration of the assignments reachable in the synthesized constraint system",
         "The constraint matrices of every enumerated pattern are explored: every wire is forced step by step or branched over all its roots; a second satisfying assignment is a violation. Undecided systems are reported."),
 "C06": ("exhaustive comparison of synthesized constraint systems over all enumerated values and modes",
         "For every pattern, matrices, instance and witness counts of all enumerated value vectors and of setup mode are compared."),
 "C23": ("exhaustive bounded enumeration of parameter sets, allocation patterns and inputs against a reference transition system, with a search over the assignments of the synthesized constraint system",
         "Every enumerated parameter set is synthesized for every enumerated pattern and input, hashed and permuted one to three times; all words, all constraints, the matrices of setup mode and the assignments the constraints leave open are examined."),
 "C07": ("exhaustive exploration of call histories up to a depth, plus exhaustive pairwise histories and long runs",
         "Every operation sequence up to the depth over the stated alphabet of instances, operations and inputs is executed on the real code; after every operation the result and the words of every instance are compared with the model."),
 "C11": ("exhaustive bounded enumeration of states, each output run backwards through the inverse transition system",
         "Every enumerated state of every shipped and of the enumerated custom parameter sets is recovered from the implementation's output by the inverse machine; values outside the alphabets are not covered."),
 "C12": ("exhaustive all-pairs comparison over an enumerated set of calls closed under argument change, order and arity",
         "All pairs of enumerated calls are compared through a digest map; values outside the alphabets are not covered."),
 "C13": ("exhaustive enumeration of shapes, unit-matrix pairs and write histories against reference linear algebra",
         "All shapes up to 8x8, all pairs of unit matrices, all write histories up to the depth and structured contents are executed on the real code."),
 "C14": ("exhaustive enumeration of permutation matrices, 0/1 matrices and structured families against Gaussian elimination",
         "Every monomial of determinant and minors up to 7x7 (8x8 in thorough) and complete small alphabets are executed on the real code."),
 "C15": ("exhaustive enumeration of declared sizes and slice lengths within bounds",
         "Every combination of declared sizes and lengths within the bounds is executed; outcome is value or panic."),
 "C16": ("exhaustive enumeration of unit matrices, small alphabets and structured families",
         "Every unit matrix, complete small alphabets and structured families for all sizes are decomposed and reassembled."),
 "C17": ("exhaustive enumeration of build configurations, each executed on an enumerated set of inputs against a reference transition system",
         "Every distinct closure of the feature sets of the three crates (all combinations in thorough, all single levels times backend times parallel in quick), several profiles and a 32-bit target are built and run on the same enumerated inputs. Big-endian targets are not run."),
 "C24": ("exhaustive enumeration of single-word changes and exchanges of every matrix and parameter type, and of all pairs of contents over small alphabets",
         "Every word of every type is changed in every byte from several contents; all pairs of contents over small alphabets and all ways to make a value are compared; words outside the alphabets are not covered."),
 "C21": ("complete enumeration of all exponents, exhaustive operation sequences for round numbers",
         "All 2^32 exponents and all operation sequences up to the depth over a boundary alphabet."),
 "C18": ("exhaustive search over all candidate round numbers for every enumerated parameter choice",
         "For every enumerated (level, width, modulus, S-box) all candidate round numbers are checked against the bounds and the generator's answer must be the cheapest secure one; the binary logarithm is compared on enumerated integers. Choices within 1e-7 of a rounding boundary of the bounds are not compared. The generator crate does not build as a whole in this repository; the check compiles its round-number, logarithm, input and alpha modules as they are."),
 "C19": ("exhaustive search over all addition chains up to the length bound, for prime fields realizing every relevant divisor pattern",
         "All addition chains up to length 7 are enumerated to derive the documented order; the generator is asked for prime fields whose p - 1 realizes every prefix of blocked candidates and all subsets of the small primes."),
 "C22": ("exhaustive enumeration of widths, round numbers, levels, fields and of all matrices over small fields, the generator's code run on each after erasing the sizes from its types, compared with the reference derivation",
         "As it stands the code does not compile (signatures sized at compile time, bodies sized at run time); the sizes are erased mechanically at build time (pgm/erase.rs), the matrix interface is a stand-in (pg/shim). Cauchy matrices and decompositions for widths 2 to 32 over eight fields, all matrices up to a size over small fields, whole Poseidon and Poseidon2 sets and the seven shipped sets are compared word for word with the reference model; refusals included. S-box and round numbers within whole sets are taken from the generator (C18, C19)."),
 "C25": ("exhaustive enumeration of parameter sets and batches, the emitted code of each compiled, run and compared field by field",
         "Widths 2 to 8, lists of widths, round numbers, exponents, levels, contents and six prime fields are enumerated; the repository's emission code runs on each, what it emits is compiled and evaluated, and every field is compared. The matrix interface and the computation of the sets are stand-ins (pg/shim, pgb), since the modules that compute matrices do not compile. Contents outside the enumerated ones are not covered."),
 "C20": ("exhaustive enumeration of parameter choices against a reference transcript; exhaustive enumeration of matrices, constants and states over small fields, two machines compared in lock step",
         "Constants of every enumerated choice over several prime fields equal the reference transcript and are pairwise bound to the choice; over F_3, F_5 and F_7 all matrices and all states are enumerated for the optimized constants. The matrix interface this module was written for is a stand-in (pg/shim)."),
}
SMALL = "; the same code compiled over small prime fields, where the state space is enumerated completely"
for u in "C01 C02 C03 C04 C05 C06 C11 C13 C14 C16 C23".split():
    CHECKS[u] = (CHECKS[u][0] + SMALL, CHECKS[u][1])
UNBUILT = []
for u in UNBUILT:
    CHECKS.pop(u, None)
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = "check not built yet"
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=p, quick_cmd=f"bash run.sh {p} quick", thorough_cmd=f"bash run.sh {p} thorough",
               evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=n)
          for p, (t, n) in sorted(CHECKS.items())],
  not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
  notes="See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
