From 4ed23ec6a8a31a4803f70d5d8208f3cb6c62db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 1/9] fix: row_vector returns a 1 x N_COLS matrix instead of
 panicking

The declared result had the element count of the whole matrix, so every
call on a matrix with more than one row panicked in Matrix::new.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From ea3e75d97e8c26de95de7fea3d6819fd62c1d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 2/9] fix: inverse of the 1x1 zero matrix is an error, not a
 panic

Singular matrices of every other size return NoMatrixInverse.
---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From c7428f60d9c71a7e4ceaeff0947583bf6a7169fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 3/9] fix: the inverse S-box maps 0 to 0 instead of panicking

The S-box x^-1 is extended by 0 -> 0 so that it is a permutation of the
field; dividing by a zero state word panicked.
---
 poseidon-permutation/src/permutation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/permutation.rs b/poseidon-permutation/src/permutation.rs
index a3c1c70..2b76826 100644
--- a/poseidon-permutation/src/permutation.rs
+++ b/poseidon-permutation/src/permutation.rs
@@ -219,7 +219,9 @@ impl<
     fn partial_sub_words(&mut self) {
         match self.parameters.alpha {
             Alpha::Exponent(exp) => self.state_words[0] = (self.state_words[0]).power([exp as u64]),
-            Alpha::Inverse => self.state_words[0] = Fq::from(1u64) / self.state_words[0],
+            Alpha::Inverse => {
+                self.state_words[0] = self.state_words[0].inverse().unwrap_or(Fq::from(0u64))
+            }
         }
     }
 
@@ -233,7 +235,7 @@ impl<
             }
             Alpha::Inverse => {
                 for i in 0..STATE_SIZE {
-                    self.state_words[i] = Fq::from(1u64) / self.state_words[i];
+                    self.state_words[i] = self.state_words[i].inverse().unwrap_or(Fq::from(0u64));
                 }
             }
         }
-- 
2.43.0


From 7898ef6f0eb607928be5fad599f0e42fb941e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 4/9] fix: hashing constants only in a circuit gives a constant
 instead of panicking

---
 poseidon-permutation/src/r1cs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..a9fa83a 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,8 +173,14 @@ impl<
                             * y
                     })
                     .collect();
-                let result = temp_vec.iter().sum();
-                result
+                if temp_vec.is_constant() {
+                    // `Sum` takes the constraint system from its terms: constants have none.
+                    temp_vec
+                        .iter()
+                        .fold(FpVar::zero(), |sum, term| sum + term)
+                } else {
+                    temp_vec.iter().sum()
+                }
             })
             .collect();
     }
-- 
2.43.0


From 8667213edbb60cc16984ba809dbd481434520c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 5/9] fix: log2 keeps the leading bits of its argument, not as
 few as 3 of them

Shifting by 48 bits at a time left between 3 and 50 bits, so that the
logarithm of a modulus just above 2^50 or 2^98 was too low by up to 0.3,
and the round numbers derived from it were below the security bounds.
---
 poseidon-paramgen/src/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/poseidon-paramgen/src/utils.rs b/poseidon-paramgen/src/utils.rs
index c010682..11808e6 100644
--- a/poseidon-paramgen/src/utils.rs
+++ b/poseidon-paramgen/src/utils.rs
@@ -8,12 +8,10 @@ where
     P: BigInteger,
 {
     let mut p_biguint: BigUint = x.into();
-    let two_to_50: BigUint = 1125899906842624u64.into(); // 2**50
-    let mut log_bit_boundaries = 0;
-    while p_biguint > two_to_50 {
-        p_biguint >>= 48u64;
-        log_bit_boundaries += 48;
-    }
+    // Keep the 40 leading bits: enough for an accurate log, and few enough for the log of
+    // a number just below a power of two not to be rounded up to the next integer.
+    let log_bit_boundaries = p_biguint.bits().saturating_sub(40);
+    p_biguint >>= log_bit_boundaries;
     let mut p_le_bytes = p_biguint.to_bytes_le();
     // `u64::from_le_bytes` takes `[u8; 8]` but `p_le_bytes` is a Vec<u8>
     // so we must pad the vec to the proper size:
-- 
2.43.0


From 63602f94578a44843489d557938d0e76facd1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 6/9] fix: Poseidon2 round numbers meet the bound of eprint
 2023/537 for every exponent

The early return relied on the partial binomial coefficients growing, which
they stop doing beyond upper / 2, so that round numbers for a large exponent
and a narrow state were accepted whose coefficient is below the bound.
---
 poseidon-paramgen/src/rounds.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-paramgen/src/rounds.rs b/poseidon-paramgen/src/rounds.rs
index f57e80e..b96688e 100644
--- a/poseidon-paramgen/src/rounds.rs
+++ b/poseidon-paramgen/src/rounds.rs
@@ -231,6 +231,8 @@ fn algebraic_attack_grobner_basis_v2_possible<T: BigInteger>(
         + choice.partial()
         + exponent;
     let lower = r * (choice.full() / 2) + choice.partial() + exponent;
+    // The coefficients below only increase up to `upper / 2`, as the early return needs.
+    let lower = lower.min(upper - lower);
 
     // Start computing the binomial coefficient (upper choose lower).
     let mut acc = BigInt::from(1);
-- 
2.43.0


From 37f3b3fca758aaf9a146592106b4d3099498d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 7/9] fix: the S-box exponent is chosen by a gcd over the
 integers

For a modulus below a candidate exponent (p = 3) the candidate was reduced
modulo p first, so that a valid smaller exponent was passed over.
---
 poseidon-paramgen/src/alpha.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/poseidon-paramgen/src/alpha.rs b/poseidon-paramgen/src/alpha.rs
index 5dd51c0..5df9bc6 100644
--- a/poseidon-paramgen/src/alpha.rs
+++ b/poseidon-paramgen/src/alpha.rs
@@ -64,9 +64,9 @@ pub fn generate<F: PrimeField>(p: F::BigInt, allow_inverse: bool) -> Alpha {
 fn alpha_coprime_to_p_minus_one<F: PrimeField>(alpha: u32, p: F::BigInt) -> bool {
     let one: BigUint = F::one().into();
     let p_minus_one: BigUint = p.into() - one;
-    let alpha_bigint: BigUint = F::from(alpha).into();
-    let computed_gcd = gcd(alpha_bigint, p_minus_one);
-    F::from(computed_gcd) == F::one()
+    // Over the integers: as a field element, an exponent above the modulus would be reduced.
+    let computed_gcd = gcd(BigUint::from(alpha), p_minus_one);
+    computed_gcd == BigUint::from(1u32)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2e8480884de25060bf9bbacd3b66946624ad2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 8/9] fix: the number of full rounds is even

The full rounds are split evenly around the partial rounds, so a
selection with an odd number of them (Poseidon2 at high security levels)
runs one round fewer than the bounds require. The reference script
only considers even numbers.
---
 poseidon-paramgen/src/rounds.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-paramgen/src/rounds.rs b/poseidon-paramgen/src/rounds.rs
index b96688e..af6bf2a 100644
--- a/poseidon-paramgen/src/rounds.rs
+++ b/poseidon-paramgen/src/rounds.rs
@@ -26,7 +26,7 @@ pub fn v1_generate<T: BigInteger>(input: &InputParameters<T>, alpha: &Alpha) ->
 
     // Loop through choices of r_F, r_P
     for r_P in 1..400 {
-        for r_F in 4..100 {
+        for r_F in (4..100).step_by(2) {
             let mut candidate = RoundNumbersBuilder(RoundNumbers { r_F, r_P });
             if !candidate.is_secure_v1(input, alpha) {
                 continue;
@@ -55,7 +55,7 @@ pub fn v2_generate<T: BigInteger>(input: &InputParameters<T>, alpha: &Alpha) ->
 
     // Loop through choices of r_F, r_P
     for r_P in 1..400 {
-        for r_F in 4..100 {
+        for r_F in (4..100).step_by(2) {
             let mut candidate = RoundNumbersBuilder(RoundNumbers { r_F, r_P });
             if !candidate.is_secure_v2(input, alpha) {
                 continue;
-- 
2.43.0


From 98ea02e42dcdd3c1ee1326eb36c8828bb4dcee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 9/9] fix: numbers of rounds above 255 entered the round
 constant transcript modulo 256

---
 poseidon-paramgen/src/transcript.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/poseidon-paramgen/src/transcript.rs b/poseidon-paramgen/src/transcript.rs
index 80653d8..506f514 100644
--- a/poseidon-paramgen/src/transcript.rs
+++ b/poseidon-paramgen/src/transcript.rs
@@ -1,6 +1,6 @@
 use crate::input::InputParameters;
 use ark_ff::{BigInteger, PrimeField};
-use ark_std::vec;
+use ark_std::{vec, vec::Vec};
 use merlin::Transcript;
 use poseidon_parameters::v1::{Alpha, RoundNumbers};
 
@@ -29,8 +29,8 @@ impl TranscriptProtocol for Transcript {
 
         // Bind transcript also to specific instance as done with the Grain LFSR
         // in Appendix F of the Poseidon paper.
-        self.append_message(b"r_F", &[round_numbers.full() as u8]);
-        self.append_message(b"r_P", &[round_numbers.partial() as u8]);
+        self.append_message(b"r_F", &round_number_bytes(round_numbers.full()));
+        self.append_message(b"r_P", &round_number_bytes(round_numbers.partial()));
         self.append_message(b"alpha", &alpha.to_bytes_le());
     }
 
@@ -41,3 +41,15 @@ impl TranscriptProtocol for Transcript {
         F::from_le_bytes_mod_order(&dest)
     }
 }
+
+/// Little-endian bytes of a number of rounds: a single byte up to 255, and as many as needed above,
+/// so that different numbers of rounds never enter the transcript alike.
+fn round_number_bytes(rounds: usize) -> Vec<u8> {
+    let mut bytes = vec![rounds as u8];
+    let mut rest = rounds >> 8;
+    while rest > 0 {
+        bytes.push(rest as u8);
+        rest >>= 8;
+    }
+    bytes
+}
-- 
2.43.0

