From 5f0da87599d5d660509f90cad7a50eab926b5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:03 +0000
Subject: [PATCH 01/24] fix: space verifier must reject proofs that do not
 verify

verify_proof returns Ok(false) for an invalid proof; checking only is_ok()
accepted every well-formed proof.
---
 proof_of_space/src/proof_of_space/verifier.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..c179bf2 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,6 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    // 仅当证明确实有效时才接受（Ok(false) 表示证明无效）
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From 2d0336e79fcdcb94bf4b63ebf2b89935468989ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:03 +0000
Subject: [PATCH 02/24] fix: space verifier must not count one challenge
 several times

A prover able to answer a single challenge could claim its index for every
required answer.
---
 proof_of_space/src/proof_of_space/verifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index c179bf2..1a3ee4e 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -29,6 +29,9 @@ pub fn create_challenges(n: usize, end: usize) -> Vec<usize> {
 
 pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key: Fr, m: Fr, challenges: &Vec<usize>, idx_response: &Vec<usize>, x_hash: Fr) {
     //! 验证零知识证明
+    // 每个挑战只能被响应一次
+    assert!(idx_response.windows(2).all(|w| w[0] < w[1]));
+
     let mut verify_input = vec![];
     verify_input.push(key);
     verify_input.push(m);
-- 
2.43.0


From 8f923adb36a8315c4c45f8cff840139e4daf6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:03 +0000
Subject: [PATCH 03/24] fix: hash circuits must bind each inner key to the
 running result

The key used in each hash invocation was a free witness, so any public hash
could be proved without knowing a preimage.
---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 6 ++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..eecde0f 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -36,6 +36,12 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
 
             let key_val = res_val;
             let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            // key = res
+            cs.enforce_constraint(
+                lc!() + res,
+                lc!() + Variable::One,
+                lc!() + key
+            )?;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..97fca9e 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -36,6 +36,12 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
 
             let key_val = res_val;
             let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            // key = res
+            cs.enforce_constraint(
+                lc!() + res,
+                lc!() + Variable::One,
+                lc!() + key
+            )?;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 31d696fc8b519f5f7e23c69bdf4d1157e66b1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:03 +0000
Subject: [PATCH 04/24] fix: power and low-bits circuits must fix their initial
 accumulators

The starting values (1 for the product and the bit weight, 0 for the sum) were
free witnesses, so any public value could be proved.
---
 proof_of_space/src/circuit/equal_circuit.rs | 12 ++++++++++++
 proof_of_space/src/circuit/pow_circuit.rs   |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..7c801cf 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -31,8 +31,20 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
         let mut two_val = Some(F::one());
 
         let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+        // two = 1
+        cs.enforce_constraint(
+            lc!() + two,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
 
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+        // x = 0
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
 
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..440adac 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -25,6 +25,12 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
 
         let mut y_val = Some(F::one());
         let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+        // y = 1
+        cs.enforce_constraint(
+            lc!() + y,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
 
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From eb12f968d5399f0b8c1300e3d270ed85477b5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/24] fix: space-proof circuit must bind m, key, x, the DF
 output and the accumulators

The public m, the key and inputs used by the hash, the decomposed value and the
starting accumulators were free witnesses unrelated to the values they stand
for, so a prover without any stored data could satisfy the circuit.
---
 proof_of_space/src/circuit/pospace_circuit.rs | 53 +++++++++++++++++--
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..df403c1 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -48,11 +48,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let m_var = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+        // 延迟函数与哈希使用同一组x
+        let mut x_vars = vec![];
     
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -69,6 +73,11 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
             // xr = m
             let mut xr_val = m_val;
             let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            cs.enforce_constraint(
+                lc!() + m_var,
+                lc!() + Variable::One,
+                lc!() + xr,
+            )?;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
@@ -128,9 +137,21 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     
                     let mut y_val = Some(Fr::zero());
                     let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    // y = 0
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
 
                     let mut two_val = Some(Fr::one());
                     let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    // two = 1
+                    cs.enforce_constraint(
+                        lc!() + two,
+                        lc!() + Variable::One,
+                        lc!() + Variable::One
+                    )?;
 
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
@@ -183,12 +204,10 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
                         }
 
@@ -207,9 +226,21 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut yn_val = Some(Fr::zero());
                             let mut yn = cs.new_witness_variable(|| yn_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            // yn = 0
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
                             
                             let mut two_val = Some(Fr::one());
                             let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            // two = 1
+                            cs.enforce_constraint(
+                                lc!() + two,
+                                lc!() + Variable::One,
+                                lc!() + Variable::One
+                            )?;
     
                             for m in 0..yn_bits_val.len() {
 
@@ -286,14 +317,26 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
         let mut res_val  = self.key;
         let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        // res = key
+        cs.enforce_constraint(
+            lc!() + key,
+            lc!() + Variable::One,
+            lc!() + res
+        )?;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
             let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            // key = res
+            cs.enforce_constraint(
+                lc!() + res,
+                lc!() + Variable::One,
+                lc!() + key
+            )?;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 11f9bf46134cb89619690e9463eb13580d36e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:07 +0000
Subject: [PATCH 06/24] fix: bit decompositions in circuits must be canonical

256 boolean bits can represent both v and v + modulus; the low bits of the
second differ, so a prover could choose among several positions for one value.
---
 proof_of_space/src/circuit/equal_circuit.rs   | 44 ++++++++++++++++++-
 proof_of_space/src/circuit/pospace_circuit.rs |  4 ++
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 7c801cf..507b4f4 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -8,6 +8,46 @@ use ark_relations::{
 
 pub const INPUT_SIZE: usize = 256;
 
+/// Prove that boolean variables (least significant first) are the canonical
+/// representation of a field element, i.e. that their value is below the modulus.
+///
+/// Without this a value v has a second representation, v + modulus, with other low bits.
+pub fn enforce_canonical_bits<F: Field>(cs: &ConstraintSystemRef<F>, bits: &[(Variable, Option<F>)]) -> Result<(), SynthesisError> {
+    // modulus - 1 (the modulus is odd)
+    let mut max: Vec<u64> = F::characteristic().to_vec();
+    max[0] -= 1;
+
+    // eq = 1 as long as all higher bits are equal to those of max
+    let mut eq_val = Some(F::one());
+    let mut eq = Variable::One;
+    for i in (0..bits.len()).rev() {
+        let (bit, bit_val) = bits[i];
+        if i / 64 < max.len() && (max[i / 64] >> (i % 64)) & 1 == 1 {
+            let new_eq_val = bit_val.map(|mut e| {
+                e.mul_assign(&eq_val.unwrap());
+                e
+            });
+            let new_eq = cs.new_witness_variable(|| new_eq_val.ok_or(SynthesisError::AssignmentMissing))?;
+            cs.enforce_constraint(
+                lc!() + eq,
+                lc!() + bit,
+                lc!() + new_eq
+            )?;
+            eq = new_eq;
+            eq_val = new_eq_val;
+        }
+        else {
+            // eq = 1 -> bit = 0
+            cs.enforce_constraint(
+                lc!() + eq,
+                lc!() + bit,
+                lc!()
+            )?;
+        }
+    }
+    Ok(())
+}
+
 /// Prove two equations: 
 ///
 /// x2 = x_bit
@@ -46,6 +86,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             lc!()
         )?;
 
+        let mut bits = vec![];
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
             let mut bit_val = None;
@@ -64,6 +105,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
                 lc!() + bit,
                 lc!() + bit
             )?;
+            bits.push((bit, bit_val));
             
             // tmp1 = xi * 2^i
             let tmp1_val = bit_val.map(|mut e| {
@@ -128,7 +170,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             x_val = tmp2_val;
         }
 
-        Ok(())
+        enforce_canonical_bits(&cs, &bits)
     }
 }
 
diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index df403c1..a72c57f 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -8,6 +8,7 @@ use ark_relations::{
 };
 
 use crate::proof_of_space::pospace::N;
+use super::equal_circuit::enforce_canonical_bits;
 use crate::mimc::{mimc_df::MIMC5_DF_ROUNDS, mimc_hash::MIMC5_HASH_ROUNDS};
 
 // 延迟函数计算结果所占比特数
@@ -153,6 +154,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         lc!() + Variable::One
                     )?;
 
+                    let mut y_bits = vec![];
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
                         let bit_val = {
@@ -172,6 +174,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             lc!() + bit,
                             lc!() + bit
                         )?;
+                        y_bits.push((bit, bit_val));
                         
                         // tmp1 = yi * 2^i
                         let tmp_val = bit_val.map(|mut e| {
@@ -209,6 +212,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                                 lc!() + Variable::One,
                                 lc!() + xl
                             )?;
+                            enforce_canonical_bits(&cs, &y_bits)?;
                         }
 
                         // 5.证明yn的二进制展开的正确性：yn_bits = yn
-- 
2.43.0


From 00f896ee460e9d08e46ff6b1fc979f1b88365347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:07 +0000
Subject: [PATCH 07/24] fix: converting 64 bits to an integer must not overflow

The weight was doubled once more after the last bit.
---
 proof_of_space/src/proof_of_space/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/proof_of_space/convert.rs b/proof_of_space/src/proof_of_space/convert.rs
index d52ea3d..4d0329a 100644
--- a/proof_of_space/src/proof_of_space/convert.rs
+++ b/proof_of_space/src/proof_of_space/convert.rs
@@ -56,7 +56,7 @@ pub fn bits_to_bytes(x: &Vec<bool>) -> Vec<u8> {
 pub fn bits_to_usize(x: &Vec<bool>) -> usize {
     //! 比特转整型
     let mut res = 0;
-    let mut base = 1;
+    let mut base: usize = 1;
     for i in 0..x.len() {
         res += base * { 
             if x[i] == false {
@@ -66,7 +66,7 @@ pub fn bits_to_usize(x: &Vec<bool>) -> usize {
                 1
             }
         };
-        base *= 2;
+        base = base.wrapping_mul(2);
     }
     res
 }
-- 
2.43.0


From 082c5cfc8d7b86ff836faf9797dd6058c8d5c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:07 +0000
Subject: [PATCH 08/24] fix: round the space size up to whole bytes

For n < 3 the (n+1)*2^n bits are not a whole number of bytes and the last
entries lay past the end of the file.
---
 proof_of_space/src/proof_of_space/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index e9105d9..1484cbc 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -35,7 +35,7 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     let count = base.pow(n.try_into().unwrap());
 
     let buf = [0u8; 1];
-    for _ in 0..(n + 1) * count / 8 {
+    for _ in 0..((n + 1) * count + 7) / 8 {
         file.write_all(&buf).unwrap();
     }
     Ok(())
-- 
2.43.0


From caf71276589682af57a708d38846513829cdb056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:05 +0000
Subject: [PATCH 09/24] fix: complete the field Legendre symbol so that the
 crate compiles

The last branch had no value.
---
 proof_of_storage/src/zk_vde/sloth.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/zk_vde/sloth.rs b/proof_of_storage/src/zk_vde/sloth.rs
index 98621b2..eb9ab13 100644
--- a/proof_of_storage/src/zk_vde/sloth.rs
+++ b/proof_of_storage/src/zk_vde/sloth.rs
@@ -1,7 +1,6 @@
 use ark_ff::Field;
 
-pub fn legendre<F: Field>(mut x: F, p: F) -> F {
-    let mut s = F::one();
+pub fn legendre<F: Field>(x: F, _p: F) -> F {
     if x.clone() == F::zero() {
         return F::zero();
     }
@@ -9,6 +8,13 @@ pub fn legendre<F: Field>(mut x: F, p: F) -> F {
         return F::one();
     }
     else {
+        // Euler: x^((p-1)/2)，p 为域的特征（奇素数）
+        let mut e = F::characteristic().to_vec();
+        for i in 0..e.len() {
+            let high = if i + 1 < e.len() { e[i + 1] << 63 } else { 0 };
+            e[i] = (e[i] >> 1) | high;
+        }
+        x.pow(&e)
     }
 }
 
-- 
2.43.0


From dd06956e6bb4acd2be67a2b9f7c690f4cbbffbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:05 +0000
Subject: [PATCH 10/24] fix: build the Merkle tree of a file from its own
 blocks

Leaves were read one block too far: the first block was not committed to and
the last leaf was past the end of the file.
---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From ed704dbdad90a3851ebb80748e873d2320850311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:05 +0000
Subject: [PATCH 11/24] fix: unseal must read the same long dependencies as
 seal

With a rule-based long dependency mode, unseal read blocks 0, 1, 2, ... instead
of the blocks listed for the current one, and the data was lost.
---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..628d3f5 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -378,7 +378,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
                 }
             }
             else {
-                for i in 0..idxs_l[idx2].len() {
+                for &i in &idxs_l[idx2] {
                     let start = Instant::now();
                     let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
-- 
2.43.0


From c4bd5f677b8291fa5fda16a1092e2edf48d969c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:06 +0000
Subject: [PATCH 12/24] fix: short dependency table covers the units of a
 block, not the blocks

With a rule-based short dependency mode the table was sized by the number of
blocks, which is out of range unless both numbers happen to be equal.
batch_unseal already used the number of units.
---
 proof_of_storage/src/proof_of_storage/prover.rs   | 4 ++--
 proof_of_storage/src/proof_of_storage/verifier.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 628d3f5..94ae344 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 1758b033c195314135bf11ed36ecb187f748ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:06 +0000
Subject: [PATCH 13/24] fix: short dependency rule 2 must not underflow

1 - 2^i does not fit an unsigned integer; the rule panicked for every count
above one with overflow checks on.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..4c4abfd 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -197,13 +197,14 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     let mut flag = false;
     for i in 0..count {
         let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
-        let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
+        let dis = usize::pow(2, i.try_into().unwrap());
         if flag == true {
-            idx = index - dis1;
+            // -1 + 2^i
+            idx = index + dis - 1;
         }
         else {
-            idx = index - dis2;
+            // -1 - 2^i
+            idx = index.wrapping_sub(1 + dis);
         }
         flag = !flag;
 
-- 
2.43.0


From 8a93475c2fd6a8b92dabe3e378ea29a2bcb3a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:06 +0000
Subject: [PATCH 14/24] fix: long dependency rules 2 and 3 must not overflow
 for large counts

2^i overflows from i = 64 on, i.e. for every block from 650 on in mode 3.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 4c4abfd..c95048b 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -24,7 +24,10 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
     for i in 0..count {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
-        let dis = 1 + usize::pow(2, i.try_into().unwrap());
+        let dis = match usize::checked_pow(2, i.try_into().unwrap()) {
+            Some(pow) => 1 + pow,
+            None => break,
+        };
         if index >= dis {
             long_index.push(index - dis);
         }
@@ -39,7 +42,10 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
     for i in 0..count {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
-        let dis = 1 + usize::pow(2, i.try_into().unwrap());
+        let dis = match usize::checked_pow(2, i.try_into().unwrap()) {
+            Some(pow) => 1 + pow,
+            None => break,
+        };
         if index >= dis {
             long_index.push(index - dis);
         }
-- 
2.43.0


From 756a6bbbf7f4e9c5f3338098255395af0386596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:06 +0000
Subject: [PATCH 15/24] fix: hash-driven dependencies must not read past the
 digest

With more than 65536 blocks or units three bytes are used at a time and the
last group started at byte 15 of 16.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index c95048b..ae2c4d8 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -78,7 +78,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -100,7 +100,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
@@ -246,7 +246,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -270,7 +270,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-- 
2.43.0


From 497c688e305753b2ffcd07a03513a2870646fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 16/24] fix: sloth must map 0 to 0

0 was mapped to -1 (stored as 1) and could not be recovered; all other
residues already form a permutation.
---
 proof_of_storage/src/vde/rug_sloth.rs | 9 +++++++++
 proof_of_storage/src/vde/sloth.rs     | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/proof_of_storage/src/vde/rug_sloth.rs b/proof_of_storage/src/vde/rug_sloth.rs
index 6e3525e..62e7b31 100644
--- a/proof_of_storage/src/vde/rug_sloth.rs
+++ b/proof_of_storage/src/vde/rug_sloth.rs
@@ -62,6 +62,11 @@ fn test_legendre() {
 }
 
 pub fn single_sloth(x: &Integer, p: &Integer) -> Integer {
+    // 0 没有平方根可交换，作为不动点
+    if *x == 0 {
+        return Integer::new();
+    }
+
     let flag = legendre(x.clone(), &p);
     // let flag = x.clone().pow_mod(&((p - Integer::from_str("1").unwrap()) / Integer::from_str("2").unwrap()), &p).unwrap();
     let mut y;
@@ -96,6 +101,10 @@ pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
 }
 
 pub fn single_sloth_inv(y: &Integer, p: &Integer) -> Integer {
+    if *y == 0 {
+        return Integer::new();
+    }
+
     let x;
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         x = (y + Integer::from_str("1").unwrap()) % p;
diff --git a/proof_of_storage/src/vde/sloth.rs b/proof_of_storage/src/vde/sloth.rs
index 9099e95..fb219e0 100644
--- a/proof_of_storage/src/vde/sloth.rs
+++ b/proof_of_storage/src/vde/sloth.rs
@@ -54,6 +54,11 @@ pub fn legendre(mut x: BigInt, p: &BigInt) -> BigInt {
 }
 
 pub fn single_sloth(x: &BigInt, p: &BigInt) -> BigInt {
+    // 0 没有平方根可交换，作为不动点
+    if *x == 0.to_bigint().unwrap() {
+        return 0.to_bigint().unwrap();
+    }
+
     let flag = legendre(x.clone(), &p);
     // let flag = x.modpow(&((p - 1.to_bigint().unwrap()) / 2.to_bigint().unwrap()), &p);
     let mut y;
@@ -88,6 +93,10 @@ pub fn sloth(y: &BigInt, p: &BigInt, t: usize) -> BigInt {
 }
 
 pub fn single_sloth_inv(y: &BigInt, p: &BigInt) -> BigInt {
+    if *y == 0.to_bigint().unwrap() {
+        return 0.to_bigint().unwrap();
+    }
+
     let x;
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         x = (y + 1.to_bigint().unwrap()) % p;
-- 
2.43.0


From 389c3eef5959b63ca1c8f99fe7edb5702e6f8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 17/24] fix: read_file must read all requested bytes

A single read may return fewer bytes than asked for (or be interrupted); the
rest was silently left zero.
---
 proof_of_storage/src/proof_of_storage/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 5849075..8ae5b6d 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -77,9 +77,11 @@ fn test() {
 
 pub fn read_file(file: &mut File, begin_idx: usize, len: usize) -> Vec<u8> {
     //! 从 file 的 begin_idx 字节开始，读取 len 字节
-    let mut buf = vec![0; len];
+    let mut buf = Vec::with_capacity(len);
     file.seek(SeekFrom::Start(begin_idx.try_into().unwrap())).unwrap();
-    file.read(&mut buf).unwrap();
+    file.take(len.try_into().unwrap()).read_to_end(&mut buf).unwrap();
+    // 超出文件末尾的部分为 0
+    buf.resize(len, 0);
     buf
 }
 
-- 
2.43.0


From b75accb4056d4c06d5500e4e7da2ce6f50b9c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 18/24] fix: modsub must return the non-negative residue

For a mask above left + p (units shorter than the 32-byte hash) the difference
stayed negative and its magnitude was returned.
---
 proof_of_storage/src/proof_of_storage/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 8ae5b6d..ea2b8f2 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -140,7 +140,9 @@ pub fn modadd(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
 pub fn modsub(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
     let left_int = Integer::from_digits(left, Order::Lsf);
     let right_int = Integer::from_digits(right, Order::Lsf);
-    let res_int = (left_int + p - right_int) % p;
+    // 结果取非负余数
+    let res_int = (left_int - right_int) % p;
+    let res_int = if res_int < 0 { res_int + p } else { res_int };
     let mut res = res_int.to_digits::<u8>(Order::Lsf);
     res.append(&mut vec![0u8; left.len() - res.len()]);
     res
-- 
2.43.0


From 3ae0acdf1a06ce278367a149ba5e272bace0550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 19/24] fix: a byte range must select every block it touches

A range starting inside a block could miss its last block.
---
 proof_of_storage/src/proof_of_storage/verifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index 648e06a..d54df6a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -124,9 +124,9 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 
     let blocks_idx = {
         let mut res = vec![];
-        let mut i = 0;
-        while i * params.block_pl + idx_begin < idx_end {
-            res.push(i + idx_begin / params.block_pl);
+        let mut i = idx_begin / params.block_pl;
+        while idx_begin < idx_end && i * params.block_pl < idx_end {
+            res.push(i);
             i += 1;
         }
         res
-- 
2.43.0


From 98c24bee013711908807f2edec00b52db8bd69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:25 +0000
Subject: [PATCH 20/24] hooks: constructors for circuit structs (cfg vp_hooks),
 small N and answer count (cfg vp_tiny)

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 7 +++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 7 +++++++
 proof_of_space/src/proof_of_space/pospace.rs     | 6 ++++++
 5 files changed, 34 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index b119055..2dce44f 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(vp_hooks)]
+impl<'a, F: Field> MiMC3DFDemo<'a, F> {
+    pub fn vp_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        Self { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index d48845f..3150f15 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(vp_hooks)]
+impl<'a, F: Field> MiMC5DFDemo<'a, F> {
+    pub fn vp_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        Self { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index eecde0f..630ac93 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(vp_hooks)]
+impl<'a, F: Field> MiMC5HashDemo<'a, F> {
+    pub fn vp_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        Self { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 97fca9e..6bef449 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(vp_hooks)]
+impl<'a, F: Field> MiMC7HashDemo<'a, F> {
+    pub fn vp_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        Self { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/proof_of_space/pospace.rs b/proof_of_space/src/proof_of_space/pospace.rs
index 9e72f12..8fea855 100644
--- a/proof_of_space/src/proof_of_space/pospace.rs
+++ b/proof_of_space/src/proof_of_space/pospace.rs
@@ -16,9 +16,15 @@ pub const DATA_DIR: [&str; 4] = [r"src", "proof_of_space", "data", "pos_data"];
 // 验证者生成的挑战个数
 pub const CHALLENGE_COUNT: usize = 100;
 // 证明者需要响应的挑战个数
+#[cfg(not(vp_tiny))]
 pub const RESPONSE_COUNT: usize = 50;
+#[cfg(vp_tiny)]
+pub const RESPONSE_COUNT: usize = 2;
 // x的取值范围[0..2^N]
+#[cfg(not(vp_tiny))]
 pub const N: usize = 20;
+#[cfg(vp_tiny)]
+pub const N: usize = 2;
 
 pub fn prepare_params() -> (Vec<Fr>, Vec<Fr>, Fr, Fr) {
     // 准备计算DF和Hash的参数
-- 
2.43.0


From bb59592adf423b2b26619056431f6a3e96e72b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:25 +0000
Subject: [PATCH 21/24] fix: converting an integer to zero bits must not index
 past the end

---
 proof_of_space/src/proof_of_space/convert.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/proof_of_space/src/proof_of_space/convert.rs b/proof_of_space/src/proof_of_space/convert.rs
index 4d0329a..4bb8d58 100644
--- a/proof_of_space/src/proof_of_space/convert.rs
+++ b/proof_of_space/src/proof_of_space/convert.rs
@@ -76,16 +76,12 @@ pub fn usize_to_bits(x: usize, n: usize) -> Vec<bool> {
     let mut x = x.clone();
     let mut res = vec![false; n];
     let mut i = 0;
-    while x > 0 {
+    while x > 0 && i < n {
         if x % 2 == 1 {
             res[i] = true;
         }
         x = x / 2;
         i += 1;
-        
-        if i >= n {
-            break;
-        }
     }
     res
 }
-- 
2.43.0


From 16f88c7e9f7a2bf48a28d12104522375a0fd96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:25 +0000
Subject: [PATCH 22/24] hooks: short exponent in the power circuit (cfg
 vp_tiny)

---
 proof_of_space/src/circuit/pow_circuit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 440adac..9ef07ea 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -6,7 +6,10 @@ use ark_relations::{
     r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
 };
 
+#[cfg(not(vp_tiny))]
 pub const INPUT_SIZE: usize = 20;
+#[cfg(vp_tiny)]
+pub const INPUT_SIZE: usize = 5;
 
 /// Prove the process of computing g\^x
 /// 
-- 
2.43.0


From a4b9971a3e37ad2fe6f9ff37721b356db6e6a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:48 +0000
Subject: [PATCH 23/24] fix: combine the digest bytes of a random dependency
 index positionally

With more than 256 blocks (or units in a block) an index is made of two or
three digest bytes, but they were summed (j * 256 + byte) instead of weighted
(byte * 256^j), so that only positions below about 770 (256..766 for two
bytes) could ever be chosen.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index ae2c4d8..e07b7bd 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -82,7 +82,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
-                data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
             }
             let depend_idx = data_idx % index;
             long_index.push(depend_idx);
@@ -104,7 +104,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-                    data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                    data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
                 }
                 let depend_idx = data_idx % index;
                 long_index.push(depend_idx);
@@ -250,7 +250,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
-                data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
             }
             let depend_idx = data_idx % num;
             if depend_idx != index {
@@ -274,7 +274,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-                    data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                    data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
                 }
                 let depend_idx = data_idx % num;
                 if depend_idx != index {
-- 
2.43.0


From 273ed697a0d0372ea4af1641b00398d9b7f7fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 24/24] fix: retry interrupted reads of the space file

mark_space and response_1 panicked when a read was interrupted by a signal (EINTR).
---
 proof_of_space/src/proof_of_space/prover.rs | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index 1484cbc..dd74d27 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -1,7 +1,7 @@
 use std::ops::Add;
 use std::str::FromStr;
-use std::fs::OpenOptions;
-use std::io::{SeekFrom, prelude::*};
+use std::fs::{File, OpenOptions};
+use std::io::{ErrorKind, SeekFrom, prelude::*};
 use std::time::Instant;
 
 use ark_bls12_381::{Fr, Bls12_381, Parameters};
@@ -41,6 +41,16 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     Ok(())
 }
 
+fn read_retry(file: &mut File, buf: &mut [u8]) -> usize {
+    //! 读取文件，被信号中断时重试
+    loop {
+        match file.read(buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            r => return r.unwrap(),
+        }
+    }
+}
+
 pub fn mark_space(path: &str, key: Fr, m: Fr, df_constants: &Vec<Fr>, n: usize) -> (f32, f32) {
     //! 计算延迟函数，并将结果修改进存储空间
     // y的前n位作为idx，x作为val，在y位置存储x
@@ -84,7 +94,7 @@ pub fn mark_space(path: &str, key: Fr, m: Fr, df_constants: &Vec<Fr>, n: usize)
         let mut buf = vec![0u8];
         let start = Instant::now();
         file.seek(SeekFrom::Start(yn_byte_idx.try_into().unwrap())).unwrap();
-        file.read(&mut buf).unwrap();
+        read_retry(&mut file, &mut buf);
         file_cost += start.elapsed().as_secs_f32();
         let mut buf_bits = bytes_to_bits(&buf);
 
@@ -107,7 +117,7 @@ pub fn mark_space(path: &str, key: Fr, m: Fr, df_constants: &Vec<Fr>, n: usize)
 
                 let start = Instant::now();
                 file.seek(SeekFrom::Start(yn_byte_idx.try_into().unwrap())).unwrap();
-                file.read(&mut buf).unwrap(); 
+                read_retry(&mut file, &mut buf); 
                 file_cost += start.elapsed().as_secs_f32();
                 buf_bits = bytes_to_bits(&buf);
 
@@ -154,7 +164,7 @@ pub fn response_1(path: &str, challenges: &Vec<usize>, key: Fr, hash_constants:
 
         let mut buf = vec![0u8];
         file.seek(SeekFrom::Start(yn_byte_idx.try_into().unwrap())).unwrap();
-        file.read(&mut buf).unwrap(); 
+        read_retry(&mut file, &mut buf); 
         let mut buf_bits = bytes_to_bits(&buf);
 
         // 待读出字节的比特位的idx
@@ -173,7 +183,7 @@ pub fn response_1(path: &str, challenges: &Vec<usize>, key: Fr, hash_constants:
                 yn_byte_idx += 1;
 
                 file.seek(SeekFrom::Start(yn_byte_idx.try_into().unwrap())).unwrap();
-                file.read(&mut buf).unwrap();
+                read_retry(&mut file, &mut buf);
                 buf_bits = bytes_to_bits(&buf);
 
                 k = 0;
-- 
2.43.0

