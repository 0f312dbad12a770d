From 865c542053a09f7952ebd41d6e03921f4d30f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 01/15] vp_hooks: cfg-guarded entry points for verification
 obligations (off by default)

---
 iris-mpc/src/aby3/protocol.rs     | 5 +++++
 iris-mpc/src/aby3_mal/protocol.rs | 5 +++++
 iris-mpc/src/iris/protocol.rs     | 5 +++++
 iris-mpc/src/lib.rs               | 8 ++++++++
 iris-mpc/src/spdzwise/protocol.rs | 5 +++++
 iris-mpc/src/swift3/protocol.rs   | 5 +++++
 6 files changed, 33 insertions(+)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index ec7dd9a..9b0e132 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -615,3 +615,8 @@ where
         self.binary_add_3_many(x1, x2, x3).await
     }
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/aby3_protocol.rs"));
+}
diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aaca85a..00ead7c 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1355,3 +1355,8 @@ fn clear_and_hash(data: &mut BytesMut) -> Output<Sha512> {
     hasher.update(bytes);
     hasher.finalize()
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/aby3_mal_protocol.rs"));
+}
diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index a62b616..80e4065 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -283,3 +283,8 @@ where
         self.mpc.open_bit(res).await
     }
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/iris_protocol.rs"));
+}
diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 752fb46..59d379a 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 pub(crate) mod aby3;
 pub(crate) mod aby3_mal;
 pub(crate) mod commitment;
@@ -11,3 +12,10 @@ pub(crate) mod swift3;
 pub(crate) mod tests;
 pub(crate) mod traits;
 pub(crate) mod types;
+
+// Verification hooks: compiled only with `--cfg vp_hooks`; the included file is
+// supplied by the verification framework through VP_HOOKS_DIR.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/root.rs"));
+}
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..1b26d7e 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1320,3 +1320,8 @@ where
         self.binary_add_3_many(x1, x2, x3).await
     }
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/spdzwise_protocol.rs"));
+}
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..b7d038c 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2368,3 +2368,8 @@ where
         self.binary_add_3_many(x1, x2, x3).await
     }
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/swift3_protocol.rs"));
+}
-- 
2.43.0


From 37a89b7bd0fa6c2ede7d42a85cb7797b56c93052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 02/15] fix: complementing a Swift3 binary share must
 complement the shared value

---
 iris-mpc/src/swift3/share.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/swift3/share.rs b/iris-mpc/src/swift3/share.rs
index bd52824..e62446f 100644
--- a/iris-mpc/src/swift3/share.rs
+++ b/iris-mpc/src/swift3/share.rs
@@ -410,9 +410,10 @@ impl<T: Sharable> Not for Share<T> {
     type Output = Self;
 
     fn not(self) -> Self {
+        // The value is a1 ^ a2 ^ a3 ^ c, so only the masked value c is complemented.
         Share {
-            a: !self.a,
-            b: !self.b,
+            a: self.a,
+            b: self.b,
             c: !self.c,
             sharetype: PhantomData,
         }
-- 
2.43.0


From 61ba2580ecb8f8bf55f120ee02846b36a0221e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 03/15] fix: splitting an AND triple at bit 127 overflowed an
 i128 mask

A triple of 128 bits added to a register with 127 free bits computed the
mask (1 << 127) - 1 over i128, which overflows (panic with overflow checks).
---
 iris-mpc/src/spdzwise/triples.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/spdzwise/triples.rs b/iris-mpc/src/spdzwise/triples.rs
index c88b572..7fe32ff 100644
--- a/iris-mpc/src/spdzwise/triples.rs
+++ b/iris-mpc/src/spdzwise/triples.rs
@@ -1,6 +1,6 @@
 use crate::{
     prelude::{Aby3Share, Error, Sharable},
-    types::ring_element::RingImpl,
+    types::ring_element::{RingElement, RingImpl},
 };
 
 #[derive(Clone, Debug)]
@@ -118,9 +118,9 @@ impl Triples {
 
         a_.a <<= open as u32;
         a_.b <<= open as u32;
-        let mask = (1 << open) - 1;
-        a_.a |= aa.to_owned() & mask;
-        a_.b |= ab.to_owned() & mask;
+        let mask = RingElement((1u128 << open) - 1);
+        a_.a |= aa.to_owned() & &mask;
+        a_.b |= ab.to_owned() & &mask;
 
         aa >>= open as u32;
         ab >>= open as u32;
-- 
2.43.0


From 4dcecfe9cc01ebf2bcb9f115a54e98ab27db1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 04/15] fix: precompute AND triples when the left-over ones do
 not suffice for a verification

verify_triple_queue consumes at least 2^13 registers of triples, but with
left-over triples more than the requested amount and less than 2^13 no
triples were generated and the next verification failed.
---
 iris-mpc/src/spdzwise/protocol.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 1b26d7e..27573dd 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -752,7 +752,9 @@ where
     async fn precompute_and_triples(&mut self, amount: usize) -> Result<(), Error> {
         let ands = self.prec_triples.len();
         let amount = (amount + 127) / 128; // We allow precomputing as multiples of 128 bit
-        if ands <= amount {
+        // verify_triple_queue always consumes at least 2^20 triples
+        let amount = std::cmp::max(amount, 1usize << (20 - 7));
+        if ands < amount {
             // We have to precompute AND gates
             let prec_triples = self.generate_triples::<ChaCha12Rng>(amount - ands).await?;
             self.prec_triples.extend(prec_triples);
-- 
2.43.0


From 31a080e0f51eeb31819e5560cb09419558015b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 05/15] fix: precompute enough AND triples for a database query

The comparison circuit packs each chunk into registers of 128 bits, so a
chunk of any size consumes whole registers.  The estimate did not account
for the padding and large databases ran out of triples (NotEnoughTriples).
---
 iris-mpc/src/iris/protocol.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 80e4065..3354112 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -241,14 +241,20 @@ where
         self.compare_threshold_many(hwds, mask_lens).await
     }
 
-    pub(crate) fn msb_and_gates(&self, mut amount: usize, chunk_size: usize) -> usize {
+    // The binary circuits operate on packed registers of 128 bits
+    fn padded_to_128(amount: usize) -> usize {
+        (amount + 127) / 128 * 128
+    }
+
+    pub(crate) fn msb_and_gates(&self, amount: usize, chunk_size: usize) -> usize {
         // packed kogge stone, i.e. full a2b: K (2 + 2 * (log_2(K)))
         // let logk = ceil_log2(T::Share::K);
         // amount * T::Share::K * (2 + 2 * logk)
 
-        // ripple carry adder: 2 * K - 2
-        amount = (amount + chunk_size - 1) / chunk_size;
-        amount * chunk_size * (T::Share::K * 2 - 3)
+        // ripple carry adder: 2 * K - 3, where each chunk is packed on its own
+        let lanes = (amount / chunk_size) * Self::padded_to_128(chunk_size)
+            + Self::padded_to_128(amount % chunk_size);
+        lanes * (T::Share::K * 2 - 3)
     }
 
     pub async fn iris_in_db(
@@ -265,9 +271,9 @@ where
         }
 
         // Get enough and triples. So far only relevant for SpdzWise
-        // amount - 1 for or_reduce, but padded for chunk size + msb_extract
-        let num_and_triples = self.msb_and_gates(amount, chunk_size)
-            + ((amount + chunk_size - 2) / chunk_size) * chunk_size;
+        // amount - 1 for or_reduce, but on packed registers + msb_extract
+        let num_and_triples =
+            self.msb_and_gates(amount, chunk_size) + Self::padded_to_128(amount);
         self.mpc.precompute_and_triples(num_and_triples).await?;
 
         let mut bool_shares = Bshare::VecShare::with_capacity(amount);
-- 
2.43.0


From d6a00744b14f652026b7a9c8591a3d6791f62182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 06/15] Hook for the contract of the bit iterator (cfg
 vp_hooks_plain)

---
 plain-reference/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plain-reference/src/lib.rs b/plain-reference/src/lib.rs
index a156e69..e7fcee5 100644
--- a/plain-reference/src/lib.rs
+++ b/plain-reference/src/lib.rs
@@ -226,3 +226,10 @@ mod tests {
         }
     }
 }
+
+// Contract verification of the bit iterator; compiled only with `--cfg vp_hooks_plain`.
+#[cfg(vp_hooks_plain)]
+#[doc(hidden)]
+pub mod vp_hooks {
+    include!(concat!(env!("VP_HOOKS_DIR"), "/plain_hooks.rs"));
+}
-- 
2.43.0


From 24d604e4d754155b63e8de9628e7db9dd90b89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 07/15] fix: reject byte patterns that encode no element when
 iterating over a message

---
 iris-mpc/src/aby3/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..7697f87 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -245,6 +245,12 @@ where
         return Err(Error::ConversionError);
     }
 
+    // Not every byte pattern encodes an element (e.g., for bits), so check before iterating
+    let mut check = bytes.clone();
+    for _ in 0..n {
+        T::take_from_bytes_mut(&mut check)?;
+    }
+
     Ok(RingBytesIter {
         bytes,
         _marker: std::marker::PhantomData,
-- 
2.43.0


From 4d2f221c272ce0a8e31f224de95e2e3b084ed658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 08/15] fix: recognise the constant polynomial one

Poly::is_one asked for degree 1, so it rejected the constant 1 and accepted
x + c.
---
 iris-mpc/src/dzkp/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index 21fde28..52bbe99 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -597,7 +597,7 @@ impl<T: PolyTrait> One for Poly<T> {
     }
 
     fn is_one(&self) -> bool {
-        self.degree() == 1 && self.leading_coeff().is_one()
+        !self.is_zero() && self.degree() == 0 && self.leading_coeff().is_one()
     }
 }
 
-- 
2.43.0


From 9502666163e2f43ddec1266600fa98f8e9d39a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 09/15] fix: divide by polynomials with zero coefficients
 beyond their degree

long_division measured the divisor by the length of its coefficient list but
used the coefficient at its degree as leading coefficient, so a divisor with
trailing zero coefficients gave a wrong quotient and remainder and a zero
divisor panicked.
---
 iris-mpc/src/dzkp/polynomial.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index 52bbe99..076f496 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -90,9 +90,15 @@ impl<T: PolyTrait> Poly<T> {
 
 impl<T: RingImpl> Poly<T> {
     pub fn long_division(&self, other: &Self) -> Result<(Self, Self), Error> {
+        if other.is_zero() {
+            return Err(Error::NoInverseError);
+        }
+        // Coefficients beyond the degree of the divisor are zero and do not count
+        let other_len = other.degree() + 1;
+
         let mut dividend = self.coeffs.clone();
-        let degree = if dividend.len() >= other.coeffs.len() {
-            dividend.len() - other.coeffs.len() + 1
+        let degree = if dividend.len() >= other_len {
+            dividend.len() - other_len + 1
         } else {
             1
         };
@@ -100,10 +106,10 @@ impl<T: RingImpl> Poly<T> {
 
         let inv = other.leading_coeff().inverse()?;
 
-        while dividend.len() >= other.coeffs.len() {
-            let monomial = dividend.len() - other.coeffs.len();
+        while dividend.len() >= other_len {
+            let monomial = dividend.len() - other_len;
             let coeff = dividend.pop().expect("size is not 0") * &inv;
-            for (i, c) in other.coeffs.iter().enumerate().take(other.coeffs.len() - 1) {
+            for (i, c) in other.coeffs.iter().enumerate().take(other_len - 1) {
                 dividend[monomial + i] -= c.to_owned() * &coeff;
             }
             quotient[monomial] = coeff.to_owned();
-- 
2.43.0


From 94a783ef8ddc9c5ae3ff60f287daba98ca9c2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 10/15] fix: honest proofs of multiplications were rejected
 when the leading coefficient of the combined check cancels

combine_verifications compared two polynomials of which only one is reduced
to canonical length; the comparison of the coefficient vectors then fails
although both are equal as polynomials.
---
 iris-mpc/src/dzkp/dot_proof.rs | 2 +-
 iris-mpc/src/dzkp/mul_proof.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/dzkp/dot_proof.rs b/iris-mpc/src/dzkp/dot_proof.rs
index 537e078..c875a60 100644
--- a/iris-mpc/src/dzkp/dot_proof.rs
+++ b/iris-mpc/src/dzkp/dot_proof.rs
@@ -452,7 +452,7 @@ where
 
         let pr_ = Self::g(thetas, f1, self.dot_size) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr1 + pr2 - pr_).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
diff --git a/iris-mpc/src/dzkp/mul_proof.rs b/iris-mpc/src/dzkp/mul_proof.rs
index 80d091a..3812347 100644
--- a/iris-mpc/src/dzkp/mul_proof.rs
+++ b/iris-mpc/src/dzkp/mul_proof.rs
@@ -362,7 +362,7 @@ where
 
         let pr_ = Self::g(thetas, f1) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr1 + pr2 - pr_).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
-- 
2.43.0


From e56dfffbeac010aeda05b43a8a64340210ef2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 11/15] fix: SpdzWise open accepted a manipulated opening

After the MAC check of the shares the values were opened with the passively
secure protocol, so a party could send a wrong component unnoticed. The
missing component is now received from both other parties and compared.
---
 iris-mpc/src/spdzwise/protocol.rs | 41 ++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 27573dd..e3de741 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -872,13 +872,13 @@ where
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
+        let (a, b) = share.get_value().get_ab();
+        let c = self
+            .jmp_send_receive::<T::VerificationShare>(b.to_owned(), a.to_owned())
+            .await?;
+        self.jmp_verify().await?;
 
+        let result = T::VerificationShare::from_sharetype(a + b + c);
         Ok(T::from_verificationshare(result))
     }
 
@@ -886,16 +886,29 @@ where
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        let values = shares.get_values();
+        let len = values.len();
+        let mut shares_a = Vec::with_capacity(len);
+        let mut shares_b = Vec::with_capacity(len);
+
+        for share in values.into_iter() {
+            let (a, b) = share.get_ab();
+            shares_a.push(a);
+            shares_b.push(b);
+        }
 
-        let result = result
+        let shares_c = self
+            .jmp_send_receive_many::<T::VerificationShare>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
+
+        let result = shares_a
             .into_iter()
-            .map(|r| T::from_verificationshare(r))
+            .zip(shares_b)
+            .zip(shares_c)
+            .map(|((a, b), c)| {
+                T::from_verificationshare(T::VerificationShare::from_sharetype(a + b + c))
+            })
             .collect();
 
         Ok(result)
-- 
2.43.0


From 3b1fda95f105a1ceb9fa3ca8770bcb0a1ee8ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 12/15] fix: a failed verification in iris_in_db panics instead
 of reporting the error

---
 iris-mpc/src/iris/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 3354112..5631d13 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -285,7 +285,7 @@ where
 
         let res = self.mpc.reduce_binary_or(bool_shares, chunk_size).await?;
 
-        self.mpc.verify().await.unwrap();
+        self.mpc.verify().await?;
         self.mpc.open_bit(res).await
     }
 }
-- 
2.43.0


From 9c96a79b44126d290066da8fdee2e127f15b8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 13/15] fix: Swift3 input for a non-existing party panics
 instead of reporting an error

---
 iris-mpc/src/swift3/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index b7d038c..e36b3bf 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -1938,6 +1938,9 @@ where
     }
 
     async fn input(&mut self, input: Option<T>, id: usize) -> Result<Share<T>, Error> {
+        if id >= self.network.get_num_parties() {
+            return Err(Error::IdError(id));
+        }
         let self_id = self.get_id();
         if id == self_id && input.is_none() {
             return Err(Error::ValueError("Cannot share None".to_string()));
-- 
2.43.0


From d560a1f6e5eeff6d0cc869af82bfb1093b4bfcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 14/15] fix: Swift3 dot_many silently truncates dot products of
 vectors of different lengths

---
 iris-mpc/src/swift3/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index e36b3bf..fece984 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2255,6 +2255,9 @@ where
         let mut shares_e = Vec::with_capacity(len);
 
         for (a_, b_) in a.iter().cloned().zip(b.iter().cloned()) {
+            if a_.len() != b_.len() {
+                return Err(Error::InvalidSizeError);
+            }
             let mut d = Vec::with_capacity(len);
             let mut e = Vec::with_capacity(len);
 
-- 
2.43.0


From 91fe84293d1b47c2a07a6c603b7dbb5c2dc2b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 15/15] fix: masked_dot_many silently ignores surplus codes or
 masks, and in SpdzWise codes of the wrong length

---
 iris-mpc/src/aby3/protocol.rs     | 2 +-
 iris-mpc/src/spdzwise/protocol.rs | 5 ++++-
 iris-mpc/src/traits/mpc_trait.rs  | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index 9b0e132..3ad0fc3 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -471,7 +471,7 @@ where
         b: &[Vec<Share<T>>],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index e3de741..0e173a1 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1166,7 +1166,7 @@ where
         masks: &[IrisCodeArray],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = b.len();
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || len != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
@@ -1174,6 +1174,9 @@ where
         let mut mac_shares_a = Vec::with_capacity(len);
 
         for (b, mask) in b.iter().zip(masks.iter()) {
+            if a.len() != b.len() {
+                return Err(Error::InvalidSizeError);
+            }
             let mut rand = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
             let mut rand2 = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
 
diff --git a/iris-mpc/src/traits/mpc_trait.rs b/iris-mpc/src/traits/mpc_trait.rs
index d5fff1c..fc90517 100644
--- a/iris-mpc/src/traits/mpc_trait.rs
+++ b/iris-mpc/src/traits/mpc_trait.rs
@@ -54,6 +54,9 @@ pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait> {
         b: &[Ashare::VecShare],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Ashare>, Error> {
+        if b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
         let mut a_vec = Vec::with_capacity(b.len());
         let mut b_vec = Vec::with_capacity(b.len());
 
-- 
2.43.0

