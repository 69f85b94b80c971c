From 6490097f6a769752e1d1af511102b047460e56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 01/51] hook: with cfg(spf_verif), build mux_circuits without
 the absent 32x32 table

---
 mux_circuits/src/mul.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mux_circuits/src/mul.rs b/mux_circuits/src/mul.rs
index f315fa9..f16234a 100644
--- a/mux_circuits/src/mul.rs
+++ b/mux_circuits/src/mul.rs
@@ -63,6 +63,7 @@ pub fn unsigned_multiplier(n: usize, m: usize) -> MuxCircuit {
     match (n, m) {
         (8, 8) => bincode::deserialize(include_bytes!("data/multiplier-n8-m8")).unwrap(),
         (16, 16) => bincode::deserialize(include_bytes!("data/multiplier-n16-m16")).unwrap(),
+        #[cfg(not(spf_verif))]
         (32, 32) => bincode::deserialize(include_bytes!("data/multiplier-n32-m32")).unwrap(),
         _ => multiplier_impl(MultiplierParams { n, m }),
     }
-- 
2.43.0


From 69b05948d889ff259471227e2733554ead05acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/51] hook: with cfg(spf_verif), parasol_concurrency runs on
 instrumented atomics

---
 parasol_concurrency/src/lib.rs          |   9 +-
 parasol_concurrency/src/verif_atomic.rs | 161 ++++++++++++++++++++++++
 2 files changed, 169 insertions(+), 1 deletion(-)
 create mode 100644 parasol_concurrency/src/verif_atomic.rs

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..1c53607 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -5,9 +5,16 @@
 use std::{
     cell::UnsafeCell,
     ops::{Deref, DerefMut},
-    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
 };
 
+#[cfg(not(spf_verif))]
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+
+#[cfg(spf_verif)]
+pub mod verif_atomic;
+#[cfg(spf_verif)]
+use verif_atomic::{AtomicBool, AtomicUsize, Ordering};
+
 use serde::{Deserialize, Serialize};
 
 /// Similar to [std::cell::RefCell], but works in a concurrent setting.
diff --git a/parasol_concurrency/src/verif_atomic.rs b/parasol_concurrency/src/verif_atomic.rs
new file mode 100644
index 0000000..5868b35
--- /dev/null
+++ b/parasol_concurrency/src/verif_atomic.rs
@@ -0,0 +1,161 @@
+//! Instrumented stand-ins for the std atomics used by this crate, compiled only with
+//! `--cfg spf_verif`. Each atomic step first reports itself to a monitor registered for the
+//! current thread, which may suspend the thread (the harness thus owns the schedule) and sees
+//! the memory ordering used. Threads without a monitor behave as with std.
+
+use std::{
+    cell::RefCell,
+    fmt::Debug,
+    ops::Deref,
+    sync::{Arc, atomic},
+};
+
+pub use std::sync::atomic::Ordering;
+
+/// An atomic step that is about to happen (or, in [`Monitor::after`], did happen).
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Step {
+    /// A load.
+    Load(Ordering),
+    /// A store.
+    Store(Ordering),
+    /// A read-modify-write; for a failed compare-exchange only the load ordering applies.
+    Rmw(Ordering),
+    /// A compare-exchange that has not been decided yet (reported before it happens only).
+    Cas(Ordering, Ordering),
+}
+
+/// Observes atomic steps.
+pub trait Monitor: Send + Sync {
+    /// Called before a step on the atomic at `addr`.
+    fn before(&self, addr: usize, step: Step);
+    /// Called after a step on the atomic at `addr`.
+    fn after(&self, addr: usize, step: Step);
+}
+
+thread_local! {
+    static MONITOR: RefCell<Option<Arc<dyn Monitor>>> = const { RefCell::new(None) };
+}
+
+/// Register (or remove) the monitor of the current thread.
+pub fn set_monitor(m: Option<Arc<dyn Monitor>>) {
+    MONITOR.with(|x| *x.borrow_mut() = m);
+}
+
+fn step<T>(addr: usize, before: Step, f: impl FnOnce() -> (T, Step)) -> T {
+    let m = MONITOR.with(|x| x.borrow().clone());
+    match m {
+        Some(m) => {
+            m.before(addr, before);
+            let (r, after) = f();
+            m.after(addr, after);
+            r
+        }
+        None => f().0,
+    }
+}
+
+macro_rules! instrumented {
+    ($name:ident, $t:ty) => {
+        /// See the module documentation.
+        #[derive(Debug, Default)]
+        pub struct $name(atomic::$name);
+
+        impl $name {
+            /// As std.
+            pub const fn new(v: $t) -> Self {
+                Self(atomic::$name::new(v))
+            }
+
+            fn addr(&self) -> usize {
+                &self.0 as *const _ as usize
+            }
+
+            /// As std.
+            pub fn load(&self, o: Ordering) -> $t {
+                step(self.addr(), Step::Load(o), || (self.0.load(o), Step::Load(o)))
+            }
+
+            /// As std.
+            pub fn store(&self, v: $t, o: Ordering) {
+                step(self.addr(), Step::Store(o), || {
+                    (self.0.store(v, o), Step::Store(o))
+                })
+            }
+
+            /// As std.
+            pub fn swap(&self, v: $t, o: Ordering) -> $t {
+                step(self.addr(), Step::Rmw(o), || (self.0.swap(v, o), Step::Rmw(o)))
+            }
+
+            /// As std.
+            pub fn compare_exchange(
+                &self,
+                c: $t,
+                n: $t,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<$t, $t> {
+                step(self.addr(), Step::Cas(s, f), || {
+                    let r = self.0.compare_exchange(c, n, s, f);
+                    let done = if r.is_ok() { Step::Rmw(s) } else { Step::Load(f) };
+                    (r, done)
+                })
+            }
+
+            /// As std, without spurious failures.
+            pub fn compare_exchange_weak(
+                &self,
+                c: $t,
+                n: $t,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<$t, $t> {
+                self.compare_exchange(c, n, s, f)
+            }
+
+            /// As std.
+            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
+                &self,
+                s: Ordering,
+                f: Ordering,
+                mut u: F,
+            ) -> Result<$t, $t> {
+                let mut prev = self.load(f);
+                while let Some(next) = u(prev) {
+                    match self.compare_exchange_weak(prev, next, s, f) {
+                        Ok(x) => return Ok(x),
+                        Err(x) => prev = x,
+                    }
+                }
+                Err(prev)
+            }
+
+            instrumented!(@rmw $t, fetch_and, fetch_or, fetch_xor, fetch_nand);
+        }
+
+        // Anything else behaves as std, without being reported.
+        impl Deref for $name {
+            type Target = atomic::$name;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+    };
+    (@rmw $t:ty, $($op:ident),*) => {
+        $(
+            /// As std.
+            pub fn $op(&self, v: $t, o: Ordering) -> $t {
+                step(self.addr(), Step::Rmw(o), || (self.0.$op(v, o), Step::Rmw(o)))
+            }
+        )*
+    };
+}
+
+instrumented!(AtomicBool, bool);
+instrumented!(AtomicUsize, usize);
+
+impl AtomicUsize {
+    instrumented!(@rmw usize, fetch_add, fetch_sub, fetch_max, fetch_min);
+}
-- 
2.43.0


From 9d9750372b7d39ab661c2e7701ea5db96e55d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/51] hook: with cfg(spf_verif), sunscreen_tfhe randomness is
 seedable; scratch and simd visible, kernel choice restrictable

---
 sunscreen_tfhe/src/lib.rs                  |  5 ++
 sunscreen_tfhe/src/math/mod.rs             |  5 ++
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 34 +++++++++++++
 sunscreen_tfhe/src/rand.rs                 | 59 +++++++++++++++++++++-
 4 files changed, 102 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..f1ed3e8 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -28,7 +28,12 @@ mod macros;
 
 /// Random number generation.
 pub mod rand;
+#[cfg(not(spf_verif))]
 mod scratch;
+/// Scratch memory, visible to the verification harness.
+#[cfg(spf_verif)]
+#[allow(missing_docs)]
+pub mod scratch;
 
 /// A high-level API for interfacing with TFHE. Allocates, computes with and returns
 /// objects as you would expect from a Rust API.
diff --git a/sunscreen_tfhe/src/math/mod.rs b/sunscreen_tfhe/src/math/mod.rs
index 4d009b8..e9864b4 100644
--- a/sunscreen_tfhe/src/math/mod.rs
+++ b/sunscreen_tfhe/src/math/mod.rs
@@ -18,7 +18,12 @@ pub use torus::*;
 mod basic;
 pub use basic::*;
 
+#[cfg(not(spf_verif))]
 pub(crate) mod simd;
+/// Vector kernels, visible to the verification harness.
+#[cfg(spf_verif)]
+#[allow(missing_docs)]
+pub mod simd;
 
 /// Types where the roots of unity in the given field can be found.
 pub trait RootOfUnity
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..3f05b92 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -11,8 +11,32 @@ use crate::{
     simd::{VectorOps, scalar},
 };
 
+/// Lets the verification harness restrict which kernels dispatch may pick on this thread
+/// (0: scalar, 1: up to AVX2, 2: no restriction).
+#[cfg(spf_verif)]
+pub mod verif_isa {
+    use std::cell::Cell;
+
+    thread_local! {
+        static MAX_LEVEL: Cell<u8> = const { Cell::new(2) };
+    }
+
+    pub fn max_level() -> u8 {
+        MAX_LEVEL.with(|x| x.get())
+    }
+
+    pub fn set_max_level(level: u8) {
+        MAX_LEVEL.with(|x| x.set(level))
+    }
+}
+
 #[inline(always)]
 fn avx_512_available() -> bool {
+    #[cfg(spf_verif)]
+    if verif_isa::max_level() < 2 {
+        return false;
+    }
+
     static AVX512_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX512_AVAILABLE.get_or_init(|| {
@@ -26,6 +50,11 @@ fn avx_512_available() -> bool {
 
 #[inline(always)]
 fn avx2_available() -> bool {
+    #[cfg(spf_verif)]
+    if verif_isa::max_level() < 1 {
+        return false;
+    }
+
     static AVX2_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX2_AVAILABLE.get_or_init(|| {
@@ -39,6 +68,11 @@ fn avx2_available() -> bool {
 
 #[inline(always)]
 fn fma_available() -> bool {
+    #[cfg(spf_verif)]
+    if verif_isa::max_level() < 1 {
+        return false;
+    }
+
     static FMA_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *FMA_AVAILABLE.get_or_init(|| {
diff --git a/sunscreen_tfhe/src/rand.rs b/sunscreen_tfhe/src/rand.rs
index ede55d7..35356d1 100644
--- a/sunscreen_tfhe/src/rand.rs
+++ b/sunscreen_tfhe/src/rand.rs
@@ -1,6 +1,8 @@
 use std::fmt::Debug;
 
-use rand::{Rng, RngCore, thread_rng};
+#[cfg(not(spf_verif))]
+use rand::thread_rng;
+use rand::{Rng, RngCore};
 use rand_distr::Normal;
 use serde::{Deserialize, Serialize};
 
@@ -54,6 +56,61 @@ pub fn normal_torus_polynomial<S: TorusOps>(out: &mut PolynomialRef<Torus<S>>, s
     }
 }
 
+#[cfg(spf_verif)]
+use verif_rng::thread_rng;
+
+/// A drop-in for [`rand::thread_rng`] that the verification harness can seed per thread,
+/// so that a generated case is a pure function of its input. Unseeded threads keep using
+/// [`rand::thread_rng`].
+#[cfg(spf_verif)]
+pub mod verif_rng {
+    use std::cell::RefCell;
+
+    use rand::{Error, RngCore, SeedableRng, rngs::StdRng};
+
+    thread_local! {
+        static SEEDED: RefCell<Option<StdRng>> = const { RefCell::new(None) };
+    }
+
+    /// Seed (or with [`None`], unseed) this thread's source of randomness.
+    pub fn seed(seed: Option<u64>) {
+        SEEDED.with(|r| *r.borrow_mut() = seed.map(StdRng::seed_from_u64));
+    }
+
+    /// See the module documentation.
+    pub struct VerifRng;
+
+    /// See the module documentation.
+    pub fn thread_rng() -> VerifRng {
+        VerifRng
+    }
+
+    impl RngCore for VerifRng {
+        fn next_u32(&mut self) -> u32 {
+            self.next_u64() as u32
+        }
+
+        fn next_u64(&mut self) -> u64 {
+            SEEDED.with(|r| match r.borrow_mut().as_mut() {
+                Some(r) => r.next_u64(),
+                None => rand::thread_rng().next_u64(),
+            })
+        }
+
+        fn fill_bytes(&mut self, dest: &mut [u8]) {
+            SEEDED.with(|r| match r.borrow_mut().as_mut() {
+                Some(r) => r.fill_bytes(dest),
+                None => rand::thread_rng().fill_bytes(dest),
+            })
+        }
+
+        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+            self.fill_bytes(dest);
+            Ok(())
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::mem::transmute_copy;
-- 
2.43.0


From 6e315b2efd275bc30a4f6ef75c0032d91962ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 04/51] fix: decode messages of 32 or more plaintext bits on a
 64-bit torus

The mask was computed in 32 bits.
---
 sunscreen_tfhe/src/math/torus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..19ce18b 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,7 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let mask = S::from_u64((0x1u64 << plain_bits.0) - 1);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From 18a64e857ab80a5207bd7936b8b9127584f1acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 05/51] fix: div_rounded rounds to the nearest integer for odd,
 unit and negative divisors

---
 sunscreen_tfhe/src/math/basic.rs | 36 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..d4ccb78 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -16,7 +16,29 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+                if r != 0 && r >= divisor - r { q + 1 } else { q }
+            }
+        }
+    };
+}
+
+macro_rules! div_rounded_signed {
+    ($t:ty) => {
+        impl RoundedDiv for $t {
+            #[inline(always)]
+            fn div_rounded(&self, divisor: $t) -> $t {
+                // As above, but the division truncates towards zero, so the
+                // rounding step moves away from zero.
+                let q = self / divisor;
+                let r = (self % divisor).unsigned_abs();
+
+                if r == 0 || r < divisor.unsigned_abs() - r {
+                    q
+                } else if (*self < 0) == (divisor < 0) {
+                    q + 1
+                } else {
+                    q - 1
+                }
             }
         }
     };
@@ -28,12 +50,12 @@ div_rounded!(u32);
 div_rounded!(u64);
 div_rounded!(u128);
 div_rounded!(usize);
-div_rounded!(i8);
-div_rounded!(i16);
-div_rounded!(i32);
-div_rounded!(i64);
-div_rounded!(i128);
-div_rounded!(isize);
+div_rounded_signed!(i8);
+div_rounded_signed!(i16);
+div_rounded_signed!(i32);
+div_rounded_signed!(i64);
+div_rounded_signed!(i128);
+div_rounded_signed!(isize);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 399dc00cc23dce77e6c56c671ac65d7375987a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 06/51] fix: radix decompositions whose digits cover the whole
 torus word

RadixDecomposition documents count * radix_log == BITS as valid, but rounding
then shifted by minus one and the polynomial iterator refused it.
---
 sunscreen_tfhe/src/math/radix.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 21e71bd..b1eeaa7 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -83,7 +83,7 @@ where
         scratch: &'a mut PolynomialRef<S>,
         radix: &RadixDecomposition,
     ) -> Self {
-        assert!(radix.radix_log.0 * radix.count.0 < S::BITS as usize);
+        assert!(radix.radix_log.0 * radix.count.0 <= S::BITS as usize);
         assert_ne!(radix.radix_log.0 * radix.count.0, 0);
 
         poly.map_into(scratch, |x| round(*x, radix));
@@ -156,6 +156,12 @@ pub fn scale_by_decomposition_factor<S: TorusOps>(
 /// Rounds the given [`Torus`] element and returns the value interpreted as an integer.
 fn round<S: TorusOps>(x: Torus<S>, radix: &RadixDecomposition) -> S {
     let shift = S::BITS as usize - radix.radix_log.0 * radix.count.0;
+
+    // The digits cover the entire word, so there is nothing to round.
+    if shift == 0 {
+        return x.inner();
+    }
+
     let round_bit = (x.inner() >> (shift - 1)) & S::from_u64(0x1);
 
     (x.inner() >> shift).wrapping_add(&round_bit)
-- 
2.43.0


From b1667ad6ed2c009c0e6c5b8123e3afda32f9e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 07/51] fix: u64 vector subtraction without AVX2 subtracts

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index 3f05b92..a8c07e7 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -184,7 +184,7 @@ impl VectorOps for u64 {
         if avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From 1b7b18af03c7ec8a8c2dc81cb966150ff83c52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 08/51] fix: AVX-512 scalar multiply-add must not touch memory
 past its slices

The kernel handles 16 aligned words at a time; use it only on slices it covers exactly.
---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index a8c07e7..d5679b6 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -208,7 +208,15 @@ impl VectorOps for u64 {
 
     #[inline(always)]
     fn vector_scalar_mad(c: &mut [Self], a: &[Self], s: Self) {
-        if avx_512_available() {
+        // The AVX-512 kernel works on pairs of aligned 512-bit vectors.
+        let align = core::mem::align_of::<__m512d>();
+
+        if avx_512_available()
+            && c.len() == a.len()
+            && c.len() % 16 == 0
+            && c.as_ptr().align_offset(align) == 0
+            && a.as_ptr().align_offset(align) == 0
+        {
             avx512::vector_scalar_mad(c, a, s);
         } else {
             scalar::vector_scalar_mad(c, a, s);
-- 
2.43.0


From 67328d6e7fe84c7d0e091bb9eb019790d935380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 09/51] fix: reduce exactly -q/2 to q/2 and not to q/2 - 1

q/2 does not fit the signed word the value is converted through, so it saturated.
---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 2 +-
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..8402fd6 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -110,7 +110,7 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..73218ee 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -116,7 +116,7 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
-- 
2.43.0


From 4be6278b0f5dbe88dee13609bbebe239ed1c39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 10/51] fix: encrypt_rlev_ciphertext must not print the
 plaintext

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From 72c11c5fa787007154d878e3f22ce481b11b70a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 11/51] fix: secret-key GLWE encryption must overwrite the body
 of its output

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..0198cf7 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -30,6 +30,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     let mut tmp = Polynomial::zero(params.dim.polynomial_degree.0);
 
     let (a, b) = c.a_b_mut(params);
+    b.clear();
 
     // tmp = A_i * S_i
     for (a_i, s_i) in a.zip(sk.s(params)) {
-- 
2.43.0


From 2634185448b6c15270a81c435e3d0d4b49691c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 12/51] fix: public functional keyswitch must zero the
 polynomial it passes to the map

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From 56064ded4e0e1a50276ce3e3c93b5df5d640370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 13/51] fix: private functional keyswitch must not accumulate
 into its output

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..cdb6475 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From ecad715f181b01d981db8f6169b8f9499e8a0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 14/51] fix: scheme_switch_fft must not accumulate into its
 output

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..2ddb185 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -265,6 +265,7 @@ fn scheme_switch_glwe_operation<S>(
     let a_i = x_i.a(params);
 
     // Generate encrypted secret key component for this specific GLWE
+    y_i_j.clear();
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
     // Process each polynomial in the mask
-- 
2.43.0


From b849b8b1f623b555c2b0db7fe41dd5e317cd3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 15/51] fix: high-level glev_cmux sizes its result like its
 operands, not like the selector

---
 sunscreen_tfhe/src/high_level.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/high_level.rs b/sunscreen_tfhe/src/high_level.rs
index 5945914..0108708 100644
--- a/sunscreen_tfhe/src/high_level.rs
+++ b/sunscreen_tfhe/src/high_level.rs
@@ -929,7 +929,7 @@ pub mod evaluation {
     use num::Complex;
 
     use crate::{
-        GlweDef, LweDef, RadixDecomposition,
+        GlweDef, LweDef, RadixCount, RadixDecomposition,
         entities::{
             AutomorphismKeyFftRef, BootstrapKeyFft, BootstrapKeyFftRef, GgswCiphertextFft,
             GgswCiphertextFftRef, GlevCiphertext, GlevCiphertextRef, GlweCiphertext,
@@ -1002,7 +1002,13 @@ pub mod evaluation {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) -> GlevCiphertext<u64> {
-        let mut result = GlevCiphertext::new(params, radix);
+        // The result has as many levels as its operands, which need not be as many as `b_fft` has.
+        let levels = d_0.glwe_ciphertexts(params).len();
+        let glev_radix = RadixDecomposition {
+            count: RadixCount(levels),
+            ..*radix
+        };
+        let mut result = GlevCiphertext::new(params, &glev_radix);
 
         crate::ops::fft_ops::glev_cmux(&mut result, d_0, d_1, b_fft, params, radix);
 
-- 
2.43.0


From 05629f0dbdee399840fb8024826af22dbd4538da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 16/51] fix: entity iterators report the number of items left

---
 sunscreen_tfhe/src/dst.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..9ee0501 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx + self.stride as i64 - self.front_idx as i64) as usize / self.stride
                 }
             }
 
@@ -203,6 +203,13 @@ macro_rules! dst_iter {
 
                     Some(data)
                 }
+
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::DoubleEndedIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
@@ -361,6 +368,13 @@ macro_rules! dst_iter {
 
                     Some(<$item_ref<T> as crate::dst::FromMutSlice<$wrapper_type<T>>>::from_mut_slice(slice))
                 }
+
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::ExactSizeIterator for $t_mut<'a, T> where T: Clone $(+ $t_bounds)* {
-- 
2.43.0


From 1a8a3c53b3a572f5f769874514255dff45fa8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 17/51] fix: a refused AtomicRefCell::borrow must not release
 the mutable borrow it met

---
 parasol_concurrency/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index 1c53607..68304b4 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -80,15 +80,18 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        // A refused borrow must leave the state alone: counting it, even for a moment, would make
+        // a mutably borrowed cell look available.
+        let res = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |old| {
+                (old != 0 && old < usize::MAX / 2).then(|| old + 1)
+            });
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
-            panic!("AtomicRefCell says I think you have enough references, buddy.");
+        match res {
+            Ok(_) => {}
+            Err(0) => panic!("AtomicRefCell already borrowed as mut"),
+            Err(_) => panic!("AtomicRefCell says I think you have enough references, buddy."),
         }
 
         Ref {
-- 
2.43.0


From 4aaf42683c6c1ccdddd2773b4f72e9549dedb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 18/51] fix: number_combinations overflowed in intermediate
 products

---
 sunscreen_math/src/combination.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/combination.rs b/sunscreen_math/src/combination.rs
index 683fe5f..e1262ae 100644
--- a/sunscreen_math/src/combination.rs
+++ b/sunscreen_math/src/combination.rs
@@ -38,12 +38,13 @@ fn number_combinations(n: usize, mut k: usize) -> usize {
         k = n - k;
     }
 
-    let mut result = 1;
+    // The product can exceed a usize even when the number of combinations doesn't.
+    let mut result = 1u128;
     for i in 1..=k {
-        result = result * (n - k + i) / i;
+        result = result * (n - k + i) as u128 / i as u128;
     }
 
-    result
+    result as usize
 }
 
 /// Errors that can occur when getting the index of a combination.
-- 
2.43.0


From 1411b32129d1fe32f406e7007743a3dfbe07036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 19/51] fix: polynomial equality ignored the leading
 coefficient

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From 5ab93916702b41e2a327e7b292453ba64491547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 20/51] fix: polynomial division accepted divisors it documents
 as refused and divided them wrongly

---
 sunscreen_math/src/poly/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..bf85235 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,20 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert!(
+            rhs.coeffs[rhs_degree] == R::one(),
+            "The divisor's leading non-zero coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From 8141b1d992004c7a21010e20352784c2c83e2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 21/51] fix: integer helpers of mux_circuits at the full word
 width

---
 mux_circuits/src/util.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 2051b18..81831d1 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -31,7 +31,11 @@ pub fn arbitrary_width_borrowing_sub(
     borrow: u128,
     width: u32,
 ) -> (u128, u128) {
-    let diff_mask = (0x1 << width) - 1;
+    let diff_mask = if width < u128::BITS {
+        (0x1 << width) - 1
+    } else {
+        u128::MAX
+    };
 
     let (diff, borrow) = borrowing_sub(lhs, rhs, borrow != 0);
 
@@ -47,7 +51,7 @@ pub fn arbitrary_width_borrowing_sub(
 pub fn try_to_bits(val: u64, bits: usize) -> Result<Vec<Bit>, Error> {
     let mut result = vec![Bit(false); bits];
 
-    if val >= 0x1 << bits {
+    if bits < u64::BITS as usize && val >= 0x1 << bits {
         return Err(Error::OutOfRange);
     }
 
-- 
2.43.0


From 22b4b1c0b3838aa85b4550474837cf09e268a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 22/51] fix: mux circuit optimization of identical gates
 sharing several edges or merged operands

---
 mux_circuits/src/opt.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mux_circuits/src/opt.rs b/mux_circuits/src/opt.rs
index 21029ed..e1dc9b0 100644
--- a/mux_circuits/src/opt.rs
+++ b/mux_circuits/src/opt.rs
@@ -336,10 +336,18 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
         let mut visited_nodes =
             HashMap::<(NodeIndex, Option<NodeIndex>, Option<NodeIndex>, &O), NodeIndex>::new();
 
+        // Children already consolidated into another one.
+        let mut removed_nodes = HashSet::<NodeIndex>::new();
+
         // Look through out immediate children. If we find any of the
         // type that share an edge with another node, consolidate them into
         // one and fix up their outputs.
         for e in query.neighbors_directed(index, Direction::Outgoing) {
+            // A child with multiple edges from this node appears once per edge.
+            if removed_nodes.contains(&e) {
+                continue;
+            }
+
             // Unwrapping is okay because index e is a node in the graph.
             let child_node = query.get_node(e).unwrap();
 
@@ -349,6 +357,11 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
                 let node_to_add = TransformNodeIndex::NodeIndex(node_to_add);
 
                 for e in query.edges_directed(removed_node, Direction::Outgoing) {
+                    // The target itself may have been consolidated.
+                    if removed_nodes.contains(&e.target()) {
+                        continue;
+                    }
+
                     let edge = TransformNodeIndex::NodeIndex(e.target());
                     let info = e.weight();
 
@@ -358,6 +371,8 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
                 transforms.push(Transform::RemoveNode(TransformNodeIndex::NodeIndex(
                     removed_node,
                 )));
+
+                removed_nodes.insert(removed_node);
             };
 
             let child_op = child_node;
-- 
2.43.0


From 12e38e28bcebba4917dd8b1c89f8aab678c5b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 23/51] fix: test_mux_circuit returns outputs by their index
 and accepts sparse graphs

---
 mux_circuits/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mux_circuits/src/lib.rs b/mux_circuits/src/lib.rs
index 6ce161b..b324037 100644
--- a/mux_circuits/src/lib.rs
+++ b/mux_circuits/src/lib.rs
@@ -13,7 +13,7 @@ use petgraph::{
     Direction,
     graph::NodeIndex,
     stable_graph::{EdgeReference, StableGraph},
-    visit::{EdgeRef, NodeRef},
+    visit::{EdgeRef, NodeIndexable, NodeRef},
 };
 use serde::{Deserialize, Serialize};
 
@@ -455,7 +455,7 @@ pub fn test_mux_circuit(circuit: &MuxCircuit, inputs: &[Bit]) -> Vec<Bit> {
             .count()
     );
 
-    let mut data = vec![false; circuit.graph.node_count()];
+    let mut data = vec![false; circuit.graph.node_bound()];
 
     forward_traverse(&circuit.graph, |query, n| {
         let node = query.get_node(n).unwrap();
@@ -506,7 +506,7 @@ pub fn test_mux_circuit(circuit: &MuxCircuit, inputs: &[Bit]) -> Vec<Bit> {
         })
         .collect::<Vec<_>>();
 
-    outputs.sort();
+    outputs.sort_by_key(|(_, idx)| *idx);
     outputs.iter().map(|(x, _)| Bit(data[x.index()])).collect()
 }
 
-- 
2.43.0


From b09a1937feebbc317569623d470e576a0502ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 24/51] fix: multiply integers whose recursion meets blocks of
 unequal width, and into GLEV outputs

---
 parasol_runtime/src/circuits/mul.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 7185e79..d1862c2 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -130,9 +130,9 @@ fn mul_impl<OutCt: Muxable>(
 
         let adder_inputs = hi
             .iter()
-            .zip(a_hi_b_lo.iter().take(a_lo_len))
+            .zip(a_hi_b_lo.iter().take(b_lo_len))
             .flat_map(|(x, y)| [*x, *y])
-            .chain(a_hi_b_lo.iter().skip(a_lo_len).copied())
+            .chain(a_hi_b_lo.iter().skip(b_lo_len).copied())
             .map(|x| {
                 insert_ciphertext_conversion(
                     uop_graph,
@@ -143,7 +143,10 @@ fn mul_impl<OutCt: Muxable>(
             }) // Convert the ciphertexts back to GGSW
             .collect::<Vec<_>>();
 
-        let sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+        let mut sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+
+        // The product fits in a.len() + b.len() bits, so the adder's carry out is always zero.
+        sum_out.truncate(a_hi_len + b_lo_len);
 
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
@@ -180,7 +183,7 @@ fn mul_impl<OutCt: Muxable>(
                 insert_ciphertext_conversion(
                     uop_graph,
                     x,
-                    CiphertextType::L1GlweCiphertext,
+                    OutCt::CIPHERTEXT_TYPE,
                     CiphertextType::L1GgswCiphertext,
                 )
             })
-- 
2.43.0


From e983e7d5fa60c1d24cd7cf3ba8550b6c9e24c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 25/51] fix: keep node handles valid across fluent
 multiplication

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 41 +++++++------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index f674268..6470e8d 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -6,7 +6,7 @@ use mux_circuits::{
     sub::full_subtractor,
 };
 use petgraph::stable_graph::NodeIndex;
-use std::marker::PhantomData;
+use std::{collections::HashSet, marker::PhantomData};
 
 use crate::{
     Encryption, FheEdge, FheOp, L1GgswCiphertext, L1GlweCiphertext,
@@ -14,7 +14,6 @@ use crate::{
         BitNode, CiphertextOps, DynamicGenericInt, FheCircuitCtx, Muxable,
         PackedDynamicGenericIntGraphNode, Sign,
     },
-    prune,
 };
 
 /// A collection of graph nodes resulting from FHE operations over dynamic generic integers (e.g. the
@@ -485,35 +484,25 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let mut circuit_mut = ctx.circuit.borrow_mut();
 
         // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
-        let existing_outputs = circuit_mut
-            .node_indices()
-            .filter(|x| {
-                let node_type = matches!(
-                    circuit_mut.node_weight(*x).unwrap(),
-                    FheOp::OutputGgsw1(_)
-                        | FheOp::OutputGlev1(_)
-                        | FheOp::OutputGlwe1(_)
-                        | FheOp::OutputLwe0(_)
-                        | FheOp::OutputLwe1(_)
-                );
-
-                node_type
-                    && circuit_mut
-                        .neighbors_directed(*x, petgraph::Direction::Outgoing)
-                        .count()
-                        == 0
-            })
-            .collect::<Vec<_>>();
+        let mut live = circuit_mut.node_indices().collect::<HashSet<_>>();
 
         let (lo, _hi) = V::append_multiply::<OutCt>(&mut circuit_mut, &a, &b);
 
-        let to_keep = [lo.clone(), existing_outputs].concat();
+        // Remove the nodes we just added that don't contribute to the low word. Nodes that were
+        // already in the circuit must stay where they are, as callers may still hold them.
+        let mut to_visit = lo.clone();
 
-        let (pruned, rename) = prune(&circuit_mut, &to_keep);
-        circuit_mut.graph = pruned;
+        while let Some(node) = to_visit.pop() {
+            if live.insert(node) {
+                to_visit
+                    .extend(circuit_mut.neighbors_directed(node, petgraph::Direction::Incoming));
+            }
+        }
 
-        let lo = lo.into_iter().map(|x| *rename.get(&x).unwrap());
+        circuit_mut
+            .graph
+            .retain_nodes(|_, node| live.contains(&node));
 
-        DynamicGenericIntGraphNodes::from_nodes(lo, &ctx.allocator)
+        DynamicGenericIntGraphNodes::from_nodes(lo.into_iter(), &ctx.allocator)
     }
 }
-- 
2.43.0


From 4ae413bf9209db0f47d90b91c304ed0554036272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 26/51] fix: cache trivial constants of every ciphertext type

---
 parasol_runtime/src/fluent/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/fluent/mod.rs b/parasol_runtime/src/fluent/mod.rs
index 2eb68b9..dbded84 100644
--- a/parasol_runtime/src/fluent/mod.rs
+++ b/parasol_runtime/src/fluent/mod.rs
@@ -50,8 +50,8 @@ pub use uint::*;
 pub struct FheCircuitCtx {
     /// The underlying [`FheCircuit`].
     pub circuit: AtomicRefCell<FheCircuit>,
-    one_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
-    zero_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
+    one_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
+    zero_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
     allocator: Bump,
 }
 
@@ -66,8 +66,8 @@ impl FheCircuitCtx {
     pub fn new() -> Self {
         Self {
             circuit: AtomicRefCell::new(FheCircuit::new()),
-            one_cache: AtomicRefCell::new([None; 4]),
-            zero_cache: AtomicRefCell::new([None; 4]),
+            one_cache: AtomicRefCell::new([None; 5]),
+            zero_cache: AtomicRefCell::new([None; 5]),
             allocator: Bump::new(),
         }
     }
-- 
2.43.0


From d0f9f79500ffad5aca1b1e8df677a54aef598bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 27/51] fix: sign-extend the shorter operand when comparing
 signed integers

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 50 ++++++++-----------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index 6470e8d..0ce826b 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -205,6 +205,23 @@ impl<U: Sign> DynamicGenericIntGraphNodes<'_, L1GlweCiphertext, U> {
 }
 
 impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
+    /// Extend `self` and `other` to `len` bits as befits their sign and interleave the results.
+    fn interleave_extended(
+        &self,
+        other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
+        ctx: &FheCircuitCtx,
+        len: usize,
+    ) -> Vec<NodeIndex> {
+        let a = self.resize(ctx, len);
+        let b = other.resize(ctx, len);
+
+        a.bits
+            .iter()
+            .zip(b.bits.iter())
+            .flat_map(|(a, b)| [a.node, b.node])
+            .collect()
+    }
+
     pub(crate) fn cmp<OutCt: Muxable>(
         &self,
         other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
@@ -218,16 +235,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = V::gen_compare_circuit(max_len, gt, eq);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx, max_len);
 
         let cmp_result = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -257,16 +265,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx, max_len);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -296,16 +295,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_not_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx, max_len);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
-- 
2.43.0


From afcf9acb7bf15b62ca8546cfad38d19863f0fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 28/51] fix: shrink unsigned integers without needing a trivial
 zero

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index 0ce826b..9e8dee1 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -111,21 +111,19 @@ impl<'a, T: CiphertextOps, U: Sign> DynamicGenericIntGraphNodes<'a, T, U> {
 
         let input = self.bits;
 
-        let extend_bit = if use_msb {
-            input.last().unwrap()
-        } else {
-            &BitNode::zero(ctx)
-        };
+        let mut bits = input.iter().copied().take(min_len).collect::<Vec<_>>();
 
-        let iter = input
-            .iter()
-            .copied()
-            .take(min_len)
-            .chain((0..extend).map(|_| extend_bit.to_owned()))
-            .collect::<Vec<_>>()
-            .into_iter();
+        if extend > 0 {
+            let extend_bit = if use_msb {
+                *input.last().unwrap()
+            } else {
+                BitNode::zero(ctx)
+            };
+
+            bits.resize(min_len + extend, extend_bit);
+        }
 
-        DynamicGenericIntGraphNodes::from_bit_nodes(iter, &ctx.allocator)
+        DynamicGenericIntGraphNodes::from_bit_nodes(bits.into_iter(), &ctx.allocator)
     }
 }
 
-- 
2.43.0


From 6ffe62b5393330167bbb2bc0bf987392f8f9ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 29/51] fix: report the stored size of secret and compute keys

---
 parasol_runtime/src/crypto/keys.rs | 43 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/parasol_runtime/src/crypto/keys.rs b/parasol_runtime/src/crypto/keys.rs
index 1cf44f2..a91cbc6 100644
--- a/parasol_runtime/src/crypto/keys.rs
+++ b/parasol_runtime/src/crypto/keys.rs
@@ -4,9 +4,9 @@ use std::mem::size_of;
 use sunscreen_tfhe::OverlaySize;
 use sunscreen_tfhe::entities::{
     AutomorphismKey, AutomorphismKeyFft, AutomorphismKeyFftRef, AutomorphismKeyRef, BootstrapKey,
-    BootstrapKeyFft, BootstrapKeyRef, GlweSecretKey, GlweSecretKeyRef, LweKeyswitchKey,
+    BootstrapKeyFft, BootstrapKeyFftRef, BootstrapKeyRef, GlweSecretKey, GlweSecretKeyRef, LweKeyswitchKey,
     LweKeyswitchKeyRef, LweSecretKey, LweSecretKeyRef, RlwePublicKey, RlwePublicKeyRef,
-    SchemeSwitchKey, SchemeSwitchKeyFft, SchemeSwitchKeyRef,
+    SchemeSwitchKey, SchemeSwitchKeyFft, SchemeSwitchKeyFftRef, SchemeSwitchKeyRef,
 };
 use sunscreen_tfhe::high_level::{fft, keygen};
 use sunscreen_tfhe::ops::automorphisms::generate_automorphism_key;
@@ -106,10 +106,10 @@ pub struct SecretKey {
 
 impl GetSize for SecretKey {
     fn get_size(params: &Params) -> usize {
-        // The magic 3 is the length fields of the 3 serialized sequences.
+        // The magic 2 is the length fields of the 2 serialized sequences.
         (LweSecretKeyRef::<u64>::size(params.l0_params.dim)
             + GlweSecretKeyRef::<u64>::size(params.l1_params.dim)
-            + 3)
+            + 2)
             * size_of::<u64>()
     }
 
@@ -319,34 +319,31 @@ pub struct ComputeKey {
 
 impl GetSize for ComputeKey {
     fn get_size(params: &Params) -> usize {
-        let size = BootstrapKeyRef::<u64>::size((
+        let bs_key = BootstrapKeyFftRef::<Complex<f64>>::size((
             params.l0_params.dim,
             params.l1_params.dim,
             params.pbs_radix.count,
         ));
 
-        let size = size
-            + LweKeyswitchKeyRef::<u64>::size((
-                params.l1_params.as_lwe_def().dim,
-                params.l0_params.dim,
-                params.ks_radix.count,
-            ));
-
-        let size =
-            size + SchemeSwitchKeyRef::<u64>::size((params.l1_params.dim, params.ss_radix.count));
+        let ss_key = SchemeSwitchKeyFftRef::<Complex<f64>>::size((
+            params.l1_params.dim,
+            params.ss_radix.count,
+        ));
 
-        let size = size
-            + AutomorphismKeyFftRef::<Complex<f64>>::size((
-                params.l1_params.dim,
-                params.tr_radix.count,
-            ));
+        let auto_key = AutomorphismKeyFftRef::<Complex<f64>>::size((
+            params.l1_params.dim,
+            params.tr_radix.count,
+        ));
 
-        // All the keys are FFT'd, so scale the number of elements by the size
-        // of each element (a Complex<f64>).
-        let size = size * size_of::<Complex<f64>>();
+        // The keyswitch key isn't FFT'd.
+        let ks_key = LweKeyswitchKeyRef::<u64>::size((
+            params.l1_params.as_lwe_def().dim,
+            params.l0_params.dim,
+            params.ks_radix.count,
+        ));
 
         // The magic 4 accounts for the 4 8-byte length fields, one for each key.
-        size + 4 * size_of::<u64>()
+        (bs_key + ss_key + auto_key) * size_of::<Complex<f64>>() + (ks_key + 4) * size_of::<u64>()
     }
 
     fn check_is_valid(&self, params: &Params) -> crate::Result<()> {
-- 
2.43.0


From 3e6e0acedbfdfe2d06728338e4aa02be62162767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 30/51] fix: refuse stored integers whose bit count is not the
 type's

---
 parasol_runtime/src/fluent/generic_int.rs        | 8 ++++++++
 parasol_runtime/src/fluent/packed_generic_int.rs | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index 4951016..fd6215e 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -87,6 +87,10 @@ impl<const N: usize, T: CiphertextOps, U: Sign> GetSize for GenericInt<N, T, U>
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.inner.bits.len() != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         for b in &self.inner.bits {
             b.borrow().check_is_valid(params)?;
         }
@@ -205,6 +209,10 @@ impl<T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSize
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.bit_len as usize > T::poly_degree(params).0 {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         self.ct.borrow().check_is_valid(params)
     }
 }
diff --git a/parasol_runtime/src/fluent/packed_generic_int.rs b/parasol_runtime/src/fluent/packed_generic_int.rs
index 93ac28a..e885530 100644
--- a/parasol_runtime/src/fluent/packed_generic_int.rs
+++ b/parasol_runtime/src/fluent/packed_generic_int.rs
@@ -93,7 +93,11 @@ impl<const N: usize, T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSiz
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
-        self.inner.ct.borrow().check_is_valid(params)
+        if self.inner.bit_len as usize != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
+        self.inner.check_is_valid(params)
     }
 }
 
-- 
2.43.0


From fa33b0afb1842f679268f33bb9b73fbe3139d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 31/51] fix: bounds-check trivially encrypted packed integers

---
 parasol_runtime/src/fluent/generic_int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index fd6215e..5334c6a 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -276,6 +276,8 @@ where
 
     /// Trivially encrypt the given value as a [`PackedDynamicGenericInt`].
     pub fn trivial_encrypt(val: U::PlaintextType, enc: &Encryption, n: usize) -> Self {
+        val.assert_in_bounds(n);
+
         let msg = Self::encode(val, enc, n);
 
         Self {
-- 
2.43.0


From 782ada2191f14e1bddfe7842cea1e207e687e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 32/51] fix: integers wider than the 128-bit plaintext types

---
 parasol_runtime/src/fluent/int.rs  | 23 +++++++++++++++++++----
 parasol_runtime/src/fluent/uint.rs | 11 +++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/parasol_runtime/src/fluent/int.rs b/parasol_runtime/src/fluent/int.rs
index 57e8372..1902822 100644
--- a/parasol_runtime/src/fluent/int.rs
+++ b/parasol_runtime/src/fluent/int.rs
@@ -19,11 +19,15 @@ pub struct Signed;
 
 impl PlaintextOps for i128 {
     fn assert_in_bounds(&self, bits: usize) {
+        if bits >= 128 {
+            return;
+        }
+
         let max_val = ((0x1u128 << (bits - 1)) - 1).cast_signed();
         let min_val = -(0x1u128 << (bits - 1)).cast_signed();
 
-        assert!(bits == 128 || *self <= max_val);
-        assert!(bits == 128 || *self >= min_val);
+        assert!(*self <= max_val);
+        assert!(*self >= min_val);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(bits: I) -> Self {
@@ -31,9 +35,20 @@ impl PlaintextOps for i128 {
 
         let mut val = bits.enumerate().fold(0i128, |s, (i, x)| {
             num_bits += 1;
-            s | ((x as i128) << i)
+
+            if i < 128 {
+                s | ((x as i128) << i)
+            } else {
+                // Wider integers must be sign extensions of a 128-bit value.
+                assert_eq!(x, s < 0, "value doesn't fit in 128 bits");
+                s
+            }
         });
 
+        if num_bits >= 128 {
+            return val;
+        }
+
         let sign = (val >> (num_bits - 1)) & 0x1;
 
         // Sign extend our value to 128-bit.
@@ -45,7 +60,7 @@ impl PlaintextOps for i128 {
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| ((*self >> i.min(127)) & 0x1) == 0x1)
     }
 }
 
diff --git a/parasol_runtime/src/fluent/uint.rs b/parasol_runtime/src/fluent/uint.rs
index f81e38d..541468b 100644
--- a/parasol_runtime/src/fluent/uint.rs
+++ b/parasol_runtime/src/fluent/uint.rs
@@ -19,16 +19,19 @@ pub struct Unsigned;
 
 impl PlaintextOps for u128 {
     fn assert_in_bounds(&self, bits: usize) {
-        assert!(bits == 128 || *self < 0x1 << bits);
+        assert!(bits >= 128 || *self < 0x1 << bits);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(iter: I) -> Self {
-        iter.enumerate()
-            .fold(0u128, |s, (i, x)| s | ((x as u128) << i))
+        iter.enumerate().fold(0u128, |s, (i, x)| {
+            assert!(i < 128 || !x, "value doesn't fit in 128 bits");
+
+            if i < 128 { s | ((x as u128) << i) } else { s }
+        })
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| i < 128 && ((*self >> i) & 0x1) == 0x1)
     }
 }
 
-- 
2.43.0


From bd6c69b3826c6a7b44d390c002dbca9e4b469edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 33/51] fix: order the variables of the shift circuits so that
 wide shifts can be built

---
 mux_circuits/src/bitshift.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mux_circuits/src/bitshift.rs b/mux_circuits/src/bitshift.rs
index 75e7fa9..2f5751c 100644
--- a/mux_circuits/src/bitshift.rs
+++ b/mux_circuits/src/bitshift.rs
@@ -69,17 +69,19 @@ pub fn bitshift(inputs: u16, shift_size: u16, dir: ShiftDirection, mode: ShiftMo
         panic!("Arithmetic shift only makes sense in right shift.");
     }
 
+    // The shift's variables precede the input's in the BDDs' variable order. The other way
+    // around, their size is exponential in the number of inputs.
     let variable_set = BddVariableSet::new_anonymous(inputs + shift_size);
     let vars = variable_set.variables();
     let excess_shift_vars = (0..(shift_size - used_shift_bits))
-        .map(|x| variable_set.mk_var(vars[(inputs + x) as usize]))
+        .map(|x| variable_set.mk_var(vars[x as usize]))
         .collect::<Vec<_>>();
     let used_shift_vars = ((shift_size - used_shift_bits)..shift_size)
-        .map(|x| variable_set.mk_var(vars[(inputs + x) as usize]))
+        .map(|x| variable_set.mk_var(vars[x as usize]))
         .collect::<Vec<_>>();
 
     let mut result = (0..inputs)
-        .map(|i| variable_set.mk_var(vars[i as usize]))
+        .map(|i| variable_set.mk_var(vars[(shift_size + i) as usize]))
         .collect::<Vec<_>>();
 
     // we don't need this unless mode is Arithmetic, but this is cheap enough compared to other operations
@@ -153,6 +155,14 @@ pub fn bitshift(inputs: u16, shift_size: u16, dir: ShiftDirection, mode: ShiftMo
     }
 
     let mut circuit = MuxCircuit::from(result.as_slice());
+
+    // The circuit takes the input followed by the shift.
+    circuit.remap_inputs((inputs + shift_size) as u32, || {
+        (inputs..inputs + shift_size)
+            .chain(0..inputs)
+            .map(|x| x as u32)
+            .collect()
+    });
     circuit.optimize();
 
     circuit
-- 
2.43.0


From 0cd4a14b16aa94da66fbb535f616c9de6b8813e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 34/51] fix: full-width masks for 128-bit plaintext registers

---
 parasol_cpu/src/proc/ops/add.rs     | 23 +++++++++++++++--------
 parasol_cpu/src/proc/ops/and.rs     |  4 ++--
 parasol_cpu/src/proc/ops/casting.rs |  8 ++++----
 parasol_cpu/src/proc/ops/loadi.rs   |  8 ++++----
 parasol_cpu/src/proc/ops/mod.rs     |  9 +++++++++
 parasol_cpu/src/proc/ops/not.rs     |  8 ++++++--
 parasol_cpu/src/proc/ops/or.rs      |  4 ++--
 parasol_cpu/src/proc/ops/sub.rs     |  8 ++++++--
 parasol_cpu/src/proc/ops/xor.rs     |  8 ++++++--
 9 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index e2381fb..3e2406d 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,11 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +39,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_add(*val2) & mask,
@@ -178,12 +182,15 @@ impl FheProcessor {
 
 /// Add two plaintext numbers together, returning the sum and the carry out.
 fn add_with_carry(a: u128, b: u128, carry_in: u128, width: u32) -> (u128, u128) {
-    let sum_mask = (0x1 << width) - 1;
-
-    let full_sum = a.wrapping_add(b).wrapping_add(carry_in);
-
-    let sum = full_sum & sum_mask;
-    let carry = (full_sum >> width) & 1;
+    let (sum, overflow_1) = a.overflowing_add(b);
+    let (full_sum, overflow_2) = sum.overflowing_add(carry_in);
+
+    let sum = full_sum & width_mask(width);
+    let carry = if width < u128::BITS {
+        (full_sum >> width) & 1
+    } else {
+        (overflow_1 || overflow_2) as u128
+    };
 
     (sum, carry)
 }
diff --git a/parasol_cpu/src/proc/ops/and.rs b/parasol_cpu/src/proc/ops/and.rs
index f933080..d0fa54b 100644
--- a/parasol_cpu/src/proc/ops/and.rs
+++ b/parasol_cpu/src/proc/ops/and.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an and instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: val1 & val2 & mask,
diff --git a/parasol_cpu/src/proc/ops/casting.rs b/parasol_cpu/src/proc/ops/casting.rs
index bf7d654..578b946 100644
--- a/parasol_cpu/src/proc/ops/casting.rs
+++ b/parasol_cpu/src/proc/ops/casting.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -80,8 +80,8 @@ impl FheProcessor {
                             if val >> (width - 1) == 0 {
                                 *val
                             } else {
-                                let old_mask = (1 << width) - 1;
-                                let new_mask = (1 << new_width) - 1;
+                                let old_mask = width_mask(*width);
+                                let new_mask = width_mask(new_width);
                                 (val | !old_mask) & new_mask
                             }
                         } else {
@@ -153,7 +153,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width: _ } => {
-                    let mask = (0x1 << new_width) - 1;
+                    let mask = width_mask(new_width);
                     *dst = Register::Plaintext {
                         val: (*val) & mask,
                         width: new_width,
diff --git a/parasol_cpu/src/proc/ops/loadi.rs b/parasol_cpu/src/proc/ops/loadi.rs
index 82adae1..25b4eda 100644
--- a/parasol_cpu/src/proc/ops/loadi.rs
+++ b/parasol_cpu/src/proc/ops/loadi.rs
@@ -1,6 +1,6 @@
 use crate::{
     Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,15 +24,15 @@ impl FheProcessor {
             // the number -90 in 2's complement with 8 bit will be 0xA6, but
             // in the encoding we have 32 bit for the immediate so it's
             // 0xFFFFFFA6, not 0x000000A6
-            let in_range_unsigned = (imm as u64) < (1 << width);
-            let in_range_signed_neg = imm >= 0xFFFFFFFF << (width - 1);
+            let in_range_unsigned = imm as u128 <= width_mask(width);
+            let in_range_signed_neg = width <= u32::BITS && imm >= 0xFFFFFFFF << (width - 1);
 
             if !in_range_unsigned && !in_range_signed_neg {
                 return Err(Error::out_of_range(instruction_id, pc));
             }
 
             *dst = Register::Plaintext {
-                val: imm as u128 & ((1 << width) - 1),
+                val: imm as u128 & width_mask(width),
                 width,
             };
 
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index 22ac6ab..f193eef 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -128,6 +128,15 @@ pub fn make_parent_op(retirement_info: &RetirementInfo<DispatchIsaOp>) -> Arc<Co
     }))
 }
 
+/// The mask selecting the low `width` bits of a plaintext register's value.
+pub(crate) fn width_mask(width: u32) -> u128 {
+    if width < u128::BITS {
+        (0x1 << width) - 1
+    } else {
+        u128::MAX
+    }
+}
+
 pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bool {
     num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
 }
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 41afcac..48bd9b9 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -25,7 +29,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width } => {
-                    let mask = (0x1 << width) - 1;
+                    let mask = width_mask(*width);
 
                     *dst = Register::Plaintext {
                         val: (!val) & mask,
diff --git a/parasol_cpu/src/proc/ops/or.rs b/parasol_cpu/src/proc/ops/or.rs
index 839e515..d20d0c7 100644
--- a/parasol_cpu/src/proc/ops/or.rs
+++ b/parasol_cpu/src/proc/ops/or.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an or instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: (val1 | val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index d885f6a..234f367 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,11 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -36,7 +40,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_sub(*val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index fc49af5..c0b658d 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -38,7 +42,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1 ^ val2 & mask,
-- 
2.43.0


From fcbc81c9167e7ada3b7e64346195411ba8a831ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 35/51] fix: shifts and rotations of any amount and width

---
 parasol_cpu/src/proc/ops/bitshift.rs | 81 ++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 15 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..7e41c71 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -15,47 +15,75 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
+
+// Shifting by the width or more shifts every bit out.
+fn shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift < width as u128 {
+        val >> shift
+    } else {
+        0
+    }
+}
+
+fn shift_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift < width as u128 {
+        (val << shift) & width_mask(width)
+    } else {
+        0
+    }
+}
 
 fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let right = val >> shift;
+    let right = shift_right_arbitrary_width(val, shift, width);
 
     // check if the number if positive
     if (0x1 << (width - 1)) & val == 0 {
         right
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
+        let signs =
+            width_mask(width) & !shift_right_arbitrary_width(width_mask(width), shift, width);
         signs | right
     }
 }
 
+// Rotating by the width is the identity.
 fn rotate_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << (width as u128 - shift);
     let right = val >> shift;
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
 
-    let left = val << shift;
-    let right = val >> (width as u128 - shift);
-
-    (left | right) & mask
+    rotate_right_arbitrary_width(val, width as u128 - shift, width)
 }
 
 fn encrypted_value_plain_shift(
     c: &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    shift: u32,
+    shift: u128,
     l1glwe_zero: &L1GlweCiphertext,
     dir: ShiftDirection,
     mode: ShiftMode,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>> {
     let mut result = c.to_owned();
 
+    // Rotating by the width is the identity, while shifting by the width or more shifts every
+    // bit out.
+    let width = result.len() as u128;
+    let shift = match mode {
+        ShiftMode::Rotation => shift % width,
+        ShiftMode::Logical | ShiftMode::Arithmetic => shift.min(width),
+    };
+
     let old_msb = result.last().unwrap().clone();
 
     // The processor is little endian, so a right shift is a left rotation.
@@ -92,7 +120,7 @@ type ShiftOperation = fn(u128, u128, u32) -> u128;
 // (c, shift, l1glwe_zero) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>
 type ShiftOperationCiphertext = fn(
     &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    u32,
+    u128,
     &L1GlweCiphertext,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>;
 
@@ -107,6 +135,7 @@ impl FheProcessor {
         plain_operation: ShiftOperation,
         plain_shift: ShiftOperationCiphertext,
         circuit_gen: fn(usize, usize) -> MuxCircuit,
+        rotates: bool,
     ) {
         let mut shift_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src) (shift));
@@ -133,7 +162,7 @@ impl FheProcessor {
                         width: _,
                     },
                 ) => {
-                    let output = plain_shift(c, *shift as u32, &self.aux_data.l1glwe_zero);
+                    let output = plain_shift(c, *shift, &self.aux_data.l1glwe_zero);
 
                     *dst = Register::Ciphertext(Ciphertext::L1Glwe { data: output });
 
@@ -147,6 +176,23 @@ impl FheProcessor {
                     )?;
 
                     let input_width = c.len();
+
+                    // Rotating by an encrypted amount modulo other widths isn't supported.
+                    if rotates && !input_width.is_power_of_two() {
+                        let entry = &retirement_info.scoreboard_entry;
+                        return Err(Error::unsupported_width(*entry.id, entry.pc));
+                    }
+
+                    // The circuit takes at least enough bits to shift by `input_width - 1`.
+                    let mut c_shift = c_shift.clone();
+                    let min_shift_width = (input_width.next_power_of_two().ilog2() as usize).max(1);
+
+                    while c_shift.len() < min_shift_width {
+                        c_shift.push(Arc::new(AtomicRefCell::new(
+                            self.aux_data.l1glwe_zero.clone(),
+                        )));
+                    }
+
                     let shift_width = c_shift.len();
 
                     let mut graph = FheCircuit::new();
@@ -201,7 +247,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val >> shift,
+            shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -219,6 +265,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            false,
         )
     }
 
@@ -252,6 +299,7 @@ impl FheProcessor {
                     ShiftMode::Arithmetic,
                 )
             },
+            false,
         )
     }
 
@@ -267,7 +315,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -285,6 +333,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            false,
         )
     }
 
@@ -318,6 +367,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            true,
         )
     }
 
@@ -351,6 +401,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            true,
         )
     }
 }
-- 
2.43.0


From 746bb430ef03c386aad0e765b3fc6dd550747deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 36/51] fix: negate encrypted registers

---
 parasol_cpu/src/proc/ops/neg.rs | 42 ++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 2091e21..cb0b576 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,12 @@
+use parasol_runtime::circuits::sub_circuit;
+
 use crate::{
-    Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    Ciphertext, Error, Register, Result,
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, trivially_encrypt_value_l1glwe, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -15,7 +21,7 @@ impl FheProcessor {
         _instruction_id: usize,
         _pc: u32,
     ) {
-        let neg_impl = || -> Result<()> {
+        let mut neg_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src));
 
             match src {
@@ -23,7 +29,7 @@ impl FheProcessor {
                     val: val1,
                     width: width1,
                 } => {
-                    let mask = (0x1 << width1) - 1;
+                    let mask = width_mask(*width1);
 
                     *dst = Register::Plaintext {
                         val: val1.wrapping_neg() & mask,
@@ -32,15 +38,29 @@ impl FheProcessor {
 
                     FheProcessor::retire(&retirement_info, Ok(()));
                 }
-                Register::Ciphertext(Ciphertext::L1Glwe { data: _c1 }) => {
-                    todo!()
-                    // let output = add_l1glwe_cipher_cipher(c1, c2);
+                Register::Ciphertext(Ciphertext::L1Glwe { data: c }) => {
+                    // Two's complement negation is subtraction from zero.
+                    let zero = trivially_encrypt_value_l1glwe(
+                        0,
+                        c.len() as u32,
+                        &self.aux_data.l1glwe_zero,
+                        &self.aux_data.l1glwe_one,
+                    );
 
-                    // *dst = Register::Ciphertext(Ciphertext::L1GlweCiphertext { data: output });
-                }
-                _ => {
-                    todo!()
+                    let (graph, output) = sub_circuit(c.len(), &zero, c, None, &self.aux_data.enc);
+
+                    let parent_op = make_parent_op(&retirement_info);
+
+                    self.aux_data
+                        .uop_processor
+                        .spawn_graph(&graph, &self.aux_data.flow, parent_op);
+
+                    // There is a borrow out bit that we will ignore
+                    *dst = Register::Ciphertext(Ciphertext::L1Glwe {
+                        data: output[0..output.len() - 1].to_owned(),
+                    });
                 }
+                _ => return Err(Error::EncryptionMismatch),
             };
 
             Ok(())
-- 
2.43.0


From cc3fd9b1a3d8706e87f85813b9e567e511dd98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 37/51] fix: zero-extend encrypted registers stored at a
 greater width

---
 parasol_cpu/src/proc/ops/store.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index e448547..f279489 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -1,3 +1,7 @@
+use std::sync::Arc;
+
+use parasol_concurrency::AtomicRefCell;
+
 use crate::{
     Byte, Error, Memory, Ptr32, Register, Result,
     proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::is_invalid_load_store_alignment},
@@ -43,10 +47,21 @@ impl FheProcessor {
                                 Byte::from((val >> (8 * i)) as u8)
                             }
                             Register::Ciphertext(val) => {
-                                let val = val.try_into_l1glwe()?;
-                                let val = &val[8 * i as usize..8 * i as usize + 8];
+                                // As with plaintexts, bits past the register's width are zero.
+                                let val = val
+                                    .try_into_l1glwe()?
+                                    .iter()
+                                    .skip(8 * i as usize)
+                                    .cloned()
+                                    .chain(std::iter::repeat_with(|| {
+                                        Arc::new(AtomicRefCell::new(
+                                            self.aux_data.l1glwe_zero.clone(),
+                                        ))
+                                    }))
+                                    .take(8)
+                                    .collect::<Vec<_>>();
 
-                                Byte::try_from(val.to_owned()).unwrap()
+                                Byte::try_from(val).unwrap()
                             }
                         };
 
-- 
2.43.0


From 87e98b255fc8510a41bcf9b76cc15c65f9c95293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 38/51] fix: stall on unresolved branch conditions and
 addresses, and do not hang after a misaligned access

---
 parasol_cpu/src/proc/fhe_processor.rs | 80 +++++++++++++++++++--------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5cb02a4..a66a9aa 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -329,6 +329,16 @@ impl FheProcessor {
             self.registers.trace_dump();
         }
 
+        // We need the contents of these registers before we can decode the instruction's
+        // successor or its memory dependencies.
+        match inst {
+            IsaOp::BranchNonZero(src, _)
+            | IsaOp::BranchZero(src, _)
+            | IsaOp::Load(_, src, _, _)
+            | IsaOp::Store(src, _, _, _) => self.wait_for_register(src, options),
+            _ => {}
+        }
+
         // We need to capture the dependencies *before* we map our dispatch op.
         // If we don't a src operand that's also a dst can get renamed and our
         // deps traversal will be wrong.
@@ -353,7 +363,6 @@ impl FheProcessor {
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
-        self.instructions_inflight += 1;
 
         // Increment our dependency count to 1 to prevent any dependents
         // from issuing our new instruction until we've finished processing
@@ -369,6 +378,9 @@ impl FheProcessor {
             pc,
         )?;
 
+        // From here on, the instruction will retire.
+        self.instructions_inflight += 1;
+
         for dep in deps.into_iter().flatten() {
             // If we take a dependency on ourself, we somehow fucked up.
             assert_ne!(dep.id, scoreboard_entry.id);
@@ -429,33 +441,53 @@ impl FheProcessor {
                 }
             };
 
-            if options.log_instruction_execution {
-                trace!("Instructions remaining {}", self.instructions_inflight);
-            }
+            self.process_ready_instruction(ready, options);
+        }
+    }
 
-            match ready {
-                InstructionOperation::Retire(Ok(v)) => {
-                    if options.log_instruction_execution {
-                        debug!("retired id={} pc={}", v.id, v.pc);
-                    }
+    fn process_ready_instruction(
+        &mut self,
+        ready: InstructionOperation<DispatchIsaOp>,
+        options: &RunProgramOptions,
+    ) {
+        if options.log_instruction_execution {
+            trace!("Instructions remaining {}", self.instructions_inflight);
+        }
 
-                    self.instructions_inflight -= 1;
+        match ready {
+            InstructionOperation::Retire(Ok(v)) => {
+                if options.log_instruction_execution {
+                    debug!("retired id={} pc={}", v.id, v.pc);
                 }
-                InstructionOperation::Retire(Err(e)) => {
-                    error!("retire error e={e}");
 
-                    // This should already be set in `retire`, but let's do this for safety
-                    // just in case we later add another sender codepath to the retirement channel.
-                    let _ = self.aux_data.fault.set(e);
-                    self.instructions_inflight -= 1;
-                }
-                InstructionOperation::Exec(v) => {
-                    self.exec_instruction(
-                        v.clone(),
-                        self.make_retirement_info(&v, &self.aux_data.fault),
-                        options,
-                    );
-                }
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Retire(Err(e)) => {
+                error!("retire error e={e}");
+
+                // This should already be set in `retire`, but let's do this for safety
+                // just in case we later add another sender codepath to the retirement channel.
+                let _ = self.aux_data.fault.set(e);
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Exec(v) => {
+                self.exec_instruction(
+                    v.clone(),
+                    self.make_retirement_info(&v, &self.aux_data.fault),
+                    options,
+                );
+            }
+        }
+    }
+
+    /// Stalls until the instruction that produces the contents of `register` (if any) has
+    /// executed. Instructions take their operation out of the scoreboard on executing.
+    fn wait_for_register(&mut self, register: RegisterName<Register>, options: &RunProgramOptions) {
+        if let Some(producer) = self.registers.get_instruction(register) {
+            while producer.instruction.borrow().is_some() {
+                let ready = self.ready_instructions.1.recv().unwrap();
+
+                self.process_ready_instruction(ready, options);
             }
         }
     }
-- 
2.43.0


From 988ddaa91815ff2279634ab816485088661060f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 39/51] fix: stall before borrowing the register file

---
 parasol_cpu/src/proc/fhe_processor.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index a66a9aa..4f786ae 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -316,6 +316,16 @@ impl FheProcessor {
 
         inst.validate(self.current_instruction, pc)?;
 
+        // We need the contents of these registers before we can decode the instruction's
+        // successor or its memory dependencies.
+        match inst {
+            IsaOp::BranchNonZero(src, _)
+            | IsaOp::BranchZero(src, _)
+            | IsaOp::Load(_, src, _, _)
+            | IsaOp::Store(src, _, _, _) => self.wait_for_register(src, options),
+            _ => {}
+        }
+
         let srcs = (&self.registers, ());
 
         if options.log_instruction_execution {
@@ -329,16 +339,6 @@ impl FheProcessor {
             self.registers.trace_dump();
         }
 
-        // We need the contents of these registers before we can decode the instruction's
-        // successor or its memory dependencies.
-        match inst {
-            IsaOp::BranchNonZero(src, _)
-            | IsaOp::BranchZero(src, _)
-            | IsaOp::Load(_, src, _, _)
-            | IsaOp::Store(src, _, _, _) => self.wait_for_register(src, options),
-            _ => {}
-        }
-
         // We need to capture the dependencies *before* we map our dispatch op.
         // If we don't a src operand that's also a dst can get renamed and our
         // deps traversal will be wrong.
-- 
2.43.0


From efad1af3ba29f38363c6d9d7184a04d606499f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 40/51] fix: charge gas for the whole program by its operands'
 actual kinds

---
 parasol_cpu/src/proc/fhe_processor.rs  | 66 +++++++++++++++-----------
 parasol_cpu/src/tomasulo/scoreboard.rs |  9 +++-
 2 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 4f786ae..a6186d6 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -119,6 +119,9 @@ where
 
     pc: u32,
 
+    /// The gas charged to the current program.
+    gas_used: u32,
+
     /// The number of instructions currently dispatched or executing
     pub instructions_inflight: usize,
 
@@ -139,6 +142,7 @@ impl FheProcessor {
             registers,
             aux_data,
             pc: 0,
+            gas_used: 0,
             current_instruction: 0,
             instructions_inflight: 0,
             ready_instructions: mpsc::channel(),
@@ -306,12 +310,22 @@ impl FheProcessor {
         }
     }
 
+    /// Charges `gas` to the current program, which fails if this exceeds its limit.
+    fn charge_gas(&mut self, gas: u32, options: &RunProgramOptions) -> Result<()> {
+        self.gas_used = self.gas_used.saturating_add(gas);
+
+        match options.gas_limit {
+            Some(limit) if self.gas_used > limit => Err(Error::OutOfGas(self.gas_used, limit)),
+            _ => Ok(()),
+        }
+    }
+
     pub fn dispatch_instruction(
         &mut self,
         inst: IsaOp,
         pc: u32,
         options: &RunProgramOptions,
-    ) -> Result<(u32, u32)> {
+    ) -> Result<u32> {
         use crate::tomasulo::{GetDeps, ToDispatchedOp};
 
         inst.validate(self.current_instruction, pc)?;
@@ -352,13 +366,11 @@ impl FheProcessor {
         let disp_inst =
             inst.to_dispatched_op(srcs, scoreboard_entry.clone(), self.current_instruction, pc)?;
 
+        // Operands still being computed count as plaintexts. When this instruction executes,
+        // we'll know what they are and charge the difference.
         let gas = self.compute_gas(&disp_inst);
-
-        if let Some(gas_limit) = options.gas_limit {
-            if gas > gas_limit {
-                return Err(Error::OutOfGas(gas, gas_limit));
-            }
-        }
+        scoreboard_entry.charged_gas.store(gas, Ordering::Relaxed);
+        self.charge_gas(gas, options)?;
 
         scoreboard_entry.set_instruction(&disp_inst);
 
@@ -407,9 +419,7 @@ impl FheProcessor {
         // Execute any ready instructions (possibly including the one we just dispatched)
         self.execute_ready_instructions(false, options);
 
-        let next_pc = self.next_program_counter(disp_inst, pc)?;
-
-        Ok((next_pc, gas))
+        self.next_program_counter(disp_inst, pc)
     }
 
     fn execute_ready_instructions(&mut self, blocking: bool, options: &RunProgramOptions) {
@@ -633,6 +643,7 @@ impl FheProcessor {
         }
 
         self.debug_handlers = vec![];
+        self.gas_used = 0;
 
         // Clear any fault
         self.aux_data.fault = Arc::new(OnceLock::new());
@@ -671,8 +682,6 @@ impl FheProcessor {
         args: &CallData<T>,
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
-        let gas_limit = options.gas_limit();
-
         self.reset()?;
         let return_data = self.set_up_function_call(memory, args)?;
         self.aux_data.memory = Some(memory.clone());
@@ -680,7 +689,6 @@ impl FheProcessor {
 
         let mut run_program_impl = || {
             self.pc = initial_pc.0;
-            let mut gas = 0;
 
             loop {
                 // If an async error occurred, stop issuing new instructions.
@@ -694,10 +702,7 @@ impl FheProcessor {
                 let pc_result = self.dispatch_instruction(inst, self.pc, options);
 
                 match pc_result {
-                    Ok((next_pc, used_gas)) => {
-                        gas += used_gas;
-                        self.pc = next_pc;
-                    }
+                    Ok(next_pc) => self.pc = next_pc,
                     Err(e) => match e {
                         // Halt isn't a true error, but rather we ran out of instructions
                         // to execute.
@@ -707,18 +712,14 @@ impl FheProcessor {
                 }
             }
 
-            Ok::<_, Error>(gas)
+            Ok::<_, Error>(())
         };
 
-        let gas = match run_program_impl() {
-            Ok(gas) => gas,
-            Err(e) => {
-                // Attempt to overwrite the current fault. If the frontend returned
-                // an error due to a previous fault, this will fail, but whatever.
-                let _ = self.aux_data.fault.set(e);
-                gas_limit.unwrap_or_default()
-            }
-        };
+        if let Err(e) = run_program_impl() {
+            // Attempt to overwrite the current fault. If the frontend returned
+            // an error due to a previous fault, this will fail, but whatever.
+            let _ = self.aux_data.fault.set(e);
+        }
 
         self.wait(options);
 
@@ -731,7 +732,7 @@ impl FheProcessor {
         }
 
         self.try_capture_return_value(memory, args, return_data)
-            .map(|ret_val| (gas, ret_val))
+            .map(|ret_val| (self.gas_used, ret_val))
     }
 
     /// Runs the given program using the passed user `data` as arguments.
@@ -787,6 +788,15 @@ impl Tomasulo for FheProcessor {
             return;
         }
 
+        // Charge what we couldn't when dispatching this instruction.
+        let charged_gas = scoreboard_entry.charged_gas.load(Ordering::Relaxed);
+        let gas = self.compute_gas(&instruction).saturating_sub(charged_gas);
+
+        if let Err(e) = self.charge_gas(gas, options) {
+            FheProcessor::retire(&retirement_info, Err(e));
+            return;
+        }
+
         match instruction {
             Load(dst, src, width, offset) => {
                 self.load(
diff --git a/parasol_cpu/src/tomasulo/scoreboard.rs b/parasol_cpu/src/tomasulo/scoreboard.rs
index 58a1f45..f7d24ee 100644
--- a/parasol_cpu/src/tomasulo/scoreboard.rs
+++ b/parasol_cpu/src/tomasulo/scoreboard.rs
@@ -1,7 +1,10 @@
 use std::{
     marker::PhantomData,
     ops::Deref,
-    sync::{Arc, atomic::AtomicUsize},
+    sync::{
+        Arc,
+        atomic::{AtomicU32, AtomicUsize},
+    },
 };
 
 use parasol_concurrency::{AtomicRefCell, Spinlock};
@@ -85,6 +88,9 @@ where
     pub dependents: Spinlock<Vec<ScoreboardEntryRef<I>>>,
     pub instruction: AtomicRefCell<Option<I>>,
     pub pc: u32,
+
+    /// The gas charged for this instruction on dispatching it.
+    pub charged_gas: AtomicU32,
 }
 
 impl<I> ScoreboardEntry<I>
@@ -98,6 +104,7 @@ where
             dependents: Spinlock::new(vec![]),
             instruction: AtomicRefCell::new(None),
             pc,
+            charged_gas: AtomicU32::new(0),
         }
     }
 
-- 
2.43.0


From 102c212c3cafc7676c9855d3b028f6f13a440d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 41/51] fix: report words with stray bits as illegal
 instructions

---
 parasol_cpu/src/proc/assembly.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/assembly.rs b/parasol_cpu/src/proc/assembly.rs
index 39e19db..e9d151f 100644
--- a/parasol_cpu/src/proc/assembly.rs
+++ b/parasol_cpu/src/proc/assembly.rs
@@ -120,7 +120,9 @@ macro_rules! define_op {
                                         let value = value >> $unused_width;
                                     )*
 
-                                    assert_eq!(value, 0);
+                                    if value != 0 {
+                                        return Err(Error::IllegalInstruction(0));
+                                    }
 
                                     $inst_name :: $op_name(
                                         $($dst_name,)*
-- 
2.43.0


From f466587c019cd8bc1892375b3241502e220ba89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 42/51] fix: address ranges, allocation sizes and stack pushes
 in memory

---
 parasol_cpu/src/memory/mod.rs | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 586c42b..7d58689 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -334,7 +334,7 @@ impl Memory {
     /// `elf_data` should contain the contents of an executable ELF file generated by the Parasol
     /// linker.
     pub fn new_from_elf_with_config(elf_data: &[u8], config: &MemoryConfig) -> Result<Self> {
-        let mut memory = Self::new(config.stack_top, config.stack_size);
+        let mut memory = Self::new(config.stack_top, config.stack_size)?;
 
         let elf = ElfBytes::<LittleEndian>::minimal_parse(elf_data)?;
 
@@ -413,25 +413,25 @@ impl Memory {
         Ok(memory)
     }
 
-    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Self {
+    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Result<Self> {
         // Stacks grow downward, so initialize the pointer to the end of the stack rather than
         // the start.
         let memory = Self {
             pages: Mutex::new(vec![None; TOTAL_PAGES as usize]),
-            stack_ptr: Mutex::new(stack_start.try_offset(stack_size).unwrap()),
+            stack_ptr: Mutex::new(stack_start.try_offset(stack_size)?),
             symbols: HashMap::new(),
         };
 
-        memory.try_allocate_at(stack_start, stack_size).unwrap();
+        memory.try_allocate_at(stack_start, stack_size)?;
 
-        memory
+        Ok(memory)
     }
 
     /// Create a new [`Memory`] object with a default stack starting at
     /// 0x8000_0000. This is mostly useful if you are generating your own
     /// program in assembly.
     pub fn new_default_stack() -> Self {
-        Memory::new(Ptr32::from(0x8000_0000), 4096)
+        Memory::new(Ptr32::from(0x8000_0000), 4096).unwrap()
     }
 
     /// Allocate a program in this memory and return the address of the
@@ -475,21 +475,19 @@ impl Memory {
 
         let alignment = data.alignment as u32;
 
-        let padding_bytes = (alignment - stack_ptr.0 % alignment) % alignment;
-
-        // Push padding to align data
-        for i in 0..padding_bytes {
-            self.try_store(*stack_ptr, Byte::from(0))?;
-            *stack_ptr = stack_ptr.try_signed_offset(-1)?;
-        }
+        let len = u32::try_from(data.bytes.len()).map_err(|_| Error::PointerOverflow)?;
+        let unaligned = stack_ptr.0.checked_sub(len).ok_or(Error::PointerOverflow)?;
+        let data_ptr = Ptr32(unaligned - unaligned % alignment);
 
-        *stack_ptr = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        // Write the bytes in the argument, followed by the padding that aligns it.
+        let padding = std::iter::repeat_n(Byte::from(0), (unaligned % alignment) as usize);
 
-        // Write the bytes in the argument
-        for (i, b) in data.bytes.iter().enumerate() {
-            self.try_store(stack_ptr.try_offset(i as u32)?, b.clone())?;
+        for (i, b) in data.bytes.iter().cloned().chain(padding).enumerate() {
+            self.try_store(data_ptr.try_offset(i as u32)?, b)?;
         }
 
+        *stack_ptr = data_ptr;
+
         Ok(*stack_ptr)
     }
 
@@ -509,7 +507,7 @@ impl Memory {
         }
 
         let start_page_id = Page::page_id_from_pointer(virtual_address) as usize;
-        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len)?) as usize;
+        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len - 1)?) as usize;
 
         let mut pages = self.pages.lock().unwrap();
 
@@ -601,7 +599,7 @@ impl Memory {
         }
 
         let mut pages = self.pages.lock().unwrap();
-        let num_pages = len.next_multiple_of(PAGE_SIZE) / PAGE_SIZE;
+        let num_pages = len.div_ceil(PAGE_SIZE);
 
         // Never allocate the zero page for end-user use. We don't want to ever
         // give a valid null virtual address to user applications, as many languages generate
@@ -712,14 +710,18 @@ impl Memory {
     /// Returns an error if pointer arithmetic wraps for an address in the given range
     /// has no page mapping.
     pub fn check_range_is_mapped(&self, ptr: Ptr32, len: u32) -> Result<()> {
+        if len == 0 {
+            return Ok(());
+        }
+
         let start_page = ptr.0 / PAGE_SIZE;
-        let end_page = (ptr.0 + len) / PAGE_SIZE;
+        let end_page = ptr.try_offset(len - 1)?.0 / PAGE_SIZE;
 
         let pages = self.pages.lock().unwrap();
 
         for i in start_page..=end_page {
             if pages[i as usize].is_none() {
-                return Err(Error::AccessViolation(ptr.try_offset(i * PAGE_SIZE)?.0));
+                return Err(Error::AccessViolation(ptr.0.max(i * PAGE_SIZE)));
             }
         }
 
@@ -869,13 +871,13 @@ impl Allocation {
         let padded = existing.next_free.next_multiple_of(alignment);
 
         // If we lack space in this allocation, make another.
-        if padded + len >= existing.size {
+        if padded as u64 + len as u64 > existing.size as u64 {
             return Self::new(memory, len);
         }
 
         let ptr = existing.base.try_offset(padded)?;
 
-        existing.next_free = ptr.0 + len;
+        existing.next_free = padded + len;
 
         Ok((existing, ptr))
     }
-- 
2.43.0


From bc41b0fb2dc944e3ad4a9ad01c2b38269a255f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 43/51] fix: restore the stack after calls, and lay out
 arguments aligned to more than 16 bytes

---
 parasol_cpu/src/memory/mod.rs         |  5 +++++
 parasol_cpu/src/proc/args.rs          | 15 ++++++++++++++-
 parasol_cpu/src/proc/fhe_processor.rs | 17 ++++++++++++++++-
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 7d58689..a597c31 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -496,6 +496,11 @@ impl Memory {
         *self.stack_ptr.lock().unwrap()
     }
 
+    /// Set the current stack pointer
+    pub(crate) fn set_stack_ptr(&self, stack_ptr: Ptr32) {
+        *self.stack_ptr.lock().unwrap() = stack_ptr;
+    }
+
     /// Allocates `len / PAGE_SIZE` pages starting at `virtual_address`.
     ///
     /// # Remarks
diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 61742a7..2b0ec9b 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -305,10 +305,14 @@ impl<const N: usize, T: ToArg> ToArg for [T; N] {
             return Ok(as_vec.unwrap_or_else(|_| unreachable!()));
         }
 
+        if data.len() != Self::size() {
+            return Err(Error::TypeSizeMismatch);
+        }
+
         let as_vec = data
             // Strip off the padding and recreate the Ts
             .chunks(T::size().next_multiple_of(T::alignment()))
-            .map(|x| T::try_from_bytes(x.to_owned()))
+            .map(|x| T::try_from_bytes(x[..T::size()].to_owned()))
             .collect::<Result<Vec<_>>>()?;
 
         if as_vec.len() != N {
@@ -533,6 +537,15 @@ impl<T> CallData<T> {
 
         offset
     }
+
+    /// Returns the required alignment of the stack pointer.
+    pub(crate) fn alignment(&self) -> usize {
+        self.args
+            .iter()
+            .map(|arg| arg.alignment)
+            .chain((self.return_value.size > 0).then_some(self.return_value.alignment))
+            .fold(16, usize::max)
+    }
 }
 
 #[cfg(test)]
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index a6186d6..8068d5d 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -587,7 +587,7 @@ impl FheProcessor {
 
         memory.try_push_arg_onto_stack(&Arg {
             bytes: vec![Byte::Plaintext(0); call_data_size],
-            alignment: 16,
+            alignment: args.alignment(),
         })?;
 
         let sp = memory.stack_ptr();
@@ -681,6 +681,21 @@ impl FheProcessor {
         initial_pc: Ptr32,
         args: &CallData<T>,
         options: &RunProgramOptions,
+    ) -> Result<(u32, T)> {
+        // The call's frame only lives as long as the call.
+        let stack_ptr = memory.stack_ptr();
+        let result = self.call_program(memory, initial_pc, args, options);
+        memory.set_stack_ptr(stack_ptr);
+
+        result
+    }
+
+    fn call_program<T: ToArg>(
+        &mut self,
+        memory: &Arc<Memory>,
+        initial_pc: Ptr32,
+        args: &CallData<T>,
+        options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
         self.reset()?;
         let return_data = self.set_up_function_call(memory, args)?;
-- 
2.43.0


From 573b0d66dae5333f28e97128fff20f78763ff393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 44/51] fix: check the whole stack range before pushing

---
 parasol_cpu/src/memory/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index a597c31..6cd4e92 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -479,6 +479,8 @@ impl Memory {
         let unaligned = stack_ptr.0.checked_sub(len).ok_or(Error::PointerOverflow)?;
         let data_ptr = Ptr32(unaligned - unaligned % alignment);
 
+        self.check_range_is_mapped(data_ptr, stack_ptr.0 - data_ptr.0)?;
+
         // Write the bytes in the argument, followed by the padding that aligns it.
         let padding = std::iter::repeat_n(Byte::from(0), (unaligned % alignment) as usize);
 
-- 
2.43.0


From 69597cd8a9e19f5eb083452c2375fbf03b0d0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 45/51] fix: report where an illegal instruction was
 encountered

---
 parasol_cpu/src/proc/fhe_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 8068d5d..6ca425c 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -712,7 +712,7 @@ impl FheProcessor {
                 }
 
                 let inst = memory.try_load_plaintext_dword(self.pc.into())?;
-                let inst = IsaOp::try_from(inst)?;
+                let inst = IsaOp::try_from(inst).map_err(|_| Error::IllegalInstruction(self.pc))?;
 
                 let pc_result = self.dispatch_instruction(inst, self.pc, options);
 
-- 
2.43.0


From 761d2c35d4d6942be5c3b4448382ea4c2763e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 46/51] fix: refuse loads and stores of widths that are not
 whole bytes

---
 parasol_cpu/src/proc/fhe_processor.rs |  2 +-
 parasol_cpu/src/proc/ops/load.rs      |  2 +-
 parasol_cpu/src/proc/ops/mod.rs       | 11 +++++++++--
 parasol_cpu/src/proc/ops/store.rs     |  2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 6ca425c..6830757 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -179,7 +179,7 @@ impl FheProcessor {
 
                     let base_addr = Ptr32::from(base_addr).try_signed_offset(offset)?;
 
-                    if is_invalid_load_store_alignment(base_addr, num_bytes) {
+                    if is_invalid_load_store_alignment(base_addr, width) {
                         return Err(Error::UnalignedAccess(base_addr.0));
                     }
 
diff --git a/parasol_cpu/src/proc/ops/load.rs b/parasol_cpu/src/proc/ops/load.rs
index 5441177..246d26e 100644
--- a/parasol_cpu/src/proc/ops/load.rs
+++ b/parasol_cpu/src/proc/ops/load.rs
@@ -28,7 +28,7 @@ impl FheProcessor {
 
                     let base_addr = Ptr32::from(*ptr as u32).try_signed_offset(offset)?;
 
-                    if is_invalid_load_store_alignment(base_addr, num_bytes) {
+                    if is_invalid_load_store_alignment(base_addr, width) {
                         return Err(Error::UnalignedAccess(base_addr.0));
                     }
 
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index f193eef..1bad610 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -137,8 +137,15 @@ pub(crate) fn width_mask(width: u32) -> u128 {
     }
 }
 
-pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bool {
-    num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
+/// Loads and stores move 1, 2, 4, 8 or 16 whole bytes at a multiple of their size.
+pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, width: u32) -> bool {
+    let num_bytes = width / 8;
+
+    width % 8 != 0
+        || num_bytes == 0
+        || addr.0 % num_bytes != 0
+        || num_bytes > 16
+        || !num_bytes.is_power_of_two()
 }
 
 #[macro_export]
diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index f279489..e2a907d 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -37,7 +37,7 @@ impl FheProcessor {
 
                     let base_addr = Ptr32::from(base_addr).try_signed_offset(offset)?;
 
-                    if is_invalid_load_store_alignment(base_addr, num_bytes) {
+                    if is_invalid_load_store_alignment(base_addr, width) {
                         return Err(Error::UnalignedAccess(base_addr.0));
                     }
 
-- 
2.43.0


From 6a752987d39c5f6f6df85f209c1d3672701bc426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 47/51] fix: refuse to combine or copy objects of different
 lengths

---
 sunscreen_tfhe/src/dst.rs             | 5 +++++
 sunscreen_tfhe/src/macros.rs          | 2 ++
 sunscreen_tfhe/src/math/polynomial.rs | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index 9ee0501..e24a20b 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -42,7 +42,12 @@ macro_rules! dst {
             impl<T> $ref_t<T> where T: Clone $(+ $t_bounds)* {
                 #[allow(unused)]
                 /// Clones the contents of rhs into self
+                ///
+                /// # Panics
+                /// If `rhs` doesn't have the same length as `self`.
                 pub fn clone_from_ref(&mut self, rhs: &$ref_t<T>) {
+                    assert_eq!(self.data.len(), rhs.data.len());
+
                     for (l, r) in self.data.iter_mut().zip(rhs.data.iter()) {
                         *l = r.clone();
                     }
diff --git a/sunscreen_tfhe/src/macros.rs b/sunscreen_tfhe/src/macros.rs
index 9097727..3dc8aaf 100644
--- a/sunscreen_tfhe/src/macros.rs
+++ b/sunscreen_tfhe/src/macros.rs
@@ -8,6 +8,8 @@ macro_rules! impl_binary_op {
                 S: $($t_bounds)*
             {
                 fn [<$op:lower _assign>](&mut self, rhs: Self) {
+                    assert_eq!(self.data.len(), rhs.data.len());
+
                     self.data.iter_mut().zip(rhs.data.iter()).for_each(|(a, b)| {
                         *a = num::traits::[<Wrapping $op>]::[<wrapping_ $op:lower>](a, b);
                     });
diff --git a/sunscreen_tfhe/src/math/polynomial.rs b/sunscreen_tfhe/src/math/polynomial.rs
index dd69dab..95f39c5 100644
--- a/sunscreen_tfhe/src/math/polynomial.rs
+++ b/sunscreen_tfhe/src/math/polynomial.rs
@@ -19,6 +19,8 @@ pub fn polynomial_sub_assign<S>(lhs: &mut PolynomialRef<S>, rhs: &PolynomialRef<
 where
     S: SubAssign + Copy,
 {
+    assert_eq!(lhs.len(), rhs.len());
+
     for (a, b) in lhs
         .coeffs_mut()
         .iter_mut()
@@ -89,6 +91,8 @@ pub fn polynomial_add_assign<S>(lhs: &mut PolynomialRef<S>, rhs: &PolynomialRef<
 where
     S: AddAssign + Copy,
 {
+    assert_eq!(lhs.len(), rhs.len());
+
     for (a, b) in lhs
         .coeffs_mut()
         .iter_mut()
-- 
2.43.0


From b963354d1a25bbd16645dfa46370da7f67e2b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 48/51] fix: check the shapes of LWE operands

---
 sunscreen_tfhe/src/entities/lwe_secret_key.rs           | 1 +
 sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs | 9 ++++++++-
 sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs     | 2 ++
 sunscreen_tfhe/src/ops/homomorphisms/lwe.rs             | 1 +
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/entities/lwe_secret_key.rs b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
index 9ec357d..f249f78 100644
--- a/sunscreen_tfhe/src/entities/lwe_secret_key.rs
+++ b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
@@ -92,6 +92,7 @@ where
     pub fn decrypt_without_decode(&self, ct: &LweCiphertextRef<S>, params: &LweDef) -> Torus<S> {
         params.assert_valid();
         ct.assert_is_valid(params.dim);
+        self.assert_is_valid(params.dim);
 
         let (a, b) = ct.a_b(params);
 
diff --git a/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs
index 979b386..16e85a1 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs
@@ -1,10 +1,14 @@
-use crate::{LweDef, Torus, TorusOps, entities::LweCiphertextRef};
+use crate::{LweDef, OverlaySize, Torus, TorusOps, entities::LweCiphertextRef};
 
 /// Add the coefficients of a to the coefficients of c in place.
 pub fn add_lwe_inplace<S>(c: &mut LweCiphertextRef<S>, a: &LweCiphertextRef<S>, params: &LweDef)
 where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
 
@@ -103,6 +107,9 @@ pub fn lwe_ciphertext_modulus_switch<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    ct.assert_is_valid(params.dim);
+
     let (c_a, c_b) = ct.a_b_mut(params);
 
     // We specifically want to zero out the MSBs instead of shifting them back
diff --git a/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
index 57bfa57..4b55680 100644
--- a/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
@@ -43,6 +43,8 @@ where
     S: TorusOps,
 {
     params.assert_valid();
+    ct.assert_is_valid(params.dim);
+    sk.assert_is_valid(params.dim);
 
     let (a, b) = ct.a_b_mut(params);
     *b = Torus::zero();
diff --git a/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs b/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs
index 3187bfb..6a2abf9 100644
--- a/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs
+++ b/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs
@@ -12,6 +12,7 @@ pub fn lwe_rotate<S: TorusOps>(
     amount: Torus<S>,
     lwe: &LweDef,
 ) {
+    lwe.assert_valid();
     output.assert_is_valid(lwe.dim);
     input.assert_is_valid(lwe.dim);
 
-- 
2.43.0


From 0ac95ec389a562467cd65bba925ef1286e70e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 49/51] fix: check shapes when encrypting and decrypting GLWE,
 GLEV and GGSW ciphertexts

---
 sunscreen_tfhe/src/entities/ggsw_ciphertext.rs   |  5 +++++
 sunscreen_tfhe/src/entities/glwe_ciphertext.rs   |  1 +
 .../src/ops/encryption/ggsw_encryption.rs        |  7 +++++++
 .../src/ops/encryption/glev_encryption.rs        |  3 +++
 .../src/ops/encryption/glwe_encryption.rs        | 16 +++++++++++++++-
 .../src/ops/encryption/rlwe_encryption.rs        |  3 +++
 6 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs b/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
index db902c2..e9813e0 100644
--- a/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
@@ -48,6 +48,9 @@ where
 
     /// Create a new GGSW ciphertext from a slice of Torus elements.
     pub fn from_slice(data: &[Torus<S>], params: &GlweDef, radix: &RadixDecomposition) -> Self {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+
         let elems = GgswCiphertextRef::<S>::size((params.dim, radix.count));
 
         assert_eq!(data.len(), elems);
@@ -101,6 +104,8 @@ where
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
         self.assert_is_valid((params.dim, radix.count));
         result.assert_is_valid((params.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/entities/glwe_ciphertext.rs b/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
index 5b55304..34e3c56 100644
--- a/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
@@ -69,6 +69,7 @@ where
 
     /// Generate a GLWE ciphertext from a slice of [crate::TorusOps] elements.
     pub fn from_slice(data: &[S], params: &GlweDef) -> GlweCiphertext<S> {
+        params.assert_valid();
         assert_eq!(data.len(), GlweCiphertextRef::<S>::size(params.dim));
 
         GlweCiphertext {
diff --git a/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs b/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
index 32f38b2..0f88324 100644
--- a/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
@@ -29,6 +29,13 @@ pub(crate) fn encrypt_ggsw_ciphertext_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    assert!(plaintext_bits.0 < S::BITS);
+    ggsw_ciphertext.assert_is_valid((params.dim, radix.count));
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    glwe_secret_key.assert_is_valid(params.dim);
+
     let max_val = S::from_u64(0x1 << plaintext_bits.0);
     assert!(msg.coeffs().iter().all(|x| *x < max_val));
 
diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd91437..046a55c 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -35,6 +35,7 @@ pub(crate) fn encrypt_secret_glev_ciphertext_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
     radix.assert_valid::<S>();
     glev_ciphertext.assert_is_valid((params.dim, radix.count));
     msg.assert_is_valid(params.dim.polynomial_degree);
@@ -69,6 +70,8 @@ pub fn scale_msg_by_gadget_factor<S>(
 ) where
     S: TorusOps,
 {
+    assert_eq!(scaled_msg.len(), msg.len());
+
     // The factor is q / B^{i+1}. Since B is a power of 2, this is equivalent to
     // multiplying by 2^{log2(q) - log2(B) * (i + 1)}
     let decomp_factor = S::from_u64(0x1 << (S::BITS as usize - decomposition_radix_log * (j + 1)));
diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index 0198cf7..9562254 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -1,7 +1,7 @@
 use num::Zero;
 
 use crate::{
-    GlweDef, Torus, TorusOps,
+    GlweDef, OverlaySize, Torus, TorusOps,
     entities::{GlweCiphertextRef, GlweSecretKeyRef, Polynomial, PolynomialRef},
     polynomial::{polynomial_add_assign, polynomial_external_mad, polynomial_sub_assign},
     rand::{normal_torus, uniform_torus},
@@ -27,6 +27,11 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    sk.assert_is_valid(params.dim);
+
     let mut tmp = Polynomial::zero(params.dim.polynomial_degree.0);
 
     let (a, b) = c.a_b_mut(params);
@@ -84,6 +89,10 @@ pub fn trivially_encrypt_glwe_ciphertext<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    msg.assert_is_valid(params.dim.polynomial_degree);
+
     let (a, b) = c.a_b_mut(params);
 
     // tmp = A_i * S_i
@@ -110,6 +119,11 @@ pub fn decrypt_glwe_ciphertext<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    ct.assert_is_valid(params.dim);
+    sk.assert_is_valid(params.dim);
+
     let (a, b) = ct.a_b(params);
 
     let mut tmp = Polynomial::zero(b.len());
diff --git a/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs
index f5229e1..f373e0a 100644
--- a/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs
@@ -51,7 +51,10 @@ pub fn rlwe_generate_public_key<S>(
 ) where
     S: TorusOps,
 {
+    glwe.assert_valid();
     assert_eq!(glwe.dim.size.0, 1);
+    public_key.assert_is_valid(glwe.dim);
+    secret_key.assert_is_valid(glwe.dim);
 
     allocate_scratch_ref!(pt, PolynomialRef<Torus<S>>, (glwe.dim.polynomial_degree));
     pt.clear();
-- 
2.43.0


From b03b061de1dd6dc6be84ae003ecfc63c609e5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 50/51] fix: check the shapes of GLWE, GLEV and GGSW operands

---
 .../src/entities/automorphism_key.rs          |  5 ++++
 sunscreen_tfhe/src/entities/bootstrap_key.rs  |  3 +++
 .../src/entities/ggsw_ciphertext_fft.rs       |  5 ++++
 .../src/entities/scheme_switch_key.rs         |  2 ++
 .../src/ops/bootstrapping/scheme_switch.rs    |  3 +++
 .../src/ops/ciphertext/glwe_ciphertext_ops.rs | 23 ++++++++++++++++
 sunscreen_tfhe/src/ops/fft_ops.rs             | 27 ++++++++++++++++++-
 7 files changed, 67 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/entities/automorphism_key.rs b/sunscreen_tfhe/src/entities/automorphism_key.rs
index 58dcfd2..777f644 100644
--- a/sunscreen_tfhe/src/entities/automorphism_key.rs
+++ b/sunscreen_tfhe/src/entities/automorphism_key.rs
@@ -71,6 +71,11 @@ impl<S: TorusOps> AutomorphismKeyRef<S> {
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((glwe.dim, radix.count));
+        result.assert_is_valid((glwe.dim, radix.count));
+
         for (i, o) in self
             .keyswitch_keys(glwe, radix)
             .zip(result.keyswitch_keys_mut(glwe, radix))
diff --git a/sunscreen_tfhe/src/entities/bootstrap_key.rs b/sunscreen_tfhe/src/entities/bootstrap_key.rs
index ed12d5f..b723186 100644
--- a/sunscreen_tfhe/src/entities/bootstrap_key.rs
+++ b/sunscreen_tfhe/src/entities/bootstrap_key.rs
@@ -96,6 +96,9 @@ impl<S: TorusOps> BootstrapKeyRef<S> {
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        lwe.assert_valid();
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
         self.assert_is_valid((lwe.dim, glwe.dim, radix.count));
         result.assert_is_valid((lwe.dim, glwe.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs b/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs
index 9357b0a..279671e 100644
--- a/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs
+++ b/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs
@@ -72,6 +72,11 @@ impl GgswCiphertextFftRef<Complex<f64>> {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((params.dim, radix.count));
+        result.assert_is_valid((params.dim, radix.count));
+
         for (s, r) in self.rows(params, radix).zip(result.rows_mut(params, radix)) {
             s.ifft(r, params);
         }
diff --git a/sunscreen_tfhe/src/entities/scheme_switch_key.rs b/sunscreen_tfhe/src/entities/scheme_switch_key.rs
index f823f82..10b9114 100644
--- a/sunscreen_tfhe/src/entities/scheme_switch_key.rs
+++ b/sunscreen_tfhe/src/entities/scheme_switch_key.rs
@@ -177,6 +177,8 @@ where
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
         self.assert_is_valid((params.dim, radix.count));
         result.assert_is_valid((params.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs b/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
index 61cd0d7..45629eb 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
@@ -261,6 +261,9 @@ pub fn scheme_switch<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix_ggsw.assert_valid::<S>();
+    radix_ss.assert_valid::<S>();
     ssk.assert_is_valid((params.dim, radix_ss.count));
     output.assert_is_valid((params.dim, radix_ggsw.count));
     glev_ciphertext.assert_is_valid((params.dim, radix_ggsw.count));
diff --git a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
index e1dc3f3..f6361cb 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
@@ -36,8 +36,10 @@ pub fn sample_extract<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
     glwe.assert_is_valid(params.dim);
     assert!(h < params.dim.polynomial_degree.0);
+    output.assert_is_valid(params.as_lwe_def().dim);
 
     // We are copying parts of the GLWE ciphertext out according to the following rule:
     // a_{N*i + j} =  a_{i, h - j} for 0 <= i < k, 0 <= j <= h
@@ -148,6 +150,9 @@ pub fn glwe_negate_inplace<S>(ct: &mut GlweCiphertextRef<S>, params: &GlweDef)
 where
     S: TorusOps,
 {
+    params.assert_valid();
+    ct.assert_is_valid(params.dim);
+
     for a in ct.a_mut(params) {
         polynomial_negate(a);
     }
@@ -194,6 +199,10 @@ pub fn glwe_scalar_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+
     for (c, a) in c.a_mut(params).zip(a.a(params)) {
         polynomial_small_scalar_mad(c, a, b.into());
     }
@@ -214,6 +223,12 @@ pub fn glwe_ggsw_mad<S>(
 ) where
     S: TorusOps,
 {
+    glwe_def.assert_valid();
+    radix.assert_valid::<S>();
+    c.assert_is_valid(glwe_def.dim);
+    a.assert_is_valid(glwe_def.dim);
+    b.assert_is_valid((glwe_def.dim, radix.count));
+
     let (a_a, a_b) = a.a_b(glwe_def);
     let rows = b.rows(glwe_def, radix);
 
@@ -273,6 +288,10 @@ pub fn glwe_mod_switch_and_expand_pow_2<S>(
 ) where
     S: TorusOps,
 {
+    glwe.assert_valid();
+    y.assert_is_valid(glwe.dim);
+    x.assert_is_valid(glwe.dim);
+
     for (y, x) in y.a_mut(glwe).zip(x.a(glwe)) {
         polynomial_shr_round(y, x, log_q_prime);
     }
@@ -290,6 +309,10 @@ pub fn glwe_rotate<S>(
 ) where
     S: TorusOps,
 {
+    glwe.assert_valid();
+    y.assert_is_valid(glwe.dim);
+    x.assert_is_valid(glwe.dim);
+
     for (y_a, x_a) in y.a_mut(glwe).zip(x.a(glwe)) {
         y_a.coeffs_mut().clone_from_slice(x_a.coeffs());
     }
diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index 2ddb185..f944a90 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -2,7 +2,7 @@ use num::Complex;
 
 use crate::{
     GlweDef, RadixDecomposition, TorusOps,
-    dst::{FromMutSlice, OverlaySize},
+    dst::{AsSlice, FromMutSlice, OverlaySize},
     entities::{
         GgswCiphertextFftRef, GlevCiphertextFftRef, GlevCiphertextRef, GlweCiphertextFftRef,
         GlweCiphertextRef, GlweKeyswitchKeyFftRef, PolynomialFftRef, PolynomialRef,
@@ -29,6 +29,12 @@ pub fn glwe_ggsw_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    c_fft.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b_fft.assert_is_valid((params.dim, radix.count));
+
     let (a_a, a_b) = a.a_b(params);
     let rows = b_fft.rows(params, radix);
 
@@ -110,6 +116,11 @@ pub fn glwe_polynomial_mad(
     b: &PolynomialFftRef<Complex<f64>>,
     params: &GlweDef,
 ) {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b.assert_is_valid(params.dim.polynomial_degree);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
 
@@ -210,6 +221,11 @@ pub fn glev_cmux<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    ggsw_radix.assert_valid::<S>();
+    assert_eq!(c.as_slice().len(), d_0.as_slice().len());
+    assert_eq!(c.as_slice().len(), d_1.as_slice().len());
+
     for ((c, d_0), d_1) in c
         .glwe_ciphertexts_mut(params)
         .zip(d_0.glwe_ciphertexts(params))
@@ -411,6 +427,9 @@ pub fn scheme_switch_fft<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix_ggsw.assert_valid::<S>();
+    radix_ss.assert_valid::<S>();
     ssk_fft.assert_is_valid((params.dim, radix_ss.count));
     output.assert_is_valid((params.dim, radix_ggsw.count));
     glev_ciphertext.assert_is_valid((params.dim, radix_ggsw.count));
@@ -464,6 +483,12 @@ pub fn keyswitch_glwe_to_glwe<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    output.assert_is_valid(params.dim);
+    ciphertext_under_original_key.assert_is_valid(params.dim);
+    keyswitch_key.assert_is_valid((params.dim, radix.count));
+
     let (ciphertext_a, ciphertext_b) = ciphertext_under_original_key.a_b(params);
 
     let keyswitch_glevs = keyswitch_key.rows(params, radix);
-- 
2.43.0


From e2f4e114bdcb0ed006fa613fa0b6bff85860d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 51/51] fix: check the shapes of keyswitching and bootstrapping
 operands

---
 .../src/ops/bootstrapping/blind_rotation.rs      | 16 +++++++++++++++-
 .../ops/bootstrapping/circuit_bootstrapping.rs   | 16 ++++++++++++++++
 .../bootstrapping/programmable_bootstrapping.rs  |  6 ++++++
 .../src/ops/keyswitch/glwe_keyswitch.rs          |  8 +++++++-
 .../src/ops/keyswitch/glwe_keyswitch_key.rs      |  8 +++++++-
 .../keyswitch/private_functional_keyswitch.rs    |  3 +++
 .../ops/keyswitch/public_functional_keyswitch.rs |  6 ++++++
 7 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs b/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs
index c6b4eaf..90e9ce6 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs
@@ -2,7 +2,7 @@ use num::Complex;
 
 use crate::{
     GlweDef, PlaintextBits, RadixDecomposition, TorusOps,
-    dst::FromMutSlice,
+    dst::{FromMutSlice, OverlaySize},
     entities::{BlindRotationShiftFftRef, GgswCiphertext, GlweCiphertextRef, GlweSecretKeyRef},
     ops::{encryption::encrypt_ggsw_ciphertext_scalar, fft_ops::cmux},
     scratch::allocate_scratch_ref,
@@ -84,6 +84,10 @@ pub fn rotate_glwe_monomial_negacyclic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.dim);
+    ct.assert_is_valid(params.dim);
+
     let (output_a, output_b) = output.a_b_mut(params);
     let (ct_a, ct_b) = ct.a_b(params);
 
@@ -208,6 +212,12 @@ pub fn blind_rotation<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    output.assert_is_valid(params.dim);
+    blind_rotation_index.assert_is_valid((params.dim, radix.count));
+    ct.assert_is_valid(params.dim);
+
     // Initialize with the unrotated message m
     output.clone_from_ref(ct);
     allocate_scratch_ref!(rotated_ct, GlweCiphertextRef<S>, (params.dim));
@@ -237,6 +247,10 @@ pub fn generate_blind_rotation_shift<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    bootstrap_key.assert_is_valid((params.dim, radix.count));
+
     let degree = params.dim.polynomial_degree.0;
     assert!(rotation < degree);
 
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs
index 4a8b74c..a022690 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs
@@ -354,6 +354,14 @@ pub fn circuit_bootstrap_via_trace_and_scheme_switch<S>(
 ) where
     S: TorusOps,
 {
+    lwe_0.assert_valid();
+    glwe_1.assert_valid();
+    pbs_radix.assert_valid::<S>();
+    trace_radix.assert_valid::<S>();
+    ss_radix.assert_valid::<S>();
+    cbs_radix.assert_valid::<S>();
+    output.assert_is_valid((glwe_1.dim, cbs_radix.count));
+
     allocate_scratch_ref!(
         lo_noise_glev,
         GlevCiphertextRef<S>,
@@ -491,6 +499,14 @@ pub fn apply_pfks_on_ggsw_components<S: TorusOps>(
     pfks_radix: &RadixDecomposition,
     cbs_radix: &RadixDecomposition,
 ) {
+    glwe_2.assert_valid();
+    glwe_1.assert_valid();
+    pfks_radix.assert_valid::<S>();
+    cbs_radix.assert_valid::<S>();
+    result.assert_is_valid((glwe_1.dim, cbs_radix.count));
+    lwes_2.assert_is_valid((glwe_2.as_lwe_def().dim, cbs_radix.count.0));
+    cbsksk.assert_is_valid((glwe_2.as_lwe_def().dim, glwe_1.dim, pfks_radix.count));
+
     for (glev, pfksk) in result.rows_mut(glwe_1, cbs_radix).zip(cbsksk.keys(
         &glwe_2.as_lwe_def(),
         glwe_1,
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
index 1d4f9be..c89fd23 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
@@ -299,6 +299,8 @@ pub fn programmable_bootstrap_univariate<S>(
 ) where
     S: TorusOps,
 {
+    output.assert_is_valid(glwe_params.as_lwe_def().dim);
+
     allocate_scratch_ref!(glwe, GlweCiphertextRef<S>, (glwe_params.dim));
 
     generalized_programmable_bootstrap(
@@ -585,6 +587,10 @@ pub fn programmable_bootstrap_bivariate<S>(
 ) where
     S: TorusOps,
 {
+    left_input.assert_is_valid(lwe_params.dim);
+    right_input.assert_is_valid(lwe_params.dim);
+    output.assert_is_valid(glwe_params.as_lwe_def().dim);
+
     // The general operation for a bivariate PBS is
     //
     // 1. Ensure that the number of carry bits is equal to the size of the
diff --git a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs
index 7ac7cdb..7a18f16 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs
@@ -1,6 +1,6 @@
 use crate::{
     GlweDef, RadixDecomposition, TorusOps,
-    dst::FromMutSlice,
+    dst::{FromMutSlice, OverlaySize},
     entities::{GlweCiphertext, GlweCiphertextRef, GlweKeyswitchKeyRef, PolynomialRef},
     ops::{
         ciphertext::{decomposed_polynomial_glev_mad, sub_glwe_ciphertexts},
@@ -32,6 +32,12 @@ pub fn keyswitch_glwe_to_glwe<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    output.assert_is_valid(params.dim);
+    ciphertext_under_original_key.assert_is_valid(params.dim);
+    keyswitch_key.assert_is_valid((params.dim, radix.count));
+
     let (ciphertext_a, ciphertext_b) = ciphertext_under_original_key.a_b(params);
 
     let keyswitch_glevs = keyswitch_key.rows(params, radix);
diff --git a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs
index e53fa4b..78ede84 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs
@@ -1,5 +1,5 @@
 use crate::{
-    GlweDef, RadixDecomposition, Torus, TorusOps,
+    GlweDef, OverlaySize, RadixDecomposition, Torus, TorusOps,
     entities::{
         GlweCiphertextRef, GlweKeyswitchKeyRef, GlweSecretKeyRef, Polynomial, PolynomialRef,
     },
@@ -44,6 +44,12 @@ fn encrypt_keyswitch_key_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    keyswitch_key.assert_is_valid((params.dim, radix.count));
+    original_glwe_secret_key.assert_is_valid(params.dim);
+    new_glwe_secret_key.assert_is_valid(params.dim);
+
     let decomposition_radix_log = radix.radix_log.0;
     let polynomial_degree = params.dim.polynomial_degree.0;
 
diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index cdb6475..159c83a 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -119,6 +119,9 @@ pub fn private_functional_keyswitch<S: TorusOps>(
     to_glwe.assert_valid();
     radix.assert_valid::<S>();
     lwe_count.assert_valid();
+    for i in inputs {
+        i.assert_is_valid(from_lwe.dim);
+    }
 
     assert_eq!(lwe_count.0, inputs.len());
 
diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 9cac4e0..65ee20c 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -34,6 +34,9 @@ pub fn generate_public_functional_keyswitch_key<S: TorusOps>(
     to_glwe: &GlweDef,
     radix: &RadixDecomposition,
 ) {
+    from_lwe.assert_valid();
+    to_glwe.assert_valid();
+    radix.assert_valid::<S>();
     from_sk.assert_is_valid(from_lwe.dim);
     to_sk.assert_is_valid(to_glwe.dim);
     output.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count));
@@ -83,6 +86,9 @@ pub fn public_functional_keyswitch<S, F>(
     S: TorusOps,
     F: Fn(&mut PolynomialRef<Torus<S>>, &[Torus<S>]),
 {
+    from_lwe.assert_valid();
+    to_glwe.assert_valid();
+    radix.assert_valid::<S>();
     pufksk.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count));
     output.assert_is_valid(to_glwe.dim);
 
-- 
2.43.0

