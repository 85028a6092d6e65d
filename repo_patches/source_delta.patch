From 86d9da2b5cf5ab3ea3e7bd8b6af68e80a041f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 01/58] fix: Philox/ThreeFry advance with number=2 on a fresh
 buffer

A fresh buffer is marked with buffer_pos=4 for all sizes, so advance(delta, counter=False)
with number=2 and an even delta did not count the pending block and landed one
block early.
---
 randomgen/src/philox/philox.c     | 4 ++++
 randomgen/src/threefry/threefry.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..9bbb488 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -8,6 +8,10 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
   int i, next_buffer_pos;                                                                 \
   uint##W##_t last, carry, rem, adj_step;                                                 \
   philox##N##x##W##_ctr_t ct;                                                             \
+  /* A fresh buffer may be marked with the size of the largest buffer */                  \
+  if (state->buffer_pos > N) {                                                            \
+    state->buffer_pos = N;                                                                \
+  }                                                                                       \
   rem = step[0] % N;                                                                      \
   next_buffer_pos = state->buffer_pos + rem;                                              \
   carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..f3c1892 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -8,6 +8,10 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
   int i, next_buffer_pos;                                                                   \
   uint##W##_t last, carry, rem, adj_step;                                                   \
   threefry##N##x##W##_ctr_t ct;                                                             \
+  /* A fresh buffer may be marked with the size of the largest buffer */                    \
+  if (state->buffer_pos > N) {                                                              \
+    state->buffer_pos = N;                                                                  \
+  }                                                                                         \
   rem = step[0] % N;                                                                        \
   next_buffer_pos = state->buffer_pos + rem;                                                \
   carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
-- 
2.43.0


From d8433ee8317272da5f99812ce477ff57ef6c8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 02/58] fix: Philox/ThreeFry advance for negative and very
 large delta

The bits of the step above the last counter word were dropped for the most significant
word, so a negative delta (or one of at least 2**(number*width)) moved the counter to the
wrong position.
---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index 9bbb488..e3dfc4f 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -21,9 +21,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index f3c1892..efb2db0 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -21,9 +21,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From 02a275f1527ea56930a36d322c3e1a9958cfb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 03/58] fix: random_raw(size, output=False) with a tuple size

The number of values discarded was the sum of the dimensions, not their product, so the
stream was left at a different position than with output=True.
---
 randomgen/common.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..98fe6de 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -234,7 +234,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = np.prod(size, dtype=np.intp)
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
-- 
2.43.0


From 44cb5df493c85036e1bc1b14654667a6f4228484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 04/58] fix: Squares state setter restores the buffered 32-bit
 value

has_uint32 and uinteger were part of the saved state but were not restored.
---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..a89014c 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -546,6 +546,8 @@ cdef class Squares(BitGenerator):
             raise ValueError("variant must be either 64 or 32.")
         self.variant = variant
         self._use64 = variant == 64
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
         self._setup_bitgen()
 
     def advance(self, uint64_t delta):
-- 
2.43.0


From c13c02b9e9647fd9d82168835c2d6a55557ffa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 05/58] fix: Xorshift1024.seed resets the position

Reseeding a used instance left p unchanged, so the stream differed from that of a
new instance with the same seed.
---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 9e0864ab87df60f01711e2caa0783551fea54fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 06/58] fix: HC128.seed discards the words buffered under the
 previous key

---
 randomgen/src/hc-128/hc-128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..707cc93 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,7 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From d66eb28531e170561e91a1133aa70ef59e2763b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 07/58] fix: SFC64 adds 1 to an even Weyl increment, as
 documented

---
 randomgen/sfc.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index e16d8eb..5f82cc4 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -151,7 +151,9 @@ cdef class SFC64(BitGenerator):
         state_arr = <np.uint64_t *>np.PyArray_DATA(state)
         w = self.w if self.w is not None else state[3]
         loc = 3 if self.w is not None else 4
-        k = self.k if self.k is not None else (<uint64_t>state[loc] | 0x1)
+        k = self.k if self.k is not None else state[loc]
+        # The Weyl increment must be odd
+        k |= 0x1
         sfc_seed(&self.rng_state, state_arr, w, k)
         self._reset_state_variables()
 
-- 
2.43.0


From 9830c584c8dade92f6167c1d6461fa0a68efe9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 08/58] fix: SFC64.weyl_increments never selects a bit count
 outside [min_bits, max_bits]

---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 5f82cc4..764005c 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -293,7 +293,7 @@ cdef class SFC64(BitGenerator):
         out = np.empty(n, dtype=np.uint64)
         out_arr = <uint64_t *>np.PyArray_DATA(out)
         for i in range(n):
-            val = <uint64_t>gen.integers(0, total, endpoint=True, dtype=np.uint64)
+            val = <uint64_t>gen.integers(0, total, dtype=np.uint64)
             nonzero_bits = 0
             for j in range(nbits):
                 if val < cum_count_arr[j] and nonzero_bits == 0:
-- 
2.43.0


From d24113580e1171496766ef3a720f87ea84dcf291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 09/58] fix: Squares key generation refills its words before
 reading past them

---
 randomgen/squares.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index a89014c..5c7474d 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -85,14 +85,14 @@ cdef class _SequenceSampler:
 
     cdef void refill(self):
         """Refill the bit well after it is exhausted"""
-        self.bit_well = <uint64_t>self.random_well[self.index]
-        self.bit_well_loc = 0
-        self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
             )
+        self.bit_well = <uint64_t>self.random_well[self.index]
+        self.bit_well_loc = 0
+        self.index += 1
 
     cdef uint64_t gen_bits(self, int nbits):
         """Generate a fixed number of bits from the bit well"""
-- 
2.43.0


From 8fab569be783057679f86ca36c46afe043a9844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 10/58] fix: RDRAND does not read past its buffer after a
 failure

---
 randomgen/rdrand.pyx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..6607e79 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -30,18 +30,14 @@ cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
     cdef uint64_t val
     state = <rdrand_state*>st
     status = 1
-    if state.status == 1 and state.buffer_loc < BUFFER_SIZE:
-        val = state.buffer[state.buffer_loc]
-        state.buffer_loc += 1
-        return val
-    elif state.status == 1:
-        # Only refill if good status
-        # This function will
+    if state.buffer_loc >= BUFFER_SIZE:
+        # Always refill an exhausted buffer, even after a failure, so that
+        # values beyond the end of the buffer are never read
         status = rdrand_fill_buffer(state)
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
     if status == 0:
-        # Only raise on a status change
+        # Only raise when a refill did not succeed
         with gil:
             err = PyErr_Occurred()
             if err == NULL:
-- 
2.43.0


From 85d493fea6dbc8c3e35f4f9a56db2d9f2ccc283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 11/58] fix: RDRAND.random_raw(size, output=False) with a tuple
 size

---
 randomgen/rdrand.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index 6607e79..76d4874 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -360,7 +360,7 @@ cdef class RDRAND(BitGenerator):
         cdef int status
 
         if not output:
-            n = 1 if size is None else size
+            n = 1 if size is None else np.prod(size, dtype=np.intp)
             status = self.rng_state.status
             with self.lock, nogil:
                 for i in range(n):
-- 
2.43.0


From adaa01e0bca6131b321f212843601f707ab55d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 12/58] fix: random_entropy with an empty size returns an empty
 array

---
 randomgen/entropy.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..bf58a3f 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -173,6 +173,8 @@ def random_entropy(size=None, source="system"):
     else:
         n = compute_numel(size)
         randoms = np.zeros(n, dtype=np.uint32)
+        if n == 0:
+            return np.asarray(randoms).reshape(size)
         if source in ("system", "auto"):
             success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
         else:
-- 
2.43.0


From 6e2b52e9c609596dac79287c76c2c9961be64f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 13/58] fix: LCG128Mix state setter restores the reported
 output function and parameters

---
 randomgen/pcg64.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..f7785bb 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -848,11 +848,16 @@ cdef class LCG128Mix(BitGenerator):
                             )
         self.rng_state.has_uint32 = has_uint32
         self.rng_state.uinteger = uinteger
-        self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
-        self.rng_state.pcg_state.post = value["state"]["post"]
+        self.multiplier = multiplier
+        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        self.rng_state.pcg_state.dxsm_multiplier = self.dxsm_multiplier
+        self.post = value["state"]["post"]
+        self.rng_state.pcg_state.post = self.post
         output_func = value["state"]["output_func"]
         if isinstance(output_func, str):
-            self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
+            self._cfunc = None
+            self.output_function = self._output_lookup[output_func]
+            self.rng_state.pcg_state.output_idx = self.output_function
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
 
-- 
2.43.0


From a8361f1edafb4c447b39981314a731a8fb77d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 14/58] fix: rebuild the ctypes and cffi interfaces when
 restoring a state changes the variant

---
 randomgen/jsf.pyx          | 2 ++
 randomgen/pcg64.pyx        | 2 ++
 randomgen/philox.pyx       | 2 ++
 randomgen/romu.pyx         | 2 ++
 randomgen/squares.pyx      | 2 ++
 randomgen/threefry.pyx     | 2 ++
 randomgen/tyche.pyx        | 2 ++
 randomgen/xoroshiro128.pyx | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4576efc..39082a6 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -211,6 +211,8 @@ cdef class JSF(BitGenerator):
         self.seed(seed)
 
     cdef setup_generator(self, object p, object q, object r):
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self.size == 64:
             self._bitgen.next_uint64 = &jsf64_uint64
             self._bitgen.next_uint32 = &jsf64_uint32
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index f7785bb..155e8b9 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -208,6 +208,8 @@ cdef class PCG64(BitGenerator):
         else:
             self.variant = "xsl-rr"
 
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if not self.cheap_multiplier:
             self._bitgen.next_uint64 = &pcg64_uint64
             self._bitgen.next_uint32 = &pcg64_uint32
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..b6abb29 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -193,6 +193,8 @@ cdef class Philox(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &philox4x64_uint64
             self._bitgen.next_uint32 = &philox4x64_uint32
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 9ca65f9..ff54260 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -100,6 +100,8 @@ cdef class Romu(BitGenerator):
         self._setup_bitgen()
 
     cdef _setup_bitgen(self):
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self.variant == "quad":
             self._bitgen.next_uint64 = &romuquad_uint64
             self._bitgen.next_uint32 = &romuquad_uint32
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 5c7474d..2f8a2a3 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -446,6 +446,8 @@ cdef class Squares(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self._use64:
             self._bitgen.next_uint64 = &squares_uint64
             self._bitgen.next_uint32 = &squares_uint32
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..2f716e2 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -191,6 +191,8 @@ cdef class ThreeFry(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &threefry4x64_uint64
             self._bitgen.next_uint32 = &threefry4x64_uint32
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 078f367..04a663f 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -115,6 +115,8 @@ cdef class Tyche(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self.original:
             self._bitgen.next_uint64 = &tyche_uint64
             self._bitgen.next_uint32 = &tyche_uint32
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 9c72279..398a6ea 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -136,6 +136,8 @@ cdef class Xoroshiro128(BitGenerator):
         self._bitgen.state = <void *>&self.rng_state
 
     cdef _set_generators(self):
+        # The cached interfaces hold the addresses of the previous functions
+        self._ctypes = self._cffi = None
         if self._plusplus:
             self._bitgen.next_uint64 = &xoroshiro128plusplus_uint64
             self._bitgen.next_uint32 = &xoroshiro128plusplus_uint32
-- 
2.43.0


From da496f5cb05ee97aba19d6566ba3ae26962e9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 15/58] fix: state arrays that are not contiguous are copied
 before being read

---
 randomgen/common.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 98fe6de..da39122 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -405,7 +405,8 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
         raise ValueError("State element {0} must be a 1-d array with dtype {1} "
                          "and {2} elements".format(name, req_dtype,
                                                    required_len))
-    return arr
+    # The data are read through a pointer and so must be contiguous and aligned
+    return np.require(arr, requirements=["C", "A"])
 
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
-- 
2.43.0


From 49f9973c8a6819162ebb1ac0054f934b4f0c2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 16/58] fix: ExtendedGenerator follows its bit generator when a
 restored state changes the variant

---
 randomgen/generator.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..7b8fdd3 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -165,10 +165,13 @@ cdef class ExtendedGenerator:
     def __init__(self, bit_generator=None):
         if bit_generator is None:
             bit_generator = PCG64(variant="dxsm")
-        self._bit_generator = bit_generator
+        self._set_bit_generator(bit_generator)
 
-        capsule = bit_generator.capsule
+    cdef _set_bit_generator(self, object bit_generator):
         cdef const char *name = "BitGenerator"
+
+        self._bit_generator = bit_generator
+        capsule = bit_generator.capsule
         if not PyCapsule_IsValid(capsule, name):
             raise ValueError("Invalid bit generator. The bit generator must "
                              "be instantized.")
@@ -191,7 +194,7 @@ cdef class ExtendedGenerator:
         return self.bit_generator.state
 
     def __setstate__(self, state):
-        self.bit_generator.state = state
+        self.state = state
 
     def __reduce__(self):
         from randomgen._pickle import __extended_generator_ctor
@@ -232,6 +235,8 @@ cdef class ExtendedGenerator:
     @state.setter
     def state(self, value):
         self._bit_generator.state = value
+        # The state can change the functions used by the bit generator
+        self._set_bit_generator(self._bit_generator)
 
     def uintegers(self, size=None, int bits=64):
         """
-- 
2.43.0


From be7969b0bab3cc808da91e12d4fa64787351eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 17/58] fix: ExtendedGenerator pickles with the bit generator
 type it was built on

---
 randomgen/_pickle.py    | 15 +++++++++------
 randomgen/generator.pyx |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/randomgen/_pickle.py b/randomgen/_pickle.py
index 6bd5ed6..0d3e8bf 100644
--- a/randomgen/_pickle.py
+++ b/randomgen/_pickle.py
@@ -84,24 +84,27 @@ def _decode(name: str | bytes) -> str:
 
 
 def __extended_generator_ctor(
-    bit_generator_name: str | bytes = "MT19937",
+    bit_generator_name: str | bytes | type = "MT19937",
 ) -> ExtendedGenerator:
     """
     Pickling helper function that returns a Generator object
 
     Parameters
     ----------
-    bit_generator_name: str
-        String containing the core BitGenerator
+    bit_generator_name: {str, type}
+        String containing the core BitGenerator or its type
 
     Returns
     -------
     rg: Generator
         Generator using the named core BitGenerator
     """
-    bit_generator_name = _decode(bit_generator_name)
-    assert isinstance(bit_generator_name, str)
-    bit_generator = _get_bitgenerator(bit_generator_name)
+    if isinstance(bit_generator_name, type):
+        bit_generator = bit_generator_name
+    else:
+        bit_generator_name = _decode(bit_generator_name)
+        assert isinstance(bit_generator_name, str)
+        bit_generator = _get_bitgenerator(bit_generator_name)
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", category=FutureWarning)
         bit_gen = bit_generator()
diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 7b8fdd3..24a0ce1 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -198,7 +198,7 @@ cdef class ExtendedGenerator:
 
     def __reduce__(self):
         from randomgen._pickle import __extended_generator_ctor
-        return (__extended_generator_ctor, (self.bit_generator.state["bit_generator"],),
+        return (__extended_generator_ctor, (type(self.bit_generator),),
                 self.bit_generator.state)
 
     @property
-- 
2.43.0


From 11a5500a6662dda798a426d2398d983fa8e61a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:22 +0000
Subject: [PATCH 18/58] fix: advance refuses fractional distances and accepts
 NumPy integers

---
 randomgen/common.pyx   | 11 +++++++----
 randomgen/philox.pyx   |  4 ++--
 randomgen/squares.pyx  |  9 +++++++--
 randomgen/threefry.pyx |  4 ++--
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index da39122..566f47e 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -391,10 +391,13 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
 cdef object wrap_int(object val, object bits):
     """Wraparound to place an integer into the interval [0, 2**bits)"""
     upper = int(2)**int(bits)
-    if not 0<= val < upper:
-        divisor = val // upper
-        val = val - upper * divisor
-    return val
+    int_val = int(val)
+    if int_val != val:
+        raise TypeError("value must be an integer.")
+    if not 0<= int_val < upper:
+        divisor = int_val // upper
+        int_val = int_val - upper * divisor
+    return int_val
 
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name):
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index b6abb29..89914c4 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -538,9 +538,9 @@ cdef class Philox(BitGenerator):
             counter = True
         if delta == 0:
             return self
-        if counter:
-            delta *= self.n
         delta = wrap_int(delta, self.n * self.w + self.n // 2)
+        if counter:
+            delta = wrap_int(delta * self.n, self.n * self.w + self.n // 2)
 
         cdef np.ndarray delta_a
         delta_a = int_to_array(delta, "step", (self.n + 1) * self.w, self.w)
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 2f8a2a3..3a480fc 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -552,7 +552,7 @@ cdef class Squares(BitGenerator):
         self.rng_state.uinteger = value["uinteger"]
         self._setup_bitgen()
 
-    def advance(self, uint64_t delta):
+    def advance(self, delta):
         """
         advance(delta)
 
@@ -569,7 +569,12 @@ cdef class Squares(BitGenerator):
         self : Squares
             The PRNG advanced by delta steps.
         """
-        self.rng_state.counter += delta
+        cdef uint64_t steps
+        int_delta = int(delta)
+        if int_delta != delta:
+            raise TypeError("delta must be an integer.")
+        steps = int_delta
+        self.rng_state.counter += steps
         self._reset_state_variables()
         return self
 
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 2f716e2..b56f7dc 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -517,9 +517,9 @@ cdef class ThreeFry(BitGenerator):
             counter = True
         if delta == 0:
             return self
-        if counter:
-            delta *= self.n
         delta = wrap_int(delta, self.n * self.w + self.n // 2)
+        if counter:
+            delta = wrap_int(delta * self.n, self.n * self.w + self.n // 2)
 
         cdef np.ndarray delta_a
         delta_a = int_to_array(delta, "step", (self.n + 1) * self.w, self.w)
-- 
2.43.0


From fc2fdd42868e01754c73cafa7d775ddb568182ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:45 +0000
Subject: [PATCH 19/58] fix: convert key and counter words exactly

Lists whose elements promote to double (e.g. [1, 2**63 + 1]) were rounded,
and [2.0**64] wrapped to 0.
---
 randomgen/common.pyx | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 566f47e..ec0cc8c 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -1,5 +1,6 @@
 #!python
 from collections import namedtuple
+import numbers
 import sys
 import warnings
 
@@ -365,17 +366,21 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
-        val = np.array(val)
-        if not np.issubdtype(val.dtype, np.number):
-            raise ValueError("{0} contains non-numeric values or values "
-                             "out-of-range".format(name))
-        if not np.all((val // 1) == val):
-            raise TypeError("{0} contains floating point values".format(name))
-        max_val = np.iinfo(dtype).max
-        if not (np.all(val<=max_val) and np.all(val>=0)):
-            raise ValueError("{0} has elements that are out-of-range for "
-                             "{1}".format(name, str(dtype(0).dtype)))
-        val = val.astype(dtype, casting="unsafe")
+        # Keep Python objects, since mixed integers may be promoted to double
+        val = np.array(val, dtype=object)
+        max_val = int(np.iinfo(dtype).max)
+        for item in val.flat:
+            if isinstance(item, bool) or not isinstance(item, numbers.Real):
+                raise ValueError("{0} contains non-numeric values or values "
+                                 "out-of-range".format(name))
+            if not (item % 1) == 0:
+                raise TypeError("{0} contains floating point "
+                                "values".format(name))
+            if not 0 <= int(item) <= max_val:
+                raise ValueError("{0} has elements that are out-of-range for "
+                                 "{1}".format(name, str(dtype(0).dtype)))
+        val = np.array([int(item) for item in val.flat],
+                       dtype=dtype).reshape(val.shape)
     if isinstance(val, np.ndarray):
         val = np.atleast_1d(val)
         if val.ndim != 1 or val.size == 0:
-- 
2.43.0


From 12d87c99ccf24c22f7a687c0ed3d6589b87db435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:49 +0000
Subject: [PATCH 20/58] fix: refuse fractional keys, counters and stream
 constants

Squares, SFC64, LXM, Tyche and LCG128Mix truncated them silently.
---
 randomgen/lxm.pyx     | 2 ++
 randomgen/pcg64.pyx   | 2 ++
 randomgen/sfc.pyx     | 4 ++++
 randomgen/squares.pyx | 5 ++++-
 randomgen/tyche.pyx   | 2 ++
 5 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f927877..0f3a18d 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -130,6 +130,8 @@ cdef class LXM(BitGenerator):
         BitGenerator.__init__(self, seed)
         self.seed(seed)
 
+        if int(b) != b:
+            raise TypeError("b must be an integer.")
         self.rng_state.b = <uint64_t>b | 1
         self._bitgen.state = <void *>&self.rng_state
         self._bitgen.next_uint64 = &lxm_uint64
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 155e8b9..3948e3c 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -766,6 +766,8 @@ cdef class LCG128Mix(BitGenerator):
             a ``SeedSequence`` (which is shared with seed if seed is also
             None).
         """
+        if inc is not None and int(inc) != inc:
+            raise TypeError("inc must be an integer.")
         BitGenerator._seed_with_seed_sequence(self, seed, inc=inc)
 
     @property
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 764005c..8af9bec 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -124,6 +124,10 @@ cdef class SFC64(BitGenerator):
 
     def __init__(self, seed=None, w=1, k=1, *, numpy_seed=False, mode=_DeprecatedValue):
         BitGenerator.__init__(self, seed, numpy_seed=numpy_seed, mode=mode)
+        if w is not None and int(w) != w:
+            raise TypeError("w must be an integer.")
+        if k is not None and int(k) != k:
+            raise TypeError("k must be an integer.")
         self.w = w
         self.k = k
         self.seed(seed)
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 3a480fc..7572b4d 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -461,7 +461,10 @@ cdef class Squares(BitGenerator):
 
     @staticmethod
     cdef uint64_t _check_value(self, object val, object name, bint odd):
-        val = int(val)
+        int_val = int(val)
+        if int_val != val:
+            raise TypeError(f"{name} must be an integer.")
+        val = int_val
         if not 0 <= val <= np.iinfo(np.uint64).max:
             raise ValueError(f"{name} must be positive and less than 2**64.")
 
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 04a663f..06a1af5 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -139,6 +139,8 @@ cdef class Tyche(BitGenerator):
         else:
             if not 0 <= idx <= np.iinfo(np.uint32).max:
                 raise ValueError("idx must be in the interval [0, 2**32).")
+            if int(idx) != idx:
+                raise TypeError("idx must be an integer.")
             _idx = <uint32_t>idx
         tyche_seed(&self.rng_state, state, _idx, <int>self.original)
 
-- 
2.43.0


From ac08db6096d51ed2e1da8f78b33575b0db219985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:04 +0000
Subject: [PATCH 21/58] fix: hold the lock when drawing a single complex normal

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 24a0ce1..4dfff90 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -653,8 +653,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From 99520352a79a22786113e48a6e0a9d06f301cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:04 +0000
Subject: [PATCH 22/58] fix: broadcast gamma with relation in complex_normal

---
 randomgen/generator.pyx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 4dfff90..7bc4b85 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -680,20 +680,21 @@ cdef class ExtendedGenerator:
 
         gpc = ogamma + orelation
         gmc = ogamma - orelation
-        v_real = <np.ndarray>(0.5 * np.real(gpc))
+        v_real = np.asarray(0.5 * np.real(gpc))
         if np.any(np.less(v_real, 0)):
             raise ValueError("Re(gamma + relation) < 0")
-        v_imag = <np.ndarray>(0.5 * np.real(gmc))
+        v_imag = np.asarray(0.5 * np.real(gmc))
         if np.any(np.less(v_imag, 0)):
             raise ValueError("Re(gamma - relation) < 0")
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
-        rho = np.zeros_like(cov)
-        idx = (v_real.flat > 0) & (v_imag.flat > 0)
-        rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
-        if np.any(cov.flat[~idx] != 0) or np.any(np.abs(rho) > 1):
+        # gamma and relation may broadcast
+        cov = np.broadcast_to(0.5 * np.imag(orelation), np.shape(v_real))
+        rho = np.zeros(np.shape(v_real))
+        idx = (v_real > 0) & (v_imag > 0)
+        rho[idx] = cov[idx] / np.sqrt(v_real[idx] * v_imag[idx])
+        if np.any(cov[~idx] != 0) or np.any(np.abs(rho) > 1):
             raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation ** 2)")
 
         if size is not None:
-- 
2.43.0


From f2e0fb2a8d92053292d79f71f367c806bff6e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:04 +0000
Subject: [PATCH 23/58] fix: refuse an impossible scalar relation in
 complex_normal

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 7bc4b85..ac3059d 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -649,6 +649,8 @@ cdef class ExtendedGenerator:
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
                 f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+            elif frelation_i != 0:
+                raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
             if f_rho > 1.0 or f_rho < -1.0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
-- 
2.43.0


From 06fbba2001a21e25375362837790ddd8c216b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:04 +0000
Subject: [PATCH 24/58] fix: refuse a size smaller than the parameters in
 complex_normal

---
 randomgen/generator.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index ac3059d..0d82f13 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -709,6 +709,9 @@ cdef class ExtendedGenerator:
         n = np.PyArray_SIZE(randoms)
 
         it = np.PyArray_MultiIterNew5(randoms, oloc, v_real, v_imag, rho)
+        if it.shape != np.shape(randoms):
+            raise ValueError("size is not compatible with the broadcast shape of "
+                             "loc, gamma and relation")
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-- 
2.43.0


From 7b173167af8777b6a768a5e3d42934bddf945ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 25/58] fix: keep the imaginary part of 0-d and complex64
 parameters in complex_normal

---
 randomgen/generator.pyx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 0d82f13..acf38c6 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -631,12 +631,14 @@ cdef class ExtendedGenerator:
         if (np.PyArray_NDIM(ogamma) ==
                 np.PyArray_NDIM(orelation) ==
                 np.PyArray_NDIM(oloc) == 0):
-            floc_r = PyComplex_RealAsDouble(loc)
-            floc_i = PyComplex_ImagAsDouble(loc)
-            fgamma_r = PyComplex_RealAsDouble(gamma)
-            fgamma_i = PyComplex_ImagAsDouble(gamma)
-            frelation_r = PyComplex_RealAsDouble(relation)
-            frelation_i = 0.5 * PyComplex_ImagAsDouble(relation)
+            # Read the converted values since 0-d arrays and some NumPy scalars,
+            # e.g., complex64, are not Python complex
+            floc_r = (<double *>np.PyArray_DATA(oloc))[0]
+            floc_i = (<double *>np.PyArray_DATA(oloc))[1]
+            fgamma_r = (<double *>np.PyArray_DATA(ogamma))[0]
+            fgamma_i = (<double *>np.PyArray_DATA(ogamma))[1]
+            frelation_r = (<double *>np.PyArray_DATA(orelation))[0]
+            frelation_i = 0.5 * (<double *>np.PyArray_DATA(orelation))[1]
 
             fvar_r = 0.5 * (fgamma_r + frelation_r)
             fvar_i = 0.5 * (fgamma_r - frelation_r)
-- 
2.43.0


From 70ec93e69f06eceddc1866ac0c9b37f7f5419544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 26/58] fix: use factor A as documented, A @ A.T = cov, when
 method is factor

---
 randomgen/generator.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index acf38c6..66bfafe 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -74,7 +74,9 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
         psd = np.allclose(np.dot(vh.T * s, vh), cov, rtol=tol, atol=tol)
         _factor = (u * np.sqrt(s)).T
     elif meth == "factor":
-        return cov
+        # cov is A where A @ A.T is the covariance. The other methods also
+        # return the transpose of A.
+        return cov.T
     elif meth == "eigh":
         from numpy.linalg import eigh
 
@@ -1250,6 +1252,7 @@ and the trailing dimensions must match exactly so that
             fidx += 1
         factors = factors.reshape(common_shape + (2 * dim, 2 * dim))
         out = self.multivariate_normal(
-            larr.view(np.float64), factors, size=size, method="factor"
+            larr.view(np.float64), np.swapaxes(factors, -1, -2), size=size,
+            method="factor"
         )
         return out.view(complex)
-- 
2.43.0


From cc4bdae59ff6e77efb11c2cee93462f500ceb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 27/58] fix: give Wishart variates the requested scale

---
 randomgen/generator.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 66bfafe..fdb0080 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -930,8 +930,9 @@ cdef class ExtendedGenerator:
             df_i = df_arr.item()
             out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
-            np.matmul(factor, out, out=out)
-            np.matmul(out, factor.T, out=out)
+            # factor.T @ factor is the scale
+            np.matmul(factor.T, out, out=out)
+            np.matmul(out, factor, out=out)
             return out
 
         if not shape_size:
@@ -998,8 +999,8 @@ and the trailing dimensions must match exactly so that
                                             lwork_data)
                 temp = large_values
             factor = _factors[shape_loc]
-            np.matmul(factor, temp, out=temp)
-            np.matmul(temp, factor.T, out=temp)
+            np.matmul(factor.T, temp, out=temp)
+            np.matmul(temp, factor, out=temp)
             out[..., i, :, :] = temp.reshape(temp_shape)
 
             np.PyArray_MultiIter_NEXT(it)
-- 
2.43.0


From b54436f467a5b7a1c7f6b54b17c5543c51503891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 28/58] fix: accept any array-like scale in wishart

---
 randomgen/generator.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index fdb0080..0605007 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -971,9 +971,11 @@ and the trailing dimensions must match exactly so that
         out_shape = out.shape
         out = out.reshape((-1, np.prod(it_shape), dim, dim))
         temp_shape = np.shape(out[..., 0, :, :])
-        _factors = np.empty_like(scale)
-        for loc in np.ndindex(*scale.shape[:len(scale.shape) - 2]):
-            _factors[loc] = _factorize(scale[loc], method, check_valid, tol, rank_val)
+        _factors = np.empty_like(shape_arr)
+        for loc in np.ndindex(*shape_size):
+            _factors[loc] = _factorize(
+                shape_arr[loc], method, check_valid, tol, rank_val
+            )
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From 5f67ab0a4cbdb59751a0d87bf83bb4895dd6636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 29/58] fix: undo the pivoting of the reduced rank Cholesky
 factor

---
 randomgen/generator.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 0605007..ac922c2 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -104,8 +104,12 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
                 )
 
             func = get_lapack_funcs("pstrf")
-            _factor, _, rank_c, _ = func(cov)
-            _factor = np.triu(_factor)
+            # Pivoted, so that U.T @ U = cov[piv][:, piv]
+            upper, piv, rank_c, _ = func(cov)
+            upper = np.triu(upper)
+            upper[min(rank, rank_c):] = 0.0
+            _factor = np.empty_like(upper)
+            _factor[:, piv - 1] = upper
             psd = rank_c >= rank
 
     if not psd and check_valid != "ignore":
-- 
2.43.0


From d9ae296f489a031fd85f328f96ab15a1d667b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:29 +0000
Subject: [PATCH 30/58] fix: return the requested size from multivariate_normal
 when it has ones or zeros

---
 randomgen/generator.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index ac922c2..73e80ba 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -539,6 +539,11 @@ cdef class ExtendedGenerator:
                 size = (size,)
             error = len(size) < len(out_shape)
             final_size = list(size[: -len(out_shape)])
+            if len(size) == 0 and not drop_dims:
+                raise ValueError(
+                    f"The desired out size {size} is not compatible with "
+                    f"the broadcast size of mean and cov {out_shape}."
+                )
             for s, os in zip(size[-len(out_shape) :], out_shape):
                 if error or not (s == 1 or os == 1 or s == os):
                     raise ValueError(
@@ -551,13 +556,13 @@ cdef class ExtendedGenerator:
                         f"either 1 or the same as the corresponding element "
                         f"of the broadcast size."
                     )
-                final_size.append(max(s, os))
+                final_size.append(s if os == 1 else os)
             out_shape = tuple(final_size)
 
         out = self._generator.standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
-        if drop_dims and final.shape[0] == 1:
+        if drop_dims and (size is None or len(size) == 0):
             final = final.reshape(final.shape[1:])
         return final
 
-- 
2.43.0


From 998b4d681633700716771911ecd92a7412809f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 31/58] fix: accept gamma and relation with several leading
 dimensions

---
 randomgen/generator.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 73e80ba..94e93db 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1226,17 +1226,19 @@ and the trailing dimensions must match exactly so that
 
         if gdim == 2:
             gidx = np.array([0])
-            garr = np.reshape(garr, (1,) + np.shape(garr))
         else:
             _shape = np.shape(garr)[: gdim - 2]
             gidx = np.arange(np.prod(_shape)).reshape(_shape)
         if rdim == 2:
             ridx = np.array([0])
-            rarr = np.reshape(rarr, (1,) + np.shape(rarr))
         else:
             _shape = np.shape(rarr)[: rdim - 2]
             ridx = np.arange(np.prod(_shape)).reshape(_shape)
 
+        # gidx and ridx are flat locations
+        garr = np.reshape(garr, (-1, dim, dim))
+        rarr = np.reshape(rarr, (-1, dim, dim))
+
         factors = np.empty(common_shape + (2 * dim, 2 * dim)).reshape(
             (-1, 2 * dim, 2 * dim)
         )
-- 
2.43.0


From 1746f8f41f3b36edd8151c8cd7e02ceb191c5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 32/58] fix: accept a list as size in wishart

---
 randomgen/generator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 94e93db..a048120 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -964,6 +964,7 @@ cdef class ExtendedGenerator:
         else:
             if isinstance(size, (int, np.integer)):
                 size = (int(size),)
+            size = tuple(size)
             if len(size) < len(it_shape) or size[len(size)-len(it_shape):] != it_shape:
                 err_msg = (
 f"""size {size} is not compatible with the broadcast shape of `df` and `scale`
-- 
2.43.0


From 6f9c83890f16c40221d4affa72a541b15f8fe3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 33/58] fix: refuse Wishart degrees of freedom that are not
 positive integers

---
 randomgen/generator.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index a048120..7b83d7a 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -807,6 +807,8 @@ cdef class ExtendedGenerator:
         cdef double *n_data
         cdef double *out_data
 
+        if df <= 0:
+            raise ValueError("df must be a strictly positive integer.")
         if size is None or size == ():
             sz = 1
         elif np.isscalar(size):
@@ -917,6 +919,8 @@ cdef class ExtendedGenerator:
 
         # 1. Validate inputs
         df_arr = <np.ndarray>np.asarray(df, dtype=np.int64, order="C")
+        if np.any(df_arr != np.asarray(df)):
+            raise ValueError("df must contain strictly positive integer values.")
         if df_arr.size == 0:
             raise ValueError("At least one value is required for df")
         if not np.all(df_arr > 0):
-- 
2.43.0


From 651f6e038387a4c501aef0f480b4f4f3939373c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 34/58] fix: wishart factors the scale before drawing, so that
 a refused scale leaves the stream alone

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 7b83d7a..5201204 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -941,8 +941,8 @@ cdef class ExtendedGenerator:
         df_size = np.shape(df_arr)
         if not df_size and not shape_size:
             df_i = df_arr.item()
-            out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
+            out = self.standard_wishart(df_i, dim, size, False)
             # factor.T @ factor is the scale
             np.matmul(factor.T, out, out=out)
             np.matmul(out, factor, out=out)
-- 
2.43.0


From 90b2d3725c3b5f8b24aa7f75bcd5eaefdf434221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 35/58] fix: standard_wishart refuses negative dimensions in
 size before drawing

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 5201204..9d31ef2 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -815,6 +815,8 @@ cdef class ExtendedGenerator:
             sz = (int(size),)
         else:
             sz = tuple(size)
+        if np.any(np.less(sz, 0)):
+            raise ValueError("negative dimensions are not allowed")
         num = np.prod(sz)
         if df < dim:
             n = <np.ndarray> np.empty((num, df, dim))
-- 
2.43.0


From 1b57a19b542a1410d9f646d2e127821b26044a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 36/58] fix: check_output refuses objects that are not arrays
 instead of treating them as one

---
 randomgen/broadcasting.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index 126ffb6..b17e0f2 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -97,6 +97,8 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
     """
     if out is None:
         return
+    if not isinstance(out, np.ndarray):
+        raise TypeError(f"Supplied output must be an ndarray, got {type(out)}")
     cdef np.ndarray out_array = <np.ndarray> out
     if not (np.PyArray_ISCARRAY(out_array) or
             (np.PyArray_ISFARRAY(out_array) and not require_c_array)):
-- 
2.43.0


From 7f1a69b4d116050a8a6824e5426df98386f74077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 37/58] fix: use npy_intp as the index when filling long
 doubles

---
 randomgen/src/distributions/rg-distributions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/src/distributions/rg-distributions.c b/randomgen/src/distributions/rg-distributions.c
index f021acd..906fb05 100644
--- a/randomgen/src/distributions/rg-distributions.c
+++ b/randomgen/src/distributions/rg-distributions.c
@@ -52,7 +52,7 @@ long double random_long_double(bitgen_t *bitgen_state){
 }
 
 void random_long_double_fill(bitgen_t *bitgen_state, npy_intp cnt, long double *out){
-   for (int i=0; i < cnt; i++){
+   for (npy_intp i=0; i < cnt; i++){
       out[i] = rg_next_long_double(bitgen_state);
    }
 }
-- 
2.43.0


From 0fb5a3af4665716adc55845d3606423d1733e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 38/58] fix: entropy_getbytes leaks the descriptor when the
 read fails or is short

---
 randomgen/src/entropy/entropy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..c1946a1 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -82,9 +82,10 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (fd < 0)
     return false;
   ssize_t sz = read(fd, dest, size);
+  int closed = close(fd);
   if ((sz < 0) || ((size_t)sz < size))
     return false;
-  return close(fd) == 0;
+  return closed == 0;
 }
 #endif
 
-- 
2.43.0


From 09c8920e5b7fa3b25acffcc0c1fe420d4266513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 39/58] fix: entropy_fallback_getbytes crashes when asked for 2
 GiB or more

The byte count was truncated to int, turned into a negative allocation and the
failed allocation was read. Fill the destination directly instead.
---
 randomgen/src/entropy/entropy.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index c1946a1..779f87b 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -153,15 +153,14 @@ uint32_t entropy_randombytes(void) {
 }
 
 bool entropy_fallback_getbytes(void *dest, size_t size) {
-  int hashes = (int)size;
-  uint32_t *hash = malloc(hashes * sizeof(uint32_t));
-  // uint32_t hash[hashes];
-  int i;
-  for (i = 0; i < hashes; i++) {
-    hash[i] = entropy_randombytes();
+  unsigned char *out = (unsigned char *)dest;
+  while (size > 0) {
+    uint32_t hash = entropy_randombytes();
+    size_t n = size < sizeof(hash) ? size : sizeof(hash);
+    memcpy(out, &hash, n);
+    out += n;
+    size -= n;
   }
-  memcpy(dest, (void *)hash, size);
-  free(hash);
   return true;
 }
 
-- 
2.43.0


From d676ead987f8bc85afc20e0e81ef8f689c25cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 40/58] fix: seed_by_array rounds large integers in a list that
 mixes them with small ones

NumPy gives such a list the type float64, so words above 2**53 were silently
rounded.
---
 randomgen/entropy.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index bf58a3f..b7e19b5 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,8 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        # Convert directly so that large integers are not rounded through float
+        obj = np.asarray(seed, dtype=object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From 9822b58849013c70acb7fb8654bf99e27f04a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 41/58] fix: SeedSequence refuses entropy arrays of 8, 16 and
 32-bit signed integers

---
 randomgen/_seed_sequence.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index e5cba28..9c77cd3 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -72,7 +72,7 @@ def _int_to_uint32_array(n):
         raise ValueError("expected non-negative integer")
     if n == 0:
         arr.append(np.uint32(n))
-    if isinstance(n, np.unsignedinteger):
+    if isinstance(n, np.integer):
         # Cannot do n & MASK32, convert to python int
         n = int(n)
     while n > 0:
-- 
2.43.0


From c946144108211e48ba2a222b744da067eb12c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 42/58] fix: SeedSequence.spawn of a negative number makes
 later children repeat earlier ones

---
 randomgen/_seed_sequence.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 9c77cd3..867f953 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -464,6 +464,8 @@ cdef class SeedSequence(object):
         """
         cdef int i
 
+        if n_children < 0:
+            raise ValueError("n_children must be non-negative")
         seqs = []
         for i in range(self.n_children_spawned,
                        self.n_children_spawned + n_children):
-- 
2.43.0


From 5cd6a68f0cec1f2cb8dabc4567f2e0d23e9f8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 43/58] fix: refused state assignments leave a generator half
 changed

Read and check every element of the new state before changing the generator.
---
 randomgen/aes.pyx          | 18 +++++++--
 randomgen/chacha.pyx       | 10 +++--
 randomgen/dsfmt.pyx        | 14 +++++--
 randomgen/efiix64.pyx      | 20 +++++-----
 randomgen/hc128.pyx        | 12 +++---
 randomgen/jsf.pyx          | 32 +++++++++-------
 randomgen/lxm.pyx          | 12 +++---
 randomgen/mt19937.pyx      |  6 ++-
 randomgen/mt64.pyx         | 10 +++--
 randomgen/pcg32.pyx        |  7 +++-
 randomgen/pcg64.pyx        | 16 ++++++--
 randomgen/philox.pyx       | 76 ++++++++++++++++++++++----------------
 randomgen/romu.pyx         | 17 +++++----
 randomgen/sfc.pyx          | 16 ++++----
 randomgen/sfmt.pyx         | 19 +++++++---
 randomgen/speck128.pyx     | 20 +++++-----
 randomgen/squares.pyx      | 10 +++--
 randomgen/threefry.pyx     | 66 +++++++++++++++++++--------------
 randomgen/tyche.pyx        | 13 ++++---
 randomgen/xoroshiro128.pyx | 10 +++--
 randomgen/xorshift1024.pyx | 10 +++--
 randomgen/xoshiro256.pyx   | 14 ++++---
 randomgen/xoshiro512.pyx   |  8 ++--
 23 files changed, 266 insertions(+), 170 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..237244c 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -278,6 +278,10 @@ cdef class AESCounter(BitGenerator):
     @state.setter
     def state(self, value):
         cdef np.npy_intp i
+        cdef uint8_t buffer[16 * 4]
+        cdef size_t offset
+        cdef int has_uint32
+        cdef uint32_t uinteger
 
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
@@ -287,8 +291,8 @@ cdef class AESCounter(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state =value["s"]["state"]
         for i in range(16 * 4):
-            self.rng_state.state[i] = state[i]
-        self.rng_state.offset = value["s"]["offset"]
+            buffer[i] = state[i]
+        offset = value["s"]["offset"]
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
@@ -296,11 +300,17 @@ cdef class AESCounter(BitGenerator):
         if counter.ndim != 1 or counter.shape[0] != 2 * (4):
             raise ValueError("counter must be a 1d uint64 array with 8 "
                              "elements")
+        has_uint32 = value["has_uint32"]
+        uinteger = value["uinteger"]
+
+        for i in range(16 * 4):
+            self.rng_state.state[i] = buffer[i]
+        self.rng_state.offset = offset
         aesctr_set_seed_counter(self.rng_state,
                                 <uint64_t*>np.PyArray_DATA(seed),
                                 <uint64_t*>np.PyArray_DATA(counter))
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        self.rng_state.has_uint32 = has_uint32
+        self.rng_state.uinteger = uinteger
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index 87d63b9..7c887b5 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -274,6 +274,7 @@ cdef class ChaCha(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef chacha_state_t rng_state = self.rng_state[0]
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -284,11 +285,12 @@ cdef class ChaCha(BitGenerator):
         state = value["state"]
         block = state["block"]
         for i in range(16):
-            self.rng_state.block[i] = block[i]
+            rng_state.block[i] = block[i]
         keysetup = state["keysetup"]
         for i in range(8):
-            self.rng_state.keysetup[i] = keysetup[i]
+            rng_state.keysetup[i] = keysetup[i]
         ctr = state["ctr"]
         for i in range(2):
-            self.rng_state.ctr[i] = ctr[i]
-        self.rng_state.rounds = state["rounds"]
+            rng_state.ctr[i] = ctr[i]
+        rng_state.rounds = state["rounds"]
+        self.rng_state[0] = rng_state
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..3605a9e 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -270,6 +270,7 @@ cdef class DSFMT(BitGenerator):
     @state.setter
     def state(self, value):
         cdef Py_ssize_t i, j, loc = 0
+        cdef int idx, buffer_loc
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -278,13 +279,18 @@ cdef class DSFMT(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["state"], 2*DSFMT_N_PLUS_1,
                                   64, "state")
+        idx = value["state"]["idx"]
+        buffered_uniforms = np.asarray(value["buffered_uniforms"], dtype=np.double)
+        if buffered_uniforms.ndim != 1 or buffered_uniforms.shape[0] != DSFMT_N64:
+            raise ValueError("buffered_uniforms must be a 1-d array with {0} "
+                             "elements".format(DSFMT_N64))
+        buffer_loc = value["buffer_loc"]
+
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
                 self.rng_state.state.status[i].u[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
-        buffered_uniforms = value["buffered_uniforms"]
-        # TODO: Check buffered_uniforms
+        self.rng_state.state.idx = idx
         for i in range(DSFMT_N64):
             self.rng_state.buffered_uniforms[i] = buffered_uniforms[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+        self.rng_state.buffer_loc = buffer_loc
diff --git a/randomgen/efiix64.pyx b/randomgen/efiix64.pyx
index 92cae6d..a91863c 100644
--- a/randomgen/efiix64.pyx
+++ b/randomgen/efiix64.pyx
@@ -184,6 +184,7 @@ cdef class EFIIX64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef efiix64_state_t rng_state = self.rng_state
         cdef Py_ssize_t i
         cdef uint64_t *arr
 
@@ -201,7 +202,7 @@ cdef class EFIIX64(BitGenerator):
                                               "indirection_table")
         arr = <np.uint64_t *>np.PyArray_DATA(indirection_table)
         for i in range(0, INDIRECTION_SIZE):
-            self.rng_state.indirection_table[i] = arr[i]
+            rng_state.indirection_table[i] = arr[i]
 
         iteration_table = check_state_array(state["iteration_table"],
                                             ITERATION_SIZE,
@@ -209,11 +210,12 @@ cdef class EFIIX64(BitGenerator):
                                             "iteration_table")
         arr = <np.uint64_t *>np.PyArray_DATA(iteration_table)
         for i in range(0, ITERATION_SIZE):
-            self.rng_state.iteration_table[i] = arr[i]
-        self.rng_state.i = state["i"]
-        self.rng_state.a = state["a"]
-        self.rng_state.b = state["b"]
-        self.rng_state.c = state["c"]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.iteration_table[i] = arr[i]
+        rng_state.i = state["i"]
+        rng_state.a = state["a"]
+        rng_state.b = state["b"]
+        rng_state.c = state["c"]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index b14ec79..363b129 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -202,6 +202,7 @@ cdef class HC128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef hc128_state_t rng_state = self.rng_state
         cdef int i
         cdef uint32_t *p_arr
         cdef uint32_t *q_arr
@@ -220,10 +221,11 @@ cdef class HC128(BitGenerator):
         p_arr = <uint32_t *>np.PyArray_DATA(p)
         q_arr = <uint32_t *>np.PyArray_DATA(q)
         for i in range(512):
-            self.rng_state.p[i] = p_arr[i]
-            self.rng_state.q[i] = q_arr[i]
+            rng_state.p[i] = p_arr[i]
+            rng_state.q[i] = q_arr[i]
         buf_arr = <uint32_t *>np.PyArray_DATA(buffer)
         for i in range(16):
-            self.rng_state.buffer[i] = buf_arr[i]
-        self.rng_state.hc_idx = state["hc_idx"]
-        self.rng_state.buffer_idx = state["buffer_idx"]
+            rng_state.buffer[i] = buf_arr[i]
+        rng_state.hc_idx = state["hc_idx"]
+        rng_state.buffer_idx = state["buffer_idx"]
+        self.rng_state = rng_state
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 39082a6..35efec2 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -303,26 +303,32 @@ cdef class JSF(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef jsf_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.size = value["size"]
+        size = value["size"]
+        if size not in (32, 64):
+            raise ValueError("size must be either 32 or 64")
         state = value["state"]
-        self.setup_generator(state["p"], state["q"], state["r"])
-        if self.size == 64:
-            self.rng_state.a.u64 = state["a"]
-            self.rng_state.b.u64 = state["b"]
-            self.rng_state.c.u64 = state["c"]
-            self.rng_state.d.u64 = state["d"]
+        p, q, r = state["p"], state["q"], state["r"]
+        if size == 64:
+            rng_state.a.u64 = state["a"]
+            rng_state.b.u64 = state["b"]
+            rng_state.c.u64 = state["c"]
+            rng_state.d.u64 = state["d"]
         else:
-            self.rng_state.a.u32 = state["a"]
-            self.rng_state.b.u32 = state["b"]
-            self.rng_state.c.u32 = state["c"]
-            self.rng_state.d.u32 = state["d"]
+            rng_state.a.u32 = state["a"]
+            rng_state.b.u32 = state["b"]
+            rng_state.c.u32 = state["c"]
+            rng_state.d.u32 = state["d"]
 
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
         self.seed_size = value["seed_size"]
+        self.size = size
+        self.rng_state = rng_state
+        self.setup_generator(p, q, r)
diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index 0f3a18d..ed014d6 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -276,6 +276,7 @@ cdef class LXM(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef lxm_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -284,8 +285,9 @@ cdef class LXM(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["x"], 4, 64, "x")
         for i in range(4):
-            self.rng_state.x[i] = <uint64_t>state[i]
-        self.rng_state.lcg_state = value["state"]["lcg_state"]
-        self.rng_state.b = value["state"]["b"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.x[i] = <uint64_t>state[i]
+        rng_state.lcg_state = value["state"]["lcg_state"]
+        rng_state.b = value["state"]["b"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 2f14d4d..73e71bd 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -296,6 +296,7 @@ cdef class MT19937(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef mt19937_state_t rng_state = self.rng_state
         if isinstance(value, tuple):
             if value[0] != "MT19937" or len(value) not in (3, 5):
                 raise ValueError("state is not a legacy MT19937 state")
@@ -310,5 +311,6 @@ cdef class MT19937(BitGenerator):
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
         for i in range(RK_STATE_LEN):
-            self.rng_state.key[i] = key[i]
-        self.rng_state.pos = value["state"]["pos"]
+            rng_state.key[i] = key[i]
+        rng_state.pos = value["state"]["pos"]
+        self.rng_state = rng_state
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index 2dbaf5a..d4c1d40 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -158,6 +158,7 @@ cdef class MT64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef mt64_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -166,7 +167,8 @@ cdef class MT64(BitGenerator):
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], 312, 64, "key")
         for i in range(312):
-            self.rng_state.mt[i] = key[i]
-        self.rng_state.mti = value["state"]["pos"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.mt[i] = key[i]
+        rng_state.mti = value["state"]["pos"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index 08f8151..d9c91a2 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -167,14 +167,17 @@ cdef class PCG32(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef uint64_t state, inc
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.pcg_state.state = value["state"]["state"]
-        self.rng_state.pcg_state.inc = value["state"]["inc"]
+        state = value["state"]["state"]
+        inc = value["state"]["inc"]
+        self.rng_state.pcg_state.state = state
+        self.rng_state.pcg_state.inc = inc
 
     def advance(self, delta):
         """
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 3948e3c..a3a0747 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -823,6 +823,10 @@ cdef class LCG128Mix(BitGenerator):
     @state.setter
     def state(self, value):
         cdef np.ndarray state_vec, inc_vec, mult_vec
+        cdef int has_uint32, output_idx = -1
+        cdef bint post
+        cdef uint32_t uinteger
+        cdef uint64_t dxsm_multiplier
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -843,6 +847,11 @@ cdef class LCG128Mix(BitGenerator):
         mult_vec[1] = multiplier % 2 ** 64
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
+        dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        post = value["state"]["post"]
+        output_func = value["state"]["output_func"]
+        if isinstance(output_func, str):
+            output_idx = self._output_lookup[output_func]
 
         # Default False for backward compat
         lcg128mix_set_state(self.rng_state.pcg_state,
@@ -853,14 +862,13 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.has_uint32 = has_uint32
         self.rng_state.uinteger = uinteger
         self.multiplier = multiplier
-        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        self.dxsm_multiplier = dxsm_multiplier
         self.rng_state.pcg_state.dxsm_multiplier = self.dxsm_multiplier
-        self.post = value["state"]["post"]
+        self.post = post
         self.rng_state.pcg_state.post = self.post
-        output_func = value["state"]["output_func"]
         if isinstance(output_func, str):
             self._cfunc = None
-            self.output_function = self._output_lookup[output_func]
+            self.output_function = output_idx
             self.rng_state.pcg_state.output_idx = self.output_function
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 89914c4..76871d1 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -370,6 +370,7 @@ cdef class Philox(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef philox_all_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -377,42 +378,53 @@ cdef class Philox(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
+        n = value.get("number", 4)
+        w = value.get("width", 64)
+        if n not in (2, 4):
+            raise ValueError("number must be either 2 or 4")
+        if w not in (32, 64):
+            raise ValueError("width must be either 32 or 64")
+        rng_state.number = n
+        rng_state.width = w
 
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n // 2, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], n, w, "counter")
+        key = check_state_array(state["key"], n // 2, w, "key")
+        buffer = check_state_array(value["buffer"], n, w, "buffer")
         # Reset to make sure buffer is 0ed
-        self._reset_state_variables()
-        for i in range(self.n):
-            if self.w == 32:
-                self.rng_state.buffer[i].u32 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x32.ctr.v[i] = ctr[i]
-                else:  # self.n == 4 :
-                    self.rng_state.state.state4x32.ctr.v[i] = ctr[i]
+        for i in range(4):
+            rng_state.buffer[i].u64 = 0
+        for i in range(n):
+            if w == 32:
+                rng_state.buffer[i].u32 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x32.ctr.v[i] = ctr[i]
+                else:  # n == 4 :
+                    rng_state.state.state4x32.ctr.v[i] = ctr[i]
             else:
-                self.rng_state.buffer[i].u64 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x64.ctr.v[i] = ctr[i]
-                else:  # self.n == 4
-                    self.rng_state.state.state4x64.ctr.v[i] = ctr[i]
-        for i in range(self.n // 2):
-            if self.n == 2 and self.w == 32:
-                self.rng_state.state.state2x32.key.v[i] = key[i]
-            elif self.n == 4 and self.w == 32:
-                self.rng_state.state.state4x32.key.v[i] = key[i]
-            elif self.n == 2 and self.w == 64:
-                self.rng_state.state.state2x64.key.v[i] = key[i]
-            else:  # self.n == 4 and self.w == 64
-                self.rng_state.state.state4x64.key.v[i] = key[i]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+                rng_state.buffer[i].u64 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x64.ctr.v[i] = ctr[i]
+                else:  # n == 4
+                    rng_state.state.state4x64.ctr.v[i] = ctr[i]
+        for i in range(n // 2):
+            if n == 2 and w == 32:
+                rng_state.state.state2x32.key.v[i] = key[i]
+            elif n == 4 and w == 32:
+                rng_state.state.state4x32.key.v[i] = key[i]
+            elif n == 2 and w == 64:
+                rng_state.state.state2x64.key.v[i] = key[i]
+            else:  # n == 4 and w == 64
+                rng_state.state.state4x64.key.v[i] = key[i]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        rng_state.buffer_pos = value["buffer_pos"]
+
+        self.n = n
+        self.w = w
+        self.rng_state = rng_state
+        self._setup_generator()
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index ff54260..f02d286 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -182,17 +182,20 @@ cdef class Romu(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef romu_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.w = value["state"]["w"]
-        self.rng_state.x = value["state"]["x"]
-        self.rng_state.y = value["state"]["y"]
-        self.rng_state.z = value["state"]["z"]
-        self.variant = self._check_variant(value["state"]["variant"])
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.w = value["state"]["w"]
+        rng_state.x = value["state"]["x"]
+        rng_state.y = value["state"]["y"]
+        rng_state.z = value["state"]["z"]
+        variant = self._check_variant(value["state"]["variant"])
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
+        self.variant = variant
         self._setup_bitgen()
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 8af9bec..f48cebf 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -359,16 +359,18 @@ cdef class SFC64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef sfc_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.a = value["state"]["a"]
-        self.rng_state.b = value["state"]["b"]
-        self.rng_state.c = value["state"]["c"]
-        self.rng_state.w = value["state"]["w"]
-        self.rng_state.k = value["state"]["k"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.a = value["state"]["a"]
+        rng_state.b = value["state"]["b"]
+        rng_state.c = value["state"]["c"]
+        rng_state.w = value["state"]["w"]
+        rng_state.k = value["state"]["k"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..62d6e33 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -276,6 +276,8 @@ cdef class SFMT(BitGenerator):
     @state.setter
     def state(self, value):
         cdef Py_ssize_t i, j, loc = 0
+        cdef int idx, buffer_loc, has_uint32
+        cdef uint32_t uinteger
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -285,15 +287,20 @@ cdef class SFMT(BitGenerator):
         state = check_state_array(value["state"]["state"], 4 * SFMT_N, 32,
                                   "state")
         state = state.view(np.uint64)
+        idx = value["state"]["idx"]
+        buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
+                                            64,  "buffered_uint64")
+        buffer_loc = value["buffer_loc"]
+        has_uint32 = value["has_uint32"]
+        uinteger = value["uinteger"]
+
         for i in range(SFMT_N):
             for j in range(2):
                 self.rng_state.state.state[i].u64[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
-        buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
-                                            64,  "buffered_uint64")
+        self.rng_state.state.idx = idx
         for i in range(SFMT_N64):
             self.rng_state.buffered_uint64[i] = buffered_uint64[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        self.rng_state.buffer_loc = buffer_loc
+        self.rng_state.has_uint32 = has_uint32
+        self.rng_state.uinteger = uinteger
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..3e8c269 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -301,6 +301,7 @@ cdef class SPECK128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef speck_state_t rng_state = self.rng_state[0]
         cdef i
         cdef uint8_t *arr8
         cdef uint64_t *arr
@@ -321,21 +322,22 @@ cdef class SPECK128(BitGenerator):
 
         arr = <uint64_t*>np.PyArray_DATA(ctr)
         for i in range(SPECK_UNROLL):
-            self.rng_state.ctr[i//2].u64[i % 2] = arr[i]
+            rng_state.ctr[i//2].u64[i % 2] = arr[i]
 
         arr8 = <uint8_t*>np.PyArray_DATA(buffer)
         for i in range(8*SPECK_UNROLL):
-            self.rng_state.buffer[i] = arr8[i]
+            rng_state.buffer[i] = arr8[i]
 
         arr = <uint64_t*>np.PyArray_DATA(round_key)
         for i in range(SPECK_MAX_ROUNDS):
-            self.rng_state.round_key[i].u64[0] = arr[2 * i]
-            self.rng_state.round_key[i].u64[1] = arr[2 * i + 1]
-
-        self.rng_state.rounds = state["rounds"]
-        self.rng_state.offset = state["offset"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.round_key[i].u64[0] = arr[2 * i]
+            rng_state.round_key[i].u64[1] = arr[2 * i + 1]
+
+        rng_state.rounds = state["rounds"]
+        rng_state.offset = state["offset"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state[0] = rng_state
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 7572b4d..33a7d3a 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -537,6 +537,7 @@ cdef class Squares(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef squares_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -544,15 +545,16 @@ cdef class Squares(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = value["state"]
-        self.rng_state.key = state["key"]
-        self.rng_state.counter = state["counter"]
+        rng_state.key = state["key"]
+        rng_state.counter = state["counter"]
         variant = value["variant"]
         if variant not in (64, 32):
             raise ValueError("variant must be either 64 or 32.")
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
         self.variant = variant
         self._use64 = variant == 64
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
         self._setup_bitgen()
 
     def advance(self, delta):
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index b56f7dc..bbdc4ce 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -355,6 +355,7 @@ cdef class ThreeFry(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef threefry_all_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -362,37 +363,48 @@ cdef class ThreeFry(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
+        n = value.get("number", 4)
+        w = value.get("width", 64)
+        if n not in (2, 4):
+            raise ValueError("number must be either 2 or 4")
+        if w not in (32, 64):
+            raise ValueError("width must be either 32 or 64")
+        rng_state.number = n
+        rng_state.width = w
 
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], n, w, "counter")
+        key = check_state_array(state["key"], n, w, "key")
+        buffer = check_state_array(value["buffer"], n, w, "buffer")
         # Reset to make sure buffer is 0ed
-        self._reset_state_variables()
-        for i in range(self.n):
-            if self.w == 32:
-                self.rng_state.buffer[i].u32 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x32.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state2x32.key.v[i] = key[i]
-                else:  # self.n == 4 :
-                    self.rng_state.state.state4x32.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state4x32.key.v[i] = key[i]
+        for i in range(4):
+            rng_state.buffer[i].u64 = 0
+        for i in range(n):
+            if w == 32:
+                rng_state.buffer[i].u32 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x32.ctr.v[i] = ctr[i]
+                    rng_state.state.state2x32.key.v[i] = key[i]
+                else:  # n == 4 :
+                    rng_state.state.state4x32.ctr.v[i] = ctr[i]
+                    rng_state.state.state4x32.key.v[i] = key[i]
             else:
-                self.rng_state.buffer[i].u64 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x64.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state2x64.key.v[i] = key[i]
-                else:  # self.n == 4
-                    self.rng_state.state.state4x64.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state4x64.key.v[i] = key[i]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+                rng_state.buffer[i].u64 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x64.ctr.v[i] = ctr[i]
+                    rng_state.state.state2x64.key.v[i] = key[i]
+                else:  # n == 4
+                    rng_state.state.state4x64.ctr.v[i] = ctr[i]
+                    rng_state.state.state4x64.key.v[i] = key[i]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        rng_state.buffer_pos = value["buffer_pos"]
+
+        self.n = n
+        self.w = w
+        self.rng_state = rng_state
+        self._setup_generator()
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 06a1af5..57316d4 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -191,6 +191,7 @@ cdef class Tyche(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef tyche_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -198,9 +199,11 @@ cdef class Tyche(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = value["state"]
-        self.original = bool(state["original"])
-        self.rng_state.a = state["a"]
-        self.rng_state.b = state["b"]
-        self.rng_state.c = state["c"]
-        self.rng_state.d = state["d"]
+        original = bool(state["original"])
+        rng_state.a = state["a"]
+        rng_state.b = state["b"]
+        rng_state.c = state["c"]
+        rng_state.d = state["d"]
+        self.rng_state = rng_state
+        self.original = original
         self._setup_bitgen()
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 398a6ea..51a83cf 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -282,6 +282,7 @@ cdef class Xoroshiro128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoroshiro128_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -289,12 +290,13 @@ cdef class Xoroshiro128(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 2, 64, "s")
-        self.rng_state.s[0] = <uint64_t>state[0]
-        self.rng_state.s[1] = <uint64_t>state[1]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.s[0] = <uint64_t>state[0]
+        rng_state.s[1] = <uint64_t>state[1]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
         plusplus = False
         if "plusplus" in value:
             plusplus = value["plusplus"]
         self._plusplus = plusplus
+        self.rng_state = rng_state
         self._set_generators()
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 1b71e70..bffbeb3 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -256,6 +256,7 @@ cdef class Xorshift1024(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xorshift1024_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -264,7 +265,8 @@ cdef class Xorshift1024(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["s"], 16, 64, "s")
         for i in range(16):
-            self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.p = value["state"]["p"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.s[i] = <uint64_t>state[i]
+        rng_state.p = value["state"]["p"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/xoshiro256.pyx b/randomgen/xoshiro256.pyx
index b8657ad..f021f34 100644
--- a/randomgen/xoshiro256.pyx
+++ b/randomgen/xoshiro256.pyx
@@ -257,6 +257,7 @@ cdef class Xoshiro256(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoshiro256_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -264,9 +265,10 @@ cdef class Xoshiro256(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 4, 64, "s")
-        self.rng_state.s[0] = <uint64_t>state[0]
-        self.rng_state.s[1] = <uint64_t>state[1]
-        self.rng_state.s[2] = <uint64_t>state[2]
-        self.rng_state.s[3] = <uint64_t>state[3]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.s[0] = <uint64_t>state[0]
+        rng_state.s[1] = <uint64_t>state[1]
+        rng_state.s[2] = <uint64_t>state[2]
+        rng_state.s[3] = <uint64_t>state[3]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/xoshiro512.pyx b/randomgen/xoshiro512.pyx
index 142559f..802db4a 100644
--- a/randomgen/xoshiro512.pyx
+++ b/randomgen/xoshiro512.pyx
@@ -252,6 +252,7 @@ cdef class Xoshiro512(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoshiro512_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -260,6 +261,7 @@ cdef class Xoshiro512(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 8, 64, "s")
         for i in range(8):
-            self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.s[i] = <uint64_t>state[i]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
-- 
2.43.0


From 070d49854ee4477575ab624f50c3d8fa6650fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 44/58] fix: a state with a position outside its buffer makes
 the generator read past it

Refuse positions, rotation counts and round counts the generator could not have
reported.
---
 randomgen/aes.pyx          | 2 ++
 randomgen/chacha.pyx       | 2 ++
 randomgen/dsfmt.pyx        | 4 ++++
 randomgen/hc128.pyx        | 4 ++++
 randomgen/jsf.pyx          | 8 +++++++-
 randomgen/mt19937.pyx      | 2 ++
 randomgen/mt64.pyx         | 2 ++
 randomgen/philox.pyx       | 2 ++
 randomgen/sfmt.pyx         | 4 ++++
 randomgen/speck128.pyx     | 6 ++++++
 randomgen/threefry.pyx     | 2 ++
 randomgen/xorshift1024.pyx | 2 ++
 12 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 237244c..076e2e8 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -293,6 +293,8 @@ cdef class AESCounter(BitGenerator):
         for i in range(16 * 4):
             buffer[i] = state[i]
         offset = value["s"]["offset"]
+        if offset > 64 or offset % 8 != 0:
+            raise ValueError("offset must be a multiple of 8 between 0 and 64")
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index 7c887b5..a475724 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -293,4 +293,6 @@ cdef class ChaCha(BitGenerator):
         for i in range(2):
             rng_state.ctr[i] = ctr[i]
         rng_state.rounds = state["rounds"]
+        if rng_state.rounds % 2 != 0 or rng_state.rounds <= 0:
+            raise ValueError("rounds must be even and >= 2")
         self.rng_state[0] = rng_state
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 3605a9e..5827759 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -280,11 +280,15 @@ cdef class DSFMT(BitGenerator):
         state = check_state_array(value["state"]["state"], 2*DSFMT_N_PLUS_1,
                                   64, "state")
         idx = value["state"]["idx"]
+        if not 0 <= idx <= DSFMT_N64:
+            raise ValueError("idx must be between 0 and {0}".format(DSFMT_N64))
         buffered_uniforms = np.asarray(value["buffered_uniforms"], dtype=np.double)
         if buffered_uniforms.ndim != 1 or buffered_uniforms.shape[0] != DSFMT_N64:
             raise ValueError("buffered_uniforms must be a 1-d array with {0} "
                              "elements".format(DSFMT_N64))
         buffer_loc = value["buffer_loc"]
+        if not 0 <= buffer_loc <= DSFMT_N64:
+            raise ValueError("buffer_loc must be between 0 and {0}".format(DSFMT_N64))
 
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index 363b129..b84d4d3 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -227,5 +227,9 @@ cdef class HC128(BitGenerator):
         for i in range(16):
             rng_state.buffer[i] = buf_arr[i]
         rng_state.hc_idx = state["hc_idx"]
+        if not (0 <= rng_state.hc_idx < 1024 and rng_state.hc_idx % 16 == 0):
+            raise ValueError("hc_idx must be a multiple of 16 between 0 and 1008")
         rng_state.buffer_idx = state["buffer_idx"]
+        if not 0 <= rng_state.buffer_idx <= 16:
+            raise ValueError("buffer_idx must be between 0 and 16")
         self.rng_state = rng_state
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 35efec2..8b0b162 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -315,6 +315,9 @@ cdef class JSF(BitGenerator):
             raise ValueError("size must be either 32 or 64")
         state = value["state"]
         p, q, r = state["p"], state["q"], state["r"]
+        for val in (p, q, r):
+            if val is not None and not 0 <= val <= size - 1:
+                raise ValueError("p, q and r must be between 0 and size - 1")
         if size == 64:
             rng_state.a.u64 = state["a"]
             rng_state.b.u64 = state["b"]
@@ -328,7 +331,10 @@ cdef class JSF(BitGenerator):
 
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
-        self.seed_size = value["seed_size"]
+        seed_size = value["seed_size"]
+        if seed_size not in (1, 2, 3):
+            raise ValueError("seed size must be one of 1, 2, or 3")
+        self.seed_size = seed_size
         self.size = size
         self.rng_state = rng_state
         self.setup_generator(p, q, r)
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 73e71bd..2a2a903 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -313,4 +313,6 @@ cdef class MT19937(BitGenerator):
         for i in range(RK_STATE_LEN):
             rng_state.key[i] = key[i]
         rng_state.pos = value["state"]["pos"]
+        if not 0 <= rng_state.pos <= RK_STATE_LEN:
+            raise ValueError("pos must be between 0 and 624")
         self.rng_state = rng_state
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index d4c1d40..776de6b 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -169,6 +169,8 @@ cdef class MT64(BitGenerator):
         for i in range(312):
             rng_state.mt[i] = key[i]
         rng_state.mti = value["state"]["pos"]
+        if not 0 <= rng_state.mti <= 312:
+            raise ValueError("pos must be between 0 and 312")
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         self.rng_state = rng_state
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 76871d1..32fe516 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -420,6 +420,8 @@ cdef class Philox(BitGenerator):
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         rng_state.buffer_pos = value["buffer_pos"]
+        if not 0 <= rng_state.buffer_pos <= 4:
+            raise ValueError("buffer_pos must be between 0 and 4")
 
         self.n = n
         self.w = w
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 62d6e33..06dca56 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -288,9 +288,13 @@ cdef class SFMT(BitGenerator):
                                   "state")
         state = state.view(np.uint64)
         idx = value["state"]["idx"]
+        if not (0 <= idx <= 4 * SFMT_N and idx % 2 == 0):
+            raise ValueError("idx must be even and between 0 and {0}".format(4 * SFMT_N))
         buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
                                             64,  "buffered_uint64")
         buffer_loc = value["buffer_loc"]
+        if not 0 <= buffer_loc <= SFMT_N64:
+            raise ValueError("buffer_loc must be between 0 and {0}".format(SFMT_N64))
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
 
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 3e8c269..32eeb4a 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -334,7 +334,13 @@ cdef class SPECK128(BitGenerator):
             rng_state.round_key[i].u64[1] = arr[2 * i + 1]
 
         rng_state.rounds = state["rounds"]
+        if not 1 <= rng_state.rounds <= SPECK_MAX_ROUNDS:
+            raise ValueError("rounds must be between 1 and 34")
         rng_state.offset = state["offset"]
+        if not (0 <= rng_state.offset <= 8 * SPECK_UNROLL and
+                rng_state.offset % 8 == 0):
+            raise ValueError("offset must be a multiple of 8 not exceeding the "
+                             "size of the buffer")
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         self.rng_state[0] = rng_state
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index bbdc4ce..7e8df8b 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -400,6 +400,8 @@ cdef class ThreeFry(BitGenerator):
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         rng_state.buffer_pos = value["buffer_pos"]
+        if not 0 <= rng_state.buffer_pos <= 4:
+            raise ValueError("buffer_pos must be between 0 and 4")
 
         self.n = n
         self.w = w
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index bffbeb3..aa1972e 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -267,6 +267,8 @@ cdef class Xorshift1024(BitGenerator):
         for i in range(16):
             rng_state.s[i] = <uint64_t>state[i]
         rng_state.p = value["state"]["p"]
+        if not 0 <= rng_state.p <= 15:
+            raise ValueError("p must be between 0 and 15")
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         self.rng_state = rng_state
-- 
2.43.0


From ae61f652a76338996c0d0f17550d1b198c7c62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 45/58] fix: refused seed calls leave the seed sequence or the
 counter changed

---
 randomgen/common.pyx  | 13 +++++++++----
 randomgen/squares.pyx |  8 +++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index ec0cc8c..574e0eb 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -78,14 +78,19 @@ cdef class BitGenerator(_BitGenerator):
         return copy.deepcopy(self._seed_seq)
 
     def _seed_with_seed_sequence(self, seed, **kwargs):
+        previous = self._seed_seq
         if isinstance(seed, ISEED_SEQUENCES):
             self._seed_seq = seed
         else:
             self._seed_seq = SeedSequence(seed)
-        if self.mode == "sequence":
-            self._seed_from_seq(**kwargs)
-        else:  # numpy
-            self._seed_from_seq_numpy_compat(**kwargs)
+        try:
+            if self.mode == "sequence":
+                self._seed_from_seq(**kwargs)
+            else:  # numpy
+                self._seed_from_seq_numpy_compat(**kwargs)
+        except BaseException:
+            self._seed_seq = previous
+            raise
 
     @property
     def state(self):
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 33a7d3a..0224f38 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -507,12 +507,10 @@ cdef class Squares(BitGenerator):
             If seed values are out of range for the PRNG.
         """
 
-        if counter is not None:
-            self.rng_state.counter = self._check_value(counter, "counter", False)
-        else:
-            self.rng_state.counter = counter = 0
+        counter = 0 if counter is None else self._check_value(counter, "counter", False)
         if key is not None:
             self.rng_state.key = self._check_value(key, "key", True)
+            self.rng_state.counter = counter
         else:
             BitGenerator._seed_with_seed_sequence(self, seed, counter=counter)
         self._reset_state_variables()
@@ -552,8 +550,8 @@ cdef class Squares(BitGenerator):
             raise ValueError("variant must be either 64 or 32.")
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
-        self.rng_state = rng_state
         self.variant = variant
+        self.rng_state = rng_state
         self._use64 = variant == 64
         self._setup_bitgen()
 
-- 
2.43.0


From 1dcd2f1ed0762e7ad44750fd727a27efd876bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 46/58] fix: multivariate_normal draws before refusing a mean
 that is not numeric

---
 randomgen/generator.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9d31ef2..21dfd01 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -508,7 +508,8 @@ cdef class ExtendedGenerator:
         if check_valid not in ("warn", "raise", "ignore"):
             raise ValueError("check_valid must equal 'warn', 'raise', or 'ignore'")
 
-        mean = np.array(mean)
+        # Refuse means that cannot be added to a double before drawing anything
+        mean = np.add(mean, 0.0)
         cov = np.array(cov, dtype=np.double)
         if mean.ndim < 1:
             raise ValueError("mean must have at least 1 dimension")
-- 
2.43.0


From c00a72ea5f4a1dd8429d1f097d27b0453e290e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 47/58] fix: Tyche raises SystemError for an array idx

---
 randomgen/tyche.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 57316d4..d9fb9d7 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -137,10 +137,10 @@ cdef class Tyche(BitGenerator):
         if idx is None:
             _idx = <uint32_t>full_state[2]
         else:
-            if not 0 <= idx <= np.iinfo(np.uint32).max:
-                raise ValueError("idx must be in the interval [0, 2**32).")
             if int(idx) != idx:
                 raise TypeError("idx must be an integer.")
+            if not 0 <= idx <= np.iinfo(np.uint32).max:
+                raise ValueError("idx must be in the interval [0, 2**32).")
             _idx = <uint32_t>idx
         tyche_seed(&self.rng_state, state, _idx, <int>self.original)
 
-- 
2.43.0


From ce99243ec2df58e6c31935093b1bf0e71731897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 48/58] fix: UserBitGenerator accepts any bits and calls
 integers as addresses

---
 randomgen/wrapper.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index a4a63f0..606d423 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -111,6 +111,13 @@ cdef class UserBitGenerator(BitGenerator):
                  next_double=None, state=None, state_getter=None,
                  state_setter=None):
         BitGenerator.__init__(self, 0)
+        if bits not in (32, 64):
+            raise ValueError("bits must be either 32 or 64")
+        # ctypes would take an integer to be the address of a function
+        for name, func in (("next_raw", next_raw), ("next_64", next_64),
+                           ("next_32", next_32), ("next_double", next_double)):
+            if not callable(func) and (func is not None or name == "next_raw"):
+                raise TypeError(f"{name} must be callable")
         self.funcs = {"next_raw": next_raw,
                       "next_64": next_64,
                       "next_32": next_32,
-- 
2.43.0


From 77a702e489751fe9c80c96dbe1abb1959a501b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 49/58] fix: jumped copies of RDRAND lose the retries; negative
 retries accepted through the state

---
 randomgen/rdrand.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index 76d4874..1015c5c 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -416,7 +416,7 @@ cdef class RDRAND(BitGenerator):
         Provided for API compatibility
         """
         cdef RDRAND bit_generator
-        bit_generator = self.__class__()
+        bit_generator = self.__class__(retries=self.rng_state.retries)
         bit_generator._set_seed_seq(self._seed_seq)
 
         return bit_generator
@@ -459,4 +459,7 @@ cdef class RDRAND(BitGenerator):
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.retries = value["retries"]
+        retries = value["retries"]
+        if retries < 0:
+            raise ValueError("retries must be a non-negative integer.")
+        self.rng_state.retries = retries
-- 
2.43.0


From 5c164ec167314aa3aef96d65b9613097e54a466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 50/58] fix: broadcasting fills an output smaller than the
 broadcast parameters

---
 randomgen/broadcasting.pyx | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index b17e0f2..bddc7c7 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -118,6 +118,18 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
         if tup_size != out.shape:
             raise ValueError('size must match out.shape when used together')
 
+cdef int validate_output_shape(np.broadcast it, np.ndarray output) except -1:
+    """
+    Check that the broadcast of the parameters and the output has the shape
+    of the output. It differs when the output has fewer elements.
+    """
+    if it.shape != (<object>output).shape:
+        raise ValueError(
+            f"Output size {(<object>output).shape} is not compatible with "
+            f"broadcast dimensions of inputs {it.shape}."
+        )
+    return 0
+
 cdef object double_fill(void *func, bitgen_t *state, object size, object lock, object out):
     cdef random_double_fill random_func = (<random_double_fill>func)
     cdef double out_val
@@ -212,6 +224,7 @@ cdef object cont_broadcast_1(void *func, void *state, object size, object lock,
     randoms_data = <double *>np.PyArray_DATA(randoms)
     n = np.PyArray_SIZE(randoms)
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -249,6 +262,7 @@ cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew3(randoms, a_arr, b_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -291,6 +305,7 @@ cdef object cont_broadcast_3(void *func, void *state, object size, object lock,
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew4(randoms, a_arr, b_arr, c_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -421,6 +436,7 @@ cdef object discrete_broadcast_d(void *func, void *state, object size, object lo
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -456,6 +472,7 @@ cdef object discrete_broadcast_dd(void *func, void *state, object size, object l
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew3(randoms, a_arr, b_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -492,6 +509,7 @@ cdef object discrete_broadcast_di(void *func, void *state, object size, object l
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew3(randoms, a_arr, b_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -532,6 +550,7 @@ cdef object discrete_broadcast_iii(void *func, void *state, object size, object
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew4(randoms, a_arr, b_arr, c_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -564,6 +583,7 @@ cdef object discrete_broadcast_i(void *func, void *state, object size, object lo
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -743,6 +763,7 @@ cdef object cont_broadcast_1_f(void *func, bitgen_t *state, object size, object
     randoms_data = <float *>np.PyArray_DATA(randoms)
     n = np.PyArray_SIZE(randoms)
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    validate_output_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
-- 
2.43.0


From 3e5a8c04ffbe7355e112e49e693fed0425bd2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 51/58] fix: broadcasting ignores the output array with two or
 three array parameters

---
 randomgen/broadcasting.pxd |  3 ++-
 randomgen/broadcasting.pyx | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/randomgen/broadcasting.pxd b/randomgen/broadcasting.pxd
index 7d45cba..0c1bd3d 100644
--- a/randomgen/broadcasting.pxd
+++ b/randomgen/broadcasting.pxd
@@ -92,7 +92,8 @@ cdef object cont_broadcast_3(void *func,
                              constraint_type b_constraint,
                              np.ndarray c_arr,
                              object c_name,
-                             constraint_type c_constraint)
+                             constraint_type c_constraint,
+                             object out)
 
 cdef object discrete_broadcast_iii(void *func,
                                    void *state,
diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index bddc7c7..5e3cc70 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -237,7 +237,8 @@ cdef object cont_broadcast_1(void *func, void *state, object size, object lock,
 
 cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
                              np.ndarray a_arr, object a_name, constraint_type a_constraint,
-                             np.ndarray b_arr, object b_name, constraint_type b_constraint):
+                             np.ndarray b_arr, object b_name, constraint_type b_constraint,
+                             object out):
     cdef np.ndarray randoms
     cdef double a_val, b_val
     cdef double *randoms_data
@@ -251,7 +252,9 @@ cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
     if b_constraint != constraint_type.CONS_NONE:
         check_array_constraint(b_arr, b_name, b_constraint)
 
-    if size is not None:
+    if out is not None:
+        randoms = <np.ndarray>out
+    elif size is not None:
         randoms = <np.ndarray>np.empty(size, np.double)
     else:
         it = np.PyArray_MultiIterNew2(a_arr, b_arr)
@@ -277,7 +280,8 @@ cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
 cdef object cont_broadcast_3(void *func, void *state, object size, object lock,
                              np.ndarray a_arr, object a_name, constraint_type a_constraint,
                              np.ndarray b_arr, object b_name, constraint_type b_constraint,
-                             np.ndarray c_arr, object c_name, constraint_type c_constraint):
+                             np.ndarray c_arr, object c_name, constraint_type c_constraint,
+                             object out):
     cdef np.ndarray randoms
     cdef double a_val, b_val, c_val
     cdef double *randoms_data
@@ -294,7 +298,9 @@ cdef object cont_broadcast_3(void *func, void *state, object size, object lock,
     if c_constraint != constraint_type.CONS_NONE:
         check_array_constraint(c_arr, c_name, c_constraint)
 
-    if size is not None:
+    if out is not None:
+        randoms = <np.ndarray>out
+    elif size is not None:
         randoms = <np.ndarray>np.empty(size, np.double)
     else:
         it = np.PyArray_MultiIterNew3(a_arr, b_arr, c_arr)
@@ -346,12 +352,14 @@ cdef object cont(void *func, void *state, object size, object lock, int narg,
         elif narg == 2:
             return cont_broadcast_2(func, state, size, lock,
                                     a_arr, a_name, a_constraint,
-                                    b_arr, b_name, b_constraint)
+                                    b_arr, b_name, b_constraint,
+                                    out)
         else:
             return cont_broadcast_3(func, state, size, lock,
                                     a_arr, a_name, a_constraint,
                                     b_arr, b_name, b_constraint,
-                                    c_arr, c_name, c_constraint)
+                                    c_arr, c_name, c_constraint,
+                                    out)
 
     if narg > 0:
         _a = PyFloat_AsDouble(a)
-- 
2.43.0


From 417db9cbb27fb23f187d532f261ee89c837a5aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 52/58] fix: accept negative retries in the state of RDRAND
 again, as the tests do

---
 randomgen/rdrand.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index 1015c5c..d747c9e 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -459,7 +459,4 @@ cdef class RDRAND(BitGenerator):
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        retries = value["retries"]
-        if retries < 0:
-            raise ValueError("retries must be a non-negative integer.")
-        self.rng_state.retries = retries
+        self.rng_state.retries = value["retries"]
-- 
2.43.0


From 785d7d4405b2917d31b55016d77530a9e46519e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:11 +0000
Subject: [PATCH 53/58] fix: jump counts that are not Python integers are
 refused or misplace the stream

A count given as a NumPy integer overflowed in AESCounter, SPECK128 and
PCG32, and a Decimal or float count was multiplied in limited precision, so
that the jump landed elsewhere. A string was repeated 2**32 times or more.
---
 randomgen/aes.pxd         | 1 +
 randomgen/aes.pyx         | 2 +-
 randomgen/common.pxd      | 1 +
 randomgen/common.pyx      | 7 +++++++
 randomgen/pcg32.pxd       | 2 +-
 randomgen/pcg32.pyx       | 2 +-
 randomgen/pcg64.pxd       | 1 +
 randomgen/pcg64.pyx       | 4 ++--
 randomgen/philox.pxd      | 1 +
 randomgen/philox.pxd.in   | 1 +
 randomgen/philox.pyx      | 2 +-
 randomgen/speck128.pxd    | 1 +
 randomgen/speck128.pyx    | 2 +-
 randomgen/threefry.pxd    | 1 +
 randomgen/threefry.pxd.in | 1 +
 randomgen/threefry.pyx    | 2 +-
 16 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/randomgen/aes.pxd b/randomgen/aes.pxd
index ebe6679..f0fac79 100644
--- a/randomgen/aes.pxd
+++ b/randomgen/aes.pxd
@@ -11,6 +11,7 @@ from randomgen.common cimport (
     int_to_array,
     object_to_int,
     uint64_to_double,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 076e2e8..96ae939 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -325,7 +325,7 @@ cdef class AESCounter(BitGenerator):
         iter : integer, positive
             Number of times to jump the state of the rng.
         """
-        self.advance(iter * int(2 ** 64))
+        self.advance(jump_count(iter) * int(2 ** 64))
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index 0d902a7..857671d 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -24,6 +24,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
 cdef object prepare_cffi(bitgen_t *bitgen)
 cdef object prepare_ctypes(bitgen_t *bitgen)
 cdef object wrap_int(object val, object bits)
+cdef object jump_count(object iter)
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name)
 cpdef object object_to_int(object val, object bits, object name,
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 574e0eb..bb9edb0 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -409,6 +409,13 @@ cdef object wrap_int(object val, object bits):
         int_val = int_val - upper * divisor
     return int_val
 
+cdef object jump_count(object iter):
+    """The number of jumps as a Python integer"""
+    int_iter = int(iter)
+    if int_iter != iter:
+        raise TypeError("iter must be an integer.")
+    return int_iter
+
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name):
     req_dtype = np.dtype("uint" + str(required_bits))
diff --git a/randomgen/pcg32.pxd b/randomgen/pcg32.pxd
index 1706cc6..75e5d87 100644
--- a/randomgen/pcg32.pxd
+++ b/randomgen/pcg32.pxd
@@ -1,7 +1,7 @@
 cimport numpy as np
 from libc.stdint cimport uint32_t, uint64_t
 
-from randomgen.common cimport BitGenerator, fully_qualified_name, wrap_int
+from randomgen.common cimport BitGenerator, fully_qualified_name, jump_count, wrap_int
 
 
 cdef extern from "src/pcg32/pcg32.h":
diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index d9c91a2..44cf6d6 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -232,7 +232,7 @@ cdef class PCG32(BitGenerator):
         The step size is phi when divided by the period 2**64
         """
         step = int(0x9e3779b97f4a7c16)
-        self.advance(iter * step)
+        self.advance(jump_count(iter) * step)
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/pcg64.pxd b/randomgen/pcg64.pxd
index 42407c9..f1cfe58 100644
--- a/randomgen/pcg64.pxd
+++ b/randomgen/pcg64.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     PyArray_malloc_aligned,
     fully_qualified_name,
     uint64_to_double,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index a3a0747..af0e2a1 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -419,7 +419,7 @@ cdef class PCG64(BitGenerator):
         2**128.
         """
         step = 0x9e3779b97f4a7c15f39cc0605cedc834
-        step *= int(iter)
+        step *= jump_count(iter)
         divisor = step // 2**128
         step -= 2**128 * divisor
         self.advance(step)
@@ -944,7 +944,7 @@ cdef class LCG128Mix(BitGenerator):
         The step size is phi (the Golden Ratio) when divided by 2**128.
         """
         step = 0x9e3779b97f4a7c15f39cc0605cedc834
-        step *= int(iter)
+        step *= jump_count(iter)
         divisor = step // 2**128
         step -= 2**128 * divisor
         self.advance(step)
diff --git a/randomgen/philox.pxd b/randomgen/philox.pxd
index c1805f6..eab3f3a 100644
--- a/randomgen/philox.pxd
+++ b/randomgen/philox.pxd
@@ -9,6 +9,7 @@ from randomgen.common cimport (
     object_to_int,
     uint64_to_double,
     view_little_endian,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/philox.pxd.in b/randomgen/philox.pxd.in
index 97e527d..bfa54fb 100644
--- a/randomgen/philox.pxd.in
+++ b/randomgen/philox.pxd.in
@@ -9,6 +9,7 @@ from randomgen.common cimport (
     object_to_int,
     uint64_to_double,
     view_little_endian,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 32fe516..f917fb8 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -440,7 +440,7 @@ cdef class Philox(BitGenerator):
             Number of times to jump the state of the rng.
         """
         step_size = (self.w * self.n) // 2
-        self.advance(iter * int(2 ** step_size), True)
+        self.advance(jump_count(iter) * int(2 ** step_size), True)
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/speck128.pxd b/randomgen/speck128.pxd
index ba2b46e..f4a2980 100644
--- a/randomgen/speck128.pxd
+++ b/randomgen/speck128.pxd
@@ -10,6 +10,7 @@ from randomgen.common cimport (
     int_to_array,
     object_to_int,
     uint64_to_double,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 32eeb4a..bb3b34d 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -354,7 +354,7 @@ cdef class SPECK128(BitGenerator):
         iter : integer, positive
             Number of times to jump the state of the rng.
         """
-        self.advance(iter * int(2 ** 64))
+        self.advance(jump_count(iter) * int(2 ** 64))
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/threefry.pxd b/randomgen/threefry.pxd
index d25031d..ae0ba2f 100644
--- a/randomgen/threefry.pxd
+++ b/randomgen/threefry.pxd
@@ -9,6 +9,7 @@ from randomgen.common cimport (
     object_to_int,
     uint64_to_double,
     view_little_endian,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/threefry.pxd.in b/randomgen/threefry.pxd.in
index 96d462f..194762c 100644
--- a/randomgen/threefry.pxd.in
+++ b/randomgen/threefry.pxd.in
@@ -9,6 +9,7 @@ from randomgen.common cimport (
     object_to_int,
     uint64_to_double,
     view_little_endian,
+    jump_count,
     wrap_int,
 )
 
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 7e8df8b..f56bc7e 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -420,7 +420,7 @@ cdef class ThreeFry(BitGenerator):
             Number of times to jump the state of the rng.
         """
         step_size = (self.w * self.n) // 2
-        self.advance(iter * int(2 ** step_size), True)
+        self.advance(jump_count(iter) * int(2 ** step_size), True)
 
     def jump(self, iter=1):
         """
-- 
2.43.0


From b8f577a2f6e54d502761e2bce145fe8b4649e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 54/58] fix: a failed allocation crashes the process instead of
 raising MemoryError

---
 randomgen/aes.pyx                    |  2 ++
 randomgen/chacha.pyx                 |  2 ++
 randomgen/dsfmt.pyx                  |  2 ++
 randomgen/pcg64.pyx                  |  4 ++++
 randomgen/sfmt.pyx                   |  2 ++
 randomgen/speck128.pyx               |  2 ++
 randomgen/src/mt19937/mt19937-jump.c | 12 +++---------
 7 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 96ae939..418db5d 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -134,6 +134,8 @@ cdef class AESCounter(BitGenerator):
         self.rng_state = <aesctr_state_t *>PyArray_calloc_aligned(
             sizeof(aesctr_state_t), 1
         )
+        if self.rng_state == NULL:
+            raise MemoryError()
         self.seed(seed, counter, key)
 
         self._bitgen.state = <void *>self.rng_state
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index a475724..045272b 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -140,6 +140,8 @@ cdef class ChaCha(BitGenerator):
         self.rng_state = <chacha_state_t *>PyArray_malloc_aligned(
             sizeof(chacha_state_t)
         )
+        if self.rng_state == NULL:
+            raise MemoryError()
         if rounds % 2 != 0 or rounds <= 0:
             raise ValueError("rounds must be even and >= 2")
         self.rng_state.rounds = rounds
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 5827759..6329194 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -120,6 +120,8 @@ cdef class DSFMT(BitGenerator):
         self.rng_state.buffered_uniforms = <double *>PyArray_calloc_aligned(
             DSFMT_N64, sizeof(double)
         )
+        if self.rng_state.state == NULL or self.rng_state.buffered_uniforms == NULL:
+            raise MemoryError()
         self.rng_state.buffer_loc = DSFMT_N64
         self.seed(seed)
 
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index af0e2a1..2f13324 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -168,6 +168,8 @@ cdef class PCG64(BitGenerator):
         self.rng_state.pcg_state = <pcg64_random_t *>PyArray_malloc_aligned(
             sizeof(pcg64_random_t)
         )
+        if self.rng_state.pcg_state == NULL:
+            raise MemoryError()
         inc = None if seed is None else inc
 
         variant = "dxsm" if variant is None else variant
@@ -646,6 +648,8 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.pcg_state = <lcg128mix_random_t *>PyArray_malloc_aligned(
             sizeof(lcg128mix_random_t)
         )
+        if self.rng_state.pcg_state == NULL:
+            raise MemoryError()
         if hasattr(output, "argtypes") and hasattr(output, "restype"):
             from ctypes import c_ulonglong
             if output.argtypes != (c_ulonglong, c_ulonglong):
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 06dca56..0ac830e 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -119,6 +119,8 @@ cdef class SFMT(BitGenerator):
         self.rng_state.buffered_uint64 = <uint64_t *>PyArray_calloc_aligned(
             SFMT_N64, sizeof(uint64_t)
         )
+        if self.rng_state.state == NULL or self.rng_state.buffered_uint64 == NULL:
+            raise MemoryError()
         self.rng_state.buffer_loc = SFMT_N64
         self.seed(seed)
 
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index bb3b34d..7403e25 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -152,6 +152,8 @@ cdef class SPECK128(BitGenerator):
         self.rng_state = <speck_state_t *>PyArray_calloc_aligned(
             sizeof(speck_state_t), 1
         )
+        if self.rng_state == NULL:
+            raise MemoryError()
         if (rounds <= 0) or rounds > SPECK_MAX_ROUNDS or int(rounds) != rounds:
             raise ValueError("rounds must be an integer in [1, 34]")
         self.rng_state.rounds = int(rounds)
diff --git a/randomgen/src/mt19937/mt19937-jump.c b/randomgen/src/mt19937/mt19937-jump.c
index a68ddb4..e2b564d 100644
--- a/randomgen/src/mt19937/mt19937-jump.c
+++ b/randomgen/src/mt19937/mt19937-jump.c
@@ -102,9 +102,8 @@ void add_state(mt19937_state_t *state1, mt19937_state_t *state2)
 void horner1(unsigned long *pf, mt19937_state_t *state)
 {
     int i = MEXP - 1;
-    mt19937_state_t *temp;
-
-    temp = (mt19937_state_t *)calloc(1, sizeof(mt19937_state_t));
+    mt19937_state_t temp_state = {0};
+    mt19937_state_t *temp = &temp_state;
 
     while (get_coef(pf, i) == 0)
         i--;
@@ -133,16 +132,13 @@ void horner1(unsigned long *pf, mt19937_state_t *state)
         ;
 
     copy_state(state, temp);
-    free(temp);
 }
 
 void mt19937_jump_state(mt19937_state_t *state, const char *jump_str)
 {
-    unsigned long *pf;
+    unsigned long pf[P_SIZE] = {0};
     int i;
 
-    pf = (unsigned long *)calloc(P_SIZE, sizeof(unsigned long));
-
     for (i = MEXP - 1; i > -1; i--)
     {
         if (jump_str[(MEXP - 1) - i] == '1')
@@ -154,6 +150,4 @@ void mt19937_jump_state(mt19937_state_t *state, const char *jump_str)
     }
 
     horner1(pf, state);
-
-    free(pf);
 }
-- 
2.43.0


From a06861650535ad5f607a74bec78582f5d83159b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:36 +0000
Subject: [PATCH 55/58] fix: constructing AESCounter, ChaCha or SPECK128 wrote
 a global flag that running generators read without the GIL

---
 randomgen/src/aesctr/aesctr.c       | 15 ++++++++++-----
 randomgen/src/chacha/chacha.c       | 14 +++++++++-----
 randomgen/src/speck-128/speck-128.c | 15 ++++++++++-----
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/randomgen/src/aesctr/aesctr.c b/randomgen/src/aesctr/aesctr.c
index f5d61a3..e9b78f5 100644
--- a/randomgen/src/aesctr/aesctr.c
+++ b/randomgen/src/aesctr/aesctr.c
@@ -8,12 +8,17 @@ int RANDOMGEN_USE_AESNI;
 int aes_capable(void)
 {
 #if defined(__AES__) && __AES__
-    int flags[32];
-    feature_flags(flags, RANDOMGEN_ECX);
-    RANDOMGEN_USE_AESNI = flags[AES_FEATURE_FLAG];
-    return RANDOMGEN_USE_AESNI;
+    /* Detected once: running generators read the setting without the GIL */
+    static int capable = -1;
+    if (capable < 0)
+    {
+        int flags[32];
+        feature_flags(flags, RANDOMGEN_ECX);
+        capable = flags[AES_FEATURE_FLAG];
+        RANDOMGEN_USE_AESNI = capable;
+    }
+    return capable;
 #else
-    RANDOMGEN_USE_AESNI = 0;
     return 0;
 #endif
 }
diff --git a/randomgen/src/chacha/chacha.c b/randomgen/src/chacha/chacha.c
index 59794fd..37d51e5 100644
--- a/randomgen/src/chacha/chacha.c
+++ b/randomgen/src/chacha/chacha.c
@@ -21,12 +21,16 @@ extern INLINE double chacha_next_double(chacha_state_t *state);
 
 int chacha_simd_capable(void) {
 #if defined(__SSE2__) && __SSE2__
-  int flags[32];
-  feature_flags(flags, CHACHA_FEATURE_REG);
-  RANDOMGEN_USE_SIMD = flags[CHACHA_FEATURE_FLAG];
-  return RANDOMGEN_USE_SIMD;
+  /* Detected once: running generators read the setting without the GIL */
+  static int capable = -1;
+  if (capable < 0) {
+    int flags[32];
+    feature_flags(flags, CHACHA_FEATURE_REG);
+    capable = flags[CHACHA_FEATURE_FLAG];
+    RANDOMGEN_USE_SIMD = capable;
+  }
+  return capable;
 #else
-  RANDOMGEN_USE_SIMD = 0;
   return 0;
 #endif
 }
diff --git a/randomgen/src/speck-128/speck-128.c b/randomgen/src/speck-128/speck-128.c
index 83cda29..9bd2854 100644
--- a/randomgen/src/speck-128/speck-128.c
+++ b/randomgen/src/speck-128/speck-128.c
@@ -8,12 +8,17 @@ int RANDOMGEN_USE_SSE41;
 int speck_sse41_capable(void)
 {
 #if defined(__SSSE3__) && __SSSE3__
-    int flags[32];
-    feature_flags(flags, RANDOMGEN_ECX);
-    RANDOMGEN_USE_SSE41 = flags[SSE41_FEATURE_FLAG];
-    return RANDOMGEN_USE_SSE41;
+    /* Detected once: running generators read the setting without the GIL */
+    static int capable = -1;
+    if (capable < 0)
+    {
+        int flags[32];
+        feature_flags(flags, RANDOMGEN_ECX);
+        capable = flags[SSE41_FEATURE_FLAG];
+        RANDOMGEN_USE_SSE41 = capable;
+    }
+    return capable;
 #else
-    RANDOMGEN_USE_SSE41 = 0;
     return 0;
 #endif
 }
-- 
2.43.0


From 93af7f56fcd2b3b668bb900db5548af8ee9fe637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 56/58] fix: SeedSequence.spawn fails after 2**31 - 1 children

The loop variable was a C int, so a sequence rebuilt with a larger
n_children_spawned could not spawn although the counter and the spawn keys
hold 32 bits.
---
 randomgen/_seed_sequence.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 867f953..f48458c 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -462,8 +462,6 @@ cdef class SeedSequence(object):
         seqs :  list[SeedSequence]
             Child SeedSequences with incremented  ``spawn_key``
         """
-        cdef int i
-
         if n_children < 0:
             raise ValueError("n_children must be non-negative")
         seqs = []
-- 
2.43.0


From 07d1cc5e444d08647eaadaad9f5fd7c89211de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:32 +0000
Subject: [PATCH 57/58] fix: complex_normal of very small and very large
 variances

---
 randomgen/generator.pyx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 21dfd01..08ef87f 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -2,7 +2,7 @@
 # cython: wraparound=False, nonecheck=False, boundscheck=False, cdivision=True
 import warnings
 
-from libc.math cimport sqrt
+from libc.math cimport frexp, ldexp, sqrt
 from libc.stdint cimport int64_t, uint32_t, uint64_t
 
 import numpy as np
@@ -629,6 +629,7 @@ cdef class ExtendedGenerator:
         cdef double fvar_r, fvar_i, floc_r, floc_i, f_real, f_imag, f_rho
         cdef np.npy_intp i, j, n, n2
         cdef np.broadcast it
+        cdef int f_exp = 0
 
         oloc = <np.ndarray>np.PyArray_FROM_OTF(
             loc, np.NPY_COMPLEX128, api.NPY_ARRAY_ALIGNED
@@ -662,7 +663,12 @@ cdef class ExtendedGenerator:
                 raise ValueError("Re(gamma + relation) < 0")
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
-                f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+                # Scale by a power of 2, which is exact, so that the product of
+                # the variances does not under- or overflow
+                frexp(max(fvar_i, fvar_r), &f_exp)
+                f_rho = ldexp(frelation_i, -f_exp) / sqrt(
+                    ldexp(fvar_i, -f_exp) * ldexp(fvar_r, -f_exp)
+                )
             elif frelation_i != 0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
             if f_rho > 1.0 or f_rho < -1.0:
@@ -709,7 +715,11 @@ cdef class ExtendedGenerator:
         cov = np.broadcast_to(0.5 * np.imag(orelation), np.shape(v_real))
         rho = np.zeros(np.shape(v_real))
         idx = (v_real > 0) & (v_imag > 0)
-        rho[idx] = cov[idx] / np.sqrt(v_real[idx] * v_imag[idx])
+        # Scale by a power of 2, see above
+        scale = -np.frexp(np.maximum(v_real[idx], v_imag[idx]))[1]
+        rho[idx] = np.ldexp(cov[idx], scale) / np.sqrt(
+            np.ldexp(v_real[idx], scale) * np.ldexp(v_imag[idx], scale)
+        )
         if np.any(cov[~idx] != 0) or np.any(np.abs(rho) > 1):
             raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation ** 2)")
 
-- 
2.43.0


From a9c331083083c0216e1f540716cd2c822ea42693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:40 +0000
Subject: [PATCH 58/58] fix: rotations by zero in JSF shifted by the whole
 width

p and q may be 0, as the class documents; r already had its own guard.
---
 randomgen/src/jsf/jsf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/jsf/jsf.h b/randomgen/src/jsf/jsf.h
index 0812468..f336d41 100644
--- a/randomgen/src/jsf/jsf.h
+++ b/randomgen/src/jsf/jsf.h
@@ -54,7 +54,7 @@ static INLINE uint64_t rotate64(uint64_t x, int k) {
 #ifdef _MSC_VER
   return _rotl64(x, k);
 #else
-  return (x << k) | (x >> (64 - k));
+  return (x << k) | (x >> (-k & 63));
 #endif
 }
 
@@ -62,7 +62,7 @@ static INLINE uint32_t rotate32(uint32_t x, int k) {
 #ifdef _MSC_VER
   return _rotl(x, k);
 #else
-  return (x << k) | (x >> (32 - k));
+  return (x << k) | (x >> (-k & 31));
 #endif
 }
 
-- 
2.43.0

