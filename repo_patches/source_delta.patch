From ee5f828c9d7497b87dc013bff0282677a594b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 01/54] fix: report a reflected operator's size mismatch
 instead of NameError

dispatch_roper named a non-existent exception class, so object() + bv raised
NameError instead of TypeError.
---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..82ad5b7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8b4b5d4 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From bb0675c240586ab22d52d4d98ece8def7bcb79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 02/54] fix: int >> vector shifts the int, not the vector

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 82ad5b7..ff0a38e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8b4b5d4..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From d26c7db00a94b6e3a1eb5532019294d436e78c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 03/54] fix: sext(0) is the identity instead of ValueError

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ff0a38e..d11c4f0 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,7 +482,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[1](self[-1]).repeat(ext))
+        return T[self.size + ext](self.as_sint())
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From a067d2bd8694c0e311969006d2271df0efe6e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 04/54] fix: bvshl by a huge amount returns 0 instead of
 exhausting memory

---
 hwtypes/bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index d11c4f0..55dba64 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -283,7 +283,8 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvshl(self, other):
-        return type(self)(self.as_uint() << other.as_uint())
+        # amounts >= size shift everything out; don't build the huge int
+        return type(self)(self.as_uint() << min(other.as_uint(), self.size))
 
     @bv_cast
     def bvlshr(self, other):
-- 
2.43.0


From b357880ea37693308f55613919f2e268dbf75018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 05/54] fix: remainder by zero returns a copy, not an alias of
 the operand

Vectors are mutable through item assignment, so x % 0 returning x itself let
an assignment to the result change x.
---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 55dba64..ad4c57b 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -383,7 +383,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -397,7 +397,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0


From 3bb71cc1c76c9ab8e3877729919313f95f901f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 06/54] fix: polymorphic operators defer when the second branch
 refuses an operand

---
 hwtypes/bit_vector_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..84a5339 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -170,7 +170,7 @@ def build_VCall(select, m0, m1):
         def VCall(*args, **kwargs):
             v0 = m0(*args, **kwargs)
             v1 = m1(*args, **kwargs)
-            if v0 is NotImplemented or v0 is NotImplemented:
+            if v0 is NotImplemented or v1 is NotImplemented:
                 return NotImplemented
             return select.ite(v0, v1)
         return Method(VCall)
-- 
2.43.0


From 8a0288bd40fbba78ec495c6f8dea94604a5406cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/54] fix: symbolic repeat returns a vector of the repeated
 width

It built a value of the operand's own width, which raised TypeError for every
count but 1; counts below 1 now raise ValueError as for BitVector.
---
 hwtypes/smt_bit_vector.py | 5 ++++-
 hwtypes/z3_bit_vector.py  | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..346955c 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,10 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        if other <= 0:
+            raise ValueError()
+        T = type(self).unsized_t
+        return T[self.size * other](smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..82ee1b5 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,9 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        if n <= 0:
+            raise ValueError()
+        return type(self).unsized_t[self.size * n](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From 3e3da46a37e5d86e324711aaf2384e6ef9951a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 08/54] fix: SMTBitVector accepts negative and oversized
 __int__ values

They wrap to the width, as plain ints already did.
---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 346955c..dde9f1e 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From 6112f61cc1579fc57c5d375ff13e6906e70d3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 09/54] fix: z3SIntVector.ext sign-extends like SIntVector.ext

---
 hwtypes/z3_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 82ee1b5..cc42f25 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -560,6 +560,9 @@ class z3SIntVector(z3NumVector):
     def __le__(self, other):
         return self.bvsle(other)
 
+    def ext(self, ext):
+        return self.sext(ext)
+
 _Family_ = ht.TypeFamily(z3Bit, z3BitVector, z3UIntVector, z3SIntVector)
 
 
-- 
2.43.0


From 4620b13219ba8ec935e087d02e9897a53349c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 10/54] fix: z3Bit.ite of two z3Bits is a z3Bit

It returned a one-bit vector, so a selected Bit could not be combined with
other Bits.
---
 hwtypes/z3_bit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index cc42f25..6e87d82 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -129,7 +129,9 @@ class z3Bit(AbstractBit):
         tb_t = type(t_branch)
         fb_t = type(f_branch)
         BV_t = self.get_family().BitVector
-        if isinstance(t_branch, BV_t) and isinstance(f_branch, BV_t):
+        if isinstance(t_branch, z3Bit) and isinstance(f_branch, z3Bit):
+            T = z3Bit
+        elif isinstance(t_branch, BV_t) and isinstance(f_branch, BV_t):
             if tb_t is not fb_t:
                 raise TypeError('Both branches must have the same type')
             T = tb_t
-- 
2.43.0


From 787e66d4648f853ed056ee1ee526225d2aca09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 11/54] fix: SMTBit supports xor with a bool or int on the left

__xor__ was defined twice and __rxor__ not at all.
---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dde9f1e..7dea852 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From 947f31a38c61ffe1e52cf953b6e0484fcfcebc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 12/54] fix: as_sint of a one-bit SMTBitVector

Slicing off the sign bit left an empty extract, an assertion failure in pysmt.
---
 hwtypes/smt_bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 7dea852..d372005 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -602,7 +602,8 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        # the sign bit weighs -2**(size-1) instead of 2**(size-1)
+        return SMTInt(self) - SMTInt(self & (1<<(self.size-1))) * 2
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From 4659ce5b2c33b32943b8c5017153b3de6df6b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 13/54] fix: generated SMT names never alias a symbol that is
 still in use

A dropped variable named like a generated one (x_0) left its symbol in live
expressions; the next SMTBit(prefix='x') became that same symbol.
---
 hwtypes/smt_bit_vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index d372005..f91a81f 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -25,8 +25,11 @@ _var_counters = defaultdict(it.count)
 _name_table = weakref.WeakValueDictionary()
 
 def _gen_name(prefix='V'):
+    # a variable may be gone while expressions still mention its symbol, so
+    # names known to pysmt are in use as well
+    symbols = smt.get_env().formula_manager.symbols
     name = f'{prefix}_{next(_var_counters[prefix])}'
-    while name in _name_table:
+    while name in _name_table or name in symbols:
         name = f'{prefix}_{next(_var_counters[prefix])}'
     return name
 
-- 
2.43.0


From 65d0849f85a046deb021a60d846297031ca54479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 14/54] fix: And/Or keep the operands of an iterator

Checking the operands consumed the iterator, leaving an empty formula.
---
 hwtypes/smt_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_utils.py b/hwtypes/smt_utils.py
index 3af995a..2a8fcb6 100644
--- a/hwtypes/smt_utils.py
+++ b/hwtypes/smt_utils.py
@@ -39,8 +39,9 @@ def _check(vs):
 
 class And(FormulaConstructor):
     def __init__(self, values: list):
+        values = list(values)
         _check(values)
-        self.values = list(values)
+        self.values = values
 
     def serialize(self, line_prefix="", indent="|   "):
         return _op_to_str(self.values, "And", line_prefix, indent)
@@ -52,8 +53,9 @@ class And(FormulaConstructor):
 
 class Or(FormulaConstructor):
     def __init__(self, values: list):
+        values = list(values)
         _check(values)
-        self.values = list(values)
+        self.values = values
 
     def serialize(self, line_prefix="", indent="|   "):
         return _op_to_str(self.values, "Or", line_prefix, indent)
-- 
2.43.0


From 96832886757c1e5b3be15375a33114d62b51a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 15/54] fix: fp_abs of negative zero is positive zero

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..9ccabc9 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -139,8 +139,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 4bcb71d84c0ea62a7f3adfe508324711963b97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 16/54] fix: a bound FPVector type can be subclassed (no
 trap_expbound in gmpy2)

---
 hwtypes/fp_vector.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 9ccabc9..cab266d 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,6 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From e4fc704b92d5fc6c3b8c85009efe5987bc4f3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:39 +0000
Subject: [PATCH 17/54] fix: FPVector.random varies its mantissa and stays
 finite when asked to

---
 hwtypes/fp_vector.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index cab266d..7e3a5b6 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -380,14 +380,11 @@ class FPVector(AbstractFPVector):
     @classmethod
     @set_context
     def random(cls, allow_inf=True) -> 'FPVector':
-        bias = (1 << (cls.exponent_size - 1)) - 1
-        if allow_inf:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias+1)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
-        else:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+        # choose the fields directly: an all ones exponent is infinity
+        max_exp = (1 << cls.exponent_size) - 1
+        exp = random.randint(1, max_exp if allow_inf else max_exp - 1)
+        mantissa = random.getrandbits(cls.mantissa_size) if exp < max_exp else 0
+        bits = random.getrandbits(1)
+        bits = (bits << cls.exponent_size) | exp
+        bits = (bits << cls.mantissa_size) | mantissa
+        return cls.reinterpret_from_bv(BitVector[cls.size](bits))
-- 
2.43.0


From 31267d6040dcd7b2e08929c9137a180a6051a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:14 +0000
Subject: [PATCH 18/54] fix: SMTFPVector.fp_min and fp_max take two operands

---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..f61b653 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -19,8 +19,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 94187e0d723bd76e215246c906339fd8ceb780ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 19/54] fix: SMTFPVector.to_sbv looked up a function table that
 does not exist

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index f61b653..7b94261 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From 2123e06efb715361cf58e98026316fa9ea83362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 20/54] fix: SMTFPVector subclasses share functions by format,
 not by class name

---
 hwtypes/smt_fp_vector.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 7b94261..1bd9ca1 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -39,6 +39,12 @@ _name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
+def _uf_name(cls, method_name):
+    # a function belongs to a format: classes may share a name
+    binding = ','.join(map(str, cls.binding))
+    return f'SMTFPVector[{binding}].{method_name}'
+
+
 class SMTFPVector(AbstractFPVector):
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC):
         if name is not AUTOMATIC and value is not SMYBOLIC:
@@ -72,13 +78,15 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        if not cls.is_bound:
+            return
         _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
         for method_name, *args in _SIGS:
             args = [T if x is None else x for x in args]
             rtype = args[-1]
             params = args[:-1]
-            name = '.'.join((cls.__name__, method_name))
+            name = _uf_name(cls, method_name)
             ufs[method_name] = shortcuts.Symbol(name, FunctionType(rtype, params))
 
         ufs['to_sbv'] = dict()
@@ -170,7 +178,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_ubv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_ubv[{size}]'))
+            name = _uf_name(cls, f'to_ubv[{size}]')
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
@@ -182,7 +190,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
+            name = _uf_name(cls, f'to_sbv[{size}]')
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
-- 
2.43.0


From a16cbb3954c7b5fa8fc41c486c3c80cd27b60bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 21/54] fix: a name is one live SMT variable, of floats and
 vectors alike

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 1bd9ca1..ef75045 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -5,6 +5,7 @@ import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +36,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
-- 
2.43.0


From d8a52633ac0a7ca9460e04aea11aa121ed40e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 22/54] fix: the sign of a NaN no longer decides bit patterns
 at random

---
 hwtypes/fp_vector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 7e3a5b6..1a56e87 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -73,11 +73,8 @@ class FPVector(AbstractFPVector):
                 raise TypeError(f"Can't construct FPVector from {type(value)}")
 
         if gmpy2.is_nan(value) and not type(self).ieee_compliance:
-            if gmpy2.is_signed(value):
-                self._value = gmpy2.mpfr('-inf')
-            else:
-                self._value = gmpy2.mpfr('inf')
-
+            # mpfr leaves the sign of a NaN to chance
+            self._value = gmpy2.mpfr('inf')
         else:
             self._value = value
 
@@ -275,7 +272,8 @@ class FPVector(AbstractFPVector):
         elif self.fp_is_NaN():
             exp_bits = BitVector[cls.exponent_size](-1)
             mantissa_bits = BitVector[cls.mantissa_size](1)
-            return mantissa_bits.concat(exp_bits).concat(sign_bit)
+            # mpfr leaves the sign of a NaN to chance
+            return mantissa_bits.concat(exp_bits).concat(BitVector[1](0))
 
 
         bias = (1 << (cls.exponent_size - 1)) - 1
-- 
2.43.0


From ed420c3edbf27b0d8a9355ca7f209e909a4bf7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:10 +0000
Subject: [PATCH 23/54] fix: a vector size is checked before the type cache is
 asked

---
 hwtypes/bit_vector_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..47b5e90 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,15 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # equal keys need not be valid ones: 8.0 == 8
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
-- 
2.43.0


From 8256c4d1c23f62ca6b1074f5c584479fd6b53dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 24/54] fix: a floating point format is checked before the type
 cache is asked

---
 hwtypes/fp_vector_abc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..d5eea9b 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,11 +43,6 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
-
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
@@ -55,6 +50,12 @@ class AbstractFPVectorMeta(ABCMeta):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        # equal keys need not be valid ones: 1 == True
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From 7aaa91110144d7c55f73c359d8c9119d2dcb6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 25/54] fix: assigning a field keeps a tuple's value a tuple,
 so it stays equal and hashable

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From 8cfe635763e48b9fe6487c317f86e0d602f5f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:24 +0000
Subject: [PATCH 26/54] fix: assigning a slice of a tuple could store values of
 the wrong type

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..d346d77 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,7 +46,9 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        if isinstance(idx, slice):
+            raise TypeError('Fields can only be assigned one at a time')
+        elif isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
-- 
2.43.0


From d5a7e01c49be78304c2b8db49d9ee5c9a562736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 27/54] fix: product and tagged union fields may be called
 self, cls or super

---
 hwtypes/adt.py      |  2 +-
 hwtypes/adt_meta.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index d346d77..0ae24c2 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -209,7 +209,7 @@ class Sum(metaclass=SumMeta):
 
 
 class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
-    def __init__(self, **kwargs):
+    def __init__(self, /, **kwargs):
         if len(kwargs) == 0:
             raise ValueError('Must specify a value')
         elif len(kwargs) != 1:
diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..f352830 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -229,7 +229,7 @@ class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # (UnboundType, (types...)) : BoundType
     _class_cache = weakref.WeakValueDictionary()
 
-    def __call__(cls, *args, **kwargs):
+    def __call__(cls, /, *args, **kwargs):
         if not cls.is_bound:
             obj = cls.__new__(cls, *args, **kwargs)
             if not type(obj).is_bound:
@@ -387,8 +387,8 @@ class AnonymousProductMeta(TupleMeta):
         t = super()._from_idx(idx)
         t._field_table_ = idx
 
-        name =  t.unbound_t.__name__
-        gs = {name : t}
+        # names no field can have, so they can't collide with the arguments
+        gs = {'__product__' : t, '__super__' : super}
 
         ls = {}
 
@@ -397,16 +397,16 @@ class AnonymousProductMeta(TupleMeta):
 
         # build __new__
         __new__ = f'''
-def __new__(cls, {type_sig}):
-    return super({name}, cls).__new__(cls, {arg_list})
+def __new__(__cls__, {type_sig}):
+    return __super__(__product__, __cls__).__new__(__cls__, {arg_list})
 '''
         exec(__new__, gs, ls)
         t.__new__ = ls['__new__']
 
         # build __init__
         __init__ = f'''
-def __init__(self, {type_sig}):
-    return super({name}, self).__init__({arg_list})
+def __init__(__self__, {type_sig}):
+    return __super__(__product__, __self__).__init__({arg_list})
 '''
         exec(__init__, gs, ls)
         t.__init__ = ls['__init__']
-- 
2.43.0


From cb144a97ee14d5daaa7c63997f546f2c8fa45287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 28/54] fix: an enum with a member called name can be printed

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 0ae24c2..10a64a4 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -263,7 +263,7 @@ class Enum(metaclass=EnumMeta):
         return self._name_
 
     def __repr__(self):
-        return f'{type(self).__name__}.{self.name}'
+        return f'{type(self).__name__}.{self._name_}'
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 52980071090b6e8241bd46bc07495a17c5fa6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 29/54] fix: a tagged union hashes like the sum value it equals

---
 hwtypes/adt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 10a64a4..70137ca 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -232,7 +232,8 @@ class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
             return NotImplemented
 
     def __hash__(self):
-        return hash(self._tag_) + hash(self._value_)
+        # equal values of the underlying sum type hash the same
+        return hash(self._value_)
 
     def __repr__(self):
         return f'{type(self).__name__}({", ".join(f"{k}={v}" for k,v in self.value_dict.items())})'
-- 
2.43.0


From d2d73dac2a6d7410b432a6a2792acb7b9b098c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 30/54] fix: anonymous products can be rebound, stripped and
 pushed

---
 hwtypes/adt_meta.py  | 11 +++++++++++
 hwtypes/modifiers.py |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index f352830..1eed8fa 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -462,6 +462,17 @@ def __init__(__self__, {type_sig}):
     def field_dict(cls):
         return MappingProxyType(cls._field_table_)
 
+    def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
+        new_fields = OrderedDict()
+        for field, T in cls.field_dict.items():
+            if T == A or (rebind_sub_types and _issubclass(T,A)):
+                new_fields[field] = B
+            elif rebind_recursive and isinstance(T, BoundMeta):
+                new_fields[field] = T.rebind(A, B, rebind_sub_types)
+            else:
+                new_fields[field] = T
+        return cls.unbound_t[new_fields]
+
 
 class ProductMeta(_AttrSyntax, AnonymousProductMeta):
     FIELDS_T = type
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..e5f6aac 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -1,6 +1,6 @@
 import types
 import weakref
-from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
+from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta, AnonymousProductMeta
 
 
 __ALL__ = ['new', 'make_modifier', 'is_modified', 'is_modifier', 'get_modifier', 'get_unmodified', 'strip_modifiers', 'push_modifiers']
@@ -142,6 +142,9 @@ def strip_modifiers(adt_t):
     elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
@@ -156,6 +159,9 @@ def push_modifiers(adt_t, mods=[]):
     if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
-- 
2.43.0


From ee257f3919e746093a7bbe5f4f60d0d5046cbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 31/54] fix: a visitor that does not look at leaves can visit
 them

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..2f74dbb 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -32,7 +32,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From 64accc8871b4794a0d719a3da65b7bd05e58ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 32/54] fix: rebind_keep_modifiers keeps the modifiers of
 nested types

---
 hwtypes/adt_util.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 2f74dbb..aa5aba4 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from .adt_meta import BoundMeta
+from .adt_meta import BoundMeta, AttrSyntax, AnonymousProductMeta
 from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
 
 from .util import _issubclass
@@ -107,11 +107,18 @@ def rebind_keep_modifiers(adt, A, B):
     if _issubclass(adt,A):
         return B
     elif isinstance(adt, BoundMeta):
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
-        return new_adt
+        # All fields are replaced at once: rebinding them one after the other
+        # would also rebind inside fields that still have to be handled.
+        new_fields = {k: rebind_keep_modifiers(field, A, B)
+                      for k, field in adt.field_dict.items()}
+        if new_fields == adt.field_dict:
+            return adt
+        elif isinstance(adt, AttrSyntax):
+            return adt.unbound_t.from_fields(adt.__name__, new_fields, cache=adt.is_cached)
+        elif isinstance(adt, AnonymousProductMeta):
+            return adt.unbound_t[new_fields]
+        else:
+            return adt.unbound_t[new_fields.values()]
     else:
         return adt
 
-- 
2.43.0


From f71f43de9fcc9e4bf9db9ed19cffceae03ea1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 33/54] fix: rebind_type of a modified type raised NameError

---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index aa5aba4..5df5c49 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -133,7 +133,8 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        unmod, mods = unwrap_modifier(T)
+        return wrap_modifier(rebind_type(unmod, family), mods)
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 5ab2a02b839d88644374c77e93914d64525d98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 34/54] fix: types that differ in a special method are
 different types

---
 hwtypes/adt_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 1eed8fa..2af47fe 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -153,7 +153,8 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k):
+                    # methods distinguish types, __module__, __doc__ etc. don't
+                    if not _is_dunder(k) or _is_descriptor(v):
                         ns_idx.add((k,v))
 
                 if mcs.ORDERED:
-- 
2.43.0


From 1e4e799b5ef18578eb08c5eb18cd82ad4f33e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 35/54] fix: sum values of different alternatives are
 comparable

---
 hwtypes/adt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 70137ca..84c9e22 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -138,6 +138,9 @@ class Sum(metaclass=SumMeta):
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
+            if type(self._value_) is not type(other._value_):
+                # different alternatives, whose values may not be comparable
+                return False
             return self._value_ == other._value_
         else:
             return NotImplemented
-- 
2.43.0


From 289603c5a055b467ccd406fd2ebcd59de39e2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:07 +0000
Subject: [PATCH 36/54] fix: a bound product or tagged union can't be given
 other fields by inheritance

---
 hwtypes/adt_meta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 2af47fe..66c015f 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -202,6 +202,12 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
 
         return cls._cache_handler(cache, fields, name, (cls,), ns)
 
+    @classmethod
+    def _check_bound_bases(mcs, bases, fields):
+        for base in bases:
+            if isinstance(base, mcs) and base.is_bound and base.field_dict != fields:
+                raise TypeError("Can't inherit from multiple different bound_types")
+
     @classmethod
     @abstractmethod
     def _from_fields(mcs, fields, name, bases, ns, **kwargs):
@@ -490,6 +496,7 @@ class ProductMeta(_AttrSyntax, AnonymousProductMeta):
                 if r_base is not None:
                     return r_base
             return None
+        mcs._check_bound_bases(bases, fields)
         base = _get_anon_base(bases)[fields]
         bases = *bases, base
 
@@ -549,6 +556,7 @@ class TaggedUnionMeta(_AttrSyntax, SumMeta):
                     return r_base
             return None
 
+        mcs._check_bound_bases(bases, fields)
         sum_base = _get_sum_base(bases)[tuple(fields.values())]
         bases = *bases, sum_base
 
-- 
2.43.0


From 1b702fb5d3a2ca81e1b3de58e31d43d1107c5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:26 +0000
Subject: [PATCH 37/54] fix: equal frozen dictionaries have equal hashes

---
 hwtypes/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/util.py b/hwtypes/util.py
index cf52ebc..7a90d06 100644
--- a/hwtypes/util.py
+++ b/hwtypes/util.py
@@ -37,7 +37,8 @@ class OrderedFrozenDict(FrozenDict):
 
     def __init__(self, *args, **kwargs):
         self._d = OrderedDict(*args, **kwargs)
-        self._hash = hash(tuple(self.items()))
+        # must agree with the hash of an equal FrozenDict
+        self._hash = hash(frozenset(self.items()))
 
 
 class TypedProperty:
-- 
2.43.0


From 44e5ee7bc6a1d239fa382a7d2d98a10807277b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 38/54] fix: the signed value of an empty vector is 0

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ad4c57b..00c88c1 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -446,7 +446,7 @@ class BitVector(AbstractBitVector):
 
     def as_sint(self):
         value = self._value
-        if self[-1]:
+        if self.size and self[-1]:
             value = value - (1 << self.size)
         return value
 
-- 
2.43.0


From 8873a24bdbeb912f4727204598fb60c71f2e9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:59 +0000
Subject: [PATCH 39/54] fix: rotating an empty vector divided by zero

---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 00c88c1..7b01d29 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -296,12 +296,12 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvrol(self, other):
-        other = (len(self) - other.as_uint()) % len(self)
+        other = (len(self) - other.as_uint()) % (len(self) or 1)
         return self[other:].concat(self[:other])
 
     @bv_cast
     def bvror(self, other):
-        other = other.as_uint() % len(self)
+        other = other.as_uint() % (len(self) or 1)
         return self[other:].concat(self[:other])
 
     @bv_cast
-- 
2.43.0


From 6f1e17e856611ba1c1eae22964bc2c9cddc39bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 40/54] fix: pysmt rotation by an amount outside the width

---
 hwtypes/smt_bit_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index f91a81f..a4ab745 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -418,10 +418,12 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
+        other = other % (1 << self.size) % self.size
         return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
 
     @int_cast
     def bvror(self, other):
+        other = other % (1 << self.size) % self.size
         return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
 
     @bv_cast
-- 
2.43.0


From 74c479093f6d4ea6e6bb4904a8c6f6bbd761ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 41/54] fix: nested z3 rotations of a width that is no power of
 two

---
 hwtypes/z3_bit_vector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 6e87d82..94ad4fd 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -368,11 +368,15 @@ class z3BitVector(AbstractBitVector):
 
     @bv_cast
     def bvrol(self, other):
-        return type(self)(z3.RotateLeft(self.value, other.value))
+        # z3 merges nested rotations by adding their amounts modulo 2**size, which
+        # is wrong unless size is a power of two
+        amount = z3.URem(other.value, self.size)
+        return type(self)(self.value << amount | z3.LShR(self.value, self.size - amount))
 
     @bv_cast
     def bvror(self, other):
-        return type(self)(z3.RotateRight(self.value, other.value))
+        amount = z3.URem(other.value, self.size)
+        return type(self)(z3.LShR(self.value, amount) | self.value << (self.size - amount))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From ae0159b0f4461b1606aa4b4755705f2af0c1f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:50 +0000
Subject: [PATCH 42/54] fix: enumerate of a sum or tagged union with Bit as an
 alternative raised TypeError

---
 hwtypes/adt_meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 66c015f..a77ad0f 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -534,7 +534,7 @@ class SumMeta(BoundMeta):
             if isinstance(field, BoundMeta):
                 yield from map(cls, field.enumerate())
             else:
-                yield cls(field())
+                yield cls(field(0))
 
     @property
     def field_dict(cls):
@@ -597,7 +597,7 @@ class TaggedUnionMeta(_AttrSyntax, SumMeta):
             if isinstance(field, BoundMeta):
                 yield from map(lambda v: cls(**{tag: v}), field.enumerate())
             else:
-                yield cls(**{tag: field()})
+                yield cls(**{tag: field(0)})
 
 
 class EnumMeta(_AttrSyntax, BoundMeta):
-- 
2.43.0


From bcc28b47c9cd1b3863d8fdb77dcbdfb0c82b7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 43/54] fix: a string operand sent SMT and z3 vectors into
 endless recursion

---
 hwtypes/smt_bit_vector.py | 2 +-
 hwtypes/z3_bit_vector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index a4ab745..14a025b 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -277,7 +277,7 @@ class SMTBitVector(AbstractBitVector):
         elif isinstance(value, SMTBit):
             self._value = smt.Ite(value.value, smt.BVOne(self.size), smt.BVZero(self.size))
 
-        elif isinstance(value, tp.Sequence):
+        elif isinstance(value, tp.Sequence) and not isinstance(value, str):
             if len(value) != self.size:
                 raise ValueError('Iterable is not the correct size')
             cls = type(self)
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 94ad4fd..8d33bd6 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -227,7 +227,7 @@ class z3BitVector(AbstractBitVector):
         elif isinstance(value, z3Bit):
             self._value = z3.If(value.value, z3.BitVecVal(1, T), z3.BitVecVal(0, T))
 
-        elif isinstance(value, tp.Sequence):
+        elif isinstance(value, tp.Sequence) and not isinstance(value, str):
             if len(value) != self.size:
                 raise ValueError('Iterable is not the correct size')
             cls = type(self)
-- 
2.43.0


From 4cbd9d2302f71d34beeaccf949fcddc5fd8ac9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:43 +0000
Subject: [PATCH 44/54] fix: values of products could not be copied

---
 hwtypes/adt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 84c9e22..6f9a680 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -108,6 +108,10 @@ class AnonymousProduct(Tuple, metaclass=AnonymousProductMeta):
     def _from_kwargs(cls, kwargs):
         return cls(**kwargs)
 
+    def __getnewargs__(self):
+        # __new__ requires the fields, copying needs to provide them
+        return self._value_
+
 
 class Product(AnonymousProduct, metaclass=ProductMeta):
     pass
-- 
2.43.0


From a99ec78f8c13ce4b87d2f1728206561fe339b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:00 +0000
Subject: [PATCH 45/54] fix: copies of enum members with Auto values were equal
 to no member

---
 hwtypes/adt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 6f9a680..66ba7db 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -273,6 +273,10 @@ class Enum(metaclass=EnumMeta):
     def __repr__(self):
         return f'{type(self).__name__}.{self._name_}'
 
+    def __reduce_ex__(self, protocol):
+        # a copy of a member is the member, an Auto value only equals itself
+        return getattr, (type(self), self._name_)
+
     def __eq__(self, other):
         if isinstance(other, type(self)):
             return self._value_ == other._value_
-- 
2.43.0


From ed4bfb594448a6d5574798d65759b46c4845ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 46/54] fix: the tags of a tagged union depended on the order
 of its fields

---
 hwtypes/adt_meta.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index a77ad0f..1c19372 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -574,9 +574,10 @@ class TaggedUnionMeta(_AttrSyntax, SumMeta):
             return prop
 
         # add properties to namespace
-        for tag, (field_name, field_type) in enumerate(fields.items()):
+        # a subclass may give the fields in another order, so the tag is the name
+        for field_name, field_type in fields.items():
             assert field_name not in ns
-            ns[field_name] = _make_prop(field_type, tag)
+            ns[field_name] = _make_prop(field_type, field_name)
 
         t = super().__new__(mcs, name, bases, ns, **kwargs)
         t._field_table_ = FrozenDict(fields)
-- 
2.43.0


From 2ad64082e2d2d90149b9b94e43ff396c61af5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:46 +0000
Subject: [PATCH 47/54] fix: a product could be redeclared with its fields in
 another order

---
 hwtypes/adt_meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 1c19372..679a5d9 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -204,8 +204,11 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
 
     @classmethod
     def _check_bound_bases(mcs, bases, fields):
+        def key(fields):
+            return tuple(fields.items()) if mcs.ORDERED else dict(fields)
+
         for base in bases:
-            if isinstance(base, mcs) and base.is_bound and base.field_dict != fields:
+            if isinstance(base, mcs) and base.is_bound and key(base.field_dict) != key(fields):
                 raise TypeError("Can't inherit from multiple different bound_types")
 
     @classmethod
-- 
2.43.0


From 5f86bb21e6235ad499bb432390e3f5ea47ca06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:50 +0000
Subject: [PATCH 48/54] fix: the value_dict of a Sum with related alternatives
 had several values

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 66ba7db..2d77098 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -177,8 +177,10 @@ class Sum(metaclass=SumMeta):
     @property
     def value_dict(self):
         d = {}
+        T = type(self._value_)
         for k,t in type(self).field_dict.items():
-            if self[t].match:
+            # alternatives may be subtypes of each other, the value is of one
+            if t is T or T not in type(self) and self[t].match:
                 d[k] = self._value_
             else:
                 d[k] = None
-- 
2.43.0


From 5d3c0d82c43ca71f7c123e225ca3d1365af58cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:49 +0000
Subject: [PATCH 49/54] fix: the automatic name of an SMTFPVector could be
 given to another variable

---
 hwtypes/smt_fp_vector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index ef75045..7bf933a 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -5,7 +5,7 @@ import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
-from .smt_bit_vector import _name_table
+from .smt_bit_vector import _gen_name, _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -60,9 +60,9 @@ class SMTFPVector(AbstractFPVector):
 
         if value is SMYBOLIC:
             if name is AUTOMATIC:
-                value = shortcuts.FreshSymbol(T)
-            else:
-                value = shortcuts.Symbol(name, T)
+                name = _gen_name()
+                _name_table[name] = self
+            value = shortcuts.Symbol(name, T)
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is not T:
-- 
2.43.0


From bb02615ffdca393f9e17b1dce4473e41f8e67035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:58 +0000
Subject: [PATCH 50/54] fix: make_constant of the SMT and z3 vectors was no
 classmethod

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 hwtypes/z3_bit_vector.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 14a025b..f9c8ef5 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -295,10 +295,11 @@ class SMTBitVector(AbstractBitVector):
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            return cls(value)
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 8d33bd6..de22dee 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -245,10 +245,11 @@ class z3BitVector(AbstractBitVector):
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            return cls(value)
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
-- 
2.43.0


From d5e279876a59c97561c7450fd89a5fab1b167511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 51/54] fix: a vector type with a metaclass of its own was not
 below its sized bases

---
 hwtypes/bit_vector_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 47b5e90..19a0d86 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -90,7 +90,7 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
             raise TypeError('{} is already sized'.format(cls))
 
         bases = [cls]
-        bases.extend(b[idx] for b in cls.__bases__ if isinstance(b, mcs))
+        bases.extend(b[idx] for b in cls.__bases__ if isinstance(b, AbstractBitVectorMeta))
         bases = tuple(bases)
         class_name = '{}[{}]'.format(cls.__name__, idx)
         t = mcs(class_name, bases, {}, info=(cls,idx))
-- 
2.43.0


From 300864b804469c0cb4a1c19c02dd7b3d190f7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:46 +0000
Subject: [PATCH 52/54] fix: a width given as a bool or an int subclass became
 part of the type

---
 hwtypes/bit_vector_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 19a0d86..d4e6e4f 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -77,6 +77,7 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
         # equal keys need not be valid ones: 8.0 == 8
         if not isinstance(idx, int):
             raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+        idx = int(idx)
 
         try:
             return mcs._class_cache[cls, idx]
-- 
2.43.0


From 748f9235a815525e0a7713237ea54a36cc95e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 53/54] fix: symbolic vectors refused indices of int subclasses

---
 hwtypes/smt_bit_vector.py | 4 ++--
 hwtypes/z3_bit_vector.py  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index f9c8ef5..c857ed8 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -337,7 +337,7 @@ class SMTBitVector(AbstractBitVector):
             elif step != 1:
                 raise IndexError('SMT extract does not support step != 1')
 
-            v = self.value[start:stop-1]
+            v = self.value[int(start):int(stop)-1]
             return type(self).unsized_t[v.get_type().width](v)
         elif isinstance(index, int):
             if index < 0:
@@ -346,7 +346,7 @@ class SMTBitVector(AbstractBitVector):
             if not (0 <= index < size):
                 raise IndexError()
 
-            v = self.value[index]
+            v = self.value[int(index)]
             return self.get_family().Bit(smt.Equals(v, smt.BV(1, 1)))
         else:
             raise TypeError()
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index de22dee..b20926a 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -287,7 +287,7 @@ class z3BitVector(AbstractBitVector):
             elif step != 1:
                 raise IndexError('SMT extract does not support step != 1')
 
-            v = z3.Extract(stop-1, start, self.value)
+            v = z3.Extract(int(stop)-1, int(start), self.value)
             return type(self).unsized_t[v.sort().size()](v)
         elif isinstance(index, int):
             if index < 0:
@@ -296,6 +296,7 @@ class z3BitVector(AbstractBitVector):
             if not (0 <= index < size):
                 raise IndexError()
 
+            index = int(index)
             v = z3.Extract(index, index, self.value)
             return self.get_family().Bit(v == z3.BitVecVal(1, 1))
         else:
-- 
2.43.0


From bf52cece509f0c063fed18b1e15ddb3ffdecde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:04 +0000
Subject: [PATCH 54/54] fix: SMTInt refused values of int subclasses

---
 hwtypes/smt_int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..e0750de 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -60,7 +60,7 @@ class SMTInt:
         elif isinstance(value, bool):
             self._value = smt.Int(int(value))
         elif isinstance(value, int):
-            self._value = smt.Int(value)
+            self._value = smt.Int(int(value))
         elif hasattr(value, '__int__'):
             self._value = smt.Int(int(value))
         else:
-- 
2.43.0

