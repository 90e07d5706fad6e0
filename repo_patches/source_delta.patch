From eb27b3cbab5a0fd87f8c1c63a69a95f9d700917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 01/58] fix: directed rounding of arithmetic on intervals with
 integer endpoints

---
 intvalpy/kernel/interval_arithmetics.pyx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..3103e48 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -112,6 +112,12 @@ cdef class BaseTools:
         """
         return self.b
     
+    def _as_double(self):
+        """The same interval with both ends stored as doubles: the arithmetic of Python integers ignores the rounding mode."""
+        if self._a_doubleQ and self._b_doubleQ:
+            return self
+        return type(self)(float(self.a), float(self.b))
+
     def copy(self, deep=True):
         if deep:
             return type(self)(self.a, self.b)
@@ -392,6 +398,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __add__(self, other):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
+            self, other = self._as_double(), other._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other.a
             with RoundingContext(FE_UPWARD):
@@ -403,6 +410,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __sub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
+            self, other = self._as_double(), other._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a - other.b
             with RoundingContext(FE_UPWARD):
@@ -417,6 +425,7 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
+            self, other = self._as_double(), other._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = min(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b)
             with RoundingContext(FE_UPWARD):
@@ -448,6 +457,7 @@ cdef class ClassicalArithmetic(BaseTools):
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
+            self, other = self._as_double(), other._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = min(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
             with RoundingContext(FE_UPWARD):
@@ -484,6 +494,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            self = self._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -496,6 +507,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            self = self._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
@@ -507,6 +519,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rmul__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            self = self._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = min(other * self.a, other * self.b)
             with RoundingContext(FE_UPWARD):
@@ -530,6 +543,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __add__(self, other):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
+            self, other = self._as_double(), other._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other.a
             with RoundingContext(FE_UPWARD):
@@ -541,6 +555,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __sub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
+            self, other = self._as_double(), other._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a - other.b
             with RoundingContext(FE_UPWARD):
@@ -641,6 +656,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            self = self._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -652,6 +668,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            self = self._as_double()
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
-- 
2.43.0


From 1e047e0af25a8b8ac4da358505edd839e34bfb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 02/58] fix: containment and zero check when an interval is
 divided by, or divides, a number

---
 intvalpy/kernel/interval_arithmetics.pyx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 3103e48..1893341 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -369,11 +369,7 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            return self.__rtruediv__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
@@ -474,6 +470,10 @@ cdef class ClassicalArithmetic(BaseTools):
             return self.__mul__(KaucherArithmetic(inf, sup))
         
         else:
+            if isinstance(other, Number):
+                return self / ClassicalArithmetic(other, other)
+            elif isinstance(other, np.ndarray):
+                return np.vectorize(lambda o: self / o)(other)
             return 1.0/other * self
     
     def __pow__(self, other):
@@ -532,6 +532,8 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if 0.0 in self:
             raise ValueError('It is impossible to divide by zero containing intervals!')
+        if isinstance(other, Number):
+            return ClassicalArithmetic(other, other) / self
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
         with RoundingContext(FE_UPWARD):
@@ -630,6 +632,10 @@ cdef class KaucherArithmetic(BaseTools):
             return self.__mul__(KaucherArithmetic(inf, sup))
         
         else:
+            if isinstance(other, Number):
+                return self / ClassicalArithmetic(other, other)
+            elif isinstance(other, np.ndarray):
+                return np.vectorize(lambda o: self / o)(other)
             return 1/other * self
     
     def __pow__(self, other): #TODO, debug
-- 
2.43.0


From a1d3d1596492a9dc10ad2902ce85413b91aa2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 03/58] fix: Kaucher product with a proper operand of the
 extended kind and the rounding of its subtracted terms

---
 intvalpy/kernel/interval_arithmetics.pyx | 98 ++++++++----------------
 1 file changed, 30 insertions(+), 68 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 1893341..e916458 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -390,6 +390,32 @@ cdef class BaseTools:
             raise NotImplementedError(f"Calculation of the {args[0].__name__} function is not provided!")
 
 
+cdef double_t product(double_t x, double_t y):
+    # the interval convention 0 * inf = 0
+    return 0.0 if x == 0.0 or y == 0.0 else x * y
+
+
+cdef object kaucher_product(left, right):
+    """Lakeyev's formula for the Kaucher product; the subtracted terms are rounded opposite to the end they form."""
+    cdef double_t inf, sup, infPlus, supPlus, infMinus, supMinus
+    cdef double_t leftInf = left.a, leftSup = left.b, rightInf = right.a, rightSup = right.b
+    cdef double_t leftInfPlus = max(leftInf, 0.0), leftSupPlus = max(leftSup, 0.0)
+    cdef double_t leftInfMinus = max(-leftInf, 0.0), leftSupMinus = max(-leftSup, 0.0)
+    cdef double_t rightInfPlus = max(rightInf, 0.0), rightSupPlus = max(rightSup, 0.0)
+    cdef double_t rightInfMinus = max(-rightInf, 0.0), rightSupMinus = max(-rightSup, 0.0)
+
+    with RoundingContext(FE_DOWNWARD):
+        infPlus = max(product(leftInfPlus, rightInfPlus), product(leftSupMinus, rightSupMinus))
+        supMinus = max(product(leftInfPlus, rightSupMinus), product(leftSupMinus, rightInfPlus))
+    with RoundingContext(FE_UPWARD):
+        supPlus = max(product(leftSupPlus, rightSupPlus), product(leftInfMinus, rightInfMinus))
+        infMinus = max(product(leftSupPlus, rightInfMinus), product(leftInfMinus, rightSupPlus))
+        sup = supPlus - supMinus
+    with RoundingContext(FE_DOWNWARD):
+        inf = infPlus - infMinus
+    return KaucherArithmetic(inf, sup)
+
+
 cdef class ClassicalArithmetic(BaseTools):
     def __add__(self, other):
         cdef double_t inf, sup
@@ -417,8 +443,6 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             self, other = self._as_double(), other._as_double()
@@ -429,21 +453,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return kaucher_product(self, other)
         
         else:
             return other * self
@@ -568,33 +578,15 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
-            with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
-            return KaucherArithmetic(inf, sup)
+            return kaucher_product(self, other)
         
         else:
             return other * self
     
     def __truediv__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
@@ -606,21 +598,7 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             other = ClassicalArithmetic(inf, sup)
             
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return kaucher_product(self, other)
         
         if isinstance(other, KaucherArithmetic):
             if 0.0 in other:
@@ -685,25 +663,9 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, Number):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other, 0.0)
-            otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return kaucher_product(self, ClassicalArithmetic(other, other))
         else:
             return np.vectorize(lambda o: o * self)(other)
     
-- 
2.43.0


From 8cff98d954cd9522ae27f1e79d341a294eed513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 04/58] fix: natural powers enclose the exact range (directed
 rounding, zero exponent, underflow)

---
 intvalpy/kernel/interval_arithmetics.pyx | 57 ++++++++++++++----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index e916458..c20b772 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -416,6 +416,37 @@ cdef object kaucher_product(left, right):
     return KaucherArithmetic(inf, sup)
 
 
+cdef double_t directed_power(double_t x, long long n, int mode):
+    # x**n rounded in the direction of mode; libm's pow is not correctly rounded in the directed modes
+    cdef double_t result = 1.0
+    if x < 0.0 and n % 2 == 1:
+        return -directed_power(-x, n, FE_UPWARD if mode == FE_DOWNWARD else FE_DOWNWARD)
+    x = fabs(x)
+    with RoundingContext(mode):
+        while True:
+            if n % 2 == 1:
+                result = result * x
+            n = n // 2
+            if n == 0:
+                break
+            x = x * x
+    return result
+
+
+cdef object natural_power(x, n):
+    cdef double_t a = x.a, b = x.b
+    if n > 0 and n % 2 == 0:
+        big, small = max(fabs(a), fabs(b)), min(fabs(a), fabs(b))
+        if 0 in x.pro:
+            small = 0.0
+        if a <= b:
+            a, b = small, big
+        elif small == 0.0:
+            a, b = big, small
+    a, b = directed_power(a, n, FE_DOWNWARD), directed_power(b, n, FE_UPWARD)
+    return ClassicalArithmetic(a, b) if a <= b else KaucherArithmetic(a, b)
+
+
 cdef class ClassicalArithmetic(BaseTools):
     def __add__(self, other):
         cdef double_t inf, sup
@@ -488,14 +519,7 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
-            with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
-            if (other % 2 == 0) and (0 in self):
-                return ClassicalArithmetic(0.0, sup)
-            else:
-                return ClassicalArithmetic(inf, sup)
+            return natural_power(self, other)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
@@ -616,22 +640,9 @@ cdef class KaucherArithmetic(BaseTools):
                 return np.vectorize(lambda o: self / o)(other)
             return 1/other * self
     
-    def __pow__(self, other): #TODO, debug
-        cdef double_t inf, sup
+    def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
-            with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
-            if (other % 2 == 0) and (0 in self):
-                return ClassicalArithmetic(0.0, max(inf, sup))
-            elif (other % 2 == 0) and (0 in self.pro):
-                return KaucherArithmetic(max(inf, sup), 0.0)
-            else:
-                if inf > sup:
-                    return KaucherArithmetic(inf, sup)
-                else:
-                    return ClassicalArithmetic(inf, sup)
+            return natural_power(self, other)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
-- 
2.43.0


From 8a3a2fdb79fac84041a55ca0ad490ae4e0d47dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 05/58] fix: exp at overflow and of infinite or very negative
 ends

---
 intvalpy/kernel/interval_arithmetics.pyx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index c20b772..b5a7fae 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, NEGINF)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INF)    
 #######################################################################################
 
 
@@ -263,12 +263,11 @@ cdef class BaseTools:
 
     def exp(self):
         cdef double_t inf, sup
-        try:
-            inf = round_down(math.exp(self.a))
-            sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
-        except OverflowError:
-            return type(self)(INF, INF)
+        inf = round_down(exp(self.a))
+        if inf < 0.0:
+            inf = 0.0
+        sup = round_up(exp(self.b))
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From 01b212ceecb723acb9940f83ecb0ba4867aefbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 06/58] fix: sin and cos stay within [-1, 1] and keep critical
 points at large arguments

---
 intvalpy/kernel/interval_arithmetics.pyx | 38 ++++++++++++++----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b5a7fae..03a7deb 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -59,6 +59,12 @@ cdef double round_up(double x) nogil:
 #######################################################################################
 
 
+cdef bint reaches(double inf, double sup, double point):
+    # Whether [inf, sup] meets point + 2*PI*k; the slack covers the rounding of the quotients at large arguments
+    cdef double left = (inf - point) / (2*PI), right = (sup - point) / (2*PI)
+    return ceil(left - 1e-15 * fabs(left)) <= floor(right + 1e-15 * fabs(right))
+
+
 cdef class BaseTools:
     cdef object _a_int, _b_int
     cdef double_t _a_double, _b_double
@@ -297,29 +303,29 @@ cdef class BaseTools:
 
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if reaches(x.a, x.b, -PI/2):
                     inf = -1
                 else:
-                    inf = round_down(min(sin_inf, sin_sup))
+                    inf = max(-1.0, round_down(min(sin_inf, sin_sup)))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if reaches(x.a, x.b, PI/2):
                     sup = 1
                 else:
-                    sup = round_up(max(sin_inf, sin_sup))
+                    sup = min(1.0, round_up(max(sin_inf, sin_sup)))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if reaches(x.a, x.b, PI/2):
                     sup = 1
                 else:
-                    sup = round_down(max(sin_inf, sin_sup))
+                    sup = max(-1.0, round_down(max(sin_inf, sin_sup)))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if reaches(x.a, x.b, -PI/2):
                     inf = -1
                 else:
-                    inf = round_up(min(sin_inf, sin_sup))
+                    inf = min(1.0, round_up(min(sin_inf, sin_sup)))
             return type(self)(sup, inf)
 
 
@@ -330,29 +336,29 @@ cdef class BaseTools:
         
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if reaches(x.a, x.b, PI):
                     inf = -1
                 else:
-                    inf = round_down(min(cos_inf, cos_sup))
+                    inf = max(-1.0, round_down(min(cos_inf, cos_sup)))
 
             with RoundingContext(FE_UPWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if reaches(x.a, x.b, 0.0):
                     sup = 1
                 else:
-                    sup = round_up(max(cos_inf, cos_sup))
+                    sup = min(1.0, round_up(max(cos_inf, cos_sup)))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if reaches(x.a, x.b, 0.0):
                     sup = 1
                 else:
-                    sup = round_down(max(cos_inf, cos_sup))
+                    sup = max(-1.0, round_down(max(cos_inf, cos_sup)))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if reaches(x.a, x.b, PI):
                     inf = -1
                 else:
-                    inf = round_up(min(cos_inf, cos_sup))
+                    inf = min(1.0, round_up(min(cos_inf, cos_sup)))
             return type(self)(sup, inf)
 
 
-- 
2.43.0


From c2b026a36a24170324810bd8b519ff9713b2a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 07/58] fix: ends of an interval array are not truncated to the
 integer type of its first element

---
 intvalpy/kernel/real_intervals.py | 10 +++++-----
 intvalpy/kernel/utils.py          |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..ce4c370 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -26,19 +26,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return np.array([el.a for el in self._data.flat]).reshape(self._data.shape)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return np.array([el.b for el in self._data.flat]).reshape(self._data.shape)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return np.array([el.a for el in self._data.flat]).reshape(self._data.shape)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return np.array([el.b for el in self._data.flat]).reshape(self._data.shape)
 
     @property
     def data(self):
@@ -69,7 +69,7 @@ class ArrayInterval:
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return np.array([el.wid for el in self._data.flat]).reshape(self._data.shape)
 
     @property
     def mig(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..abfdb10 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return np.vectorize(_wid, otypes=[float])(x)
     else:
         return _wid(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return np.vectorize(_inf, otypes=[float])(x)
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return np.vectorize(_sup, otypes=[float])(x)
     else:
         return _sup(x)
     
-- 
2.43.0


From 0c596e05a058b2572f45901f6e20af51420fbd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 08/58] fix: intersection of an interval array with a number

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From b5a4c9865577c6f22ceb3af57a5f3ad4829628f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 09/58] fix: Gauss elimination updates the trailing block with
 the outer product of the multipliers and the pivot row

---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..33307aa 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j].reshape((-1, 1)) * A[j, j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From 039bcb511afe2b27808f60c0bf6079a7707fb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:21 +0000
Subject: [PATCH 10/58] fix: Rohn's method returns no box before its iterations
 have converged to an enclosure

---
 intvalpy/linear/Rohn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..1b9b195 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,6 +86,12 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+
+    if not error < tol:
+        # the iterations only approach the solution from below, before convergence they enclose nothing
+        result = np.linalg.solve(np.eye(m) - G, g + tol)
+        if not ((result >= 0) & (G @ result + g < result)).all():
+            raise Exception('The iterations do not converge: no enclosure of the united solution set is found.')
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From a45f0323126d421da697363ee573665c88d50114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 11/58] fix: PSS handles point systems and zero matrix entries
 instead of failing on them

---
 intvalpy/linear/PSS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..d49d939 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -84,6 +84,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            # nonzero / 0: the row of the system cannot be satisfied
+            return Interval(np.nan, np.nan, sortQ=False)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
@@ -302,13 +305,13 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     Q, q, Ar = L[item]
                     break
                 except IndexError:
-                    return L[0][1]
+                    return L[0][1] if L else omega
                 except:
                     item += 1
 
             nit += 1
 
-        return L[0][1]
+        return L[0][1] if L else omega
 
     inf = []
     sup = []
-- 
2.43.0


From 2e8d7d9d438b9198fd19ecc5963941dceb70300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 12/58] fix: PPS keeps its enclosure and does not fail when
 derivatives or radii are exactly zero

---
 intvalpy/linear/PPS.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..d460d7c 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
@@ -200,16 +201,19 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
             dQ = asinterval( -np.outer(L[0].Y[nu], L[0].x) )
 
             index_upper_zero, index_lower_zero = dQ >= 0, dQ <= 0
+            # elements that do not influence the estimate carry no sign information for W
+            influence = ~(index_upper_zero & index_lower_zero)
             if index_upper_zero.any():
-                L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
+                L[0].Q[index_upper_zero], L[0].W[index_upper_zero & influence] = L[0].Q[index_upper_zero].a, 1
             if index_lower_zero.any():
-                L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
+                L[0].Q[index_lower_zero], L[0].W[index_lower_zero & influence] = L[0].Q[index_lower_zero].b, -1
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
+            influence = ~(index_upper_zero & index_lower_zero)
             if index_upper_zero.any():
-                L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
+                L[0].r[index_upper_zero], L[0].s[index_upper_zero & influence] = L[0].r[index_upper_zero].a, -1
             if index_lower_zero.any():
-                L[0].r[index_lower_zero], L[0].s[index_lower_zero] = L[0].r[index_lower_zero].b, 1
+                L[0].r[index_lower_zero], L[0].s[index_lower_zero & influence] = L[0].r[index_lower_zero].b, 1
 
 
             #############################################################################################
-- 
2.43.0


From a9a76811bcafb0456b1e9516dc6d6c59ed9a552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 13/58] fix: Interval accepts a single number as a degenerate
 interval, as documented

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index ce4c370..1fcf6e3 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -461,11 +461,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From f7ba73bbe53b9f0e1df2bcc29827ac4f0fd5b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 14/58] fix: dist of a given order does not overflow on integer
 ends

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index abfdb10..55798d2 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -36,7 +36,7 @@ def dist(x, y, order=infinity):
     if order == infinity:
         return np.amax(cheb(x, y))
     elif isinstance(order, int):
-        return pow(np.sum(cheb(x, y) ** order), 1/order)
+        return pow(np.sum(np.asarray(cheb(x, y), dtype=float) ** order), 1/order)
     else:
         raise Exception('Не верно задан порядок нормы order.')
 
-- 
2.43.0


From 77a7299b33cf25ae5c8ff4eff506bcee4c4758fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 15/58] fix: PSS with a starting box negates it together with
 the right-hand side

---
 intvalpy/linear/PSS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index d49d939..8f816c6 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -135,7 +135,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            # with the right-hand side negated the solutions change sign
+            return x0.copy() if endint == 1 else -x0
 
         if n > m:
             try:
-- 
2.43.0


From 381b239e9991b767b71f7912ae787a8be8c0f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:11 +0000
Subject: [PATCH 16/58] fix: ChebNorm takes the residual over the farther end
 of each row and its subgradient is weighted

---
 intvalpy/linear/ChebNorm.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 4673d27..2537d8f 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -1,9 +1,5 @@
 import numpy as np
 
-import cvxopt
-cvxopt.solvers.options['show_progress'] = False
-cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
-
 from ..kernel.abstract import BaseRecFun
 
 
@@ -26,20 +22,17 @@ class ChebNorm:
 
     @staticmethod
     def __calc_lp_on_box(c_, x_min, x_max):
-        c = cvxopt.matrix(c_)
-        G = cvxopt.matrix(np.vstack([-np.eye(len(x_min)), np.eye(len(x_min))]))
-        h = cvxopt.matrix(np.hstack([-x_min, x_max]).astype(np.double))
-        sol = cvxopt.solvers.lp(c, G, h, verbose=True)
-        return np.array(sol['x']).T
+        # a linear function attains its minimum over a box at the vertex chosen by the signs of the coefficients
+        return np.where(c_ >= 0, x_min, x_max)
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
-        A_opt = np.zeros_like(infA)
+        A_opt = np.zeros(infA.shape, dtype=np.float64)
         for j in range(len(bm)):
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
             x_max = ChebNorm.__calc_lp_on_box(-x, infA[j], supA[j])
-            f_max = x_max @ (-x)
+            f_max = x_max @ x
             if bm[j] - f_min >= f_max - bm[j]:
                 A_opt[j] = x_min
             else:
@@ -54,7 +47,7 @@ class ChebNorm:
         A_opt = ChebNorm.__calc_opt_A(x, infA, supA, bm)
         index = (weight * (br.T + abs(bm.T - A_opt @ x))).argmax()
         val =(weight * (br.T + abs(bm.T - A_opt @ x))).max()
-        grad = A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
+        grad = weight[index] * A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
 
         return val, grad
 
-- 
2.43.0


From 9f7fc4a6a59fe694ad7d171558a0519760ba71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 17/58] fix: linear constraints: two-sided and unbounded
 limits, penalty computed per system and above the functional's slope; scalar
 weights

---
 intvalpy/kernel/abstract.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..78a4ce6 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import itertools
 
@@ -42,8 +43,7 @@ class BaseRecFun(object):
         Am, Ar = mid(A), rad(A)
         bm, br = mid(b), rad(b)
 
-        if weight is None:
-            weight = np.ones(n)
+        weight = np.ones(n) if weight is None else np.ones(n) * weight
 
         # для штрафной функции alpha = sum G x - c, где G-матрица ограничений, c-вектор ограничений
         # находим значение весового коэффициента mu, чтобы гарантировано не выходить за пределы ограничений
@@ -51,8 +51,9 @@ class BaseRecFun(object):
             calcfg = lambda x: recfunc.calcfg(x, infA, supA, Am, Ar, bm, br, weight)
         else:
             if linear_constraint.mu is None:
-                mag_value = mag(A)
-                linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
+                # the coefficient depends on the system, so it is not kept in the user's object
+                linear_constraint = copy.copy(linear_constraint)
+                linear_constraint.find_mu(np.max(weight * np.max(mag(A), axis=1)))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
 
@@ -227,21 +228,15 @@ class LinearConstraint:
 
             n = len(self.C)
             if n == 0:
+                # none of the rows bounds anything
                 self.C.append(C[0])
-                self.b.append(ub[0])
-            else:
-                w = np.random.uniform(1, 1, n) # TODO
-                # TODO
-                # переписать более оптимальным способом
-                W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-                for k in range(W.shape[1]):
-                    W[:, k] = w
+                self.b.append(np.inf)
 
-            self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
+            self.C, self.b = np.array(self.C, dtype=np.float64), np.array(self.b, dtype=np.float64)
 
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = np.array(C[:1], dtype=np.float64), np.array([np.inf])
 
         self.mu = mu
 
@@ -263,7 +258,10 @@ class LinearConstraint:
             for x in itertools.product([0, 1], repeat=n):
                 dot[k] = c @ x
                 k += 1
-            denominator.append(min(abs(dot[1:])))
+            # rows that cancel each other out (both sides of one constraint) are never violated together
+            dot = abs(dot[1:])
+            denominator.append(min(dot[dot > 1e-12 * sum(abs(c))]))
 
-        self.mu = numerator / min(denominator)
+        # the penalty must grow strictly faster than the functional
+        self.mu = 2 * (numerator if numerator > 0 else 1.0) / min(denominator, default=1.0)
         return self.mu
\ No newline at end of file
-- 
2.43.0


From b30e4c943a604ced8ded9a546c48bb69189d5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 18/58] fix: linear constraints: penalty coefficient above the
 Lagrange multipliers of every independent set of rows

---
 intvalpy/kernel/abstract.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 78a4ce6..9915ded 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -245,23 +245,18 @@ class LinearConstraint:
         return Cix, Cix > self.b[i]
 
     def find_mu(self, numerator):
-        # solve |sum(C[:, k] * x)| -> min, for x
-        # sum(x) >= 1, x_i \in {0, 1} \forall i = 1,..., len(C)
-        denominator = []
-        for c in self.C.T:
-            c = c[ c!=0 ]
-            n = c.shape[0]
-            if n == 0: continue
-
-            dot = np.zeros(2**n)
-            k = 0
-            for x in itertools.product([0, 1], repeat=n):
-                dot[k] = c @ x
-                k += 1
-            # rows that cancel each other out (both sides of one constraint) are never violated together
-            dot = abs(dot[1:])
-            denominator.append(min(dot[dot > 1e-12 * sum(abs(c))]))
+        # a penalty is exact when mu exceeds the Lagrange multipliers of the constraints. By Caratheodory's theorem
+        # there are multipliers which are nonzero only for linearly independent rows, then they are equal to
+        # pinv(C_B^T) g, where g is a subgradient of the functional, whose components do not exceed the numerator
+        n, m = self.C.shape
+        norm = 0
+        for k in range(1, min(n, m) + 1):
+            for rows in itertools.combinations(range(n), k):
+                CB = self.C[list(rows)].T
+                sv = np.linalg.svd(CB, compute_uv=False)
+                if sv[-1] > 1e-12 * sv[0]:
+                    norm = max(norm, np.max(np.sum(abs(np.linalg.pinv(CB)), axis=1)))
 
         # the penalty must grow strictly faster than the functional
-        self.mu = 2 * (numerator if numerator > 0 else 1.0) / min(denominator, default=1.0)
-        return self.mu
\ No newline at end of file
+        self.mu = 2 * (numerator if numerator > 0 else 1.0) * (norm if norm > 0 else 1.0)
+        return self.mu
-- 
2.43.0


From f66e789f44d69547ce59f090cfa4c481ac8d37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 19/58] fix: Neumaier: the radius obeys every row and the
 center is given in the original coordinates

---
 intvalpy/linear/Neumaier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..4cdea96 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -39,5 +39,6 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
+    # every row has to stay tolerable, and the center is given in the original coordinates
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From f9e3c4880984e8f2b93f3c256bc00e093a611bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 20/58] fix: Subdiff: sign of the subgradient for improper
 intervals around zero

---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From 8ff51e3c0fad1c12f58e4a448378cd3fce4ded53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 21/58] fix: Neumaier returns an interval vector

---
 intvalpy/linear/Neumaier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index 4cdea96..bcc6003 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -41,4 +41,4 @@ def Neumaier(A, b, y, w = None):
         estimation_box = np.ones_like(y)
     # every row has to stay tolerable, and the center is given in the original coordinates
     r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
-    return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
+    return Interval(y - estimation_box * r, y + estimation_box * r)
\ No newline at end of file
-- 
2.43.0


From e8d1a99a75600984802d6cd1ff852c4691ba775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 22/58] fix: lineqs: contradictory zero rows, empty clipped
 sets, parallel and repeated rows, edges infinite at either end, automatic
 window holds the vertices

---
 intvalpy/linear/boundary_intervals.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..547fdd9 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -23,6 +23,9 @@ def BoundaryIntervals(A, b):
                 continue
             Akx = np.dot(A[k], dotx)
             c = np.dot(A[k], p)
+            # parallel lines are recognized in spite of rounding errors
+            if abs(c) <= 1e-14 * np.linalg.norm(A[k]) * np.linalg.norm(p):
+                c = 0
 
             if np.sign(c) == -1:
                 tmp = (b[k] - Akx) / c
@@ -31,7 +34,7 @@ def BoundaryIntervals(A, b):
                 tmp = (b[k] - Akx) / c
                 q[0] = q[0] if tmp < q[0] else tmp
             else:
-                if Akx < b[k]:
+                if b[k] - Akx > 1e-12 * max(1, abs(b[k])):
                     if np.dot(A[k], A[i]) > 0:
                         si = False
                         break
@@ -53,13 +56,17 @@ def ParticularPoints(S, A, b):
     PP = []
     V = S[:, :2]
 
-    binf = ~((abs(V[:, 0]) < float("inf")) & (abs(V[:, 1]) < float("inf")))
+    # an edge may leave to infinity at either of its ends
+    binf = ~(abs(S[:, :4]) < float("inf")).all(axis=1)
 
     if len(V[binf]) != 0:
         nV = 1
         for k in S[:, 4]:
             k = int(k)
             PP.append((A[k]*b[k])/np.dot(A[k], A[k]))
+        # the window has to show the vertices as well
+        E = np.concatenate((V, S[:, 2:4]))
+        PP.extend(E[(abs(E) < float("inf")).all(axis=1)])
     else:
         nV = 0
         PP = V
@@ -182,6 +189,9 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        # one of the inequalities is 0 >= b with a positive b
+        return np.array([])
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
@@ -195,6 +205,8 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
+            if rm <= 1e-14:
+                rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
@@ -205,6 +217,9 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            # nothing of the solution set lies within the borders
+            return S
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From 2a3ee794fa21ea842cb02058b5ac9587924ec9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 23/58] fix: non_repeat drops only inequalities that repeat
 another one

---
 intvalpy/kernel/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index ab4d7bf..b67c716 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -26,8 +26,8 @@ def non_repeat(a, b):
     a = np.copy(np.ascontiguousarray(a))
     a = np.around(a, decimals=12)
     b = np.around(np.copy(b), decimals=12)
-    a1 = (a.T - b).T
-    _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
+    # an inequality repeats another one when both the coefficients and the right-hand side do
+    _, index = np.unique(np.column_stack((a, b)), axis=0, return_index=True)
     index = sorted(index)
     return a[index], b[index]
 
-- 
2.43.0


From 1c2120d64d09636d04626368696254c05da700ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 24/58] fix: IntLinIncR2 and IntLinIncR3 start with a window of
 their own

---
 intvalpy/linear/boundary_intervals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 547fdd9..4eaabb7 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -337,11 +337,12 @@ def IntLinIncR2(
                 raise Exception(msg)
 
             vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
+    global __center_rm
+    __center_rm = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
@@ -658,11 +659,12 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
+    global __center_rm
+    __center_rm = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
-- 
2.43.0


From 75045c176590a91fcc2a7ecc444158bab12c4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 25/58] fix: lineqs3D: contradictory zero rows, a single
 inequality, automatic window around the set

---
 intvalpy/linear/boundary_intervals.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 4eaabb7..1e4a0d7 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -106,7 +106,7 @@ def ChangeVariable(A, b, k):
     y1[l1], y1[l2] = A[k, l2], -A[k, l1]
     y2 = np.cross(A[k], y1)
 
-    index = np.array([l for l in range(len(A)) if l != k])
+    index = np.array([l for l in range(len(A)) if l != k], dtype=int)
     A, b = A[index], b[index]
 
     At = np.array([A @ y1, A @ y2]).T
@@ -425,6 +425,9 @@ def lineqs3D(
     b = np.asarray(b)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        # one of the inequalities is 0 >= b with a positive b
+        return []
     A, b = non_repeat(A, b)
 
     n, m = A.shape
@@ -443,7 +446,7 @@ def lineqs3D(
             continue
 
         if len(bt) == 0:
-            PP.append(xi)
+            PP.append([xi])
             cfinite = False
             continue
 
@@ -483,7 +486,7 @@ def lineqs3D(
             xmin, ymin, zmin = np.min(x), np.min(y), np.min(z)
             xmax, ymax, zmax = np.max(x), np.max(y), np.max(z)
 
-            center = np.array([0, 0, 0]) + (x + y + z).mean()
+            center = np.array([xmin + xmax, ymin + ymax, zmin + zmax]) / 2
             rm = (xmax-xmin) + (ymax-ymin) + (zmax-zmin)
 
             if rm <= 1e-14:
-- 
2.43.0


From ac3c0811ac2d0c20c3889e5a1c5004016bf98c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 26/58] fix: ralgb5: no dilation along a zero difference of
 subgradients, so that the objective is not called at nan

---
 intvalpy/kernel/ralgb5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index bf3d8b1..dcc1baf 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -167,8 +167,10 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Update the transformation matrix B and the subgradient
         dg = B.T @ (g1 - g0)
-        xi = dg / np.linalg.norm(dg)
-        B = B + w * np.outer((B @ xi), xi)
+        normdg = np.linalg.norm(dg)
+        if normdg > 0: # otherwise there is no direction to dilate the space along
+            xi = dg / normdg
+            B = B + w * np.outer((B @ xi), xi)
         g0 = g1
 
         # Update the function value history for the stopping criterion
-- 
2.43.0


From 5ce1594f84e565f4081a4ae9d8127dee8f43c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 27/58] fix: WILS and ISPAE smooth a copy of the caller's
 weights, in floating point

---
 intvalpy/models/ISPAE.py | 4 ++--
 intvalpy/models/WILS.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..07fb814 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -346,8 +346,8 @@ class ISPAE(object):
         beta0 = x0
 
         # Initialize weights
-        if weight is None:
-            weight = np.ones(n)
+        # smoothing must not reach the caller's array
+        weight = np.ones(n) if weight is None else np.ones(n) * weight
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..b28e8e8 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -106,8 +106,8 @@ class WILS(object):
         else:
             x0 = np.copy(x0)
         
-        if weight is None:
-            weight = np.ones(n)
+        # smoothing must not reach the caller's array
+        weight = np.ones(n) if weight is None else np.ones(n) * weight
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From 59d008e66a7810116ea7c98de9ef6ef448d2e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 28/58] fix: WILS finds the penalty coefficient of a linear
 constraint

---
 intvalpy/models/WILS.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index b28e8e8..e648ab0 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from ..kernel.utils import inf, sup, mid, rad
 from ..kernel.abstract import BaseRecFun
@@ -113,6 +114,12 @@ class WILS(object):
         for k in range(1, n):
             weight[k] = self.beta * (weight[k]*(1 - self.alpha) + self.alpha*weight[k-1])
 
+        if constraint is not None and constraint.mu is None:
+            # the penalty coefficient depends on the data, so it is not kept in the user's object
+            slope = weight * np.max(np.maximum(abs(infX), abs(supX)), axis=1)
+            constraint = copy.copy(constraint)
+            constraint.find_mu(np.max(slope) if norm == 'inf' else np.sum(slope))
+
 
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
         def calcfg(beta):
-- 
2.43.0


From 220efbd76dee9f05f4acdab09aad8b76c4bdab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 29/58] fix: ISPAE takes subgradients at the points where the
 polynomial attains its extremes

---
 intvalpy/models/ISPAE.py | 61 +++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 07fb814..6a414bd 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -87,6 +87,27 @@ class ISPAE(object):
         res : Interval
             Interval value of the polynomial.
         """
+        lows, highs, _, _ = self._extremes_of_one_col(beta, x, deg=deg)
+        res = asinterval([
+            Interval(low, high, sortQ=False)
+            for low, high in zip(lows, highs)
+        ])
+        return res
+
+
+    def _extremes_of_one_col(self, beta, x, deg=None):
+        """
+        Compute the smallest and the largest values of a polynomial over the intervals of
+        a single feature column and the points where they are attained.
+
+        Parameters:
+        -----------
+        See value_of_one_col.
+
+        Returns:
+        --------
+        lows, highs, argmins, argmaxs : np.ndarray
+        """
         # Extract interval bounds
         infs, sups = np.array([inf(x)]).flatten(), np.array([sup(x)]).flatten()
         beta = np.array([beta]).flatten()
@@ -116,14 +137,28 @@ class ISPAE(object):
         dots[:, 2:] = roots
         masks = (infs[:, np.newaxis] <= dots) & (dots <= sups[:, np.newaxis])
 
-        # Compute interval result
-        res = asinterval([
-            Interval(min(val[mask]), max(val[mask]), sortQ=False)
-            for val, mask in zip(vals, masks)
-        ])
-        return res
+        rows = np.arange(len(infs))
+        kmin = np.argmin(np.where(masks, vals, np.inf), axis=1)
+        kmax = np.argmax(np.where(masks, vals, -np.inf), axis=1)
+        return vals[rows, kmin], vals[rows, kmax], dots[rows, kmin], dots[rows, kmax]
+
+
+    def _features_at_extremes(self, beta, dataframe):
+        """
+        Compute the values of the basis functions at the points where the polynomial is the smallest and
+        the largest over each row of the data. They are subgradients of the ends of its interval value.
+        """
+        lows, highs = [], []
+        for k, col in enumerate(self.columns):
+            _, _, argmins, argmaxs = self._extremes_of_one_col(
+                beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col]
+            )
+            for deg in range(1, self.order[k] + 1):
+                lows.append(self.basis(deg)(argmins))
+                highs.append(self.basis(deg)(argmaxs))
+        return np.column_stack(lows), np.column_stack(highs)
+
 
-    
     def value(self, beta, dataframe):
         """
         Compute the interval value of the polynomial for all feature columns.
@@ -175,7 +210,7 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
+        lows, highs = self._features_at_extremes(beta, X_train)
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         mig = np.array([
@@ -188,9 +223,9 @@ class ISPAE(object):
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = weight[mc] * highs[mc]
             else:
-                diff = -weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = -weight[mc] * lows[mc]
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
@@ -223,7 +258,7 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
+        lows, highs = self._features_at_extremes(beta, X_train)
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         residual = weight * (yr - np.maximum(abs(infs), abs(sups)))
@@ -232,9 +267,9 @@ class ISPAE(object):
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = weight[mc] * lows[mc]
             else:
-                diff = -weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = -weight[mc] * highs[mc]
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
-- 
2.43.0


From 466fdeacce1ec8e2bd1ea61bab5d36a83a221623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 30/58] fix: ISPAE bias is a constant in every basis

---
 intvalpy/models/ISPAE.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 6a414bd..56b9fc6 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -151,14 +151,21 @@ class ISPAE(object):
         lows, highs = [], []
         for k, col in enumerate(self.columns):
             _, _, argmins, argmaxs = self._extremes_of_one_col(
-                beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col]
+                beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col], deg=self._degrees(k)
             )
-            for deg in range(1, self.order[k] + 1):
+            for deg in self._degrees(k):
                 lows.append(self.basis(deg)(argmins))
                 highs.append(self.basis(deg)(argmaxs))
         return np.column_stack(lows), np.column_stack(highs)
 
 
+    def _degrees(self, k):
+        """
+        Degrees of the basis polynomials of the k-th column. The bias is a constant in every basis.
+        """
+        return [0] if self.bias and k == 0 else list(range(1, self.order[k] + 1))
+
+
     def value(self, beta, dataframe):
         """
         Compute the interval value of the polynomial for all feature columns.
@@ -176,7 +183,7 @@ class ISPAE(object):
             Sum of interval values for all columns.
         """
         vals_by_cols = [
-            self.value_of_one_col(beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col])
+            self.value_of_one_col(beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col], deg=self._degrees(k))
             for k, col in enumerate(self.columns)
         ]
         return sum(vals_by_cols)
@@ -291,7 +298,7 @@ class ISPAE(object):
         X_expand = pd.DataFrame()
         nit = 0
         for k, col in enumerate(self.columns):
-            for deg in range(1, self.order[k] + 1):
+            for deg in self._degrees(k):
                 X_expand[nit] = self.value_of_one_col(1, dataframe[col], deg=deg)
                 nit = nit + 1
         return X_expand
-- 
2.43.0


From 501cc0cd09a41c9be0288c9b95ff9b2bc53caeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 31/58] fix: Krawczyk and Hansen-Sengupta work on systems of
 several equations

---
 intvalpy/nonlinear/external_evaluation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/intvalpy/nonlinear/external_evaluation.py b/intvalpy/nonlinear/external_evaluation.py
index b8f3b48..1ab51c4 100755
--- a/intvalpy/nonlinear/external_evaluation.py
+++ b/intvalpy/nonlinear/external_evaluation.py
@@ -23,7 +23,7 @@ def HansenSengupta(func, J, x0, maxiter=2000, tol=1e-12):
             return c + GS
 
         else:
-            LAMBDA = np.linalg.inv(L.to_float().mid)
+            LAMBDA = np.linalg.inv(np.array(L.mid, dtype=np.float64))
             A = LAMBDA @ L
             b = -LAMBDA @ func(c)
 
@@ -63,10 +63,9 @@ def Krawczyk(func, J, x0, maxiter=2000, tol=1e-12):
 
         else:
             n, m = L.shape
-            LAMBDA = np.linalg.inv(L.to_float().mid)
+            LAMBDA = np.linalg.inv(np.array(L.mid, dtype=np.float64))
 
             B = np.eye(n) - LAMBDA @ L
-            w, _ = np.linalg.eigh(B.to_float().mag)
             return c - LAMBDA @ func(c) + B @ (X-c)
 
     if not (0 in func(x0)):
-- 
2.43.0


From f974e5c75a5af36f6d4389d5ced2800a9f4edd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 32/58] fix: ralgb5 stops when the subgradient vanishes in the
 transformed space

---
 intvalpy/kernel/ralgb5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index dcc1baf..6ed7d14 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -117,7 +117,11 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Compute the direction of movement in the transformed space
         g1 = B.T @ g0
-        dx = B @ (g1 / np.linalg.norm(g1))
+        normg1 = np.linalg.norm(g1)
+        if normg1 == 0: # the subgradient vanishes in the transformed space, there is nowhere to move
+            ccode = 3 # Stopping code: change in x is below tolerance
+            return xr, fr, nit, ncalls, ccode
+        dx = B @ (g1 / normg1)
         normdx = np.linalg.norm(dx)
 
         d = 1 # Initialize the inner loop condition
-- 
2.43.0


From 44f636a6cc54b1eec5ef2d86c025ed87a7217f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 33/58] fix: automatic drawing windows of concurrent and
 earlier calls do not mix

---
 intvalpy/linear/boundary_intervals.py | 35 ++++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 1e4a0d7..2eea076 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -115,7 +115,6 @@ def ChangeVariable(A, b, k):
     return xi, At, bt, y1, y2
 
 
-__center_rm = []
 def lineqs(
         A, 
         b, 
@@ -126,7 +125,8 @@ def lineqs(
         alpha=0.5, 
         s=10, 
         size=(15, 15), 
-        save=False
+        save=False,
+        _windows=None
     ):
     """
     The function visualizes the set of solutions of a system of linear algebraic
@@ -207,7 +207,8 @@ def lineqs(
             rm = max((PPmax - PPmin)/2)
             if rm <= 1e-14:
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 5*rm)])
+            if _windows is not None:
+                _windows.append(max(abs(center) + 5*rm))
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
 
@@ -336,19 +337,18 @@ def IntLinIncR2(
                 msg = "Неверно указан тип согласования системы! Используйте 'uni' или 'tol'."
                 raise Exception(msg)
 
-            vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
-    global __center_rm
-    __center_rm = []
+            vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds, _windows=windows))
+    # half-sizes of the windows chosen automatically for unbounded orthants
+    windows = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(windows) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(windows)
         bounds = np.array([[-_max, -_max], [_max, _max]])
         algo(bounds)
-    __center_rm = []
 
     if show:
         fig = plt.figure(figsize=size)
@@ -373,7 +373,8 @@ def lineqs3D(
         alpha=0.5, 
         s=10, 
         size=(8, 8),
-        bounds=None
+        bounds=None,
+        _windows=None
     ):
     """
     The function visualizes the set of solutions of a system of linear algebraic
@@ -491,7 +492,8 @@ def lineqs3D(
 
             if rm <= 1e-14:
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 1*rm)])
+            if _windows is not None:
+                _windows.append(max(abs(center) + 1*rm))
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
             b = np.append(np.append(b, center-rm), -(center+rm))
         else:
@@ -651,7 +653,7 @@ def IntLinIncR3(
                 else:
                     WorkListb[k] += 1e-15
 
-            vertices.append(lineqs3D(-WorkListA, -WorkListb, show=False, bounds=bounds))
+            vertices.append(lineqs3D(-WorkListA, -WorkListb, show=False, bounds=bounds, _windows=windows))
             for v in vertices[-1]:
                 gxmin = min(gxmin, np.min(v[:, 0]))
                 gymin = min(gymin, np.min(v[:, 1]))
@@ -662,18 +664,17 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
-    global __center_rm
-    __center_rm = []
+    # half-sizes of the windows chosen automatically for unbounded orthants
+    windows = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(windows) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(windows)
         bounds = np.array([[-_max, -_max, -_max], [_max, _max, _max]])
         gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
-    __center_rm = []
 
     if show:
         fig = plt.figure(figsize=size)
-- 
2.43.0


From df6937a4845641b4a438db4a67c4758108d8d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 34/58] fix: IntLinIncR3 draws systems of inequalities

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 2eea076..67347c1 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -613,7 +613,7 @@ def IntLinIncR3(
     """
 
     if not (isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES)):
-        return lineqs3D(A, b, show=False, color=color,
+        return lineqs3D(A, b, show=show, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
-- 
2.43.0


From 6c6eb687a62c018b60578e3c132bc6247c5440ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 35/58] fix: wid of a number is zero, khi of a sequence
 starting with a number is not truncated

---
 intvalpy/kernel/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 55798d2..0c68d18 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -91,7 +91,7 @@ def wid(x):
         if isinstance(x, ARITHMETICS):
             return x.wid
         else:
-            return float(x)
+            return 0.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
@@ -181,12 +181,12 @@ def khi(x):
         if isinstance(x, ARITHMETICS):
             return x.khi
         else:
-            return 1
+            return 1.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return np.vectorize(_khi, otypes=[float])(x)
     else:
         return _khi(x)
 
-- 
2.43.0


From 9d45e5fb30081e9e59cbf7b87aa41c625c3ef9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 36/58] fix: PSS keeps solutions of systems with large
 right-hand sides

---
 intvalpy/linear/PSS.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 8f816c6..20158bb 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -184,10 +184,13 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         b_ub[:n] = b.b
         b_ub[n:2*n] = -b.a
         b_ub[2*n:2*(n+m)] = p
+        # the tolerances of the linear program are absolute, so the system is brought to the unit size
+        size = np.max(b.mag)
+        size = 2.0**np.frexp(float(size))[1] if size > 0 else 1.0
 
         try:
-            result = solve_lp(c, A_ub, b_ub)
-            return result @ c
+            result = solve_lp(c, A_ub, b_ub / size)
+            return result @ c * size
         except Exception:
             pass
 
@@ -201,8 +204,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         A_ub[2*n+m:2*(n+m)] = S
 
         try:
-            result = solve_lp(c, A_ub, b_ub)
-            return result @ c
+            result = solve_lp(c, A_ub, b_ub / size)
+            return result @ c * size
         except Exception:
             return 10**15
 
-- 
2.43.0


From f3977a174a988307b40a023015e5fcf04134ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 37/58] fix: PSS ends when the simplex method cycles

---
 intvalpy/linear/PSS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 20158bb..a517449 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -161,7 +161,12 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         asmatrix = lambda A: A if isinstance(A, cvxopt.matrix) else cvxopt.matrix(A)
         args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
 
-        result = cvxopt.solvers.lp(*args, solver='glpk')
+        # the simplex method may cycle, in which case the system is solved in a presolved form
+        for presolve in ['GLP_OFF', 'GLP_ON']:
+            options = {'glpk': dict(cvxopt.solvers.options['glpk'], it_lim=10000, presolve=presolve)}
+            result = cvxopt.solvers.lp(*args, solver='glpk', options=options)
+            if result['status'] != 'unknown':
+                break
         if 'optimal' not in result['status']:
             raise Exception("LP optimum not found: %s" % result['status'])
         return np.array(result['x']).reshape(c.shape[0])
-- 
2.43.0


From 0d55c3283d43e541d97bb50f5e55d1ddeb93e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 38/58] fix: lineqs and lineqs3D follow the edges of sets with
 large coordinates

---
 intvalpy/linear/boundary_intervals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 67347c1..7cd5b2d 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -77,18 +77,20 @@ def ParticularPoints(S, A, b):
 def Intervals2Path(S):
     bs, bp = S[0, :2], S[0, :2]
     P = [bp]
+    # the ends of adjacent edges agree to rounding errors, which grow with the coordinates
+    eps = max(1e-8, 1e-12 * np.max(np.abs(S[:, :4])))
 
     while len(S) > 0:
         for k in range(len(S)):
-            if np.max(np.abs(bs - S[k, :2])) < 1e-8:
+            if np.max(np.abs(bs - S[k, :2])) < eps:
                 index = k
                 break
         es = S[index, 2:4]
 
-        if np.max(np.abs(bs-es)) > 1e-8:
+        if np.max(np.abs(bs-es)) > eps:
             P.append(es)
 
-            if np.max(np.abs(bp-es)) < 1e-8:
+            if np.max(np.abs(bp-es)) < eps:
                 return np.array(P)
             bs = es
         S = np.delete(S, index, axis=0)
-- 
2.43.0


From 6c757dfaeee61e114f439217017d57a23d377a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 39/58] fix: Gauss refuses systems of inconsistent dimensions

---
 intvalpy/linear/Gauss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 33307aa..f9ad82d 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -23,7 +23,9 @@ def Gauss(A, b):
     """
 
     A, b = A.copy(), b.copy()
-    n, _ = A.shape
+    n, m = A.shape
+    assert n == m, 'Matrix is not square'
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
 
     r = zeros((n, n))
     x = zeros(n)
-- 
2.43.0


From f7b48196bfc68f6c2280f0292771d0e9336c2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 40/58] fix: PSS refuses a right-hand side of another length
 than the matrix

---
 intvalpy/linear/PSS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index a517449..742c565 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -130,6 +130,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
 
     n, m = A.shape
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
     midA = A.mid
     radA = A.rad
 
-- 
2.43.0


From e85898e4dfa7631471f47cc9da7f7565639c6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 41/58] fix: the functionals refuse a right-hand side of
 another length than the matrix

---
 intvalpy/kernel/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 9915ded..ae43c83 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -101,6 +101,7 @@ class BaseRecFun(object):
             out: float
                 The values of each forming of the recognizing functional at the point x are returned.
         """
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
         return cls._constituent(A, b, x, weight=weight)
 
 
@@ -130,6 +131,7 @@ class BaseRecFun(object):
             out: float
                 The value of the recognizing functional at the point x.
         """
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
         return cls._value(A, b, x, weight=weight)
 
 
-- 
2.43.0


From 4ca0d659281d0c58c70231ce81a3573c40c1c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 42/58] fix: PSS solves systems with one unknown

---
 intvalpy/linear/PSS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 742c565..c2db335 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -236,6 +236,10 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
             else:
                  num_func[index] = 2
 
+        if m == 1:
+            # there are no other components to crush
+            return Omega(WorkListb, _nu, Anu, index_classic_div, index_kahan_div, num_func)
+
         L = [(Q, q)]
         Ar = WorkListA @ Q
 
-- 
2.43.0


From b15a1fc621670a6326ffc9ac6b9bb3ea08b06c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 43/58] fix: lineqs3D refuses a right-hand side of another
 length than the matrix

---
 intvalpy/linear/boundary_intervals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 7cd5b2d..e8b2a00 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -427,6 +427,7 @@ def lineqs3D(
     A = np.asarray(A)
     b = np.asarray(b)
 
+    assert len(b) == len(A), "The size of the matrix A must be consistent with the size of the vector of the right part of b."
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
     if not cnmty:
         # one of the inequalities is 0 >= b with a positive b
-- 
2.43.0


From 2b1d136237db35cd6df302fb9fc0ab6fa1e3d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 44/58] fix: sine and cosine of an empty interval are empty

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 03a7deb..a038646 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -298,6 +298,8 @@ cdef class BaseTools:
 
     def sin(self):
         cdef double_t inf, sup
+        if self.a != self.a or self.b != self.b:
+            return type(self)(NAN, NAN)
         x = self.pro
         sin_inf, sin_sup = math.sin(x.a), math.sin(x.b)
 
@@ -331,6 +333,8 @@ cdef class BaseTools:
 
     def cos(self):
         cdef double_t inf, sup
+        if self.a != self.a or self.b != self.b:
+            return type(self)(NAN, NAN)
         x = self.pro
         cos_inf, cos_sup = math.cos(x.a), math.cos(x.b)
         
-- 
2.43.0


From e1c9a9897ecfaa2068345551213f22ba95c01afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 45/58] fix: Kaucher product with an empty interval is empty

---
 intvalpy/kernel/interval_arithmetics.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a038646..9d73b57 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -413,6 +413,9 @@ cdef object kaucher_product(left, right):
     cdef double_t rightInfPlus = max(rightInf, 0.0), rightSupPlus = max(rightSup, 0.0)
     cdef double_t rightInfMinus = max(-rightInf, 0.0), rightSupMinus = max(-rightSup, 0.0)
 
+    if left.a != left.a or left.b != left.b or right.a != right.a or right.b != right.b:
+        return KaucherArithmetic(NAN, NAN)
+
     with RoundingContext(FE_DOWNWARD):
         infPlus = max(product(leftInfPlus, rightInfPlus), product(leftSupMinus, rightSupMinus))
         supMinus = max(product(leftInfPlus, rightSupMinus), product(leftSupMinus, rightInfPlus))
-- 
2.43.0


From 9c9d8224a55cb9dd5b74e756982c43c3d5c3d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 46/58] fix: the linear programs of Rohn and PSS refuse numbers
 on which GLPK ends the process

---
 intvalpy/linear/PSS.py  |  8 +++++---
 intvalpy/linear/Rohn.py | 12 ++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index c2db335..db84815 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -8,7 +8,7 @@ cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
 from ..kernel.real_intervals import Interval
 from ..kernel.preprocessing import intersection
 from ..kernel.utils import infinity
-from .Rohn import Rohn
+from .Rohn import Rohn, _restrictions
 from .Gauss import Gauss
 
 
@@ -194,8 +194,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         size = np.max(b.mag)
         size = 2.0**np.frexp(float(size))[1] if size > 0 else 1.0
 
+        restrictions = _restrictions(A_ub, b_ub / size)
         try:
-            result = solve_lp(c, A_ub, b_ub / size)
+            result = solve_lp(c, *restrictions)
             return result @ c * size
         except Exception:
             pass
@@ -209,8 +210,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         A_ub[2*n:2*n+m] = -S
         A_ub[2*n+m:2*(n+m)] = S
 
+        restrictions = _restrictions(A_ub, b_ub / size)
         try:
-            result = solve_lp(c, A_ub, b_ub / size)
+            result = solve_lp(c, *restrictions)
             return result @ c * size
         except Exception:
             return 10**15
diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index 1b9b195..c5c0728 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -9,6 +9,16 @@ from ..kernel.utils import infinity
 from .Tol import Tol
 
 
+def _restrictions(A_ub, b_ub):
+    # on infinities, nan and numbers beyond these scales GLPK does not return an error but ends the whole process
+    keep = ~(b_ub == infinity)
+    A_ub, b_ub = A_ub[keep], b_ub[keep]
+    A_abs = abs(A_ub)
+    if not (((A_abs == 0) | ((1e-75 < A_abs) & (A_abs < 1e75))).all() and (abs(b_ub) < 1e75).all()):
+        raise ValueError('The numbers are beyond the scales of the linear programming solver.')
+    return A_ub, b_ub
+
+
 def _Rohn_Tol(A, b, nu=None):
 
     def solve_lp(c, A_ub, b_ub):
@@ -34,6 +44,8 @@ def _Rohn_Tol(A, b, nu=None):
         b_ub[:n] = b.b
         b_ub[n:2*n] = -b.a
 
+        A_ub, b_ub = _restrictions(A_ub, b_ub)
+
         c = np.zeros(2*m, dtype=np.float64)
         c[nu], c[nu+m] = 1, -1
 
-- 
2.43.0


From fb2f0d8b8cbf861e800ea4f988bc0fc0b7c2cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 47/58] fix: sign of an empty interval is empty

---
 intvalpy/kernel/elementary_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/elementary_functions.py b/intvalpy/kernel/elementary_functions.py
index 61b040e..0b25737 100644
--- a/intvalpy/kernel/elementary_functions.py
+++ b/intvalpy/kernel/elementary_functions.py
@@ -102,7 +102,9 @@ def cos(x):
 
 def sign(x):
     def _sign(x):
-        if x.b < 0:
+        if x.a != x.a or x.b != x.b:
+            return x.copy()
+        elif x.b < 0:
             return Interval(-1, -1, sortQ=False)
         elif x.a < 0 and x.b == 0:
             return Interval(-1, 0, sortQ=False)
-- 
2.43.0


From b622a5438b489c32bbc7a740d47337c9b7129697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 48/58] fix: reversed iteration over an array of intervals

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 1fcf6e3..c3d023c 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -146,7 +146,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From 271ab5829f82381e17ade10a1b96e730f696bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 49/58] fix: Kaucher division refuses improper divisors around
 zero

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 9d73b57..2d23725 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -514,7 +514,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -637,7 +637,7 @@ cdef class KaucherArithmetic(BaseTools):
             return kaucher_product(self, other)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -694,7 +694,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From 9001752ca33458fe15753128973d375bf2216584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 50/58] fix: arithmetic with numbers of narrow and unsigned
 numpy types

---
 intvalpy/kernel/interval_arithmetics.pyx | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 2d23725..738c00f 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -65,6 +65,11 @@ cdef bint reaches(double inf, double sup, double point):
     return ceil(left - 1e-15 * fabs(left)) <= floor(right + 1e-15 * fabs(right))
 
 
+cdef object python_number(x):
+    # numbers of the narrow numpy types wrap around or round to their own type in operations with Python numbers
+    return x.item() if isinstance(x, np.number) else x
+
+
 cdef class BaseTools:
     cdef object _a_int, _b_int
     cdef double_t _a_double, _b_double
@@ -482,7 +487,9 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = self.b - other.a
             return type(other)(inf, sup)
         else:
-            return -other + self
+            if isinstance(other, np.ndarray):
+                return -(other - self)
+            return -python_number(other) + self
     
     def __mul__(self, other):
         cdef double_t inf, sup
@@ -540,7 +547,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
-            self = self._as_double()
+            self, other = self._as_double(), python_number(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -553,7 +560,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
-            self = self._as_double()
+            self, other = self._as_double(), python_number(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
@@ -565,7 +572,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rmul__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
-            self = self._as_double()
+            self, other = self._as_double(), python_number(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = min(other * self.a, other * self.b)
             with RoundingContext(FE_UPWARD):
@@ -610,7 +617,9 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = self.b - other.a
             return KaucherArithmetic(inf, sup)
         else:
-            return -other + self
+            if isinstance(other, np.ndarray):
+                return -(other - self)
+            return -python_number(other) + self
     
     def __mul__(self, other):
         cdef double_t inf, sup
@@ -663,7 +672,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
-            self = self._as_double()
+            self, other = self._as_double(), python_number(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -675,7 +684,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
-            self = self._as_double()
+            self, other = self._as_double(), python_number(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
-- 
2.43.0


From f034cfcf1cfd0d37a8eabfb70420571605b9f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 51/58] fix: comparison with numbers of narrow numpy types is
 exact

---
 intvalpy/kernel/interval_arithmetics.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 738c00f..8789b91 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -215,6 +215,7 @@ cdef class BaseTools:
     
     def __contains__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a <= other) and (other <= self.b)
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (other.b <= self.b)
@@ -223,6 +224,7 @@ cdef class BaseTools:
                         
     def __lt__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a < other) and (self.b < other)
         elif isinstance(other, ARITHMETICS):
             return (self.a < other.a) and (self.b < other.b)
@@ -231,6 +233,7 @@ cdef class BaseTools:
     
     def __le__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a <= other) and (self.b <= other)
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (self.b <= other.b)
@@ -239,6 +242,7 @@ cdef class BaseTools:
     
     def __eq__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a == other) and (self.b == other)
         elif isinstance(other, ARITHMETICS):
             return (self.a == other.a) and (self.b == other.b)
@@ -247,6 +251,7 @@ cdef class BaseTools:
     
     def __ne__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a != other) or (self.b != other)
         elif isinstance(other, ARITHMETICS):
             return (self.a != other.a) or (self.b != other.b)
@@ -255,6 +260,7 @@ cdef class BaseTools:
     
     def __gt__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a > other) and (self.b > other)
         elif isinstance(other, ARITHMETICS):
             return (self.a > other.a) and (self.b > other.b)
@@ -263,6 +269,7 @@ cdef class BaseTools:
     
     def __ge__(self, other):
         if isinstance(other, Number):
+            other = python_number(other)
             return (self.a >= other) and (self.b >= other)
         elif isinstance(other, ARITHMETICS):
             return (self.a >= other.a) and (self.b >= other.b)
-- 
2.43.0


From 5cd51d74506d4171b2e17bbcc22bee40e756b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 52/58] fix: natural exponents of any numpy integer type

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 8789b91..18ba5eb 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -544,7 +544,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return 1.0/other * self
     
     def __pow__(self, other):
-        if isinstance(other, (int, np.int_)) and other >= 0:
+        if isinstance(other, (int, np.integer)) and other >= 0:
             return natural_power(self, other)
         elif self >= 0:
             return np.exp(other * np.log(self))
@@ -669,7 +669,7 @@ cdef class KaucherArithmetic(BaseTools):
             return 1/other * self
     
     def __pow__(self, other):
-        if isinstance(other, (int, np.int_)) and other >= 0:
+        if isinstance(other, (int, np.integer)) and other >= 0:
             return natural_power(self, other)
         elif self >= 0:
             return np.exp(other * np.log(self))
-- 
2.43.0


From c950ac8f16cffcca2c870ed9d91434ef7a8943b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 53/58] fix: midpoint-radius form and magnitude of narrow numpy
 numbers do not wrap around

---
 intvalpy/kernel/real_intervals.py | 2 ++
 intvalpy/kernel/utils.py          | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index c3d023c..9a7d54f 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -378,6 +378,8 @@ def SingleInterval(left, right, sortQ=True, midRadQ=False):
 
     if midRadQ:
         assert right >= 0, "The radius of the interval cannot be negative."
+        # sums of the narrow numpy types wrap around or round to their own type
+        left, right = [end.item() if isinstance(end, np.number) else end for end in (left, right)]
         left, right = left - right, left + right
 
     ##############################
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 0c68d18..1c50537 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -166,7 +166,7 @@ def mag(x):
         if isinstance(x, ARITHMETICS):
             return x.mag
         else:
-            return float(abs(x))
+            return abs(float(x))
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From b6e35f9f1ef9e9455781ddfd19c800e489ab387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 54/58] fix: lineqs and lineqs3D compute with narrow and
 unsigned arrays in double precision

---
 intvalpy/linear/boundary_intervals.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index e8b2a00..0db9bfb 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -183,8 +183,11 @@ def lineqs(
     if isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES):
         raise Exception('Interval type system!')
 
-    A = np.asarray(A)
-    b = np.asarray(b)
+    # the arithmetic of narrow and unsigned types wraps around or loses digits
+    A = np.asarray(A, dtype=float)
+    b = np.asarray(b, dtype=float)
+    if not bounds is None:
+        bounds = np.asarray(bounds, dtype=float)
 
     n, m = A.shape
     assert m <= 2, "There should be two columns in matrix A."
@@ -424,8 +427,11 @@ def lineqs3D(
             If show = True, then the graph is drawn.
     """
 
-    A = np.asarray(A)
-    b = np.asarray(b)
+    # the arithmetic of narrow and unsigned types wraps around or loses digits
+    A = np.asarray(A, dtype=float)
+    b = np.asarray(b, dtype=float)
+    if not bounds is None:
+        bounds = np.asarray(bounds, dtype=float)
 
     assert len(b) == len(A), "The size of the matrix A must be consistent with the size of the vector of the right part of b."
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
-- 
2.43.0


From 4f88d5cfcefc6cb6811c0be7f9b7ffb09c82ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 55/58] fix: ChebNorm at points of unsigned integers

---
 intvalpy/linear/ChebNorm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 2537d8f..0276c19 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -27,6 +27,8 @@ class ChebNorm:
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
+        # unsigned integers have no negative
+        x = np.asarray(x, dtype=np.float64)
         A_opt = np.zeros(infA.shape, dtype=np.float64)
         for j in range(len(bm)):
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
-- 
2.43.0


From 7402d130530300c4b9ca02f71748e1917e5bf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 56/58] fix: linear constraints accept lists and unsigned
 arrays

---
 intvalpy/kernel/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index ae43c83..fbc85a1 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -211,6 +211,9 @@ class LinearConstraint:
         # идёт преобразование C x <= b
         # надо удалить все строки, где значение inf, а также, где нет зависимости от x
 
+        C = np.asarray(C, dtype=np.float64)
+        lb = None if lb is None else np.asarray(lb, dtype=np.float64)
+        ub = None if ub is None else np.asarray(ub, dtype=np.float64)
         assert C.shape[0] >= 1, 'Inconsistent dimension of matrix'
         if (not lb is None) or (not ub is None):
             self.C, self.b = [], []
-- 
2.43.0


From b378b9c2583b59d9da6f64cac34aead2056fa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 57/58] fix: functions of numpy with an interval as the first
 operand use the second one

---
 intvalpy/kernel/interval_arithmetics.pyx | 15 +++++++++++++++
 intvalpy/kernel/real_intervals.py        | 10 +++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 18ba5eb..43a72af 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -3,6 +3,7 @@
 
 import numpy as np
 import math
+import operator
 from libc.math cimport fabs, exp, log, sin, cos, ceil, floor, INFINITY, NAN
 from numbers import Number
 cimport cython
@@ -23,6 +24,13 @@ cdef double PI = 3.14159265358979323846
 cdef double INF = float('inf')
 cdef double NEGINF = float('-inf')
 ARITHMETICS = (ClassicalArithmetic, KaucherArithmetic)
+BINARY_OPERATORS = {
+    'add': operator.add,
+    'subtract': operator.sub,
+    'multiply': operator.mul,
+    'divide': operator.truediv,
+    'true_divide': operator.truediv,
+}
 
 
 #######################################################################################
@@ -380,6 +388,13 @@ cdef class BaseTools:
 
     def __array_ufunc__(self, *args):
         cdef double_t inf, sup
+        if args[1] not in ['__call__', 'outer']:
+            raise NotImplementedError(f"The {args[1]} method of the {args[0].__name__} function is not provided!")
+
+        if len(args) == 4 and isinstance(args[2], ARITHMETICS) and args[0].__name__ in BINARY_OPERATORS:
+            # the reflected methods below take the interval for the second operand
+            return BINARY_OPERATORS[args[0].__name__](args[2], args[3])
+
         if args[0].__name__ in ['add']:
             return self.__radd__(args[2])
 
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 9a7d54f..1a6ebac 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -6,7 +6,7 @@ from numbers import Number
 
 import itertools
 
-from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
+from .interval_arithmetics import ARITHMETICS, BINARY_OPERATORS, ClassicalArithmetic, KaucherArithmetic
 
 
 class ArrayInterval:
@@ -321,6 +321,12 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
+        if args[1] != '__call__':
+            raise NotImplementedError(f"The {args[1]} method of the {args[0].__name__} function is not provided!")
+
+        if len(args) == 4 and isinstance(args[2], INTERVAL_CLASSES) and args[0].__name__ in BINARY_OPERATORS:
+            return BINARY_OPERATORS[args[0].__name__](args[2], args[3])
+
         if args[0].__name__ in ['add']:
             return ArrayInterval(self._data + args[2])
 
@@ -334,6 +340,8 @@ class ArrayInterval:
             return ArrayInterval(args[2] / self._data)
 
         elif args[0].__name__ in ['matmul']:
+            if isinstance(args[2], ArrayInterval):
+                return args[2] @ args[3]
             matmul = args[2] @ self._data
             if isinstance(matmul, INTERVAL_CLASSES):
                 return matmul
-- 
2.43.0


From 396d6334050d0fb31875de694cdb8fec7a79213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 58/58] fix: logarithm encloses its range near one

---
 intvalpy/kernel/interval_arithmetics.pyx | 43 +++++++++++++++++++-----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 43a72af..2a1f137 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -33,6 +33,10 @@ BINARY_OPERATORS = {
 }
 
 
+cdef extern from "math.h":
+    long double logl(long double)
+    long double fabsl(long double)
+
 #######################################################################################
 # import tounding dunction
 cdef extern from "fenv.h":
@@ -73,6 +77,33 @@ cdef bint reaches(double inf, double sup, double point):
     return ceil(left - 1e-15 * fabs(left)) <= floor(right + 1e-15 * fabs(right))
 
 
+cdef double log_below(x):
+    # libm's logarithm may err to the wrong side in the directed modes: the extended one leaves room for its error
+    cdef long double value
+    cdef double result
+    if x == 0.0 or x == 1.0 or x == INF:
+        return NEGINF if x == 0.0 else 0.0 if x == 1.0 else INF
+    if isinstance(x, int) and x > 2**53:
+        return round_down(math.log(x))
+    value = logl(x)
+    value = value - fabsl(value) * 5e-19
+    result = <double>value
+    return round_down(result) if result > value else result
+
+
+cdef double log_above(x):
+    cdef long double value
+    cdef double result
+    if x == 0.0 or x == 1.0 or x == INF:
+        return NEGINF if x == 0.0 else 0.0 if x == 1.0 else INF
+    if isinstance(x, int) and x > 2**53:
+        return round_up(math.log(x))
+    value = logl(x)
+    value = value + fabsl(value) * 5e-19
+    result = <double>value
+    return round_up(result) if result < value else result
+
+
 cdef object python_number(x):
     # numbers of the narrow numpy types wrap around or round to their own type in operations with Python numbers
     return x.item() if isinstance(x, np.number) else x
@@ -301,16 +332,12 @@ cdef class BaseTools:
         _max, _min = max(pro.a, 0.0), pro.b
         if _max <= _min:
             if self.a <= self.b:
-                with RoundingContext(FE_DOWNWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)
-                with RoundingContext(FE_UPWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
+                inf = log_below(_max)
+                sup = log_above(_min)
                 return type(self)(inf, sup)
             else:
-                with RoundingContext(FE_DOWNWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
-                with RoundingContext(FE_UPWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)                    
+                sup = log_below(_min)
+                inf = log_above(_max)
                 return type(self)(sup, inf)
         else:
             return type(self)(NAN, NAN)
-- 
2.43.0

