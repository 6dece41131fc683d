From cab254819b54ce27798994a9375f2079918d3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 01/22] fix: umath.frexp() built an invalid linear combination
 (std_dev and derivatives raised TypeError)

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 26f7b8e9f20fbd5397552943f18f44ea12ed5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 02/22] fix: a standard deviation of -inf was accepted

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..9049798 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2783,7 +2783,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0 and not isnan(std_dev):
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From 5d41e4d6a7177f81193d498cca1c8e0c531d8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 03/22] fix: covariance_matrix() gave NaN for exact variables
 with an undefined derivative

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 9049798..3713c18 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2911,7 +2911,10 @@ def covariance_matrix(nums_with_uncert):
                 ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
                 # var is a variable common to both numbers with
                 # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                for var in vars1.intersection(derivatives2)
+                # Exact variables do not contribute, even if a derivative
+                # is undefined (NaN), like in error_components():
+                if var._std_dev),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From f31ddffa40edd0a04609631438156bc8b1d49649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 04/22] fix: unumpy.arcsinh() did not exist (only available
 under the name asinh)

---
 uncertainties/unumpy/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..58ad4eb 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -673,7 +673,7 @@ def define_vectorized_funcs():
     # module:
     func_name_translations = dict([
         (f_name, 'arc'+f_name[1:])
-        for f_name in ['acos', 'acosh', 'asin', 'atan', 'atan2', 'atanh']])
+        for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh']])
 
     new_func_names = [
         func_name_translations.get(function_name, function_name)
@@ -726,3 +726,7 @@ Original documentation:
         __all__.append(unumpy_name)
 
 define_vectorized_funcs()
+
+# Name under which arcsinh() was formerly (only) available:
+asinh = arcsinh
+__all__.append('asinh')
-- 
2.43.0


From de7a62eb7ff07105a2dd8c2e46661bd937e79423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 05/22] fix: 1to2 changed uarray(*arg) into uarray(**arg) (and
 made keyword arguments invalid)

---
 uncertainties/lib1to2/fixes/fix_uarray_umatrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index a47284a..b5f74b3 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -64,7 +64,8 @@ class FixUarrayUmatrix(BaseFix):
             args_node = results['args']
 
             # We must make sure that there is a single argument:
-            if args_node.type == syms.arglist:
+            # (and that it is not already starred, or a keyword argument):
+            if args_node.type in (syms.arglist, syms.argument):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-- 
2.43.0


From b51e2bd5e6071c0cebdfef2e8c28db04965269fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 06/22] fix: ufloat_fromstr() ignored the exponent of
 (1.2(3))e-3 and (1.2)e3

---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3713c18..f23c50a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3159,7 +3159,8 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            (nom_value, uncert) = parse_error_in_parentheses(representation)
+            parsed_value = (nom_value*factor, uncert*factor)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-- 
2.43.0


From 76a61beb3b553b873a1f482b1c9c6b6ff62ce9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 07/22] =?UTF-8?q?fix:=20ufloat=5Ffromstr()=20accepted=20an?=
 =?UTF-8?q?=20empty=20exponent=20(1.2(3)e,=201.2(3)=C3=9710)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f23c50a..6f2b665 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3025,7 +3025,7 @@ def parse_error_in_parentheses(representation):
                              % representation)
 
     # Global exponent:
-    if exponent:
+    if exponent is not None:  # An empty exponent is invalid
         factor = 10.**nrmlze_superscript(exponent)
     else:
         factor = 1
-- 
2.43.0


From 2dde10588b4fc16ce9e2c8152d4e5b0507af3c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 08/22] fix: ufloat_fromstr() ignored anything after a line
 break following a value of the form 1+/-2

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 6f2b665..ecb583b 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3143,7 +3143,7 @@ def str_to_number_with_uncert(representation):
     else:
         factor = 1  # No global exponential factor
 
-    match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
+    match = re.match(u'(.*)(?:\\+/-|±)(.*)$', representation)
     if match:
 
         (nom_value, uncert) = match.groups()
-- 
2.43.0


From 069a0cea4409f116404ab6214991b8a0e3dd42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 09/22] fix: the precision was used as a width when formatting
 3.1415+/-0 or 3.1415+/-nan with .3g

---
 uncertainties/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ecb583b..c0f274a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1151,6 +1151,15 @@ def format_num(nom_val_main, error_main, common_exp,
     # over common_exp):
     special_error = not error_main or isinfinite(error_main)
 
+    # Precision and type requested by the user, for the parts that are
+    # formatted like floats (an explicit precision with an empty type
+    # is handled like with the g type, because the main part must have
+    # no exponent, which '.1' can give):
+    if fmt_parts['prec']:
+        fmt_suffix_user = '.'+fmt_parts['prec']+(fmt_parts['type'] or 'g')
+    else:
+        fmt_suffix_user = fmt_parts['type']
+
     # Nicer representation of the main nominal part, with no trailing
     # zeros, when the error does not have a defined number of
     # significant digits:
@@ -1159,7 +1168,7 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        fmt_suffix_n = fmt_suffix_user
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1369,7 +1378,7 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                fmt_suffix_e = fmt_suffix_user
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 82eedd36966a61510b2fb17539da0c150530614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 10/22] fix: 1to2 did not convert x.std_dev() and x.std_devs()
 followed by an operation, as in x.std_dev()**2

---
 uncertainties/lib1to2/fixes/fix_std_dev.py  | 4 ++--
 uncertainties/lib1to2/fixes/fix_std_devs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index fd15912..bf62cb6 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -12,7 +12,7 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDev(BaseFix):
     
     PATTERN = """
-    power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
     |
     power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
     """
@@ -34,5 +34,5 @@ class FixStdDev(BaseFix):
         else:
             # '.std_dev' is followed by a call with no argument: the call
             # is removed:
-            node.children[-1].remove()
+            results['call'].remove()
         
diff --git a/uncertainties/lib1to2/fixes/fix_std_devs.py b/uncertainties/lib1to2/fixes/fix_std_devs.py
index 31afaf7..9ecc1c9 100644
--- a/uncertainties/lib1to2/fixes/fix_std_devs.py
+++ b/uncertainties/lib1to2/fixes/fix_std_devs.py
@@ -12,11 +12,11 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDevs(BaseFix):
 
     PATTERN = """
-    power< any* trailer< '.' 'std_devs' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_devs' > call=trailer< '(' ')' > any* >
     """
 
     def transform(self, node, results):
 
         # '.std_dev' is followed by a call with no argument: the call
         # is removed:
-        node.children[-1].remove()
+        results['call'].remove()
-- 
2.43.0


From 306bdf83042b08b5c2ba96e17ca88d8fee1c435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 11/22] fix: shorthand notation lost the magnitude of the
 uncertainty for NaN and infinite nominal values

---
 uncertainties/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c0f274a..4ba07b0 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1211,7 +1211,12 @@ def format_num(nom_val_main, error_main, common_exp,
             # makes the result easier to read); the shorthand
             # notation then essentially coincides with the +/-
             # notation:
-            if first_digit(uncert) >= 0 and prec > 0:
+            #
+            # The uncertainty is also kept as is when the nominal value
+            # has no digits to which the uncertainty could refer (NaN,
+            # inf):
+            if (prec > 0
+                and (first_digit(uncert) >= 0 or isinfinite(nom_val_main))):
                 # This case includes a zero rounded error with digits
                 # after the decimal point:
                 uncert_str = '%.*f' % (prec, uncert)
-- 
2.43.0


From 5713409764c174253632314573e4cea569cbc1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 12/22] fix: dividing by a very large or very small number with
 uncertainty raised an exception (x/1e200)

---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 4ba07b0..aad6a75 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2531,14 +2531,14 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
         'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-x/y/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From fe4d4604687d9c3fd2a1633a8b67f557d422b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 13/22] fix: umath.gamma, lgamma and fmod raised an exception
 when only their numerical derivative could not be calculated

---
 uncertainties/umath_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..9d38c4b 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -244,7 +244,11 @@ for name in dir(math):
     elif name in num_deriv_funcs:
         # Functions whose derivatives are calculated numerically by
         # this module fall here (isinf, fmod,...):
-        derivatives = []  # Means: numerical calculation required
+        # (The derivatives are explicit so that errors during their
+        # calculation are handled like for analytical derivatives:)
+        derivatives = [
+            uncert_core.partial_derivative(getattr(math, name), index)
+            for index in range(2)]
     elif name not in locally_cst_funcs:
         continue  # 'name' not wrapped by this module (__doc__, e, etc.)
 
-- 
2.43.0


From 4dcb1fa14f01ae3a354a45a9206301778c943bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 14/22] fix: umath.ldexp(x, i) gave a number with an unusable
 linear part (std_dev raised OverflowError) for i >= 1024

---
 uncertainties/umath_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 9d38c4b..59321e5 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -365,7 +365,10 @@ def ldexp(x, i):
     if aff_func._linear_part:
         return AffineScalarFunc(
             math.ldexp(aff_func.nominal_value, i),
-            LinearCombination([(2**i, aff_func._linear_part)]))
+            LinearCombination([
+                # 2**i might be too large for a float:
+                (uncert_core.nan_if_exception(math.ldexp)(1., i),
+                 aff_func._linear_part)]))
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
-- 
2.43.0


From 57959a87e596ba8a899419641b48236e5ee01165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 15/22] fix: wrong derivative of x % y with respect to y for
 large quotients (1e10 % 3)

---
 uncertainties/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index aad6a75..2cb1cf8 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2533,9 +2533,8 @@ def get_ops_with_reflection():
         # floats, and is therefore the "usual" mathematical division.
         'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
-        # The derivative wrt the 2nd arguments is something like (..., x//y),
-        # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        # x % y = x - (x//y)*y, with x//y locally constant:
+        'mod': ("1.", "-(x//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y/y")
-- 
2.43.0


From 40ab3aa4bb01d6b2d6bc4a538ec3abffd96dce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 16/22] fix: wrap() used the derivatives of the wrong
 parameters for bound methods called with keyword arguments

---
 uncertainties/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 2cb1cf8..28fa9a1 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -590,7 +590,11 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        # The first parameter of bound methods (self) is never given by
+        # the caller, and is not listed in derivatives_args:
+        arg_names = argspec.args[1:] if inspect.ismethod(f) else argspec.args
+
+        for (index, name) in enumerate(arg_names):
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From 3ee1b46457d670a3007ecc9a31ce3b37f5992a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 17/22] fix: umath.modf, ldexp and frexp raised the wrong
 exception for non-numbers, and TypeError for constants with uncertainty

---
 uncertainties/umath_core.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 59321e5..939b9de 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -340,18 +340,15 @@ def modf(x):
     # simpler because only 1 argument is given, and there is no
     # delegation to other functions involved (as for __mul__, etc.).
 
-    aff_func = to_affine_scalar(x)  # Uniform treatment of all numbers
-
-    (frac_part, int_part) = math.modf(aff_func.nominal_value)
-
-    if aff_func._linear_part:  # If not a constant
+    if isinstance(x, AffineScalarFunc):
+        (frac_part, int_part) = math.modf(x.nominal_value)
         # The derivative of the fractional part is simply 1: the
         # linear part of modf(x)[0] is the linear part of x:
-        return (AffineScalarFunc(frac_part, aff_func._linear_part), int_part)
+        return (AffineScalarFunc(frac_part, x._linear_part), int_part)
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
-        return (frac_part, int_part)
+        return math.modf(x)
 many_scalars_to_scalar_funcs.append('modf')
 
 @uncert_core.set_doc(math.ldexp.__doc__)
@@ -360,24 +357,17 @@ def ldexp(x, i):
     # uncert_core.wrap() so that some arguments are automatically
     # considered as constants.
 
-    aff_func = to_affine_scalar(x)  # y must be an integer, for math.ldexp
-
-    if aff_func._linear_part:
+    if isinstance(x, AffineScalarFunc):
         return AffineScalarFunc(
-            math.ldexp(aff_func.nominal_value, i),
+            # i must be an integer, for math.ldexp:
+            math.ldexp(x.nominal_value, i),
             LinearCombination([
                 # 2**i might be too large for a float:
                 (uncert_core.nan_if_exception(math.ldexp)(1., i),
-                 aff_func._linear_part)]))
+                 x._linear_part)]))
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
-
-        # aff_func.nominal_value is not passed instead of x, because
-        # we do not have to care about the type of the return value of
-        # math.ldexp, this way (aff_func.nominal_value might be the
-        # value of x coerced to a difference type [int->float, for
-        # instance]):
         return math.ldexp(x, i)
 many_scalars_to_scalar_funcs.append('ldexp')
 
@@ -392,17 +382,15 @@ def frexp(x):
     # simpler because only 1 argument is given, and there is no
     # delegation to other functions involved (as for __mul__, etc.).
 
-    aff_func = to_affine_scalar(x)
-
-    if aff_func._linear_part:
-        (mantissa, exponent) = math.frexp(aff_func.nominal_value)
+    if isinstance(x, AffineScalarFunc):
+        (mantissa, exponent) = math.frexp(x.nominal_value)
         return (
             AffineScalarFunc(
                 mantissa,
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([(2**-exponent, aff_func._linear_part)])),
+                LinearCombination([(2**-exponent, x._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 912297890ec378c72ba78b11b08fe2b488b7c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 18/22] fix: a line break at the end of a format specification
 was ignored instead of raising ValueError

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 28fa9a1..04ffdaa 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2011,7 +2011,7 @@ class AffineScalarFunc(object):
             # The type can be omitted. Options must not go here:
             (?P<type>[eEfFgG%]??)  # n not supported
             (?P<options>[PSLp]*)  # uncertainties-specific flags
-            $''',
+            \Z''',
             format_spec,
             re.VERBOSE)
 
-- 
2.43.0


From aa2977c826bdb8c406ecf275bd42462f363e14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 19/22] fix: ufloat_fromstr() accepted a line break before a
 closing parenthesis, as in (1.2(3)\n)

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 04ffdaa..022ebd7 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2993,7 +2993,7 @@ NUMBER_WITH_UNCERT_RE_STR = u'''
            POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE)
 
 NUMBER_WITH_UNCERT_RE_MATCH = re.compile(
-    u"%s$" % NUMBER_WITH_UNCERT_RE_STR, re.VERBOSE).match
+    u"%s\\Z" % NUMBER_WITH_UNCERT_RE_STR, re.VERBOSE).match
 
 # Number with uncertainty with a factored exponent (e.g., of the form
 # (... +/- ...)e10): this is a loose matching, so as to accommodate
-- 
2.43.0


From 46ef80e847362c04debb3e4ee306180a753fc893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:03 +0000
Subject: [PATCH 20/22] fix: a nominal value of 9.499999999999999e-07 with an
 uncertainty of 0 or NaN was displayed as (1e+01)e-07 with .1g

---
 uncertainties/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 022ebd7..625d96e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2283,6 +2283,14 @@ class AffineScalarFunc(object):
             # Not 10.**(-common_exp), for limit values of common_exp:
             factor = 10.**common_exp
 
+            # The displayed digits should not depend on rounding
+            # errors in the divisions below (9.499999999999999e-07 is
+            # below 9.5e-07, but divided by 1e-07 it is 9.5):
+            if fmt_prec:
+                nom_val = round(nom_val, -digits_limit)
+                if isinfinite(nom_val):
+                    std_dev = round(std_dev, -digits_limit)
+
             nom_val_mantissa = nom_val/factor
             std_dev_mantissa = std_dev/factor
             # Limit for the last digit of the mantissas:
-- 
2.43.0


From 9deadc879ed25bf92390d42e4432477c1b2c4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 21/22] fix: 1to2 converted set_std_dev(*args) into invalid
 code, and set_std_dev(value=3) into a double assignment

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index bf62cb6..68338bd 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -7,7 +7,7 @@ Transforms .std_dev() calls into .std_dev attribute access.
 '''
 
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign
+from lib2to3.fixer_util import Name, Assign, syms
 
 class FixStdDev(BaseFix):
     
@@ -21,6 +21,10 @@ class FixStdDev(BaseFix):
 
         if 'set_arg' in results:  # Case of .set_std_dev()
 
+            # A starred or keyword argument cannot be assigned:
+            if results['set_arg'].type == syms.argument:
+                return  # Nothing modified
+
             # set_std_dev => std_dev
             attribute = node.children[-2]  # .set_std_dev
             attribute.children[1].replace(Name('std_dev'))
-- 
2.43.0


From 52f58cd4b5e4df1b423fb7517ad7e6151b3caa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 22/22] fix: 1to2 converted set_std_dev(3) used inside an
 expression into invalid code

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index 68338bd..f70473c 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -25,6 +25,11 @@ class FixStdDev(BaseFix):
             if results['set_arg'].type == syms.argument:
                 return  # Nothing modified
 
+            # An assignment is a statement: it cannot be put inside an
+            # expression:
+            if node.parent is None or node.parent.type != syms.simple_stmt:
+                return  # Nothing modified
+
             # set_std_dev => std_dev
             attribute = node.children[-2]  # .set_std_dev
             attribute.children[1].replace(Name('std_dev'))
-- 
2.43.0

