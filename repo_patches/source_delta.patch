From 00b82549fccf47bdf2749c7ae2a0edae5e317040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:05 +0000
Subject: [PATCH 01/85] fix: match every digit of a denominator in symbolic
 expressions

The pattern for an optional denominator was lazy (/\d+?), so it consumed only
the first digit: 'a^3/12' became '2 a^3' instead of 'a^1/4'.
---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..3248736 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,7 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -243,7 +243,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -563,7 +563,7 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From fb5473eda1dbccda1c0a41713105d3bd517cfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:02 +0000
Subject: [PATCH 02/85] fix: keep zero coefficients and exponents in symbolic
 operands

A coefficient or exponent of zero was treated as missing and silently replaced
by one: 'a^0' parsed as 'a', '0a' as 'a', and Term('a')**0 was Term('a').
---
 src/goats/core/symbolic.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 3248736..83b98d6 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,15 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -1014,14 +1018,18 @@ class OperandFactory(PartFactory):
         }
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
+        updated = {
+            key: default[key] if given.get(key) in (None, '') else given[key]
+            for key in updatable
+        }
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](updated[key])
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -1031,7 +1039,7 @@ class OperandFactory(PartFactory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From 3ec2513941eeb4bf7fd55b43a3c6e7b44cc4d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:13 +0000
Subject: [PATCH 03/85] fix: reject indices below -len in symbolic.Expression

A negative index below -len(expression) wrapped around a second time and
returned a term instead of raising IndexError.
---
 src/goats/core/symbolic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 83b98d6..df74d3c 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1465,10 +1465,8 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
             idx = int(index)
-            if idx > len(self):
+            if not -len(self) <= idx < len(self):
                 raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
             return self.terms[idx]
         return self.terms[index]
 
-- 
2.43.0


From 59286a601c4f2e4fad5ca951ec44b6ddfa8c009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:10 +0000
Subject: [PATCH 04/85] fix: read signed scientific notation as a constant

'1.5e+2' and '1e-05' matched as a coefficient times a variable named 'e', so
Expression(1e-05) became '-5 e'.
---
 src/goats/core/symbolic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index df74d3c..1c506fa 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -858,8 +858,9 @@ class OperandFactory(PartFactory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            lengths = {key: len(match[0]) for key, match in matches.items()}
+            full = lengths['constant'] >= lengths['variable']
+            key = 'constant' if full else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From 4aa453fbac241115b09eb3365326db9e329bbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 05/85] fix: correct electromagnetic conversion factors

The speed of light C is in cm/s, but the factors for C, A, S, ohm, H, and V
assumed m/s; the factor for H/m divided by 4 and multiplied by pi. The ratio of
the elementary charge in fundamental.py (4.8032e-10 statC / 1.6022e-19 C)
agrees with the new value of C -> statC.
---
 src/goats/core/metric.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..30bfe2c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -749,10 +749,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From f44327984debb0fe7b67020c44e0337cc7aafc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 06/85] fix: don't drop irreducible terms or metric scales when
 converting units

Conversion by dimensions ignored terms that don't reduce to base units, as well
as metric scales, so incompatible units had a conversion factor of 1.0 (e.g.,
'au' -> 'h' or 'eV' -> 'min', which also compared equal) and 'mJ' had the same
factor as 'kJ'. Dimensions of a named unit in a system that doesn't define it
were '1' instead of the documented None, which made other conversions fail with
SystemAmbiguityError.
---
 src/goats/core/metric.py | 50 ++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 30bfe2c..1dc7296 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1354,7 +1354,7 @@ class NamedUnit(iterables.ReprStrMixin, metaclass=_NamedUnitMeta):
         if self._dimensions is None:
             systems = {system for system in self.systems['defined']}
             self._dimensions = {
-                k: symbolic.Expression(v)
+                k: None if v is None else symbolic.Expression(v)
                 for k, v in self._get_dimensions(systems).items()
             }
         return self._dimensions.copy()
@@ -1750,23 +1750,40 @@ class Conversion(iterables.ReprStrMixin):
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
+        scale = 1.0
         decomposed = []
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
-            if reduction:
-                decomposed.extend(
-                    [
-                        symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
-                            base=this.base,
-                            exponent=term.exponent*this.exponent,
-                        )
-                        for this in reduction.units
-                    ]
+            try:
+                reduction = NamedUnit(term.base).reduce()
+            except SystemAmbiguityError:
+                reduction = None
+            if reduction is None:
+                # Keep terms that don't reduce to base units. Dropping them
+                # would amount to treating them as dimensionless.
+                decomposed.append(term)
+                continue
+            scale *= float(reduction.scale) ** float(term.exponent)
+            decomposed.extend(
+                symbolic.Term(
+                    base=this.base,
+                    exponent=term.exponent*this.exponent,
                 )
-        if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+                for this in reduction.units
+            )
+        remaining = [
+            term for term in symbolic.Expression(decomposed)
+            if term.base not in UNITY
+        ]
+        if all(self._is_dimensionless(term.base) for term in remaining):
+            return scale
+        if factor := self._resolve_terms(remaining):
+            return scale * factor
+
+    def _is_dimensionless(self, unit: str):
+        """True if `unit` has dimension '1' in all metric systems."""
+        if unit not in named_units:
+            return False
+        return all(d == '1' for d in NamedUnit(unit).dimensions.values())
 
     def _match_terms(
         self,
@@ -1784,8 +1801,7 @@ class Conversion(iterables.ReprStrMixin):
             u1 = term.base
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
-        dimensions = NamedUnit(u0).dimensions.values()
-        if u0 in named_units and all(d == '1' for d in dimensions):
+        if self._is_dimensionless(u0):
             return 1.0, target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
-- 
2.43.0


From 22c4e7fe9dc1873e3e1d1bb516868a6a8f90c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:13 +0000
Subject: [PATCH 07/85] fix: convert between prefixed units of different base
 units

Units that differ in both metric prefix and base unit had no conversion (e.g.,
'km' -> 'kau', 'kJ' -> 'kerg') or, if dimensionless, a wrong factor of 1.0
(e.g., 'mrad' -> 'mdeg').
---
 src/goats/core/metric.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 1dc7296..a8880af 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1691,7 +1691,9 @@ class Conversion(iterables.ReprStrMixin):
         * the inverse of the above process applied to the conversion from `u1`
           to `u0`;
         * a multi-step conversion recursively built by calling back to
-          `~Conversions._convert_as_strings`
+          `~Conversions._convert_as_strings`;
+        * the conversion between the corresponding base units, rescaled to `u0`
+          and `u1`.
 
         If it does not succeed, it will return ``None`` in order to allow other
         methods an opportunity to convert `u0` to `u1`.
@@ -1715,6 +1717,12 @@ class Conversion(iterables.ReprStrMixin):
             if unit not in self._checked:
                 if value := self._convert_as_strings(unit, u1, scale=scale):
                     return weight * value
+        if u0 in named_units and u1 in named_units:
+            n0, n1 = NamedUnit(u0), NamedUnit(u1)
+            bases = (n0.base.symbol, n1.base.symbol)
+            if bases != (u0, u1) and n0.scale and n1.scale:
+                if computed := self._convert_as_strings(*bases):
+                    return scale * (n0.scale / n1.scale) * computed
 
     @classmethod
     def _rescale(cls, u0: str, u1: str):
-- 
2.43.0


From cdec85773a5c51ec5736dc19b97fbe6b8779c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:19 +0000
Subject: [PATCH 08/85] =?UTF-8?q?fix:=20accept=20the=20unit=20symbols=20?=
 =?UTF-8?q?=CE=BC=20and=20=CE=A9=20in=20symbolic=20expressions?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Units with the prefix 'μ' or the base unit 'Ω', both of which metric.py
defines, could not be parsed.
---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 1c506fa..2fd6220 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -30,7 +30,7 @@ class Patterns(collections.UserDict):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-Z#_μΩ]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -254,7 +254,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-Z#_μΩ]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
@@ -574,7 +574,7 @@ class OperandFactory(PartFactory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-Z#_μΩ]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
-- 
2.43.0


From 4a9396b659db7dac3685582b015e71a10a096c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:33 +0000
Subject: [PATCH 09/85] fix: correct the permittivity, displacement and
 illuminance definitions

---
 src/goats/core/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a8880af..fb2339c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -382,7 +382,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
@@ -441,7 +441,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
@@ -586,7 +586,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 1701c22f4092986fb7ea38d493cbfd35b2a10b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:33 +0000
Subject: [PATCH 10/85] fix: always let 'cd' mean candela, not centiday

---
 src/goats/core/metric.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index fb2339c..3d77182 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -912,9 +912,26 @@ finally by physical quantity.
 """
 
 
+_BASE_SYMBOLS = {unit['symbol'] for unit in _units}
+"""The symbols of all base units."""
+
+
+def build_unit_symbol(prefix, unit):
+    """Define the symbol for the given metric prefix and base unit.
+
+    A symbol always refers to the base unit that defines it, if there is one
+    (e.g., 'cd' is candela). A prefixed unit that would have the same symbol
+    (e.g., centiday) uses its name instead.
+    """
+    symbol = f"{prefix['symbol']}{unit['symbol']}"
+    if prefix['symbol'] and symbol in _BASE_SYMBOLS:
+        return f"{prefix['name']}{unit['name']}"
+    return symbol
+
+
 def build_unit_aliases(prefix, unit):
     """Define all aliases for the given metric prefix and base unit."""
-    key = [f"{prefix[k]}{unit[k]}" for k in ['name', 'symbol']]
+    key = [f"{prefix['name']}{unit['name']}", build_unit_symbol(prefix, unit)]
     if prefix['symbol'] == 'μ':
         key += [f"u{unit['symbol']}"]
     return tuple(key)
@@ -1091,7 +1108,7 @@ class _NamedUnitMeta(abc.ABCMeta):
         magnitude, reference = identify(string)
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
-        symbol = f"{magnitude.symbol}{reference.symbol}"
+        symbol = build_unit_symbol(magnitude._asdict(), reference._asdict())
         cls._attributes[string] = {
             'prefix': magnitude,
             'base': reference,
-- 
2.43.0


From b19b30dcae47e557a3e644566216397463c0daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:33 +0000
Subject: [PATCH 11/85] fix: keep the numerical value of dimensionless units
 when converting

---
 src/goats/core/metric.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 3d77182..e733368 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1800,6 +1800,8 @@ class Conversion(iterables.ReprStrMixin):
             if term.base not in UNITY
         ]
         if all(self._is_dimensionless(term.base) for term in remaining):
+            for term in remaining:
+                scale *= self._dimensionless_factor(term)
             return scale
         if factor := self._resolve_terms(remaining):
             return scale * factor
@@ -1810,6 +1812,14 @@ class Conversion(iterables.ReprStrMixin):
             return False
         return all(d == '1' for d in NamedUnit(unit).dimensions.values())
 
+    def _dimensionless_factor(self, term: symbolic.Term):
+        """The numerical value of a dimensionless unit term (e.g., 'krad')."""
+        unit = NamedUnit(term.base)
+        canonical = CANONICAL['units']['mks'][unit.quantity]
+        self._checked = []
+        factor = self._convert_as_strings(unit.symbol, canonical)
+        return (factor or unit.scale) ** float(term.exponent)
+
     def _match_terms(
         self,
         target: symbolic.Term,
@@ -1827,7 +1837,7 @@ class Conversion(iterables.ReprStrMixin):
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
         if self._is_dimensionless(u0):
-            return 1.0, target
+            return self._dimensionless_factor(target), target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
-- 
2.43.0


From 7ab13f227c943f9c43d865f654ac6dc0717c3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:33 +0000
Subject: [PATCH 12/85] fix: start each conversion attempt with a clean search
 state

---
 src/goats/core/metric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index e733368..cb430f7 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1834,6 +1834,8 @@ class Conversion(iterables.ReprStrMixin):
         ]
         for term in like_terms:
             u1 = term.base
+            # Don't let units visited by one attempt block the next attempt.
+            self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
         if self._is_dimensionless(u0):
-- 
2.43.0


From 5725beb5dcddc9d21715da92fd4b5907b0e5e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:16 +0000
Subject: [PATCH 13/85] fix: recognize the normal forms of defined unit
 conversions

---
 src/goats/core/metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index cb430f7..db84426 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -768,6 +768,10 @@ _CONVERSIONS = {
 CONVERSIONS = iterables.Connections(_CONVERSIONS)
 
 
+_DEFINED_FORMS = {str(symbolic.Expression(u)): u for u in CONVERSIONS.nodes}
+"""A mapping from normal form to defined form (e.g., 's^2 cm^-1': 's^2 / cm')"""
+
+
 Instance = typing.TypeVar('Instance', bound='_Property')
 
 
@@ -1686,9 +1690,11 @@ class Conversion(iterables.ReprStrMixin):
         
         The aliases of `unit` comprise the given string, as well as the
         canonical name and symbol of the corresponding named unit, if one
-        exists.
+        exists, and the form in which `~metric.CONVERSIONS` defines it.
         """
         built = [unit]
+        if unit in _DEFINED_FORMS:
+            built.append(_DEFINED_FORMS[unit])
         if unit in named_units:
             known = NamedUnit(unit)
             built.extend([known.symbol, known.name])
-- 
2.43.0


From 109a4eda7b98df6963bdbba1fcfc00acb6e99340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:54 +0000
Subject: [PATCH 14/85] fix: don't treat an undefined dimension as
 dimensionless

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index db84426..84039a1 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2320,7 +2320,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         that = type(self)(other)
         for system in SYSTEMS:
             defined = self.dimensions[system]
-            given = that.dimensions.values()
+            given = [d for d in that.dimensions.values() if d is not None]
             if defined and any(d == defined for d in given):
                 return True
         if self.quantity == that.quantity:
-- 
2.43.0


From 1f67aba9a62992540b519956bea81de25a8dab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:41 +0000
Subject: [PATCH 15/85] fix: apply the common dimension to every metric system

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 84039a1..351cc0c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2497,8 +2497,8 @@ class Dimensions(typing.Mapping, iterables.ReprStrMixin):
         **systems
     ) -> typing.Dict[str, typing.Optional[Dimension]]:
         """Create dimension objects from arguments."""
-        created = dict.fromkeys(SYSTEMS)
         default = Dimension(common) if common else None
+        created = dict.fromkeys(SYSTEMS, default)
         updates = {
             system: Dimension(expressable) if expressable else default
             for system, expressable in systems.items()
-- 
2.43.0


From ff1f13f4d5da0795df62fed9df73b7b075454427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 16/85] fix: reject unknown quantities and accept dimensionless
 ratios

---
 src/goats/core/metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 351cc0c..cd64a83 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -872,9 +872,13 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        base = term.base.replace('_', ' ')
+        quantity = 'identity' if base == '1' else base
+        if quantity not in _QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity!r}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 4fd7e3e29b263cd555973225f8303ada80adb93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:59 +0000
Subject: [PATCH 17/85] fix: search for units by any form of a dimension

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index cd64a83..14c80af 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2815,8 +2815,9 @@ class System(collections.abc.Mapping, iterables.ReprStrMixin):
         target: typing.Union[str, Dimension],
     ) -> Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        this = Dimension(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if this == dimension:
                 return Unit(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From 5f31a96cf29976dc622862e936588d1d40bd9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:30 +0000
Subject: [PATCH 18/85] fix: return the same unit for all spellings of a metric
 prefix

---
 src/goats/core/metric.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 14c80af..5a01bc7 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1117,6 +1117,10 @@ class _NamedUnitMeta(abc.ABCMeta):
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
         symbol = build_unit_symbol(magnitude._asdict(), reference._asdict())
+        if available := cls._instances.get(symbol):
+            # The argument is a variation of an existing unit (e.g., 'um').
+            cls._instances.alias(symbol, string)
+            return available
         cls._attributes[string] = {
             'prefix': magnitude,
             'base': reference,
@@ -1129,7 +1133,7 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        cls._instances[tuple({name, symbol, string})] = instance
         return instance
 
 
@@ -2044,7 +2048,11 @@ class _UnitMeta(abc.ABCMeta):
             # If `name` corresponds to a named unit register both the name and
             # symbol (e.g., 'centimeter' and 'cm').
             this = NamedUnit(name)
-            key = (this.name, this.symbol)
+            if this.symbol in cls._instances:
+                # The argument is a variation of an existing unit (e.g., 'um').
+                cls._instances.alias(this.symbol, name)
+                return cls._instances[this.symbol]
+            key = tuple({this.name, this.symbol, name})
         except UnitParsingError:
             # If attempting to parse a named unit from `name` failed, register
             # the canonical string and, if applicable, the string argument.
-- 
2.43.0


From e70454a6166bf24de57b396e59f9291b7a6627b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 19/85] fix: let quantities support in-place operators

The in-place branch unpacked the keys of the metadata and tried to assign
read-only properties, so a += b and the like always raised ValueError.
---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..3c0d95e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -138,8 +138,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f'_{k}', v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From 0c677f3369920853875e1d136962656b3606db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 20/85] fix: accept any capitalisation of a metric system as a
 unit

q['MKS'] passed the case-insensitive test but raised KeyError.
---
 src/goats/core/measurable.py | 2 +-
 src/goats/core/variable.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 3c0d95e..4b2b814 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -203,7 +203,7 @@ class Quantity(Quantified):
         relatively intuitive syntax but is arguably an abuse of notation.
         """
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self._unit:
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..58ceea9 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -579,7 +579,7 @@ class Quantity(Array):
             system as the existing unit.
         """
         this = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if this == self.unit:
-- 
2.43.0


From 887ed000b42c6bc19456237b85252a03a6783e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 21/85] fix: keep the scale of an array when copying an
 instance

An array created from a rescaled array kept the original data with unit
scale, so changing the unit of the copy lost the first conversion.
---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..f1a1ca3 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -240,8 +240,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        self._scale = getattr(__data, '_scale', 1.0)
+        self._full_array = getattr(__data, '_full_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 58ceea9..c9d3490 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -39,10 +39,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             if isinstance(__interface, measurable.Quantified)
             else __interface
         )
-        # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        # Carry the internal array and its scale from an existing instance.
+        self._full_array = getattr(__interface, '_full_array', None)
+        self._scale = getattr(__interface, '_scale', 1.0)
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From fe106a8398f4a021be6982d46119d3f1695441ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 22/85] fix: keep unit and name when creating a scalar or
 vector from an instance

---
 src/goats/core/physical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index f1a1ca3..9d8367c 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,9 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, measurable.Quantified):
+            known = [k for k in ('unit', 'name') if hasattr(__data, k)]
+            meta = {**{k: getattr(__data, k) for k in known}, **meta}
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -161,7 +164,7 @@ class Vector(Quantity):
         if isinstance(__data, measurable.Measurement):
             meta = {'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
+        elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
-- 
2.43.0


From 60050a3158c7387af25c796cc7d0465750e2484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 23/85] fix: keep the name of a quantity when changing its unit

---
 src/goats/core/measurable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 4b2b814..079c1dd 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -233,7 +233,8 @@ class Quantity(Quantified):
         object if doing so here would be inefficient.
         """
         data = self._data * (unit // self._unit)
-        return type(self)(data, unit=unit)
+        meta = {k: getattr(self, k) for k in self.meta.parameters}
+        return type(self)(data, **{**meta, 'unit': unit})
 
     def __measure__(self):
         """Create a measurement from this quantity's data and unit."""
-- 
2.43.0


From 0195dea795669932340cc2bd90791cc354cefa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 24/85] fix: accept a unit object when changing the unit of a
 vector

---
 src/goats/core/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 9d8367c..0457961 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -180,7 +180,7 @@ class Vector(Quantity):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, str):
+        if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
         if isinstance(index, typing.SupportsIndex) and index < 0:
             index += len(self)
-- 
2.43.0


From f7642bc28a5f75341e08efb9ca5edf3dff3ffbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 25/85] fix: keep indices that follow an ellipsis

a[..., [0, 1]] ignored the list whenever the ellipsis stood for a number
of axes other than one.
---
 src/goats/core/physical.py | 2 +-
 src/goats/core/variable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 0457961..d16253e 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -387,7 +387,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index c9d3490..376565c 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -169,7 +169,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 551de0774dad3c06a3b4201a985993b6c4c626b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 26/85] fix: apply slices that accompany a list of indices

a[0:1, [0, 2]] returned every row.
---
 src/goats/core/physical.py | 2 +-
 src/goats/core/variable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index d16253e..74d63df 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -368,7 +368,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             args = [args]
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
+            range(self.shape[i])[arg]
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 376565c..af4f416 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -151,7 +151,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             args = [args]
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
+            range(self.shape[i])[arg]
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
-- 
2.43.0


From 4f36126d2c07a4987c53d01f34542a5eb38b6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 27/85] fix: compute the shape of a subscripted variable from
 its indices

Mixing an integer with a stepped, negative or out-of-range slice, with an
ellipsis, or with omitted trailing axes raised ValueError.
---
 src/goats/core/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index af4f416..a473de2 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -121,10 +121,12 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         result = numpy.array(array, ndmin=self.ndim)
         if array.ndim != self.ndim:
             with contextlib.suppress(TypeError):
+                expanded = self._expand_ellipsis(indices)
                 shape = [
                     self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
+                    for i, v in enumerate(expanded)
                 ]
+                shape.extend(self.shape[len(shape):])
                 return self._copy_with(data=result.reshape(shape))
         return self._copy_with(data=result)
 
@@ -133,7 +135,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(self.shape[i])[v])
         return self.shape[i]
 
     def _normalize_indices(self, args):
-- 
2.43.0


From 9add84c248d4544a134aa36ea683e0dd6eaf4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 28/85] fix: don't truncate factors that differ in the size of
 a dimension

Multiplying or dividing variables silently dropped values when the right
operand was shorter, including v * v[0], along a shared dimension.
---
 src/goats/core/variable.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index a473de2..461d186 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -608,12 +608,21 @@ class Quantity(Array):
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
             tmp = {}
             for v in inputs:
-                tmp.update(v.shape_dict)
+                for d, n in v.shape_dict.items():
+                    if 1 not in (n, tmp.get(d, n)) and tmp.get(d, n) != n:
+                        raise ValueError(
+                            f"Inconsistent sizes of dimension {d!r}"
+                        ) from None
+                    tmp[d] = tmp[d] if n == 1 and d in tmp else n
             full_shape = tuple(tmp[d] for d in dims)
             indices = numpy.ix_(*[range(i) for i in full_shape])
             arrays = []
             for v in inputs:
-                idx = tuple(indices[dims.index(d)] for d in v.shape_dict)
+                idx = tuple(
+                    0 * indices[dims.index(d)] if n == 1
+                    else indices[dims.index(d)]
+                    for d, n in v.shape_dict.items()
+                )
                 arrays.append(v._get_array(idx))
             return arrays
         return super()._ufunc_hook(ufunc, *inputs)
-- 
2.43.0


From 8d8a510ce344f7b9631a6e63555020d98dd3625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 29/85] fix: don't order arrays that have different units

Comparing arrays in m and cm compared the bare numbers; scalar quantities
already raise ValueError.
---
 src/goats/core/physical.py | 7 +++++++
 src/goats/core/variable.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 74d63df..9dfc293 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -426,6 +426,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in {'less', 'less_equal', 'greater', 'greater_equal'}:
+            self._check_unit(*args)
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
@@ -444,6 +446,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             return None
         return self._new_from_func(data, updates=meta)
 
+    def _check_unit(self, *args):
+        """Raise an exception if `args` have different units."""
+        if not metadata.consistent('unit', *args):
+            raise ValueError("Inconsistent metadata for 'unit'")
+
     def _ufunc_hook(self, ufunc, *inputs):
         """Convert input object types based on `ufunc`."""
         if ufunc.__name__ == 'power':
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 461d186..9fffee7 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -210,6 +210,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in {'less', 'less_equal', 'greater', 'greater_equal'}:
+            self._check_unit(*args)
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
@@ -228,6 +230,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             return None
         return self._new_from_func(data, updates=meta)
 
+    def _check_unit(self, *args):
+        """Raise an exception if `args` have different units."""
+        if not metadata.consistent('unit', *args):
+            raise ValueError("Inconsistent metadata for 'unit'")
+
     def _ufunc_hook(self, ufunc, *inputs):
         """Convert input arrays into arrays appropriate to `ufunc`."""
         if ufunc.__name__ == 'power':
-- 
2.43.0


From 9f760cd1c89a1af664631b70ae3ca7d9c6efcf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 30/85] fix: build variables from the attributes that datasets
 define

The base interface read an attribute that dataset variables don't have, and
replaced the unit without converting the data.
---
 src/goats/core/variable.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 9fffee7..5aaf87e 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -708,12 +708,8 @@ class Interface(aliased.Mapping):
           overload this method in order to provide additional functionality
           (e.g., unit standardization).
         """
-        unit = __v.unit
-        return Quantity(
-            __v.data,
-            dimensions=__v.axes,
-            unit=(self.system.get_unit(unit=unit) if self.system else unit),
-        )
+        v = Quantity(__v.data, dimensions=__v.dimensions, unit=__v.unit)
+        return v[str(self.system)] if self.system else v
 
     @property
     def system(self):
-- 
2.43.0


From 479413e500880b3ee2039de75c55b0b97249f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:38 +0000
Subject: [PATCH 31/85] fix: distinguish dimensions that have different orders

Dimensions('x', 'y') == Dimensions('y', 'x') was true, in spite of different
hashes, so adding a variable and a transposed variable was not rejected.
---
 src/goats/core/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..82eb9af 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -826,9 +826,10 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __eq__(self, other):
         """True if self and other represent the same dimensions."""
+        if isinstance(other, Dimensions):
+            return other._names == self._names
         return (
-            isinstance(other, Dimensions) and other._names == self._names
-            or (
+            (
                 isinstance(other, str)
                 and len(self) == 1
                 and other == self._names[0]
-- 
2.43.0


From de4ed6674f8797f96a10a7fae42ec164ab5fe8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:38 +0000
Subject: [PATCH 32/85] fix: support any axis when squeezing or averaging a
 variable

A negative axis, and squeezing one of several singular axes, left a number
of dimensions that differs from that of the array.
---
 src/goats/core/variable.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 5aaf87e..0f4c95e 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -640,14 +640,24 @@ class Quantity(Array):
         return dict(zip(self.dimensions, self.shape))
 
 
+def _without_axis(v: Quantity, axis: int):
+    """The dimensions of `v` without the one at position `axis`."""
+    removed = range(v.ndim)[axis]
+    return tuple(a for i, a in enumerate(v.dimensions) if i != removed)
+
+
 @Quantity.implements(numpy.squeeze)
 def _squeeze(v: Quantity, **kwargs):
     """Remove singular axes."""
     data = v._array.squeeze(**kwargs)
-    dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
-    )
+    axis = kwargs.get('axis')
+    if axis is None:
+        dimensions = tuple(
+            a for a, d in zip(v.dimensions, v.shape)
+            if d != 1
+        )
+    else:
+        dimensions = _without_axis(v, axis)
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
@@ -658,9 +668,7 @@ def _mean(v: Quantity, **kwargs):
     axis = kwargs.get('axis')
     if axis is None:
         return data
-    dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
-    )
+    dimensions = _without_axis(v, axis)
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
-- 
2.43.0


From 4f2132c405041dacd1a663912cbe9d1153efa371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:08 +0000
Subject: [PATCH 33/85] fix: make array inequality the negation of equality

a == b compares whole arrays, with their attributes, but a != b compared the
bare numbers element by element.
---
 src/goats/core/physical.py | 5 +++++
 src/goats/core/variable.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 9dfc293..eb8aa7e 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -277,6 +277,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             return False
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """True if two instances are not equal."""
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
+
     def __len__(self):
         """Called for len(self)."""
         try:
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 0f4c95e..8797ceb 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -72,6 +72,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             return NotImplemented
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """True if two instances are not equal."""
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
+
     def __len__(self):
         """Called for len(self)."""
         try:
-- 
2.43.0


From 72cb180ff151d9f7e2df3ec31645b47c1879827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:54 +0000
Subject: [PATCH 34/85] fix: reject negative indices beyond the start of a
 measurement

measurement[-4] was the last of three values.
---
 src/goats/core/measurable.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 079c1dd..b31344c 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -46,8 +46,6 @@ class Measurement(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = iterables.whole(self.data[index])
         unit = str(self.unit)
         return [(value, unit) for value in values]
-- 
2.43.0


From 9901a0e39cbd5e0484ba1a6cbddd6296c9abc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:54 +0000
Subject: [PATCH 35/85] fix: measure all values and units of a measurable
 object

An iterable of objects that define __measure__ lost their units or raised
TypeError, values that followed an iterable of values were dropped, an array
with a unit could not be measured, and objects that are not measurable gave
empty or malformed measurements.
---
 src/goats/core/measurable.py | 42 +++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index b31344c..c5f57da 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -304,13 +304,15 @@ def ismeasurable(this):
         return True
     if isinstance(args, numbers.Number):
         return True
-    if not isinstance(args, iterables.whole):
+    if iterables.missing(args) or not isinstance(args, iterables.whole):
         return False
+    args = tuple(args)
     if iterables.allinstance(args, numbers.Number):
         return True
     if isinstance(args[-1], metadata.UnitLike):
-        arg0 = args[0]
-        values = arg0 if isinstance(arg0, typing.Iterable) else args[:-1]
+        values = args[:-1]
+        if len(values) == 1 and isinstance(values[0], iterables.whole):
+            values = values[0]
         if iterables.allinstance(values, numbers.Number):
             return True
     if all(ismeasurable(i) for i in args):
@@ -358,6 +360,11 @@ def parse_measurable(args, distribute: bool=False):
     # Strip redundant lists and tuples.
     unwrapped = iterables.unwrap(args)
 
+    # Handle an object that supports direct measurement.
+    if isinstance(unwrapped, _Formal):
+        measured = unwrapped.__measure__()
+        return _wrap_measurable(measured.data, str(measured.unit), distribute)
+
     # Raise an error for null input.
     if iterables.missing(unwrapped):
         raise Unmeasurable(unwrapped) from None
@@ -367,9 +374,13 @@ def parse_measurable(args, distribute: bool=False):
         result = (unwrapped, '1')
         return [result] if distribute else result
 
+    # Raise an error for anything other than a collection of objects.
+    if not isinstance(unwrapped, iterables.whole):
+        raise Unmeasurable(unwrapped) from None
+    unwrapped = tuple(unwrapped)
+
     # Count the number of distinct unit-like objects.
-    types = [type(arg) for arg in unwrapped]
-    n_units = sum(types.count(t) for t in (str, metadata.Unit))
+    n_units = sum(isinstance(arg, metadata.UnitLike) for arg in unwrapped)
 
     # Raise an error for multiple units.
     if n_units > 1:
@@ -384,11 +395,17 @@ def parse_measurable(args, distribute: bool=False):
     if all(isinstance(arg, numbers.Number) for arg in unwrapped):
         return _wrap_measurable(unwrapped, '1', distribute)
 
-    # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, iterables.whole) for arg in unwrapped):
+    # Recursively handle an iterable of distinct items.
+    distinct = (numbers.Number, iterables.whole, _Formal)
+    if all(
+        isinstance(arg, distinct) and not isinstance(arg, metadata.UnitLike)
+        for arg in unwrapped
+    ):
         return _callback_parse(unwrapped, distribute)
 
     # Ensure an explicit unit-like object
+    if not isinstance(unwrapped[-1], metadata.UnitLike):
+        raise Unmeasurable(unwrapped) from None
     unit = ensure_unit(unwrapped)
 
     # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
@@ -396,8 +413,13 @@ def parse_measurable(args, distribute: bool=False):
         return _wrap_measurable(unwrapped[:-1], unit, distribute)
 
     # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-    if isinstance(unwrapped[0], (list, tuple, range)):
-        return _wrap_measurable(unwrapped[0], unit, distribute)
+    values = unwrapped[0]
+    if len(unwrapped) == 2 and isinstance(values, iterables.whole):
+        if iterables.allinstance(values, numbers.Number):
+            return _wrap_measurable(values, unit, distribute)
+
+    # Raise an error for anything else.
+    raise Unmeasurable(unwrapped) from None
 
 
 def _wrap_measurable(values, unit, distribute: bool):
@@ -430,7 +452,7 @@ def _callback_parse(unwrapped, distribute: bool):
 def ensure_unit(args):
     """Extract the given unit or assume the quantity is unitless."""
     last = args[-1]
-    implicit = not any(isinstance(arg, (str, metadata.Unit)) for arg in args)
+    implicit = not any(isinstance(arg, metadata.UnitLike) for arg in args)
     explicit = last in ['1', metadata.Unit('1')]
     if implicit or explicit:
         return '1'
-- 
2.43.0


From d17ed56ead754fa8f63dfed93896853d2884f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 36/85] fix: make the hash of a group of aliases independent of
 order

Equal groups could have different hashes, so that merging two mappings kept
both values of a key and returned the outdated one.
---
 src/goats/core/aliased.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..2907167 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
@@ -628,13 +628,8 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         
         Notes
         -----
-        Checking ``key in self.as_dict`` doesn't always work because `dict`
-        look-up will first compare the key's hash value to those of existing
-        keys before comparing the key itself. This may fail in the first stage
-        due to the fact that `MappingKey.__hash__` uses `tuple.__hash__`, which
-        depends on order, despite the fact that the second stage should pass
-        because `MappingKey.__eq__` does not depend on order. See
-        https://stackoverflow.com/q/327311/4739101.
+        This returns the existing key, rather than `target`, since they may be
+        equal without being identical.
         """
         try:
             found = next(key for key in self.as_dict if key == target)
-- 
2.43.0


From 0868a9b2a677769755af482eaa958b825395e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 37/85] fix: keep groups of aliases disjoint when merging them

Merging compared new groups to the original groups only, so that a member
could end up in two groups, and merging two groups with one existing group
raised ValueError. Looking up or adding members treated them as strings.
---
 src/goats/core/aliased.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 2907167..40710d2 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -151,27 +151,22 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not g.isdisjoint(merged)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        new = Group(__x)
+        for i in new:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(new)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
@@ -189,9 +184,11 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         If it finds a match, it will immediately return it (i.e., without
         checking other keys).
         """
-        s = str(__x)
         m = Group(__x)
-        alias = (k for k in self._groups if s in k or m == k)
+        alias = (
+            k for k in self._groups
+            if (isinstance(__x, typing.Hashable) and __x in k) or m == k
+        )
         return next(alias, default)
 
     def without(self, *keys: typing.Union[_KT, Group[_KT]]):
-- 
2.43.0


From 861d0e65c6f088663bfc2dac51533cc7076b1e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 38/85] fix: don't partially register aliases

If one of several new aliases was in use, those before it were registered
nonetheless. Repeating an alias of the same key is not an error.
---
 src/goats/core/aliased.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 40710d2..c80daab 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -865,18 +865,23 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
+        value = self[key]
+        resolved = self._resolve(key)
+        new = [a for a in aliases if a not in resolved]
+        for alias in new:
             if alias in self._flat_keys():
-                current = super().alias(key)
+                current = super().alias(alias)
                 this = ", ".join(str(a) for a in current)
                 if len(current) > 1:
                     this = f'({this})'
                 raise KeyError(
-                    f"'{key}' is already an alias for {this!r}"
+                    f"'{alias}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+        if not new:
+            return
+        del self[key]
+        self.as_dict[resolved | new] = value
+        self._refresh()
 
 
 class NameMap(iterables.MappingBase):
-- 
2.43.0


From 0efac9682bacbfbe375dbac03834612a1e8e2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 39/85] fix: iterate over the names of an inverted name map

An inverted map iterated over the aliases, which it no longer contains, and
definitions of names that are not in the references raised TypeError.
---
 src/goats/core/aliased.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index c80daab..03e4f49 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -952,7 +952,8 @@ class NameMap(iterables.MappingBase):
         namemap = MutableMapping(identity)
         updates = self._get_aliases(names, aliases, key)
         for current, new in updates.items():
-            namemap.alias(current, *new)
+            if current in namemap:
+                namemap.alias(current, *new)
         return Mapping(namemap)
 
     def _get_aliases(self, names, these: AliasDefinitions, key):
@@ -995,6 +996,7 @@ class NameMap(iterables.MappingBase):
             for aliases, name in self._mapping.items(aliased=True)
         }
         self._mapping = Mapping(inverted)
+        self._collection = self._mapping.keys()
         return self
 
     def __getitem__(self, key: str):
-- 
2.43.0


From 6ca7c0a85f1844f8f05cfa23e9f58a756ca92c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:01 +0000
Subject: [PATCH 40/85] fix: respect the bound when finding the nearest value

The search for a value that satisfies the bound stepped through the array
from the nearest value, assuming ascending order: it returned a value that
violates the bound (or a negative index) for other arrays, and failed for
arrays with more than one dimension.
---
 src/goats/core/numerical.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 8b97a0b..dc0eac6 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -107,19 +107,13 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
-    if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
-    elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+    distance = numpy.abs(array - target)
+    if bound in ('lower', 'upper'):
+        allowed = array >= target if bound == 'lower' else array <= target
+        if numpy.any(allowed):
+            # Only consider values that satisfy the constraint.
+            distance = numpy.where(allowed, distance, numpy.inf)
+    index = distance.argmin()
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 71f416e62350d01c91a83e1fd86ae92ff8ed3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:01 +0000
Subject: [PATCH 41/85] fix: cast objects of any type

cast(None, strict=False) and the like raised instead of returning.
---
 src/goats/core/numerical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index dc0eac6..8606f67 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -154,7 +154,7 @@ def cast(
     for t in types:
         try:
             return t(arg)
-        except ValueError:
+        except (TypeError, ValueError):
             pass
     if strict:
         raise TypeError(f"Can't convert {arg!r} to a number") from None
-- 
2.43.0


From 5f55fcc1c866e219780875ff4e8e1b79ce633c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:42 +0000
Subject: [PATCH 42/85] fix: interpolate every row of a two-dimensional
 reference

When the target was one of the reference values, the result came from the
single row that contains it instead of from every row, and when the target
bounded a single column of several rows (or the data had other singular
dimensions), the result had the wrong shape or the interpolation failed.
---
 src/goats/core/interpolation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..a57bc0a 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -119,8 +119,8 @@ def _apply_interp1d(
     else:
         ref = reference
         arr = array
-    # NOTE: If `ref.size == 1`, the restriction process constrained the
-    # reference array to a single value. There is no point in attempting to
+    # NOTE: If `ref.shape[-1] == 1`, the restriction process constrained the
+    # reference array to a single value (per row). There is no point in attempting to
     # interpolate over a single reference value since interpolation will fail
     # with fewer than two interpolant values. This may mean that `target` is
     # numerically outside the range of `reference`, which could lead to
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[-1] == 1:
+            return arr[:, 0]
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From c33c7819ded301cce208aa67575091955cba4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:43 +0000
Subject: [PATCH 43/85] fix: interpolate over the last axis of any reference
 array

The interpolation axis of 'mu' was 1 even though its reference array has a
single axis, so observing at any other pitch angle failed. Likewise for
datasets with a one-dimensional energy array.
---
 src/goats/eprem/__init__.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..43a53fb 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -446,12 +446,6 @@ class Context(observing.Context):
         ]
         return q[tuple(indices)]
 
-    _axis_indices = {
-        'time': 0,
-        'energy': 1,
-        'mu': 1,
-    }
-
     def _compute_interpolants(self, q: variable.Quantity):
         """Determine the coordinate axes over which to interpolate."""
         coordinates = {}
@@ -468,7 +462,7 @@ class Context(observing.Context):
                         'reference': self.coordinates[dimension],
                     }
         interpolants = {
-            k: {**c, 'axis': self._axis_indices.get(k)}
+            k: {**c, 'axis': c['reference'].ndim - 1}
             for k, c in coordinates.items()
         }
         if 'shell' not in q.dimensions:
-- 
2.43.0


From 4e3a2f9649821b51e0b7928f121d619b513f64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:43 +0000
Subject: [PATCH 44/85] fix: interpolate over time and radius

The time-dependent reference radius was paired with data that had already
been interpolated in time, and, when there were no other dimensions, the
result was subscripted again with the original indices.
---
 src/goats/eprem/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 43a53fb..e429cd8 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -492,7 +492,13 @@ class Context(observing.Context):
     ) -> variable.Quantity:
         """Internal interpolation logic."""
         array = None
-        for coordinate in coordinates.values():
+        # Interpolate over multidimensional references first because they
+        # relate to the original (uninterpolated) axes.
+        ordered = sorted(
+            coordinates.values(),
+            key=lambda coordinate: -coordinate['reference'].ndim,
+        )
+        for coordinate in ordered:
             array = self._interpolate_coordinate(
                 q,
                 coordinate['targets'],
@@ -508,7 +514,7 @@ class Context(observing.Context):
             for d in coordinates
         ]
         dimensions = list(set(q.dimensions) - set(interpolated))
-        return self._subscript(base, *dimensions)
+        return self._subscript(base, *dimensions) if dimensions else base
 
     def _interpolate_coordinate(
         self,
-- 
2.43.0


From 5a65a9c05733a8bd17e818ffc74b0223016bddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:43 +0000
Subject: [PATCH 45/85] fix: associate axis values with the given indices

When the user selected a subset of an axis by index, the axis values were
those of the entire axis.
---
 src/goats/eprem/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index e429cd8..b2db531 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -218,7 +218,8 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                values = [symbols[i] for i in indices]
+                return index.Data(indices, values=values)
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +237,8 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                values = numpy.array(converted)[list(targets)]
+                return index.Data(targets, values=values)
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From 788f2383b9934818465780d7bceb14ac7201fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:43 +0000
Subject: [PATCH 46/85] fix: reject axis values with an inconsistent unit

For example, a time of 10 m was taken to be 10 s.
---
 src/goats/eprem/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index b2db531..06fb883 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -253,9 +253,8 @@ class Axes(aliased.Mapping):
                 # which may be dimensionless, the default unit is the
                 # appropriate unit for both cases.
                 array = physical.Array(measured.data, unit=unit)
-            if array.unit | converted.unit: # Could also use try/except
-                array = array[converted.unit]
-            values = numpy.array(array)
+            # This will raise an exception if the units are inconsistent.
+            values = numpy.array(array[converted.unit])
             indices = [
                 numerical.find_nearest(converted, float(value)).index
                 for value in values
-- 
2.43.0


From b75fbc76de2e5feab5656f1a4e02c53f7df8d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 47/85] fix: consider inserting a letter at the end of a
 misspelled word

---
 src/goats/core/spelling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..c5ca806 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -78,7 +78,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
-- 
2.43.0


From 6e5f76c2861ffbcd50e5127041206f16045c8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 48/85] fix: check the spelling of unknown observables

The known words were groups of aliases, so the spelling checker never found
a match, and looking up a second unknown name raised a TypeError.
---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..12523cc 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,7 +91,7 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = set(self.context.keys)
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-- 
2.43.0


From 45e5e698ed2f87553802f0106c869b477a96e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 49/85] fix: apply the first exponent when composing metadata

The unit of a composed observable such as 'Vr^2 / Br' ignored the exponent
of the first term, so observing it failed.
---
 src/goats/core/observing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..75b0b35 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -409,9 +409,11 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         expression = symbolic.Expression(reference.NAMES.get(s, s))
         term = expression[0]
         built = self.get_attribute(name, term.base)
-        if len(expression) > 1:
-            for term in expression[1:]:
-                built *= self.get_attribute(name, term.base)**term.exponent
+        if built is None:
+            return None
+        built = built**term.exponent
+        for term in expression[1:]:
+            built *= self.get_attribute(name, term.base)**term.exponent
         return built
 
     def get_attribute(self, name: str, target: str):
-- 
2.43.0


From 29e053f256acbb68ca05885ba8f6600d8e46d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 50/85] fix: accept the name of a metric system in any case

As for other measurable quantities.
---
 src/goats/core/axis.py      | 2 +-
 src/goats/core/index.py     | 2 +-
 src/goats/core/observing.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..003d9df 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -150,7 +150,7 @@ class Quantity(iterables.ReprStrMixin):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 7be25c9..266c2ac 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -169,7 +169,7 @@ class Array(Quantity):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 75b0b35..2ba60b4 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -517,7 +517,7 @@ class Observable:
     def __getitem__(self, __x: metadata.UnitLike):
         """Create a quantity with the new unit."""
         unit = (
-            self.unit.norm[__x]
+            self.unit.norm[str(__x).lower()]
             if str(__x).lower() in metric.SYSTEMS else __x
         )
         self._target = None
-- 
2.43.0


From 949f7d44921ad42d4fe1cd783e9737e6c1fdf71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 51/85] fix: convert the values of an index array to a
 consistent unit

Values in a tuple or list failed to convert and inconsistent units did not
raise the documented exception.
---
 src/goats/core/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 266c2ac..dad5a9d 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -175,8 +175,8 @@ class Array(Quantity):
         if unit == self.unit:
             return self
         new = metadata.Unit(unit)
-        values = self.values * (new // self.unit)
         if self.unit | new:
+            values = numpy.array(self.values) * (new // self.unit)
             return type(self)(
                 Data(self._points, values=values),
                 unit=new,
-- 
2.43.0


From 0fc975fc67b648b094b3c6c87529739f22c09751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 52/85] fix: compute the angle between magnetic field and
 velocity

The argument of the arccosine was B.V / (|B| |V|^2).
---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..09d83ce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = br*vr + bt*vt + bp*vp
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From d244a22c61926a5372668a0ad99a0c2ba8011f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 53/85] fix: use the mass and charge of each species in the
 rigidity

Arrays of masses and charges lined up with the energies instead of with the
species of an array of energies.
---
 src/goats/core/computed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 09d83ce..87fa8f9 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,6 +182,9 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
+    # Align arrays of masses and charges with the leading axis of `energy`.
+    mass = numpy.array(mass)[..., None]
+    charge = numpy.array(charge)[..., None]
     total_energy = numpy.array(energy, ndmin=1) + mass*c**2
     rest_energy = mass*c**2
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
-- 
2.43.0


From 7af35106c0a8f15966dd904bc60a1f5548391d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:31 +0000
Subject: [PATCH 54/85] fix: select the axis indices that a slice selects

A slice with a stop of zero selected the whole axis, negative bounds
selected nothing (or the wrong indices) and a stop beyond the end of the
axis produced indices that do not exist.
---
 src/goats/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 003d9df..3324003 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -42,7 +42,7 @@ class Indexer(iterables.ReprStrMixin):
         if not user:
             return range(self.size)
         if isinstance(user[0], slice):
-            return iterables.slice_to_range(user[0], stop=self.size)
+            return range(*user[0].indices(self.size))
         if isinstance(user[0], range):
             return user[0]
         return user
-- 
2.43.0


From cf7036f276cc5319b312bf3a7215907c1a901c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 55/85] fix: index the energy axis of a dataset with a single
 energy

Squeezing every singular axis left no axis to index.
---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 06fb883..c61f056 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -194,11 +194,14 @@ class Axes(aliased.Mapping):
             ) -> index.Data:
                 s = self.species.compute([species]).points
                 t = (
-                    numpy.squeeze(targets[s, :])
+                    numpy.squeeze(targets[s, :], axis=0)
                     if getattr(targets, 'ndim', None) == 2
                     else targets
                 )
-                array = numpy.squeeze(this[s, :]) if this.ndim == 2 else this
+                array = (
+                    numpy.squeeze(this[s, :], axis=0)
+                    if this.ndim == 2 else this
+                )
                 compute = self._build_coordinate(array)
                 return compute(t, unit)
             size = this.shape[this.ndim-1]
-- 
2.43.0


From ccfcb3fed1618e2498d56d2dd332804415b123bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 56/85] fix: interpolate only at the observed indices of the
 other axes

Interpolating to a radius at one time failed if the radius was outside of
the range of shells at another time. The reference values of a species
that is not observed decided whether or not to interpolate to an energy.
---
 src/goats/eprem/__init__.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index c61f056..55f85f1 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -456,8 +456,10 @@ class Context(observing.Context):
         for dimension in q.dimensions:
             idx = self.get_index(dimension)
             if idx and idx.unit is not None:
+                others = [d for d in q.dimensions if d != dimension]
+                this = self._restrict(self.coordinates[dimension], others)
                 contained = [
-                    self.coordinates[dimension].array_contains(target)
+                    this.array_contains(target)
                     for target in idx.values
                 ]
                 if not numpy.all(contained):
@@ -496,6 +498,14 @@ class Context(observing.Context):
     ) -> variable.Quantity:
         """Internal interpolation logic."""
         array = None
+        interpolated = [
+            'shell' if d == 'radius' else d
+            for d in coordinates
+        ]
+        # Extract the observed subset of the uninterpolated axes, so that each
+        # target only needs to be within the observed reference values.
+        remaining = [d for d in q.dimensions if d not in interpolated]
+        q = self._restrict(q, remaining)
         # Interpolate over multidimensional references first because they
         # relate to the original (uninterpolated) axes.
         ordered = sorted(
@@ -506,19 +516,16 @@ class Context(observing.Context):
             array = self._interpolate_coordinate(
                 q,
                 coordinate['targets'],
-                coordinate['reference'],
+                self._restrict(coordinate['reference'], remaining),
                 axis=coordinate.get('axis'),
                 workspace=array,
             )
         meta = {k: getattr(q, k, None) for k in q.meta.parameters}
-        base = type(q)(array, **meta)
-        interpolated = [
-            # We only want to subscript the uninterpolated axes.
-            'shell' if d == 'radius' else d
-            for d in coordinates
-        ]
-        dimensions = list(set(q.dimensions) - set(interpolated))
-        return self._subscript(base, *dimensions) if dimensions else base
+        return type(q)(array, **meta)
+
+    def _restrict(self, q: variable.Quantity, dimensions: typing.List[str]):
+        """Extract a subset of this quantity along the given dimensions only."""
+        return self._subscript(q, *dimensions) if dimensions else q
 
     def _interpolate_coordinate(
         self,
-- 
2.43.0


From ea2f5454a4dc71bfa80758801efa0622a0ffbb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:49 +0000
Subject: [PATCH 57/85] fix: observe every species at its own energies

An energy among those of one species counted as an energy of the other
species, which were observed at the same index instead of being
interpolated, and the values of the energy axis were always those of the
first species.
---
 src/goats/eprem/__init__.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 55f85f1..58311dc 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -459,10 +459,13 @@ class Context(observing.Context):
                 others = [d for d in q.dimensions if d != dimension]
                 this = self._restrict(self.coordinates[dimension], others)
                 contained = [
-                    this.array_contains(target)
-                    for target in idx.values
+                    numpy.isclose(target, array, atol=0.0)
+                    for target, array in zip(
+                        idx.values,
+                        numpy.array(this)[..., list(idx)].T,
+                    )
                 ]
-                if not numpy.all(contained):
+                if not numpy.all(contained) and self._has_values(dimension):
                     coordinates[dimension] = {
                         'targets': numpy.array(idx.values),
                         'reference': self.coordinates[dimension],
@@ -491,6 +494,14 @@ class Context(observing.Context):
                 }
         return interpolants
 
+    def _has_values(self, dimension: str):
+        """True if there are constraints other than indices on `dimension`."""
+        this = self.constraints.get(dimension, ())
+        return isinstance(this, index.Quantity) or not all(
+            isinstance(i, (slice, typing.SupportsIndex))
+            for i in iterables.whole(this)
+        )
+
     def interpolate(
         self,
         q: variable.Quantity,
@@ -580,12 +591,16 @@ class Context(observing.Context):
         """Compute the axis-indexing object for `key`."""
         if key not in self.axes:
             raise ContextKeyError(f"No axis corresponding to {key!r}") from None
+        kwargs = {}
+        if key in reference.ALIASES.find('energy') and 'species' in self.axes:
+            # The values of the energy axis depend on the species.
+            kwargs['species'] = self.get_index('species')[0]
         if key not in self.constraints:
-            return self.axes[key].index()
+            return self.axes[key].index(**kwargs)
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
-        return self.axes[key].index(*iterables.whole(this))
+        return self.axes[key].index(*iterables.whole(this), **kwargs)
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
         """Get the parameter value correpsonding to `key`."""
-- 
2.43.0


From 929d12b22cd908c54fb25896979d7713bc4e53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:44 +0000
Subject: [PATCH 58/85] fix: compute quantities from the MKS values of their
 dependencies

The registered functions assume MKS values (and use MKS constants), but
received values in the metric system of the observer.
---
 src/goats/core/computed.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 87fa8f9..14582e6 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -441,19 +441,23 @@ class Method(collections.abc.Mapping, iterables.ReprStrMixin):
         return self.callable(*self.parse(dependencies))
 
     def parse(self, dependencies: typing.Mapping):
-        """Extract arrays and floats from `dependencies`."""
+        """Extract arrays and floats from `dependencies`.
+        
+        The values are those of each dependency in the MKS system, since that is
+        the system that the registered functions assume.
+        """
         arrays = []
         floats = []
         for name in self.parameters:
             arg = dependencies[name]
             if isinstance(arg, variable.Quantity):
-                arrays.append(numpy.array(arg))
+                arrays.append(numpy.array(arg['mks']))
             elif isinstance(arg, physical.Scalar):
-                floats.append(float(arg))
+                floats.append(float(arg['mks']))
             elif (
                 isinstance(arg, typing.Iterable)
                 and all(isinstance(a, physical.Scalar) for a in arg)
-            ): floats.extend([float(a) for a in arg])
+            ): floats.extend([float(a['mks']) for a in arg])
         return *arrays, *floats
 
     def __len__(self):
@@ -523,11 +527,12 @@ class Quantity(iterables.ReprStrMixin):
 
     def __call__(self, **quantities):
         """Create a variable quantity from input quantities."""
-        return variable.Quantity(
+        result = variable.Quantity(
             self.method.compute(**quantities),
             dimensions=self.dimensions,
-            unit=self.unit,
+            unit=self.unit.norm['mks'],
         )
+        return result[self.unit]
 
     def __str__(self) -> str:
         attrs = [
-- 
2.43.0


From ebd4a014667c22c2d693cf7cc73f14dc92724d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:59 +0000
Subject: [PATCH 59/85] fix: correct the CGS value of the first radiation
 constant

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From 779054d3bee4e260320d704ae55869958c82a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:19 +0000
Subject: [PATCH 60/85] fix: parse config-file lines with spaces or with inline
 comments

The parser kept spaces around the name of a parameter, which hid the
user's value, and rejected blank lines, indented comments, and inline
comments that contain an equals sign.
---
 src/goats/eprem/runtime.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..1bd88a8 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,11 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = iotools.strip_inline_comments(line, self.comments)
+                if not line:
                     continue
-                key, _tmp = line.split('=')
-                value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                key, value = line.split('=', 1)
+                pairs[key.strip()] = value.strip()
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From cb9d71c13be084743a232d1f838d7d72784a5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:19 +0000
Subject: [PATCH 61/85] fix: allow run parameters to be zero

A parameter whose definition evaluates to zero (e.g., a stop time equal
to the sum of a start time and a duration) raised TypeError.
---
 src/goats/eprem/runtime.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 1bd88a8..4976b69 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -682,7 +682,8 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -702,7 +703,8 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
@@ -899,7 +901,8 @@ class Interface(aliased.Mapping[str, _VT]):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -919,7 +922,8 @@ class Interface(aliased.Mapping[str, _VT]):
         """Split a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
-- 
2.43.0


From c858cb7d2ab3fbba325d82bae63ed87c5fa1860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:19 +0000
Subject: [PATCH 62/85] fix: use the given options to read the runtime config
 file

---
 src/goats/eprem/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 4976b69..955ef14 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -846,7 +846,7 @@ class Interface(aliased.Mapping[str, _VT]):
         `pathlib.Path`), may be relative, and may contain standard wildcard
         characters (e.g., `~`).
         """
-        runtime = Runtime(config_path=path)
+        runtime = Runtime(config_path=path, **opts)
         values = {key: info.get('default') for key, info in _LOCAL.items()}
         values.update(dict(runtime))
         keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
-- 
2.43.0


From 9ae8245c575637584b36a7cc3f2108820c392e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:56 +0000
Subject: [PATCH 63/85] fix: use the units of EPREM for the flow and shock
 speeds

Their default values (e.g., 400.0e5) are speeds in cm/s.
---
 src/goats/eprem/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 955ef14..af52e60 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1042,7 +1042,7 @@ _CONFIGURATION_C = {
     },
     'flowMag': {
         'aliases': [],
-        'unit': 'km/s',
+        'unit': 'cm/s',
     },
     'mhdDensityAu': {
         'aliases': [],
@@ -1134,7 +1134,7 @@ _CONFIGURATION_C = {
     },
     'idealShockSpeed': {
         'aliases': [],
-        'unit': 'km/s',
+        'unit': 'cm/s',
     },
     'idealShockInitTime': {
         'aliases': [],
-- 
2.43.0


From 38ecc72de61f0ff108e425df5868f2804a545d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 64/85] fix: call a table request ambiguous when it is

The search counted how often the last requested value occurs in the
entire table, so that it rejected requests with a unique result and
reported ambiguous requests as missing.
---
 src/goats/core/iterables.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ce86da7..feed9dc 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1096,22 +1096,19 @@ class Table(MappingBase):
             search.
         """
         subset = [*self._entries]
-        for n_checked, pair in enumerate(request.items(), start=1):
-            key, value = pair
+        for key, value in request.items():
             if key not in self.keys:
                 raise TableKeyError(key)
             subset = [
                 entry for entry in subset
                 if entry[key] == value
             ]
-            if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
-                if len(subset) == 1:
-                    return subset[0]
+            if not strict and len(subset) == 1:
+                return subset[0]
         if strict and len(subset) == 1:
             return subset[0]
+        if not strict and len(subset) > 1:
+            raise AmbiguousRequestError(request)
         raise TableLookupError(request)
 
 
-- 
2.43.0


From 56b8ee88c01ec6145adf3d06d8c3cc985d5ab5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 65/85] fix: substitute values for subclasses of a guarded
 exception

---
 src/goats/core/iterables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index feed9dc..7d3e964 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1668,7 +1668,10 @@ class Guard:
         try:
             return self._call(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
+            value = next(
+                self._substitutions[t] for t in type(err).__mro__
+                if t in self._substitutions
+            )
             if value != Ellipsis:
                 return value
             if not kwargs:
-- 
2.43.0


From 89402a498e8223155efba37e2edf47362c3f3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 66/85] fix: do not replace a registered object with a default
 key

---
 src/goats/core/iterables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 7d3e964..796c057 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -851,8 +851,10 @@ class ObjectRegistry(collections.abc.Mapping):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
+                new_default_key = proposed
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
-- 
2.43.0


From 300df26a9e22b44eb4fb5b04b7e27bb2bc8afa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 67/85] fix: make read-only paths read-only

Instances were ordinary paths, so none of the methods that prevent
writing applied to them, and only one of the modes that allow writing
was rejected.
---
 src/goats/core/iotools.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..feb6d26 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -54,7 +54,7 @@ class ReadOnlyPathError(Exception):
         return f"Objects of type {self._obj} are read-only."
 
 
-class ReadOnlyPath(pathlib.Path):
+class ReadOnlyPath(type(pathlib.Path())):
     """A wrapper for read-oriented paths.
     
     This class creates ``pathlib.Path`` objects intended for reading. The instance path is fully resolved with the user wildcard expanded, and raises an exception if the requested path does not exist. 
@@ -70,20 +70,16 @@ class ReadOnlyPath(pathlib.Path):
 
     def __new__(cls, *args, **kwargs):
         """Create a new path object of the appropriate type."""
-        _type = (
-            pathlib.WindowsPath if os.name == 'nt'
-            else pathlib.PosixPath
-        )
-        path = super().__new__(_type, *args, **kwargs)
+        path = super().__new__(cls, *args, **kwargs)
         inst = path.expanduser().resolve()
         if not inst.exists():
             raise NonExistentPathError(inst)
         return inst
 
-    def open(self, *args, **kwargs):
-        if 'w' in args:
+    def open(self, mode='r', *args, **kwargs):
+        if any(c in mode for c in 'wax+'):
             raise ReadOnlyPathError(self.__class__)
-        return super().open(*args, **kwargs)
+        return super().open(mode, *args, **kwargs)
 
     def write_bytes(self, *args, **kwargs):
         raise ReadOnlyPathError(self.__class__)
-- 
2.43.0


From 02c358276c744661ce0c8ef4f4ed0112c583463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 68/85] fix: access the value of a single-valued argument

Indexing a physical argument with a single value failed, and a string
counted as one value per character, so that, e.g., int(Argument('34'))
raised an exception.
---
 src/goats/core/operational.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..8e724db 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -153,14 +153,14 @@ class Argument:
     def _cast_to(self, __type: typing.Type[T]) -> T:
         """Internal method for casting to numeric type."""
         try:
-            nv = len(self.data)
+            nv = len(self._data)
         except TypeError:
             nv = 0
         if nv > 1:
             errmsg = f"Can't convert data with {nv} values to {__type}"
             raise NumericCastError(errmsg) from None
         if nv == 1:
-            return __type(self.data[0])
+            return __type(self._data[0])
         try: # nv == 0
             return __type(self.data)
         except ValueError as err:
@@ -169,14 +169,14 @@ class Argument:
     def __iter__(self) -> typing.Iterator:
         """Called for iter(self)."""
         try:
-            return iter(self.data)
+            return iter(self._data)
         except TypeError:
             return iter([self.data])
 
     def __len__(self) -> int:
         """Called for len(self)."""
         try:
-            return len(self.data)
+            return len(self._data)
         except TypeError:
             return 1
 
@@ -184,7 +184,7 @@ class Argument:
         """Called for index-based value access."""
         if isinstance(index, typing.SupportsIndex) and index < 0:
             index += len(self)
-        data = self.data[index]
+        data = self._data[index] if self.unit else self.data[index]
         try:
             iter(data)
         except TypeError:
-- 
2.43.0


From 23d76e9903396212bf7d3c937ea4ffd4a4b21145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 69/85] fix: compare arguments with more than one value

Testing the truth or the equality of such arguments raised ValueError,
and an argument without a unit was equal to one with a unit, but not
vice versa.
---
 src/goats/core/operational.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index 8e724db..bd5eb21 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -136,7 +136,7 @@ class Argument:
             return True
         if isinstance(self.data, str):
             return bool(self.data.strip())
-        return bool(self.data)
+        return not iterables.missing(self.data)
 
     def __float__(self):
         """Represent a single-valued physical argument as a `float`."""
@@ -216,10 +216,12 @@ class Argument:
     def __eq__(self, other):
         """Called for self == other."""
         if isinstance(other, Argument):
-            same_data = other.data == self.data
-            if self.unit:
-                return same_data and other.unit == self.unit
-            return same_data
+            if (self.unit is None) != (other.unit is None):
+                return False
+            same_data = numpy.array_equal(other.data, self.data)
+            return same_data and other.unit == self.unit
+        if len(self) > 1:
+            return numpy.array_equal(other, self.data)
         return other == self.data
 
     def __repr__(self) -> str:
-- 
2.43.0


From 7d8dd751640695e9473fb8bd8a5c9d09e5fe0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 70/85] fix: give a unit to the given mass and charge of a
 species

---
 src/goats/core/plasma.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/plasma.py b/src/goats/core/plasma.py
index 8769276..efa3f6c 100644
--- a/src/goats/core/plasma.py
+++ b/src/goats/core/plasma.py
@@ -22,7 +22,10 @@ class Species(iterables.ReprStrMixin):
     def symbol(self) -> str:
         """The elemental symbol of this species."""
         if self._symbol is None:
-            s = fundamental.elements([self._mass], [self._charge])
+            s = fundamental.elements(
+                [float(self._mass)],
+                [float(self._charge)],
+            )
             self._symbol = s[0]
         return self._symbol
 
@@ -32,7 +35,9 @@ class Species(iterables.ReprStrMixin):
         if self._mass is None:
             base = self._symbol.rstrip('+-')
             element = fundamental.ELEMENTS.find(base, unique=True)
-            value = element['mass']
+            self._mass = element['mass']
+        if not isinstance(self._mass, physical.Scalar):
+            value = self._mass
             unit = 'nucleon'
             aliases = ['m', 'mass']
             self._mass = physical.Scalar(value, unit=unit, name=aliases)
@@ -49,7 +54,9 @@ class Species(iterables.ReprStrMixin):
         if self._charge is None:
             base = self._symbol.rstrip('+-')
             sign = self._symbol.lstrip(base)
-            value = sum(float(f"{s}1.0") for s in sign)
+            self._charge = sum(float(f"{s}1.0") for s in sign)
+        if not isinstance(self._charge, physical.Scalar):
+            value = self._charge
             unit = 'e'
             aliases = ['q', 'charge']
             self._charge = physical.Scalar(value, unit=unit, name=aliases)
-- 
2.43.0


From 49438377d8c428c70e0c540823fa279438b91441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 71/85] fix: read the given config files when comparing them

The comparison looked for each file in the current directory.
---
 src/goats/eprem/runtime.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index af52e60..6b43e45 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1588,7 +1588,7 @@ def _build_arg_dict(
     """Build a `dict` of parameter values."""
     default = Interface()
     paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    targets = {name: Interface(path) for name, path in paths.items()}
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1609,12 +1609,10 @@ def _build_arg_dict(
 
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+    """Map each of `paths`, without their common ancestor, to its full path."""
+    these = [iotools.ReadOnlyPath(f) for f in paths]
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From 9bae0ab364a121505c7ab06898658346f4e83574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 72/85] fix: compare config files without differences

---
 src/goats/eprem/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 6b43e45..44a227d 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1549,6 +1549,8 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not any(args.values()):
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
-- 
2.43.0


From 753ee9830348970daa9435bb982bf56208632a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:16 +0000
Subject: [PATCH 73/85] fix: keep the supported types when copying an operation

---
 src/goats/core/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 82eb9af..610d72e 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -210,11 +210,15 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
 
     def copy(self):
         """Create a deep copy of this operation."""
-        return Operation(
+        new = Operation(
             self._type,
             *self.parameters,
             name=self.name,
         )
+        new.supported = self.supported.copy()
+        new.suppressed = self.suppressed.copy()
+        new.nargs = self.nargs
+        return new
 
     def update(self, *parameters: str):
         """Update the names of metadata attributes."""
-- 
2.43.0


From eb2ba1c4b5dc4ff23fe288e35e6c53607b94cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:16 +0000
Subject: [PATCH 74/85] fix: compare dimensions to the names of axes in order

---
 src/goats/core/metadata.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 610d72e..ba80e49 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -832,17 +832,13 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
         """True if self and other represent the same dimensions."""
         if isinstance(other, Dimensions):
             return other._names == self._names
+        if isinstance(other, str):
+            return self._names == (other,)
+        if isinstance(other, collections.abc.Set):
+            return other == set(self._names)
         return (
-            (
-                isinstance(other, str)
-                and len(self) == 1
-                and other == self._names[0]
-            )
-            or (
-                isinstance(other, typing.Iterable)
-                and len(other) == len(self)
-                and all(i in self for i in other)
-            )
+            isinstance(other, typing.Iterable)
+            and tuple(other) == self._names
         )
 
     def __hash__(self):
-- 
2.43.0


From 6a1677c5cbde30f5a444871f4a78d74130b9ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:16 +0000
Subject: [PATCH 75/85] fix: create one instance for each path

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index feb6d26..7995eef 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From 5449eaef30710cbda9590edeb5ac3a2dd1dbb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:43 +0000
Subject: [PATCH 76/85] fix: convert an assumption to any unit-like object

---
 src/goats/core/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/constant.py b/src/goats/core/constant.py
index 1eb62bd..be6ae63 100644
--- a/src/goats/core/constant.py
+++ b/src/goats/core/constant.py
@@ -16,7 +16,7 @@ class Assumption(physical.Vector):
     """
 
     def __getitem__(self, arg):
-        if isinstance(arg, str):
+        if isinstance(arg, metadata.UnitLike):
             return super().__getitem__(arg)
         values = super().__getitem__(arg)
         try:
-- 
2.43.0


From 2de7a9693e3811bfa453653337231fb8709ed8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 77/85] fix: reject negative indices outside of an argument

---
 src/goats/core/operational.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index bd5eb21..df89eef 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -182,8 +182,6 @@ class Argument:
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         data = self._data[index] if self.unit else self.data[index]
         try:
             iter(data)
-- 
2.43.0


From 5faeec057f4e2f7f0e257f19d84943a481710ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 78/85] fix: use the default metric system for the variables of
 axes

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 58311dc..05a8e5d 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -99,7 +99,7 @@ class Axes(aliased.Mapping):
     ) -> None:
         """Initialize this instance."""
         self._system = metric.System(system or 'mks')
-        self._variables = Variables(__data, system=system)
+        self._variables = Variables(__data, system=self._system)
         self._names = __data.available('axes').canonical
         self._time = None
         self._shell = None
-- 
2.43.0


From ab9e9d12b1ac937ffdcc46c02c28d8ae44a252f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:16 +0000
Subject: [PATCH 79/85] fix: reject negative indices outside of a vector

---
 src/goats/core/physical.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index eb8aa7e..1e59ee5 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -182,8 +182,6 @@ class Vector(Quantity):
         """Called for index-based value access."""
         if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
         unit = self.unit
-- 
2.43.0


From ee5648665a755c0f16e04ae25b1fd36d159dcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:42 +0000
Subject: [PATCH 80/85] fix: integrate the flux of each species over its own
 energies

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 14582e6..c4f50d4 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -372,10 +372,10 @@ def integral_flux(
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From 8d510c78f7371e239e9f43a6debc9363d808f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:46 +0000
Subject: [PATCH 81/85] fix: accept groups of type specifications in operations

---
 src/goats/core/metadata.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index ba80e49..e612481 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -253,9 +253,11 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
             specifications. This option can simplify method calls for binary
             operations; it has no effect on unary operations.
         """
-        self.suppressed.add(types)
-        if symmetric:
-            self.suppressed.add(types[::-1])
+        grouped = all(isinstance(t, (list, tuple)) for t in types)
+        for this in types if grouped else [types]:
+            self.suppressed.add(tuple(this))
+            if symmetric:
+                self.suppressed.add(tuple(this[::-1]))
         return self
 
     def support(self, *types: Types, symmetric: bool=False):
@@ -294,9 +296,9 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
                     f"Can't add a length-{ntypes} rule to a collection"
                     f" of length-{self.nargs} rules."
                 ) from None
-            self.supported.add(this)
+            self.supported.add(tuple(this))
             if symmetric:
-                self.supported.add(this[::-1])
+                self.supported.add(tuple(this[::-1]))
         return self
 
     def supports(self, *types: Types):
-- 
2.43.0


From 18a3b01c39dd4b94469c4c292bcb196fc32cb070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:12 +0000
Subject: [PATCH 82/85] fix: apply the scale of a reduced unit once

---
 src/goats/core/metric.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 5a01bc7..cf98381 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1028,8 +1028,7 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -1039,15 +1038,14 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit**other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-- 
2.43.0


From a5da728671582ccfbd9335bdbeefa1d0a517f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:25 +0000
Subject: [PATCH 83/85] fix: compare observations with observations

---
 src/goats/core/observing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 2ba60b4..cb08228 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -227,10 +227,10 @@ class Observation:
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-        if isinstance(__o, Quantity):
+        if isinstance(__o, Observation):
             return all(
                 getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+                for attr in ('_data', '_axes', '_assumptions')
             )
         return NotImplemented
 
-- 
2.43.0


From faec79d9edac18fa2cbf68d1b5f02e2fe0a830ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 84/85] fix: merge the names of parameters in order

---
 src/goats/core/observing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index cb08228..4394e82 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -56,7 +56,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
         for b in others:
             if isinstance(b, Parameters):
                 names.extend(b._names)
-        return Parameters(*set(names))
+        return Parameters(*names)
 
     __mul__ = merge
     """Called for self * other."""
-- 
2.43.0


From b696c812926c489af3966896be1af73a06ab3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 85/85] fix: hash equal parameters equally and compare all of
 their names

---
 src/goats/core/observing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 4394e82..e15e332 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -83,13 +83,13 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
             or (
                 isinstance(other, typing.Iterable)
                 and len(other) == len(self)
-                and all(i in self for i in other)
+                and all(i in other for i in self)
             )
         )
 
     def __hash__(self):
         """Support use as a mapping key."""
-        return hash(self._names)
+        return hash(frozenset(self._names))
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0

