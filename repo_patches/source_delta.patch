From 796075ad61b4928b4a01e58a55edfb282720aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:21 +0000
Subject: [PATCH 01/18] fix: do not import turtle (and so tkinter) when loading
 heat_transfer

---
 cheme_calculations/heat_transfer/non_steady_state_conduction.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cheme_calculations/heat_transfer/non_steady_state_conduction.py b/cheme_calculations/heat_transfer/non_steady_state_conduction.py
index ef25425..a54e6fe 100644
--- a/cheme_calculations/heat_transfer/non_steady_state_conduction.py
+++ b/cheme_calculations/heat_transfer/non_steady_state_conduction.py
@@ -1,4 +1,3 @@
-from turtle import left
 from cheme_calculations.units.property_units import Density, Cp
 from cheme_calculations.units import MultiUnit, Temperature, Length, Time, Volume, Area
 from cheme_calculations.units.heat_transfer import HeatTransferCoefficient, ThermalConductivity
-- 
2.43.0


From 934450c71d02ad8289170a097858dce9f8b32868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:23 +0000
Subject: [PATCH 02/18] fix: condensation_transfer_coefficient no longer prints
 intermediate values

---
 cheme_calculations/heat_transfer/phase_changes.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cheme_calculations/heat_transfer/phase_changes.py b/cheme_calculations/heat_transfer/phase_changes.py
index 2218a74..4dd8076 100644
--- a/cheme_calculations/heat_transfer/phase_changes.py
+++ b/cheme_calculations/heat_transfer/phase_changes.py
@@ -57,11 +57,6 @@ def condensation_transfer_coefficient(k: ThermalConductivity,
     """
     
     
-    t = (k**3 * rho**2 * g * hvap)
-    print(t)
-    b = (num_pipes * (T2-T1) * diameter * mu)
-    print(b)
-
     h = 0.729*((k**3 * rho**2 * g * hvap)/(num_pipes * (T2-T1) * diameter * mu))**(1/4)
     
     
-- 
2.43.0


From 77cb886e96f7da51144ec06236c9167c4ab166ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:41 +0000
Subject: [PATCH 03/18] fix: update value, unit and exponents of a quantity in
 one step

---
 cheme_calculations/units/units.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index c686ff8..14bb8ed 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -167,9 +167,8 @@ class Unit:
             unit: A string representing the unit. Defaults to "".
             exponent: The exponent of the given unit ie m^2 -> exponent = 2. Defaults to 1.
         """
-        self._value = value
-        self._unit = unit
-        self._exponent = exponent
+        # one update, so an in place conversion is never seen (or cut short) half done
+        self.__dict__.update(_value=value, _unit=unit, _exponent=exponent)
         
     def __repr__(self) -> str:
         if self._exponent == 1:
@@ -368,9 +367,8 @@ class MultiUnit:
         if unit:
             top_half, bottom_half = self.parse_units(unit)
         # else use provided keys
-        self._top_half = top_half
-        self._bottom_half = bottom_half
-        self._value = value
+        # one update, so an in place conversion is never seen (or cut short) half done
+        self.__dict__.update(_top_half=top_half, _bottom_half=bottom_half, _value=value)
     
     
     @staticmethod
-- 
2.43.0


From 45c8421d346a6d8eb073c8a9d112c6792c69915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:44 +0000
Subject: [PATCH 04/18] fix: water records no longer swap temperature and
 pressure

---
 cheme_calculations/utility/get_chemical_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheme_calculations/utility/get_chemical_properties.py b/cheme_calculations/utility/get_chemical_properties.py
index bd0630d..a40f83a 100644
--- a/cheme_calculations/utility/get_chemical_properties.py
+++ b/cheme_calculations/utility/get_chemical_properties.py
@@ -12,7 +12,7 @@ __all__ = ["Water", "get_water_properties"]
 
 
 class Water:
-    def __init__(self, pressure: float, temperature: float, cp: float, cv: float, density: float, 
+    def __init__(self, temperature: float, pressure: float, cp: float, cv: float, density: float, 
                  enthalpy: float, entropy: float, internal_energy: float,
                  phase: str, thermal_conductivity: float, viscosity: float, 
                  specific_volume: float):
-- 
2.43.0


From 570d42660a4c48a7ae8bd2e0caf4522287307a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:46 +0000
Subject: [PATCH 05/18] fix: change all properties of a water record in one
 step

---
 cheme_calculations/utility/get_chemical_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/utility/get_chemical_properties.py b/cheme_calculations/utility/get_chemical_properties.py
index a40f83a..7170fa4 100644
--- a/cheme_calculations/utility/get_chemical_properties.py
+++ b/cheme_calculations/utility/get_chemical_properties.py
@@ -36,8 +36,8 @@ class Water:
     
     @temperature.setter
     def temperature(self, temp: float):
-        new_data = get_water_properties(temp, False)
-        self.__init__(*new_data)
+        # one update, so the record never mixes properties of two temperatures
+        self.__dict__.update(vars(get_water_properties(temp)))
     
     
     
-- 
2.43.0


From 6f18869e505b916686377dda79714661fe6c8729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:31 +0000
Subject: [PATCH 06/18] fix: converting to the current unit returns a new
 quantity unless in place

---
 cheme_calculations/units/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 14bb8ed..5106f70 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -274,7 +274,9 @@ class Unit:
             exponent = 1
 
         if (self._unit == unit):
-            return self
+            if inplace:
+                return self
+            return self.__class__(self._value, self._unit, self._exponent)
         if (unit == self.standard):     
 
             val = self.to_standard_conversions[self._unit](self._value)**exponent
-- 
2.43.0


From 7d18dad1d06b69314ca3a5ade2a332b51c6e7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:33 +0000
Subject: [PATCH 07/18] fix: unit list helpers work on copies of the lists they
 are given

---
 cheme_calculations/units/units.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 5106f70..61d997d 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -439,6 +439,8 @@ class MultiUnit:
         >>> print(bottom_half)
         >>> m
         """
+        top_half = deepcopy(top_half)
+        bottom_half = deepcopy(bottom_half)
         for u1 in top_half:
             for u2 in bottom_half:
                 if u1._unit == u2._unit and u1._exponent != 0:
@@ -476,6 +478,7 @@ class MultiUnit:
         >>> top_half = mu.combine_units(mu._top_half)
         >>> m\u00b2
         """
+        unit_list = deepcopy(unit_list)
         for i, u1 in enumerate(unit_list):
             for j, u2 in enumerate(unit_list):
                 if u1._unit == u2._unit and i != j:
@@ -631,6 +634,8 @@ class MultiUnit:
         >>> print(bottom_half)
         >>> ""
         """
+        top_list = deepcopy(top_list)
+        bottom_list = deepcopy(bottom_list)
         # TODO improve algorithm to also have preference for units with less exponents
         matches_dict = defaultdict(lambda: 0)
         
-- 
2.43.0


From a1b0847db6ade2b357414ce1e75a97331f619d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:35 +0000
Subject: [PATCH 08/18] fix: report an unknown prefix only for a missing
 prefix, not for any exception

---
 cheme_calculations/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 61d997d..ad9d14a 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -399,7 +399,7 @@ class MultiUnit:
             if prefix:
                 try:
                     factor *= prefix_factors[prefix]**top_base_units[i]._exponent
-                except:
+                except KeyError:
                     raise UnknownPrefix(f"The prefix of {prefix} is invalid")
         
         for i, prefix in enumerate(bottom_prefixes):
@@ -408,7 +408,7 @@ class MultiUnit:
                 try:
                     # inverse for bottom prefixes
                     factor *= (1/prefix_factors[prefix])**bottom_base_units[i]._exponent
-                except:
+                except KeyError:
                     raise UnknownPrefix(f"The prefix of {prefix} is invalid")
         
         return top_base_units, bottom_base_units, factor
-- 
2.43.0


From e05d730df61df3c7eddee0dec0ad7719d94c6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:37 +0000
Subject: [PATCH 09/18] fix: metres to miles divides by the length of a mile

---
 cheme_calculations/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index ad9d14a..088b46b 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -1262,7 +1262,7 @@ class Length(Unit):
         "in": lambda x: (x*12) * 3.28084,
         "ft": lambda x: x*3.28084,
         "yd": lambda x: x/0.9144,
-        "mile": lambda x: x*1609.34,
+        "mile": lambda x: x/1609.34,
         "um": lambda x: x*1E6,
         "mm": lambda x: x*1000,
         "cm": lambda x: x*100,
-- 
2.43.0


From 7f4e4ab1e47e949ddec4bb7e6abb4e74441ab92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:39 +0000
Subject: [PATCH 10/18] fix: one MPa is 1E6 Pa

---
 cheme_calculations/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 088b46b..9cbbe50 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -1219,7 +1219,7 @@ class Pressure(Unit):
         "mPa": lambda x: (x/1000),
         "dPa": lambda x: (x/10),
         "kPa": lambda x: (x*1000),
-        "MPa": lambda x: (x*10E6),
+        "MPa": lambda x: (x*1E6),
         "bar": lambda x: x*100000,
         "atm": lambda x: x*101325,
         "mmHg": lambda x: x*133.322,
@@ -1231,7 +1231,7 @@ class Pressure(Unit):
         "mPa": lambda x: (x*1000),
         "dPa": lambda x: (x*10),
         "kPa": lambda x: (x/1000),
-        "MPa": lambda x: (x/10E6),
+        "MPa": lambda x: (x/1E6),
         "bar": lambda x: x/100000,
         "atm": lambda x: x/101325,
         "mmHg": lambda x: x/133.322,
-- 
2.43.0


From e0b1530bf609f948e2c02aef7b28a52074698469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:41 +0000
Subject: [PATCH 11/18] fix: raise temperature factors of compound units to
 their exponent

---
 cheme_calculations/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 9cbbe50..9f8dc66 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -826,9 +826,9 @@ class MultiUnit:
     def convert_and_get_factor(self, unit: Unit):
         # temperature conversion works different in a multi unit
         if unit._unit in ["K", "C"]:
-            unit._value *= (1*unit._exponent)
+            unit._value *= (1**unit._exponent)
         elif unit._unit in ["R", "F"]:
-            unit._value *= ((5/9)*unit._exponent)
+            unit._value *= ((5/9)**unit._exponent)
         else:
             if unit._exponent == 1:
                 unit.convert_to(unit.standard, True)
-- 
2.43.0


From bd0e17f54213a1685caf9fc4830fc0801848c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:43 +0000
Subject: [PATCH 12/18] fix: convert to a registered unit through the existing
 unit it was defined from

---
 cheme_calculations/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 9f8dc66..86f8dea 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -131,7 +131,7 @@ def register_unit_from_existing(new_unit:str, existing_unit:str, to_func: Callab
         existing_to_standard = unit_class.to_standard_conversions[existing_unit]
         existing_from_standard = unit_class.from_standard_conversions[existing_unit]
         new_to_standard = lambda x: existing_to_standard(to_func(x))
-        new_from_standard = lambda x: existing_from_standard(from_func(x))
+        new_from_standard = lambda x: from_func(existing_from_standard(x))
     else:
         new_to_standard = to_func
         new_from_standard = from_func
-- 
2.43.0


From 917c3b308e231a3e81a174ed66161637b8229bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:45 +0000
Subject: [PATCH 13/18] fix: star imports no longer export module dunder names

---
 cheme_calculations/heat_transfer/__init__.py  | 2 +-
 cheme_calculations/mass_transfer/__init__.py  | 2 +-
 cheme_calculations/thermodynamics/__init__.py | 2 +-
 cheme_calculations/units/__init__.py          | 2 +-
 cheme_calculations/utility/__init__.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cheme_calculations/heat_transfer/__init__.py b/cheme_calculations/heat_transfer/__init__.py
index be9c1fb..d5387c5 100644
--- a/cheme_calculations/heat_transfer/__init__.py
+++ b/cheme_calculations/heat_transfer/__init__.py
@@ -5,4 +5,4 @@ from .phase_changes import *
 from .radiation import *
 from .heat_exchangers import *
 
-__all__ = [s for s in dir()]
+__all__ = [s for s in dir() if not s.startswith("__")]
diff --git a/cheme_calculations/mass_transfer/__init__.py b/cheme_calculations/mass_transfer/__init__.py
index d17eb52..e4a3154 100644
--- a/cheme_calculations/mass_transfer/__init__.py
+++ b/cheme_calculations/mass_transfer/__init__.py
@@ -3,4 +3,4 @@ from .diffusion_scenarios import *
 from .steady_state_diffusion import *
 from .non_steady_state_diffusion import *
 
-__all__ = [s for s in dir()]
\ No newline at end of file
+__all__ = [s for s in dir() if not s.startswith("__")]
\ No newline at end of file
diff --git a/cheme_calculations/thermodynamics/__init__.py b/cheme_calculations/thermodynamics/__init__.py
index d820c96..efc5cc9 100644
--- a/cheme_calculations/thermodynamics/__init__.py
+++ b/cheme_calculations/thermodynamics/__init__.py
@@ -1,3 +1,3 @@
 from .cubic_equations import *
 
-__all__ = [s for s in dir()]
\ No newline at end of file
+__all__ = [s for s in dir() if not s.startswith("__")]
\ No newline at end of file
diff --git a/cheme_calculations/units/__init__.py b/cheme_calculations/units/__init__.py
index 7f8ebf9..2dcfa79 100644
--- a/cheme_calculations/units/__init__.py
+++ b/cheme_calculations/units/__init__.py
@@ -6,4 +6,4 @@ from .fluids import *
 from .reactions import *
 
 
-__all__ = [s for s in dir()]
\ No newline at end of file
+__all__ = [s for s in dir() if not s.startswith("__")]
\ No newline at end of file
diff --git a/cheme_calculations/utility/__init__.py b/cheme_calculations/utility/__init__.py
index 7cd59c6..47be38c 100644
--- a/cheme_calculations/utility/__init__.py
+++ b/cheme_calculations/utility/__init__.py
@@ -3,4 +3,4 @@ from .equation_solving import *
 from .dimensionless import *
 from .get_chemical_properties import *
 
-__all__ = [s for s in dir()]
\ No newline at end of file
+__all__ = [s for s in dir() if not s.startswith("__")]
\ No newline at end of file
-- 
2.43.0


From 8e5ace3e7459753aea9ba4514057e118ecc42a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:10 +0000
Subject: [PATCH 14/18] fix: balance equations with the elements in a fixed
 order

---
 cheme_calculations/reactions/balance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/reactions/balance.py b/cheme_calculations/reactions/balance.py
index 2ed4ba9..a8de0d9 100644
--- a/cheme_calculations/reactions/balance.py
+++ b/cheme_calculations/reactions/balance.py
@@ -155,8 +155,8 @@ def balance_equation(equation:str)-> str:
     product_list = _parse_equation_side(products)
         
     # get unique products and reactants
-    unique_reactants = list(set(chain.from_iterable(d.keys() for d in reactant_list)))
-    unique_products = list(set(chain.from_iterable(d.keys() for d in product_list)))
+    unique_reactants = sorted(set(chain.from_iterable(d.keys() for d in reactant_list)))
+    unique_products = sorted(set(chain.from_iterable(d.keys() for d in product_list)))
     
     if set(unique_products) != set(unique_reactants):
         raise ImproperChemicalEquation("There are elements that are on one side but not the other")
-- 
2.43.0


From 3cf5f310007e67fca322a9d4d82e98a4b9d2c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:28 +0000
Subject: [PATCH 15/18] fix: refuse converting a quantity to a unit with a
 different exponent

---
 cheme_calculations/units/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 86f8dea..a1dadc7 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -277,6 +277,9 @@ class Unit:
             if inplace:
                 return self
             return self.__class__(self._value, self._unit, self._exponent)
+        # the value is raised to the exponent, so a different one is a different kind of quantity
+        if exponent != self._exponent and self._unit not in UNIT_COMPOSITES and unit not in UNIT_COMPOSITES:
+            raise UnitConversionError(f"{self} can not be converted to {unit} with an exponent of {exponent}")
         if (unit == self.standard):     
 
             val = self.to_standard_conversions[self._unit](self._value)**exponent
-- 
2.43.0


From 8fab725f9b76c52baccc607e6e9500d6058091e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:58 +0000
Subject: [PATCH 16/18] fix: let an error inside a registered conversion
 function reach the caller

---
 cheme_calculations/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index a1dadc7..7427045 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -293,11 +293,11 @@ class Unit:
             return self.__class__(val, return_unit, exponent)
         else:
             try:
-                standard_val = self.to_standard_conversions[self._unit](self._value)**exponent
+                to_standard = self.to_standard_conversions[self._unit]
             except KeyError as _:
                 raise UnitConversionError(f"{self._unit} can not be converted to {unit}")
                 
-
+            standard_val = to_standard(self._value)**exponent
             val = self.from_standard_conversions[unit](standard_val)**exponent
             if inplace:
                 return self.__class__.__init__(self, val, return_unit, exponent)
-- 
2.43.0


From d7fb63fbde84978d0ad554340c24a798b3c771ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:17 +0000
Subject: [PATCH 17/18] fix: pressures and forces accept units registered from
 existing ones

---
 cheme_calculations/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheme_calculations/units/units.py b/cheme_calculations/units/units.py
index 7427045..2ced83b 100644
--- a/cheme_calculations/units/units.py
+++ b/cheme_calculations/units/units.py
@@ -1242,7 +1242,7 @@ class Pressure(Unit):
     }
     def __init__(self, value:float, unit: PressureUnits="atm",
                  exponent: int = 1):
-        if unit not in PressureUnits:
+        if unit not in PressureUnits and unit not in self.to_standard_conversions:
             raise TypeError(f"The unit of {unit} is not valid for pressure")
         super().__init__(value, unit, exponent)
     
@@ -1385,7 +1385,7 @@ class Force(Unit):
     }
     def __init__(self,value:float, unit: ForceUnits,
                 exponent: int = 1):
-        if unit not in ForceUnits:
+        if unit not in ForceUnits and unit not in self.to_standard_conversions:
             raise TypeError(f"The unit of {unit} is not valid for force")
         super().__init__(value, unit, exponent)
 
-- 
2.43.0


From eb859407830c0be6ab8a22cf25ff9fa60250a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:49 +0000
Subject: [PATCH 18/18] fix: importing the units package in two threads could
 leave it without its heat transfer units

---
 cheme_calculations/units/heat_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheme_calculations/units/heat_transfer.py b/cheme_calculations/units/heat_transfer.py
index 7ab5f16..4cd96ea 100644
--- a/cheme_calculations/units/heat_transfer.py
+++ b/cheme_calculations/units/heat_transfer.py
@@ -1,4 +1,4 @@
-from cheme_calculations.units import MultiUnit
+from .units import MultiUnit
 
 __all__ = ["ThermalConductivity", "HeatTransferCoefficient", "HeatFlux", "Power"]
 
-- 
2.43.0

