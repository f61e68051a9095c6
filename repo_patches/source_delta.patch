From 4d927664873d03a2249dd318b06c5721ad3273ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 01/47] fix: compute co-rotating cyclic frequencies from the
 angular ones (inertial input, angular units)

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From 68fd0a8a65a4ea8aeb1d8d0579d68ed0600cd08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 02/47] fix: accept dimensionless nonadiabatic frequencies when
 the adiabatic units differ

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..a1efd66 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1039,7 +1039,7 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(_m_dict_n, self._requested_units, no_exit=True)
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From 360b4d7f0dac03789952bd5626086e38239b94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 03/47] fix: rad/s conversion factor of a non-rotating star is
 not NaN

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index a1efd66..b7fe632 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -240,7 +240,9 @@ class FrequencyHandler:
                 requested_frequency_unit=self._requested_units
             )
         # return the angular version of the conversion factor
-        conv_factor = self._rot_freq / self._rps_rot_freq
+        conv_factor = EnumGYREFreqConv.factor_from_str(
+            my_units=b'RAD_PER_SEC', my_requested_units=self._requested_units
+        )(np.float64(1.0))
         if my_angular:
             return conv_factor
         else:
-- 
2.43.0


From b6c14bdf4c2e2fc0c9b6c10f0277e1ca02ac46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 04/47] fix: dimensionless frequencies for cycles-per-day and
 microhertz units

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b7fe632..0eb6d50 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -943,9 +943,9 @@ class FrequencyHandler:
         # store local link to first mode dictionary containing stellar evolution model information
         _md = self._mode_dicts[0]
         # compute the correctly dimensioned dimensioning factor for frequencies in the requested frequency unit
-        dim_factor = _cfc(
-            np.sqrt((_md['R_star']) ** (3.0) / (_md['G'] * _md['M_star']))
-        )  # IN REQUESTED UNITS! (not necessarily CYCLIC!!!)
+        dim_factor = np.sqrt(
+            (_md['R_star']) ** (3.0) / (_md['G'] * _md['M_star'])
+        ) / _cfc(1.0)  # IN REQUESTED UNITS! (not necessarily CYCLIC!!!)
         # non-adiabatic vs. adiabatic
         if nonadiabatic:
             # compute and store the dimensionless angular frequencies
-- 
2.43.0


From fc311448c04421c3c2b13e0f3122de0958fea8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 05/47] fix: normalise surface luminosity and displacement
 terms with the normalisation factors (tuple index pointed at the adiabatic
 flag)

---
 aesolver/aesolver/solver/quadratic_solver.py                  | 4 ++--
 .../aesolver/solver/solver_base_classes/quadratic_solver.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..aed485a 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From 49f3027b6f7f6cb0259f2c8d8d8ff1b7aaf58d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 06/47] fix: store the Wu difference statistic, not the average
 radial order, as 'wu'

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From 0089987062af81118455e76f8b4be52455d94464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 07/47] fix: pre-checks of several triads (meridional orders
 indexed per triad, default conjugation for every triad)

---
 .../pre_checks/generic/generic_quadratic_checks.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..1474920 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False) for _ in triads]
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
@@ -172,9 +172,10 @@ class PreCheckQuadratic:
         _l_list = self._l_list[lm_index]
         _m_list = self._m_list[lm_index]
         # return the meridional order list
+        # (the l and m lists only contain the values for this triad, in order)
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l_list[_i], _m_list[_i])
+            for _i in range(len(my_mode_nrs))
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From b7681d3bb995300ff14dede0e5b08da094d7f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 08/47] fix: store moduli in the |kappa|, |kappa_norm| and
 |eta| datasets

---
 aesolver/aesolver/data_handling/unpacker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 0e808cc..442ae02 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -225,9 +225,9 @@ class UnPacker:
         # - unpack and store the actual values
         for _i, _mode_dat in enumerate(self._couple_data):
             # store coupling coefficients
-            self._abs_ccs[_i] = _mode_dat[0]
-            self._abs_nccs[_i] = _mode_dat[1]
-            self._abs_etas[_i] = _mode_dat[2]
+            self._abs_ccs[_i] = np.abs(_mode_dat[0])
+            self._abs_nccs[_i] = np.abs(_mode_dat[1])
+            self._abs_etas[_i] = np.abs(_mode_dat[2])
             # store coupling coefficient terms
             self._cc_terms[_i, :] = _mode_dat[8]
             # store normalization factors for the modes (radial eigenfunction norm)
-- 
2.43.0


From 686b898a83442bf46a8c9467fc7c9ea52b712a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 09/47] fix: unterminated f-string made lam_tar_gyre (and
 everything importing it) unimportable

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 5da3931910f4e2cff969af880206a271b458880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 10/47] fix: file name of GYRE TAR tables for negative
 azimuthal and meridional orders

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..9d15d6b 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'+{number}' if (number >= 0) else f'{number}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0


From 2287187fdf3457b11fae11160b66dd1278baf25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 11/47] fix: inverse symmetric pairing function for pairs of
 equal integers

---
 py-combinations/pairing_functions/symmetric_pairing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..12c5dcb 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -4,7 +4,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
 import numpy as np
-from math import floor
+from math import ceil
 
 
 # implementation of a simplistic symmetric pairing function
@@ -49,7 +49,8 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
+    # - largest '_w' for which the triangular number '_t' is smaller than the paired integer
+    _w = ceil(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5) - 1
     _t = int(((_w * _w) + _w) / 2)
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
-- 
2.43.0


From 4dcf1d06ae275c6b1dccef20094ac8b6208834db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 12/47] fix: inverse pairing functions added an integer to a
 tuple

---
 py-combinations/pairing_functions/cantor_pairing.py    | 2 +-
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 py-combinations/pairing_functions/xie_pairing.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..c3aa2c8 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -54,4 +54,4 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     # - tuple generation
     reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return np.array(reconstructed_tuple) + lowest_integer  # type: ignore
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 12c5dcb..6d3903c 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -55,4 +55,4 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return np.array(reconstructed_tuple) + lowest_integer - 1
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..ee9f4e6 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -83,4 +83,4 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return np.array((m, n)) + lowest_integer - 1
-- 
2.43.0


From dadff09137ddd161695bf5105724cc7aa0dfd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 13/47] fix: derivatives after interpolation were returned at a
 subset of the grid points only

---
 num-tools/num_deriv/num_deriv.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..d4fdafe 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -6,7 +6,6 @@ import logging
 import sys
 import numpy as np
 from typing import Callable
-from scipy.interpolate import interp1d
 
 # import local custom modules, if Numba is installed
 try:
@@ -269,14 +268,15 @@ class NumericalDifferentiator:
             Information on the numerical derivative models.
         """
         if self._perform_interpolation:
-            # get the linear 1D interpolation
-            _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # get the linear 1D interpolation: the original points are every
+            # 'self._interpolation_factor'-th point of the interpolated arrays
+            _nodes = np.arange(x.shape[0])
+            _idx = (
+                np.arange((x.shape[0] - 1) * self._interpolation_factor + 1)
+                / self._interpolation_factor
             )
-            _y = _interpolator(_x)
+            _x = np.interp(_idx, _nodes, x)
+            _y = np.interp(_idx, _nodes, y)
         else:
             _x = x
             _y = y
@@ -290,15 +290,15 @@ class NumericalDifferentiator:
         )
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
-            # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
                 if _my_der is None:
                     der_sub_sample.append(None)
                 else:
-                    der_sub_sample.append(_my_der[_map_idx])
+                    der_sub_sample.append(
+                        _my_der[:: self._interpolation_factor]
+                    )
             return (der_sub_sample, derivatives[1])
         else:
             return derivatives
-- 
2.43.0


From bab102fee0fe42f6ff38288add137280617e9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 14/47] fix: out-of-bounds array access of the Fornberg scheme
 at its maximum accuracy order

---
 fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
index 6eff78a..cc991f7 100644
--- a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
+++ b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
@@ -1,7 +1,7 @@
 module fornberg_deriv
     implicit none
     ! define parameters used in the subroutines
-    integer, parameter :: mmax=8, nmax=20, iaccuracy_max=20
+    integer, parameter :: mmax=8, iaccuracy_max=20, nmax=iaccuracy_max+1
     
 contains
 
@@ -51,7 +51,7 @@ contains
         real(8), intent(in), dimension(ngrid) :: grid, u
         real(8), intent(out), dimension(ngrid) :: du
         integer :: m, n, i, imid, jend
-        real(8), dimension(iaccuracy_max) :: coef
+        real(8), dimension(nmax) :: coef
         ! Check if requested accuracy is reasonable
         if (iaccuracy .gt. iaccuracy_max) stop 'requested accuracy order too large in routine'
         ! Declare aliases
-- 
2.43.0


From 4f9acff7d37e6b7e234a251461d5dc5f306b6b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 15/47] fix: angular integrals treat the Chebyshev mu grid as
 non-uniform

The mu nodes of the Hough functions are Chebyshev nodes, but the theta
integrals and the Lee (2012) Hough norm told the quadrature that the
nodes are equally spaced, so every integral was multiplied by the first
(smallest) spacing instead of the local one.
---
 .../rotating_tar_angular/hough_integration.py                 | 4 ++--
 hough-func-tools/hough_function/hough_normalizer.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 81ce013..7d7d29a 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -212,7 +212,7 @@ class HoughIntegration(Enum):
                 # perform usual integration method
                 regular_result = cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _new_integrand,
                     _mu_arr,
                     nr_omp_threads,
@@ -252,7 +252,7 @@ class HoughIntegration(Enum):
                 # compute integral in mu-space
                 return cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _integrand,
                     _mu_arr,
                     nr_omp_threads,
diff --git a/hough-func-tools/hough_function/hough_normalizer.py b/hough-func-tools/hough_function/hough_normalizer.py
index e83980c..46a7130 100644
--- a/hough-func-tools/hough_function/hough_normalizer.py
+++ b/hough-func-tools/hough_function/hough_normalizer.py
@@ -137,7 +137,7 @@ class HoughNormalizer(Enum):
         _integrand = hr**2.0
         # compute the normalization integral numerically
         _norm_integral = cni.integrate(
-            'trapz', True, _integrand, mu, nr_omp_threads, use_parallel
+            'trapz', False, _integrand, mu, nr_omp_threads, use_parallel
         )
         # use that value to compute and return the normalizing (multiplicative) factor
         return 1.0 / np.sqrt(2.0 * np.pi * _norm_integral)
-- 
2.43.0


From b43a873d194bf810b827ff556ee3feee7dd04359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 16/47] fix: numerical integration over fewer than two points
 read outside its arrays

---
 cpp-numintegrator/num_integrator/num_integration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index ca1f3e4..0ef8ddb 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -193,6 +193,10 @@ double NumericalDoubleInputIntegrator::simpson_parallel() {
  * @brief Perform integration based on selection string.
  */
 double NumericalDoubleInputIntegrator::integrate() {
+  // no integration interval if there are fewer than two grid points
+  if (this->arr_size < 2) {
+    return 0.0;
+  }
   // switch statement between the different integrations
   switch (this->integration_switch) {
   case IntegrationOptions::trapz: {
-- 
2.43.0


From 9aff2ccce07203b5b01c552c58a4699297ab5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 17/47] fix: disc integrals treated the Chebyshev mu grid of
 the Hough functions as equally spaced

---
 .../disc_integrator/disc_integrals.cpp        | 19 +++++++++++++++++--
 .../disc_integrator/disc_integrals.h          |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/cpp-disc-integrator/disc_integrator/disc_integrals.cpp b/cpp-disc-integrator/disc_integrator/disc_integrals.cpp
index 2047bad..1231888 100644
--- a/cpp-disc-integrator/disc_integrator/disc_integrals.cpp
+++ b/cpp-disc-integrator/disc_integrator/disc_integrals.cpp
@@ -73,14 +73,29 @@ void DiscIntegration::compute_ld_function(string ldfunction_string) {
   my_ld.compute();
 };
 
+/**
+ * @brief Verifies whether the retained mu values are equally spaced.
+ */
+bool DiscIntegration::equally_spaced_mus() {
+  for (int i = 2; i < this->vecsize; i++) {
+    double increment = this->mymus_b[1] - this->mymus_b[0];
+    double difference = this->mymus_b[i] - this->mymus_b[i - 1] - increment;
+    if (fabs(difference) > 1.0e-8 * fabs(increment)) {
+      return false;
+    }
+  }
+  return true;
+};
+
 /**
  * @brief Perform integration based on selection string.
  */
 double DiscIntegration::perform_integration(vector<double> &my_integrand) {
   // create a numerical integrator object
   NumericalDoubleInputIntegrator my_num_inter(
-      this->vecsize, my_integrand.data(), this->mymus_b.data(), true,
-      this->integration_string, this->numthreads, this->paral);
+      this->vecsize, my_integrand.data(), this->mymus_b.data(),
+      equally_spaced_mus(), this->integration_string, this->numthreads,
+      this->paral);
   // switch statement between the different integrations
   return my_num_inter.integrate();
 };
diff --git a/cpp-disc-integrator/disc_integrator/disc_integrals.h b/cpp-disc-integrator/disc_integrator/disc_integrals.h
index ddd984a..a9df4a1 100644
--- a/cpp-disc-integrator/disc_integrator/disc_integrals.h
+++ b/cpp-disc-integrator/disc_integrator/disc_integrals.h
@@ -71,6 +71,8 @@ private:
   void adjust_data_to_integration_length();
   /** Computes the LD function and stores the result. */
   void compute_ld_function(string ldfunction_string);
+  /** Verifies whether the retained mu values are equally spaced. */
+  bool equally_spaced_mus();
   /** Performs the numerical integration and returns the result. */
   double perform_integration(vector<double> &integrand);
   /** Serial and parallel integration implementation for first integral */
-- 
2.43.0


From 4160b3524871e4e8b00a2134cd701cafbd5d4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 18/47] fix: limb-darkening wrapper ignored the strides of the
 arrays passed to it

---
 cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
index 9218998..9a6f931 100644
--- a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
+++ b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
@@ -11,7 +11,7 @@ import numpy as np
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef _comp(
-    int asize, double[:] kap, double[:] res,
+    int asize, double[::1] kap, double[::1] res,
     cpp_string myselvar, int num_threads, cpp_bool paral
     ):
     # create pointer to LimbDarkeningFunctions object
@@ -25,7 +25,7 @@ cdef _comp(
 
 
 def compute(
-    double[:] kap, double[:] res,
+    double[::1] kap, double[::1] res,
     str myselvar, int num_threads, cpp_bool paral
     ):
     # compute the array size
-- 
2.43.0


From de7d4e19badb8ebd6758917a133da2ae05782da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 19/47] fix: second derivatives of the radial Hough function
 had the wrong parity on the southern hemisphere

---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From 72388b93c7ce09b3ae078da93da993a7b92c509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 20/47] fix: derivative of the azimuthal Hough function lacked
 the sign adjustment of the function itself

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..a439391 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -869,6 +869,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # adjust sign if necessary (same sign as the azimuthal Hough function itself)
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From c69484863aa5335fc49b0ef5b1b0acf18eca7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 21/47] fix: theta_phi and phi_phi Hough terms mixed the
 azimuthal-order conventions of Lee (2012) and Prat et al. (2019)

---
 .../hough_function/hough_function.py          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index a439391..8c368d3 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -587,6 +587,17 @@ class HoughFunction:
             value1=self.neg_mu_hpp_theta, value2=self._hpp_theta
         )
 
+    @property
+    def _m_phi(self):
+        """Return the azimuthal order used in azimuthal derivatives. Its sign is opposite to that of 'm' if the sign of the azimuthal Hough function was adjusted, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019).
+
+        Returns
+        -------
+        float
+            Azimuthal order in the definition of the Hough functions.
+        """
+        return -self._m if self._my_instructions['adjust_phi_sign'] else self._m
+
     @property
     def theta_phi_hough_tilde(self):
         """Return the values of the theta_phi term defined in Eqn. B16 of Lee(2012).
@@ -603,9 +614,9 @@ class HoughFunction:
             and self.neg_mu_hp is not None
         ):
             # get positive mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            pos_mu_part = ((self._m * self._ht) - (self._mu * self._hp))[::-1]
+            pos_mu_part = ((self._m_phi * self._ht) - (self._mu * self._hp))[::-1]
             # get negative mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            neg_mu_part = (self._m * self.neg_mu_ht) - (
+            neg_mu_part = (self._m_phi * self.neg_mu_ht) - (
                 self.neg_mu * self.neg_mu_hp
             )
             return np.concatenate([neg_mu_part, pos_mu_part])
@@ -629,11 +640,11 @@ class HoughFunction:
         ):
             # get positive mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             pos_mu_part = (
-                ((self._mu * self._ht) - (self._m * self._hp)) / self._s
+                ((self._mu * self._ht) - (self._m_phi * self._hp)) / self._s
             )[::-1]
             # get negative mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             neg_mu_part = (
-                (self.neg_mu * self.neg_mu_ht) - (self._m * self.neg_mu_hp)
+                (self.neg_mu * self.neg_mu_ht) - (self._m_phi * self.neg_mu_hp)
             ) / self._s
             # return complete part
             return np.concatenate([neg_mu_part, pos_mu_part])
-- 
2.43.0


From 4ba76c83fd820467e4026dbf67ec59621df0b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 22/47] fix: unit system names are case-insensitive in every
 conversion

With unit_system='si' the gravitational constant was taken in SI units while
the model data stayed in cgs units.
---
 .../model_handling/enumeration_files/enumeration_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
index 3806998..1477b23 100644
--- a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
+++ b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
@@ -79,7 +79,7 @@ class BaseFileInfo(Enum):
         # compile the dictionary containing the mappings of the values to the unit-converted values, and return it
         return {
             _key: cls._return_input
-            if (_my_action := _val.get(unit_system)) is None
+            if (_my_action := _val.get(unit_system.upper())) is None
             else partial(mul, _my_action)
             for _attr in cls.__members__
             for _key, _val in cls.__getitem__(_attr).value.items()
-- 
2.43.0


From 7511a45a92bafafdac5e1e3f9985ab297db8b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 23/47] fix: interpolating a structure model onto a different
 mode grid dropped scalars, never interpolated analytic derivatives

---
 .../super_coupling_coefficients.py            | 46 +++++++------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..ea5a088 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -786,14 +786,13 @@ class SuperCouplingCoefficient:
             )
             # loop over the dictionary items
             for _k, _v in my_internal_structure_dict.items():
+                # check if it should be extracted
+                if _k in _exclude_list:
+                    continue
                 # do interpolation, set the interpolated attribute and add profile suffix to parameter to distinguish it
-                if (
-                    isinstance(_v, float)
-                    or isinstance(_v, str)
-                    or isinstance(_v, int)
-                ):
+                if isinstance(_v, (float, str, int, np.generic)):
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1203,29 +1202,17 @@ class SuperCouplingCoefficient:
         np.ndarray | None
             The requested attribute from 'my_dict', possibly interpolated to fit to a GYRE grid.
         """
+        # get the attribute
+        my_att = my_dict.get(my_attr)
+        if my_att is None:
+            return None
+        if typing.TYPE_CHECKING:
+            assert isinstance(my_att, np.ndarray)
+        # interpolate to return GYRE-fitted attribute, if necessary
         if interp_necessary:
-            # get the attribute
-            _my_att = my_dict.get(my_attr)
-            # try interpolation to return GYRE-fitted attribute
-            if typing.TYPE_CHECKING:
-                assert isinstance(_my_att, np.ndarray)
-            if np.isnan(
-                my_interp := np.interp(
-                    self._x, radial_structure_profile, _my_att
-                )
-            ):  # if it is NaN, _my_att is None!
-                return None
-            else:
-                return my_interp
-        else:
-            # no interpolation necessary: directly return attribute
-            my_att = my_dict.get(my_attr)
-            if my_att is None:
-                return None
-            else:
-                if typing.TYPE_CHECKING:
-                    assert isinstance(my_att, np.ndarray)
-                return my_att
+            return np.interp(self._x, radial_structure_profile, my_att)
+        # no interpolation necessary: directly return attribute
+        return my_att
 
     # method that computes the normed profiles used for polytrope data, based on analytic expressions using polytrope data
     def _get_profiles_polytrope_analytic(
@@ -1239,7 +1226,8 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        # (of the structure model itself: 'self._r_profile' is already expressed on the mode grid)
+        _help_r = my_dict['r'] / my_dict['r'].max()
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From bc5115a7ddbae85b515b6859dddf182778bdccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 24/47] fix: polytropic density derivative without
 Brunt-Vaisala definition read a density that polytropes do not have

---
 .../coefficient_support_classes/super_coupling_coefficients.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index ea5a088..8f9c10c 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1053,7 +1053,7 @@ class SuperCouplingCoefficient:
                 _, self._drho = self._compute_der(
                     _grad,
                     x=self._r_profile,
-                    y=self._rho,
+                    y=self._rho_profile,
                     kwargs_diff=kwargs_diff,
                 )
         else:
-- 
2.43.0


From 1e9b0e3be2020cb63a19eea33f80eba0de5da06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 25/47] fix: cut the listed attributes for polytropes instead
 of non-existing names

---
 gyre-tools/gyre_cutter/gyre_cutter.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gyre-tools/gyre_cutter/gyre_cutter.py b/gyre-tools/gyre_cutter/gyre_cutter.py
index 11468e7..a78adf0 100644
--- a/gyre-tools/gyre_cutter/gyre_cutter.py
+++ b/gyre-tools/gyre_cutter/gyre_cutter.py
@@ -117,12 +117,8 @@ class EnumerationCutter(Enum):
             # cut_list is a key string that refers to a json string from which the stored list can be recovered
             my_cut_list = json.loads(cls.__getitem__(my_cut_string).value)
         except AttributeError:
-            # cut list is expected to be a list
-            # - convert to polytrope equivalent if needed
-            if polytrope:
-                my_cut_list = [f'{c}_POLY' for c in cut_list]
-            else:
-                my_cut_list = cut_list
+            # cut list is expected to be a list of attribute names
+            my_cut_list = cut_list
         except KeyError:
             # the key string does not exist as an enumeration member
             logger.exception(
-- 
2.43.0


From 2ff32cf4b415f423c8fc44d4b4c4c110f72255b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 26/47] fix: register the save file name argument of the solve
 script

---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From 12d482ba777f1a708ce214142e1744fba2a46660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 27/47] fix: isolation masks of parents that take part in a
 single triad

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..e399aca 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a single triad has no competing triad with the same parent
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..8c677a3 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a single triad has no competing triad with the same parent
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 1d6ceb27cde3d44a3f75aa517f0c8f8965cdac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 28/47] fix: harmonic triads are isolated only if they have the
 lowest threshold themselves

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index e399aca..5a3f4fc 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -158,6 +158,10 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # the common lowest threshold has to be that of the triad itself (a harmonic triad can share its modes with a single other triad)
+    _all_same &= np.isclose(
+        _valued_thresh, _lowest_thresh_surf[:, 0], rtol=0, atol=1e-14
+    )
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 8c677a3..6500a32 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -158,6 +158,10 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # the common lowest threshold has to be that of the triad itself (a harmonic triad can share its modes with a single other triad)
+    _all_same &= np.isclose(
+        _valued_thresh, _lowest_thresh_surf[:, 0], rtol=0, atol=1e-14
+    )
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
-- 
2.43.0


From 67971df8be06afddb1dc5413507264dc23abf1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 29/47] fix: third mirroring of negative frequencies about the
 Nyquist frequency

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..85d9efb 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -761,7 +761,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From 928b206e5e47d3736d621ca8df4ac1a538583131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 30/47] fix: save results files in the requested sub-directory

---
 aesolver/aesolver/data_handling/storer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..6d424a7 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -200,9 +200,9 @@ class NumericalSaver:
         ).generate_subdirectory_path()
         # ensure the sub folder is generated
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
-        # -- store full path/name of file
+        # -- store full path/name of file (in the sub-directory)
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f'{_sub_directory_name.rstrip("/")}/{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 24ca543479868a9dc883039236223d0b676d3530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 31/47] fix: quantum numbers in the names of results files with
 dashes or dots

---
 aesolver/aesolver/data_handling/data_specific/hdf5_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..cddd719 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -81,9 +81,9 @@ class HDF5Saver:
         """Adjusts the file path to a name that incorporates quantum number information."""
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
-        # substitute this string into the file path name
+        # insert this string in front of the suffix of the file path name
         self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
+            r'(\.\w+)$', rf'{_qnr_string}\1', self._file_path
         )
 
     def _create_base_attribute(
-- 
2.43.0


From 8d25b25158694df0e3d8fea8666ef74b6c5c51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 32/47] fix: overwriting a dataset with data of another shape

---
 .../data_specific/hdf5_specific/overwrite_dataset.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
index 0be167d..8a8866f 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
@@ -34,10 +34,10 @@ def overwrite_dataset(
     try:
         # obtain the previous data
         _previous_data = h5file_stream[dataset_path]
-        # overwrite for empty data or when data types are the same
+        # overwrite when data types and shapes are the same
         if (is_ds := isinstance(_previous_data, h5.Dataset)) and (
-            isinstance(overwrite_value, h5.Empty)
-            or (_previous_data.dtype == overwrite_value.dtype)
+            _previous_data.dtype == overwrite_value.dtype
+            and _previous_data.shape == overwrite_value.shape
         ):
             # overwrite it
             _previous_data[...] = overwrite_value
-- 
2.43.0


From 7e872dfbe84d673168bf0d2103354d0449bc34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 33/47] fix: read MESA profile columns completely, not with the
 widths of their first rows

---
 aesolver/aesolver/model_handling/read_models.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..7a8a3a7 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -140,7 +140,14 @@ class ModelReader:
         # initialize the data dictionary
         my_data = {}
         # open the MESA profile.dat file and read into a dataframe
-        _my_df = pd.read_fwf(file_path, skiprows=5)
+        # (columns are separated by whitespace; inferring column widths from
+        # the first rows would cut off wider entries in subsequent rows)
+        _my_df = pd.read_csv(
+            file_path,
+            skiprows=5,
+            sep=r'\s+',
+            float_precision='round_trip',
+        )
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
-- 
2.43.0


From 763141f3a9f2f055f6364694725ebaf76330f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 34/47] fix: structure files are selected by their suffix, not
 by any name that contains it

---
 aesolver/aesolver/model_handling/subselection_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..2bc7f15 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,8 +187,8 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From 6d006c22288d43118fc0240de827f54dde77d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 35/47] fix: verbose histograms with equal bins stopped on a
 keyword argument that does not exist

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..4a8a6c6 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..05c5151 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From 2dc26fb7c70c5f90080c5b3ce84737145db61852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 36/47] fix: logarithmic numexpr histograms are normalised by
 the number of valued data

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 05c5151..532c968 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -745,7 +745,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / empirical_probability_conversion_fac',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                             },
@@ -763,7 +763,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / (empirical_probability_conversion_fac * (ha - hb))',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                                 'ha': hist_edges[1:],
-- 
2.43.0


From c5d41abfc3e2f189764116b27ebd5851b878fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 37/47] fix: numexpr and Cython histograms with a specified bin
 width could not be computed

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 4a8a6c6..8605311 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 532c968..84922a4 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From 895865ca413fbb5987a67b2e48515102909ab650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 38/47] fix: Cython jackknife likelihood took the number of
 bins for the number of data

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 8605311..48f4e88 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -451,8 +451,8 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
@@ -644,8 +644,8 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
-- 
2.43.0


From 05f3185ff27717010ecb59e503f7400e5ceca3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 39/47] fix: logarithmic BLAS density histograms used the width
 of the first bin only

---
 histogram_maker/hogg_jacky/blas_jacky.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..66205d6 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -211,7 +211,9 @@ def empirical_density_histogram_blas(
     # compute empirical density histogram and return it together with the bin edges
     try:
         return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
+            np.divide(
+                dscal(1.0 / my_data.shape[0], count_histogram), bin_width
+            ),
             bin_edges,
             bin_width,
         )
-- 
2.43.0


From 044838d5c553529514edf0b8e687ad939913a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 40/47] fix: the one datum allowed below the first bin is the
 lowest one

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 48f4e88..d8a956f 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -267,7 +267,7 @@ def _cython_histogram_counts(
         # ensure that no negative counts are ever registered (due to mess-up at argmax, for example)
         if additional_checks and (neg_mask := _binning_result < 0).any():
             _idx = np.argwhere(neg_mask)
-            if len(_idx) == 1 and _idx[0] == np.argmax(my_data):
+            if len(_idx) == 1 and _idx[0] == np.argmin(my_data):
                 # mistake was made when counting at argmax, reverse it, by setting the counts in this bin to zero!
                 _binning_result[neg_mask] = 0
             else:
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 84922a4..dde0de6 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -219,7 +219,7 @@ def _numexpr_histogram_counts(
         # ensure that no negative counts are ever registered (due to mess-up at argmax, for example)
         if additional_checks and (neg_mask := _binning_result < 0).any():
             _idx = np.argwhere(neg_mask)
-            if len(_idx) == 1 and _idx[0] == np.argmax(my_data):
+            if len(_idx) == 1 and _idx[0] == np.argmin(my_data):
                 # mistake was made when counting at argmax, reverse it, by setting the counts in this bin to zero!
                 _binning_result[neg_mask] = 0
             else:
-- 
2.43.0


From af3dfa0d8ee13936f398c8ad4bfab141a86369f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:14 +0000
Subject: [PATCH 41/47] fix: shared structure profiles of a coupling
 coefficient are taken from the mode with the longest grid

---
 .../quadratic_coupling_coefficient_rotating.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..80a460e 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -339,14 +339,19 @@ class QuadraticCouplingCoefficientRotating(CCR):
             store_debug=store_debug,
             analytic_polytrope=analytic_polytrope,
         )
-        # store the common attributes for all the modes
-        super()._extract_common_info_dictionary(my_dict=first_dict)
-        # store the mode-dependent information stored in the information dictionaries as attributes
+        # list the information dictionaries of the modes
         dict_list: 'list[dict[str, Any]]' = [
             first_dict,
             second_dict,
             third_dict,
         ]
+        # store the common attributes for all the modes: their profiles need to be
+        # defined on the grid onto which the mode profiles are interpolated
+        # (i.e. that of the mode with the largest number of grid points)
+        super()._extract_common_info_dictionary(
+            my_dict=max(dict_list, key=lambda _d: _d['n'])
+        )
+        # store the mode-dependent information stored in the information dictionaries as attributes
         for _i, _dict in enumerate(dict_list):
             super()._extract_mode_dependent_info_dictionary(
                 my_dict=_dict, mode_number=_i + 1
-- 
2.43.0


From 8918f1a1a231df6d865d3aa30ba969649c836359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:06 +0000
Subject: [PATCH 42/47] fix: angular kernels are scaled with the factors named
 in their legends

---
 .../angular_kernels/angular_kernel_helper.py        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..87bf741 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -193,17 +193,14 @@ class AngularKernelData:
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                my_kernel *= multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                my_kernel *= multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
-                    my_kernel * multiplying_factor * self._div_by_sin_scaling
-                )
+                my_kernel *= multiplying_factor * self._div_by_sin_scaling
             case (True, True):
-                my_kernel = (
-                    my_kernel
-                    * multiplying_factor
+                my_kernel *= (
+                    multiplying_factor
                     * self._mu_vals
                     * self._div_by_sin_scaling
                 )
-- 
2.43.0


From 06c74b54eb3f599e935c23cb2880142e585deddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:06 +0000
Subject: [PATCH 43/47] fix: two angular kernels are not divided by the sine of
 the colatitude, as in the coupling coefficient

---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 87bf741..dca9f38 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -466,7 +466,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -475,7 +475,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From 0e86f7ff68eabc4f80cdfd653d2db9634fea9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:06 +0000
Subject: [PATCH 44/47] fix: the traditional approximation may be valid
 throughout the star

---
 aesolver/aesolver/solver/quadratic_profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..8043b91 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -167,6 +167,12 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
             raise PhysicsError(
                 msg='The modes in the triad are not on the slow manifold (i.e. the absolute values of their quality factors = co-rotating angular mode frequencies / linear driving or damping rates are not all greater than 10.0). This triad cannot be described using amplitude equations!'
             )
+        elif tar_valid.all():
+            # TAR VALID EVERYWHERE
+            validity_zone_masks = [np.s_[:]]
+            non_validity_indices = [(0, 0)]
+            non_validity_zone_masks = [np.s_[:0]]
+            fully_invalid = False
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
-- 
2.43.0


From 688e6d31f8421c45ed1eb03e5e007be8d9e61ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:06 +0000
Subject: [PATCH 45/47] fix: profiles in a valid core are not lowered by zones
 above it

---
 .../plot_template.py                          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
index c8d8920..b3e1e27 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
@@ -251,6 +251,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 _adjusted_core_profile,
             ):
                 _adj_core[_c_mask] = _y_ax[_c_mask] - _core_contrib
+        # the profile values in a TAR-valid zone are adjusted for the contributions of the TAR-invalid zones below it: there are no such zones below a TAR-valid core
+        _adjustments = [
+            np.append(0.0, x) if convection_zone_selection_indices[0][0] > 0 else x
+            for x in _summed_contributions
+        ]
         # compute a y-profile that masks all TAR-invalid zones (including the core!)
         _adjusted_tar_profile = [np.zeros_like(y_ax) for y_ax in y_ax_data]
         if not fully_invalid:
@@ -266,11 +271,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
                         )
                     else:
                         _adj_tar[_convection_mask] = _conv
-            for _y_ax, _adj_tar, _summed_contrib in zip(
-                y_ax_data, _adjusted_tar_profile, _summed_contributions
+            for _y_ax, _adj_tar, _adjustment in zip(
+                y_ax_data, _adjusted_tar_profile, _adjustments
             ):
                 for _adjustment_value, _valid_mask in zip(
-                    _summed_contrib, validity_zone_masks
+                    _adjustment, validity_zone_masks
                 ):
                     _adj_tar[_valid_mask] = (
                         _y_ax[_valid_mask] - _adjustment_value
@@ -354,6 +359,12 @@ def double_masking_integrated_radial_profile_figure_template_function(
             _adjusted_core_profile[_core_mask] = (
                 y_ax_data[_core_mask] - _core_contribution
             )
+        # the profile values in a TAR-valid zone are adjusted for the contributions of the TAR-invalid zones below it: there are no such zones below a TAR-valid core
+        _adjustments = (
+            np.append(0.0, _summed_contributions)
+            if convection_zone_selection_indices[0][0] > 0
+            else _summed_contributions
+        )
         # compute a y-profile that masks all TAR-invalid zones (including the core!)
         _adjusted_tar_profile = np.zeros_like(y_ax_data)
         if not fully_invalid:
@@ -367,7 +378,7 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 else:
                     _adjusted_tar_profile[_convection_mask] = _conv
             for _adjustment_value, _valid_mask in zip(
-                _summed_contributions, validity_zone_masks
+                _adjustments, validity_zone_masks
             ):
                 _adjusted_tar_profile[_valid_mask] = (
                     y_ax_data[_valid_mask] - _adjustment_value
-- 
2.43.0


From 1418ab7300f2885843e42414b9e345d2f934da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:46 +0000
Subject: [PATCH 46/47] fix: a single resonance sharpness value can be plotted

---
 aesolver/aeplotter/resonance_sharpness/histogram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/resonance_sharpness/histogram.py b/aesolver/aeplotter/resonance_sharpness/histogram.py
index a04b2d9..3bb3db6 100644
--- a/aesolver/aeplotter/resonance_sharpness/histogram.py
+++ b/aesolver/aeplotter/resonance_sharpness/histogram.py
@@ -91,7 +91,9 @@ def get_sharpness_histogram_plot_data(
         empirical_density=False,
     )
     # get the minimal number of bins (GUARD)
-    my_min_nr_bins = 1 if log_bin_width_all is None else len(log_bin_width_all)
+    my_min_nr_bins = (
+        1 if log_hist_edges_all is None else len(log_hist_edges_all) - 1
+    )
     # compute sharpness histogram for isolated triads
     log_hist_prob_isolated_all = histogram_blas_log_spec_edges(
         my_data=np.abs(resonance_sharpness_object.sharpness_isolated),
-- 
2.43.0


From 12bfa006b6e179e8d3de53779f93d903ffc5e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:54 +0000
Subject: [PATCH 47/47] fix: read the inlist that was named when its name
 contains dots

GenericParser kept only the part of the file name before the first dot, so
that a run started with 'run_0.5.toml' read 'run_0.toml' (or stopped).
---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..4b85011 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.name.rsplit('.', 1)[0]  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0

