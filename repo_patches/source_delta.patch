From 9dadc4e448776c203c6ceb72cb5d78a1e8dd43a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 01/89] fix: keep the user's vertical profile settings intact
 when initializing states

---
 foxes/input/states/single.py       | 1 +
 foxes/input/states/states_table.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/input/states/single.py b/foxes/input/states/single.py
index 96067cb..028ea92 100644
--- a/foxes/input/states/single.py
+++ b/foxes/input/states/single.py
@@ -109,6 +109,7 @@ class SingleStateStates(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 1b5fb09..8b43c49 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -160,6 +160,7 @@ class StatesTable(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
-- 
2.43.0


From 9c27b43eb456999a50e56cca89b1dc81b0718f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 02/89] fix: product superposition returns the ambient wind
 speed where no wake contributes

---
 foxes/models/wake_superpositions/ws_product.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_superpositions/ws_product.py b/foxes/models/wake_superpositions/ws_product.py
index ce65425..8a6e9a9 100644
--- a/foxes/models/wake_superpositions/ws_product.py
+++ b/foxes/models/wake_superpositions/ws_product.py
@@ -118,11 +118,10 @@ class WSProduct(WakeSuperposition):
                 f"Superposition '{self.name}': Expecting wind speed variable, got {variable}"
             )
 
-        if np.max(np.abs(wake_delta)) < 1e-14:
-            wake_delta[:] = 1
-
+        # wake_delta stores the product of all factors, minus one, such
+        # that zero represents the absence of wakes:
         if np.any(st_sel):
-            wake_delta[st_sel] *= 1 + wake_model_result
+            wake_delta[st_sel] = (1 + wake_delta[st_sel]) * (1 + wake_model_result) - 1
 
         return wake_delta
 
@@ -164,7 +163,7 @@ class WSProduct(WakeSuperposition):
             (n_states, n_targets, n_tpoints)
 
         """
-        w = amb_results * (wake_delta - 1)
+        w = amb_results * wake_delta
         if self.lim_low is not None:
             w = np.maximum(w, self.lim_low - amb_results)
         if self.lim_high is not None:
-- 
2.43.0


From 63fcddbfbc447fc2ac70f6982ce672cfb254a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 03/89] fix: threads engine gives each chunk its own copy of
 the algorithm and the models

---
 foxes/engines/futures.py | 37 +++++++++++++++++++++++++++++++++++++
 foxes/engines/pool.py    | 26 ++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/foxes/engines/futures.py b/foxes/engines/futures.py
index cdb808a..84f7456 100644
--- a/foxes/engines/futures.py
+++ b/foxes/engines/futures.py
@@ -1,4 +1,5 @@
 from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
+from copy import deepcopy
 
 from .pool import PoolEngine
 
@@ -15,6 +16,24 @@ class ThreadsEngine(PoolEngine):
         """Creates the pool"""
         self._pool = ThreadPoolExecutor(max_workers=self.n_procs)
 
+    def _job_data(self, *data):
+        """
+        Prepares the objects that are handed over to a job
+
+        Parameters
+        ----------
+        data: tuple
+            The objects that will be modified by the job
+
+        Returns
+        -------
+        jdata: tuple
+            The objects for the job
+
+        """
+        # threads share memory, hence each job needs its own copies
+        return deepcopy(data)
+
     def _submit(self, f, *args, **kwargs):
         """
         Submits to the pool
@@ -70,3 +89,21 @@ class ProcessEngine(ThreadsEngine):
     def _create_pool(self):
         """Creates the pool"""
         self._pool = ProcessPoolExecutor(max_workers=self.n_procs)
+
+    def _job_data(self, *data):
+        """
+        Prepares the objects that are handed over to a job
+
+        Parameters
+        ----------
+        data: tuple
+            The objects that will be modified by the job
+
+        Returns
+        -------
+        jdata: tuple
+            The objects for the job
+
+        """
+        # pickling creates the copies
+        return data
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..410eeba 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -57,6 +57,23 @@ class PoolEngine(Engine):
         """
         pass
 
+    def _job_data(self, *data):
+        """
+        Prepares the objects that are handed over to a job
+
+        Parameters
+        ----------
+        data: tuple
+            The objects that will be modified by the job
+
+        Returns
+        -------
+        jdata: tuple
+            The objects for the job
+
+        """
+        return data
+
     @abstractmethod
     def _result(self, future):
         """
@@ -241,17 +258,18 @@ class PoolEngine(Engine):
                 )
 
                 # submit model calculation:
+                jalgo, jmodel, jcstore = self._job_data(algo, model, chunk_store)
                 jobs[(chunki_states, chunki_points)] = self._submit(
                     _run,
-                    algo,
-                    model,
+                    jalgo,
+                    jmodel,
                     data,
                     iterative,
-                    chunk_store,
+                    jcstore,
                     (i0_states, i0_targets),
                     **calc_pars,
                 )
-                del data
+                del data, jalgo, jmodel, jcstore
 
                 i0_targets = i1_targets
 
-- 
2.43.0


From d4b20e6875181b6b70a257acdafc2d1e0c4fc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 04/89] fix: xarray engine hands the chunk's first state index
 to the models as an integer

---
 foxes/engines/dask.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 8cbf28a..f791341 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -210,6 +210,10 @@ def _run_as_ufunc(
         prev = ldata[:n_prev]
         ldata = ldata[n_prev:]
 
+    # the state index of the first state in this chunk, note that
+    # state_inds may have additional dimensions of size one:
+    i0_states = int(np.ravel(state_inds)[0])
+
     # reconstruct original data:
     data = []
     for i, hvars in enumerate(dvars):
@@ -222,19 +226,19 @@ def _run_as_ufunc(
         if i == 0:
             data.append(
                 MData(
-                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=state_inds[0]
+                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=i0_states
                 )
             )
         elif i == 1:
             data.append(
                 FData(
-                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=state_inds[0]
+                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=i0_states
                 )
             )
         elif i == 2:
             data.append(
                 TData(
-                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=state_inds[0]
+                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=i0_states
                 )
             )
         else:
@@ -267,14 +271,14 @@ def _run_as_ufunc(
     }
 
     if len(data) == 1:
-        data.append(FData(odata, odims, loop_dims, states_i0=state_inds[0]))
+        data.append(FData(odata, odims, loop_dims, states_i0=i0_states))
     else:
         odata.update(data[-1])
         odims.update(data[-1].dims)
         if len(data) == 2:
-            data[-1] = FData(odata, odims, loop_dims, states_i0=state_inds[0])
+            data[-1] = FData(odata, odims, loop_dims, states_i0=i0_states)
         else:
-            data[-1] = TData(odata, odims, loop_dims, states_i0=state_inds[0])
+            data[-1] = TData(odata, odims, loop_dims, states_i0=i0_states)
     del odims, odata
 
     # link chunk state indices from mdata to fdata and tdata:
-- 
2.43.0


From 9f162e13bade96b0e2c39b663ce4fe5f55452ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 05/89] fix: report the inverse downwind order unpermuted, such
 that it inverts the reported order

---
 foxes/algorithms/downwind/models/reorder_farm_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/reorder_farm_output.py b/foxes/algorithms/downwind/models/reorder_farm_output.py
index 3e2a500..cc0f4af 100644
--- a/foxes/algorithms/downwind/models/reorder_farm_output.py
+++ b/foxes/algorithms/downwind/models/reorder_farm_output.py
@@ -76,7 +76,7 @@ class ReorderFarmOutput(FarmDataModel):
         out = {}
         for v in self.output_farm_vars(algo):
             if (
-                v != FV.ORDER
+                v not in [FV.ORDER, FV.ORDER_INV]
                 and fdata[v].shape[1] > 1
                 and np.any(fdata[v] != fdata[v][0, 0, None, None])
             ):
-- 
2.43.0


From 4c11d325f9b3e5cf1beb6d6f30b5a1db23ec5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 06/89] fix: apply the downwind order exactly once to
 per-turbine data of pre- and post-rotor turbine models

---
 foxes/algorithms/downwind/models/init_farm_data.py |  9 +++++++++
 foxes/models/turbine_models/set_farm_vars.py       | 10 ++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..38b24db 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -127,6 +127,15 @@ class InitFarmData(FarmDataModel):
         for v in [FV.D, FV.WD]:
             if np.any(fdata[v] != fdata[v][0, 0, None, None]):
                 fdata[v] = fdata[v][ssel, order]
+        done = self.output_farm_vars(algo) + [FV.TXYH]
+        for k in fdata.keys():
+            if (
+                k not in done
+                and tuple(fdata.dims[k][:2]) == (FC.STATE, FC.TURBINE)
+                and fdata[k].shape[1] == n_turbines
+                and np.any(fdata[k] != fdata[k][0, 0, None, None])
+            ):
+                fdata[k] = fdata[k][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
         for k in mdata.keys():
             if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..b91c3e1 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -271,18 +271,12 @@ class SetFarmVars(TurbineModel):
         i0 = mdata.states_i0(counter=True)
         if not self.once or i0 not in self.__once_done:
 
-            if self.pre_rotor:
-                order = np.s_[:]
-                ssel = np.s_[:]
-            else:
-                order = fdata[FV.ORDER]
-                ssel = fdata[FV.ORDER_SSEL]
-
             bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
             bsel[st_sel] = True
 
             for v in self.vars:
-                data = mdata[self.var(v)][ssel, order]
+                # the model data is in the same turbine order as the farm data
+                data = mdata[self.var(v)]
                 hsel = ~np.isnan(data)
                 tsel = bsel & hsel
 
-- 
2.43.0


From 997c20465aaa621f78abad911b82ee24d9061671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 07/89] fix: iterative algorithm applies the downwind order to
 the model data in all iterations

---
 foxes/algorithms/iterative/iterative.py       |  4 ++
 foxes/algorithms/iterative/models/__init__.py |  1 +
 .../iterative/models/reorder_model_data.py    | 70 +++++++++++++++++++
 3 files changed, 75 insertions(+)
 create mode 100644 foxes/algorithms/iterative/models/reorder_model_data.py

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..2659b27 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -225,6 +225,10 @@ class Iterative(Downwind):
                 if self._urelax is not None and len(self._urelax["pre_wake"]):
                     urelax = mdls.URelax(**self._urelax["pre_wake"])
 
+                # apply downwind order to model data:
+                mlist.models.append(self.get_model("ReorderModelData")())
+                calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+
                 # add model that calculates wake effects:
                 mlist.models.append(
                     self.get_model("FarmWakesCalculation")(urelax=urelax)
diff --git a/foxes/algorithms/iterative/models/__init__.py b/foxes/algorithms/iterative/models/__init__.py
index 4e9831a..8dedc74 100644
--- a/foxes/algorithms/iterative/models/__init__.py
+++ b/foxes/algorithms/iterative/models/__init__.py
@@ -1,3 +1,4 @@
 from .convergence import ConvCrit, ConvCritList, ConvVarDelta, DefaultConv
 from .farm_wakes_calc import FarmWakesCalculation
 from .urelax import URelax
+from .reorder_model_data import ReorderModelData
diff --git a/foxes/algorithms/iterative/models/reorder_model_data.py b/foxes/algorithms/iterative/models/reorder_model_data.py
new file mode 100644
index 0000000..d751dd6
--- /dev/null
+++ b/foxes/algorithms/iterative/models/reorder_model_data.py
@@ -0,0 +1,70 @@
+import numpy as np
+
+from foxes.core import FarmDataModel
+import foxes.constants as FC
+import foxes.variables as FV
+
+
+class ReorderModelData(FarmDataModel):
+    """
+    Applies the downwind order to the model data
+
+    The farm data of previous iterations is in downwind
+    order, while the freshly loaded model data is in farm
+    order.
+
+    :group: algorithms.iterative.models
+
+    """
+
+    def output_farm_vars(self, algo):
+        """
+        The variables which are being modified by the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+
+        Returns
+        -------
+        output_vars: list of str
+            The output variable names
+
+        """
+        return []
+
+    def calculate(self, algo, mdata, fdata):
+        """
+        The main model calculation.
+
+        This function is executed on a single chunk of data,
+        all computations should be based on numpy arrays.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        mdata: foxes.core.MData
+            The model data
+        fdata: foxes.core.FData
+            The farm data
+
+        Returns
+        -------
+        results: dict
+            The resulting data, keys: output variable str.
+            Values: numpy.ndarray with shape (n_states, n_turbines)
+
+        """
+        order = fdata[FV.ORDER].astype(int)
+        ssel = np.zeros_like(order)
+        ssel[:] = np.arange(fdata.n_states)[:, None]
+
+        for k in mdata.keys():
+            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
+                mdata[k] != mdata[k][0, 0, None, None]
+            ):
+                mdata[k] = mdata[k][ssel, order]
+
+        return {}
-- 
2.43.0


From f85e46696974c193ff23d3d9ad2c79e5a90e8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 08/89] fix: power mask uses the rated power of the turbine it
 is applied to

---
 foxes/models/turbine_models/power_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..e058971 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,7 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        P_rated = self._P_rated[fdata[FV.ORDER].astype(config.dtype_int)]
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From 63a7e4f53a73fb1e4ebc1f40c6eae4e01968b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 09/89] fix: sector management acts on the turbines it was
 configured for, and leaves the user's table intact

---
 .../models/turbine_models/sector_management.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..cacedd5 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -3,7 +3,7 @@ import pandas as pd
 
 from foxes.core import TurbineModel
 from foxes.utils import PandasFileHelper
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 import foxes.constants as FC
 
@@ -89,7 +89,7 @@ class SectorManagement(TurbineModel):
         super().initialize(algo, verbosity)
 
         if isinstance(self.source, pd.DataFrame):
-            data = self.source
+            data = self.source.copy()
         else:
             fpath = get_input_path(self.source)
             if verbosity > 0:
@@ -191,17 +191,13 @@ class SectorManagement(TurbineModel):
         """
         # prepare:
         n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
-        else:
-            tsel = self._trbs
+        # position of the turbines in the downwind order, for each state:
+        tsel = fdata[FV.ORDER_INV].astype(config.dtype_int)[:, self._trbs]
 
         # find state-turbine data that matches ranges:
         rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = np.take_along_axis(fdata[v], tsel, axis=1)
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
@@ -227,8 +223,8 @@ class SectorManagement(TurbineModel):
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = tsel[sel]
             for vi, v in enumerate(self._tvars):
-                fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
+                fdata[v][sel[0], selt] = self._tdata[sel[1], vi]
 
         return {v: fdata[v] for v in self._tvars}
-- 
2.43.0


From 1650c0d26a0a029f3133edd3e7ccd508b8a048c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 10/89] fix: table factors model accepts all kinds of
 state-turbine selections

---
 foxes/models/turbine_models/table_factors.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index d9b235d..6764c58 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -143,10 +143,9 @@ class TableFactors(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        n_sel = np.sum(st_sel)
-        qts = np.zeros((n_sel, 2), dtype=config.dtype_double)
-        qts[:, 0] = fdata[self.row_var][st_sel]
-        qts[:, 1] = fdata[self.col_var][st_sel]
+        qts = np.stack(
+            [fdata[self.row_var][st_sel], fdata[self.col_var][st_sel]], axis=-1
+        )
 
         try:
             factors = interpn(
-- 
2.43.0


From 09bf89e6d0279e1f7efdcc7cdfcc5741fc06d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 11/89] fix: power curves leave the rotor equivalent wind
 speeds of the farm data intact

---
 foxes/models/turbine_types/PCt_file.py     | 4 ++--
 foxes/models/turbine_types/PCt_from_two.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 70732c1..2b89a39 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -302,8 +302,8 @@ class PCtFile(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..14cb92a 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -347,8 +347,8 @@ class PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
-- 
2.43.0


From 9bf501bd4180428e16ac158d96b1dbb05167d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 12/89] fix: lookup turbine type keeps the thrust coefficient
 that belongs to its wind speed variable

---
 foxes/models/turbine_types/lookup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 2d73723..740bbfa 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -309,6 +309,7 @@ class FromLookupTable(TurbineType):
         else:
             fdata_lookup[FV.REWS] = rews2
             ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT]
+            ct = ct.copy()
             fdata_lookup[FV.REWS] = rews3
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
             out[FV.CT] = ct
-- 
2.43.0


From 3f2d247196564049f0001a731d07011828fc5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 13/89] fix: two-file wind speed and density or turbulence
 dependent turbine types select states and look up thrust correctly

---
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 10 +++++++---
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 14 +++++++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..4a96588 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -262,6 +262,10 @@ class WsRho2PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
+        # translate slices into a bool selection:
+        bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        bsel[st_sel] = True
+        st_sel = bsel
 
         # calculate P:
         st_sel_P = (
@@ -306,8 +310,8 @@ class WsRho2PCtFromTwo(TurbineType):
         # calculate ct:
         st_sel_ct = (
             st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
+            & (fdata[self.WSCT] >= self._ws_ct[0])
+            & (fdata[self.WSCT] <= self._ws_ct[-1])
         )
         st_sel_ct0 = st_sel & ~st_sel_ct
         if np.any(st_sel_ct0):
@@ -316,7 +320,7 @@ class WsRho2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_ct)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
+            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
             qts[:, 1] = fdata[FV.RHO][st_sel_ct]
 
             # apply yaw corrections:
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..73b4dfc 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -274,6 +274,10 @@ class WsTI2PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
+        # translate slices into a bool selection:
+        bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        bsel[st_sel] = True
+        st_sel = bsel
 
         # calculate P:
         st_sel_P = (
@@ -296,7 +300,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # correct wind speed by air density, such
                 # that in the partial load region the
                 # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
+                rho = fdata[FV.RHO][st_sel_P]
                 qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
                 del rho
 
@@ -327,8 +331,8 @@ class WsTI2PCtFromTwo(TurbineType):
         # calculate ct:
         st_sel_ct = (
             st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
+            & (fdata[self.WSCT] >= self._ws_ct[0])
+            & (fdata[self.WSCT] <= self._ws_ct[-1])
         )
         st_sel_ct0 = st_sel & ~st_sel_ct
         if np.any(st_sel_ct0):
@@ -337,7 +341,7 @@ class WsTI2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_ct)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
+            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
             qts[:, 1] = fdata[FV.TI][st_sel_ct]
 
             # apply air density correction:
@@ -345,7 +349,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # correct wind speed by air density, such
                 # that in the partial load region the
                 # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
+                rho = fdata[FV.RHO][st_sel_ct]
                 qts[:, 0] *= (self.rho / rho) ** 0.5
                 del rho
 
-- 
2.43.0


From 23b5a6bea576f4c20798b0043d05de3a48019a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 14/89] fix: streamline wakes start with the inflow direction
 and are evaluated in downstream order

---
 foxes/models/wake_frames/streamlines.py | 46 +++++++++++--------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..43544bb 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -68,36 +68,34 @@ class Streamlines2D(WakeFrame):
         data = np.zeros((n_states, n_turbines, N, 4), dtype=config.dtype_double)
         for i in range(N):
 
-            # set streamline start point data (rotor centre):
+            # set streamline start point (rotor centre):
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
 
-            # compute next step:
+            # calculate next point:
             else:
-
-                # calculate next point:
                 xyz = data[:, :, i - 1, :3]
                 n = wd2uv(data[:, :, i - 1, 3])
                 data[:, :, i, :2] = xyz[:, :, :2] + self.step * n
                 data[:, :, i, 2] = xyz[:, :, 2]
 
-                # calculate next tangential vector:
-                svars = algo.states.output_point_vars(algo)
-                tdata = TData.from_points(
-                    data[:, :, i, :3],
-                    data={
-                        v: np.full(
-                            (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
-                        )
-                        for v in svars
-                    },
-                    dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
-                )
-                data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[
-                    FV.WD
-                ][:, :, 0]
+            # calculate tangential vector at this point:
+            svars = algo.states.output_point_vars(algo)
+            tdata = TData.from_points(
+                data[:, :, i, :3],
+                data={
+                    v: np.full(
+                        (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
+                    )
+                    for v in svars
+                },
+                dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
+            )
+            data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[FV.WD][
+                :, :, 0
+            ]
 
+            if i > 0:
                 sel = np.isnan(data[:, :, i, 3])
                 if np.any(sel):
                     data[sel, i, 3] = data[sel, i - 1, 3]
@@ -202,11 +200,9 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
-        # derive turbine order:
-        # TODO: Remove loop over states
-        order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
+        # derive turbine order, by the number of turbines located upstream:
+        n_upstream = np.sum(coosx > 0, axis=1)
+        order = np.argsort(n_upstream, axis=1, kind="stable")
 
         return order
 
-- 
2.43.0


From e64ad8e60efba9041ef419977aae20701ab86de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 15/89] fix: yawed wake centre line of a single point does not
 crash

---
 foxes/models/wake_frames/yawed_wakes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..7b6dfbf 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -309,11 +309,16 @@ class YawedWakes(WakeFrame):
         tdata = TData.from_points(points)
 
         nx = np.zeros_like(points)
-        nx[:, 0] = points[:, 1] - points[:, 0]
-        nx[:, -1] = points[:, -1] - points[:, -2]
-        nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
-            points[:, 2:] - points[:, 1:-1]
-        )
+        if points.shape[1] == 1:
+            nx[:] = points - self.base_frame.get_centreline_points(
+                algo, mdata, fdata, downwind_index, np.zeros_like(x)
+            )
+        else:
+            nx[:, 0] = points[:, 1] - points[:, 0]
+            nx[:, -1] = points[:, -1] - points[:, -2]
+            nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
+                points[:, 2:] - points[:, 1:-1]
+            )
         nx /= np.linalg.norm(nx, axis=-1)[:, :, None]
 
         nz = np.zeros_like(nx)
-- 
2.43.0


From 3eb2e81c04f982e3cffa834e226b9db5b5b127da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 16/89] fix: lookup table model accepts chunks without selected
 turbines

---
 foxes/models/turbine_models/lookup_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 5ae07d9..6a937ab 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -201,6 +201,10 @@ class LookupTable(TurbineModel):
             for v in self.input_vars
         }
 
+        # nothing to look up if the selection is empty:
+        if any(np.size(d) == 0 for d in data.values()):
+            return {v: fdata[v] for v in self.output_vars}
+
         dims = {
             v: ("_z") if len(data[v].shape) == 1 else ("_z", "_u")
             for v in self.input_vars
-- 
2.43.0


From 880a3c1ef1f3638f7e677ce2bc8d49883d252c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 17/89] fix: default engine stays initialized if a calculation
 or a mapped function fails

---
 foxes/engines/default.py | 46 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/foxes/engines/default.py b/foxes/engines/default.py
index 1576b10..15c2008 100644
--- a/foxes/engines/default.py
+++ b/foxes/engines/default.py
@@ -43,16 +43,17 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            "process",
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.map(func, inputs, *args, **kwargs)
-
-        self.initialize()
+        try:
+            with Engine.new(
+                "process",
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.map(func, inputs, *args, **kwargs)
+        finally:
+            self.initialize()
 
         return results
 
@@ -102,17 +103,18 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            ename,
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.run_calculation(
-                algo, model, model_data, farm_data, point_data=point_data, **kwargs
-            )
-
-        self.initialize()
+        try:
+            with Engine.new(
+                ename,
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.run_calculation(
+                    algo, model, model_data, farm_data, point_data=point_data, **kwargs
+                )
+        finally:
+            self.initialize()
 
         return results
-- 
2.43.0


From 3d7c69004de2c5136281e6ca647f9f0107997f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 18/89] fix: a rejected engine start leaves that engine
 unentered and creates no worker pool

---
 foxes/core/engine.py  |  6 +++++-
 foxes/engines/pool.py | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index afaefb2..9b99e0a 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -76,7 +76,11 @@ class Engine(ABC):
             raise ValueError(f"Enter called for already entered engine")
         self.__entered = True
         if not self.initialized:
-            self.initialize()
+            try:
+                self.initialize()
+            except Exception as e:
+                self.__entered = False
+                raise e
         return self
 
     def __exit__(self, *exit_args):
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 410eeba..3fa6bf3 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -98,12 +98,17 @@ class PoolEngine(Engine):
         pass
 
     def __enter__(self):
-        self._create_pool()
-        return super().__enter__()
+        super().__enter__()
+        try:
+            self._create_pool()
+        except Exception as e:
+            super().__exit__()
+            raise e
+        return self
 
     def __exit__(self, *exit_args):
-        self._shutdown_pool()
         super().__exit__(*exit_args)
+        self._shutdown_pool()
 
     def map(
         self,
-- 
2.43.0


From 13dc4d25592d6d7e3d2e611fbb1089d39c57c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 19/89] fix: algorithms stay usable after a failed farm or
 point calculation

---
 foxes/algorithms/downwind/downwind.py | 42 ++++++++++++++----------
 foxes/core/algorithm.py               | 46 +++++++++++++++------------
 2 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 79fe9d9..bf7d37f 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -577,13 +577,18 @@ class Downwind(Algorithm):
         self.print(f"\nOutput variables:", ", ".join(outputs))
 
         # run main calculation:
-        farm_results = super().calc_farm(
-            mlist,
-            model_data,
-            parameters=calc_pars,
-            outputs=outputs,
-            **kwargs,
-        )
+        try:
+            farm_results = super().calc_farm(
+                mlist,
+                model_data,
+                parameters=calc_pars,
+                outputs=outputs,
+                **kwargs,
+            )
+        except Exception as e:
+            mlist.finalize(self, self.verbosity - 1)
+            self.finalize()
+            raise e
         farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
         for v in [FV.ORDER, FV.ORDER_SSEL, FV.ORDER_INV]:
             if v in farm_results:
@@ -801,15 +806,20 @@ class Downwind(Algorithm):
         self.print(f"\nOutput point variables:", ", ".join(ovars))
 
         # calculate:
-        point_results = super().calc_points(
-            mlist,
-            model_data,
-            farm_results,
-            point_data,
-            outputs=ovars,
-            parameters=calc_pars,
-            **kwargs,
-        )
+        try:
+            point_results = super().calc_points(
+                mlist,
+                model_data,
+                farm_results,
+                point_data,
+                outputs=ovars,
+                parameters=calc_pars,
+                **kwargs,
+            )
+        except Exception as e:
+            mlist.finalize(self, self.verbosity - 1)
+            self.finalize()
+            raise e
         del model_data, farm_results, point_data
 
         # finalize models:
diff --git a/foxes/core/algorithm.py b/foxes/core/algorithm.py
index beafde3..d84c405 100644
--- a/foxes/core/algorithm.py
+++ b/foxes/core/algorithm.py
@@ -827,19 +827,21 @@ class Algorithm(Model):
             )
 
         # run parallel calculation:
-        farm_results = self._launch_parallel_farm_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=None,
-            isel=None,
-            **kwargs,
-        )
+        try:
+            farm_results = self._launch_parallel_farm_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=None,
+                isel=None,
+                **kwargs,
+            )
 
         # reset to not running:
-        for m in mdls:
-            m.unset_running(
-                self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
-            )
+        finally:
+            for m in mdls:
+                m.unset_running(
+                    self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+                )
 
         return farm_results
 
@@ -906,18 +908,20 @@ class Algorithm(Model):
 
         # run parallel calculation:
         chunk_store = self.reset_chunk_store()
-        point_results = self._launch_parallel_points_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=sel,
-            isel=isel,
-            **kwargs,
-        )
+        try:
+            point_results = self._launch_parallel_points_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=sel,
+                isel=isel,
+                **kwargs,
+            )
 
         # reset to not running:
-        self.unset_running(
-            self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
-        )
+        finally:
+            self.unset_running(
+                self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
+            )
 
         return point_results
 
-- 
2.43.0


From 4b6a475dce08ef145c991ae47f839dea2dc51aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 20/89] fix: engine map hands the inputs to the function
 unchanged

---
 foxes/engines/dask.py | 6 +++++-
 foxes/engines/pool.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index f791341..f4abd30 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -133,7 +133,11 @@ class DaskBaseEngine(Engine):
         elif len(inputs) == 1:
             return [func(inputs[0], *args, **kwargs)]
         else:
-            inptl = np.array_split(inputs, min(self.n_procs, len(inputs)))
+            n_jobs = min(self.n_procs, len(inputs))
+            inptl = [
+                [inputs[i] for i in inds]
+                for inds in np.array_split(np.arange(len(inputs)), n_jobs)
+            ]
             jobs = []
             for subi in inptl:
                 jobs.append(_run_map(func, subi, *args, **kwargs))
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 3fa6bf3..268a886 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -143,7 +143,11 @@ class PoolEngine(Engine):
         elif len(inputs) == 1:
             return [func(inputs[0], *args, **kwargs)]
         else:
-            inptl = np.array_split(inputs, min(self.n_procs, len(inputs)))
+            n_jobs = min(self.n_procs, len(inputs))
+            inptl = [
+                [inputs[i] for i in inds]
+                for inds in np.array_split(np.arange(len(inputs)), n_jobs)
+            ]
             jobs = []
             for subi in inptl:
                 jobs.append(self._submit(_run_map, func, subi, *args, **kwargs))
-- 
2.43.0


From c17e7908b7a16de50ee5b81de11cc0ce2ca0512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 21/89] fix: a failed model initialization leaves no partially
 initialized sub-models behind

---
 foxes/core/model.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index a451056..d2b0ba4 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -142,18 +142,29 @@ class Model(ABC):
             raise ValueError(f"Model '{self.name}': Cannot initialize while running")
         if not self.initialized:
             pr = False
-            for m in self.sub_models():
-                if not m.initialized:
-                    if verbosity > 1 and not pr:
-                        print(f">> {self.name}: Starting sub-model initialization >> ")
-                        pr = True
-                    m.initialize(algo, verbosity)
-            if pr:
-                print(f"<< {self.name}: Finished sub-model initialization << ")
-
-            if verbosity > 0:
-                print(f"Initializing model '{self.name}'")
-            algo.store_model_data(self, self.load_data(algo, verbosity), force)
+            done = []
+            try:
+                for m in self.sub_models():
+                    if not m.initialized:
+                        if verbosity > 1 and not pr:
+                            print(
+                                f">> {self.name}: Starting sub-model initialization >> "
+                            )
+                            pr = True
+                        m.initialize(algo, verbosity)
+                        done.append(m)
+                if pr:
+                    print(f"<< {self.name}: Finished sub-model initialization << ")
+
+                if verbosity > 0:
+                    print(f"Initializing model '{self.name}'")
+                algo.store_model_data(self, self.load_data(algo, verbosity), force)
+
+            # undo the sub-model initialization if it cannot be completed:
+            except Exception as e:
+                for m in done:
+                    m.finalize(algo, verbosity)
+                raise e
 
             self.__initialized = True
 
-- 
2.43.0


From 341d68362c6c8d411d72bbd5ce66343bcd861b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 22/89] fix: farm results can be reduced to any selection of
 output variables

---
 foxes/core/farm_data_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/core/farm_data_model.py b/foxes/core/farm_data_model.py
index 2c05cb2..9f0e910 100644
--- a/foxes/core/farm_data_model.py
+++ b/foxes/core/farm_data_model.py
@@ -285,6 +285,8 @@ class FarmDataModelList(FarmDataModel):
                 f"{self.name}: Wrong parameters length, expecting list with {len(self.models)} entries, got {len(parameters)}"
             )
 
+        self.ensure_variables(algo, mdata, fdata)
+
         for mi, m in enumerate(self.models):
             # print("MLIST VARS BEFORE",m.name,list(fdata.keys()),parameters[mi])
             res = m.calculate(algo, mdata, fdata, **parameters[mi])
-- 
2.43.0


From 55a6a5f887344953431d994edf195115f032e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 23/89] fix: iterative algorithm supports ambient runs and
 reports the results of the last iteration

---
 foxes/algorithms/downwind/downwind.py   | 5 +++--
 foxes/algorithms/iterative/iterative.py | 8 +++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index bf7d37f..bc56cb8 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -559,7 +559,8 @@ class Downwind(Algorithm):
         mlist, calc_pars = self._collect_farm_models(outputs, calc_parameters, ambient)
 
         # initialize models:
-        if not mlist.initialized:
+        new_mlist = not mlist.initialized
+        if new_mlist:
             mlist.initialize(self, self.verbosity - 1)
             self._calc_farm_vars(mlist)
         self._print_model_oder(mlist, calc_pars)
@@ -600,7 +601,7 @@ class Downwind(Algorithm):
             self.print("\n")
             mlist.finalize(self, self.verbosity - 1)
             self.finalize()
-        else:
+        elif new_mlist:
             self.del_model_data(mlist)
 
         if ambient:
diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 2659b27..60fc3cb 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -209,7 +209,7 @@ class Iterative(Downwind):
 
             return self._mlist0, self._calc_pars0
 
-        elif ambient or self._reamb:
+        elif (ambient or self._reamb) and not self._final_run:
             return self._mlist0, self._calc_pars0
 
         else:
@@ -308,6 +308,11 @@ class Iterative(Downwind):
             fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
 
             fres_dwnd = fres
+
+            # no iterations without wakes:
+            if kwargs.get("ambient", False):
+                break
+
             if self.conv_crit is not None:
                 if self.eval_conv_block():
                     self.print(f"{self.name}: Convergence blocked", vlim=0)
@@ -327,6 +332,7 @@ class Iterative(Downwind):
         # final run, recovers farm order of results:
         self.print("Starting final run", vlim=0)
         self._final_run = True
+        self.__prev_farm_results = fres_dwnd
         fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
 
         # finalize models:
-- 
2.43.0


From 71479ae900f71fcf8cb82d8cbc55186f5435104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 24/89] fix: yawed wake frames do not share their default base
 frame

---
 foxes/models/wake_frames/yawed_wakes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 7b6dfbf..0c879e7 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -42,7 +42,7 @@ class YawedWakes(WakeFrame):
 
     def __init__(
         self,
-        base_frame=RotorWD(),
+        base_frame=None,
         alpha=0.58,
         beta=0.07,
         induction="Madsen",
@@ -54,8 +54,9 @@ class YawedWakes(WakeFrame):
 
         Parameters
         ----------
-        base_frame: foxes.core.WakeFrame
-            The wake frame from which to start
+        base_frame: foxes.core.WakeFrame, optional
+            The wake frame from which to start, by
+            default a new RotorWD
         alpha: float
             model parameter used to determine onset of far wake region,
             if not found in wake model
@@ -72,7 +73,7 @@ class YawedWakes(WakeFrame):
         """
         super().__init__(max_length_km=max_length_km)
 
-        self.base_frame = base_frame
+        self.base_frame = RotorWD() if base_frame is None else base_frame
         self.model = None
         self.alpha = alpha
         self.beta = beta
-- 
2.43.0


From e0757d33ce801452e1fb7daf572bdedab4d196bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 25/89] fix: partial wakes use the diameter of the rotor that
 is hit by the wake

---
 foxes/algorithms/downwind/models/farm_wakes_calc.py | 10 +++++++++-
 .../algorithms/iterative/models/farm_wakes_calc.py  | 10 +++++++++-
 foxes/models/partial_wakes/axiwake.py               | 13 ++-----------
 foxes/models/partial_wakes/top_hat.py               | 12 ++----------
 4 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 48b6e42..d43b740 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -2,6 +2,7 @@ import numpy as np
 from copy import deepcopy
 
 from foxes.core import FarmDataModel, TData
+from foxes.config import config
 import foxes.constants as FC
 import foxes.variables as FV
 
@@ -70,7 +71,14 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                tD = np.zeros(tpoints.shape[:3], dtype=config.dtype_double)
+                tD[:] = fdata[FV.D][:, :, None]
+                pwake2tdata[pwake.name] = TData.from_tpoints(
+                    tpoints,
+                    tweights,
+                    data={FV.D: tD},
+                    dims={FV.D: (FC.STATE, FC.TARGET, FC.TPOINT)},
+                )
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..120480d 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -2,6 +2,7 @@ import numpy as np
 from copy import deepcopy
 
 from foxes.core import FarmDataModel, TData
+from foxes.config import config
 import foxes.constants as FC
 import foxes.variables as FV
 
@@ -100,7 +101,14 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                tD = np.zeros(tpoints.shape[:3], dtype=config.dtype_double)
+                tD[:] = fdata[FV.D][:, :, None]
+                pwake2tdata[pwake.name] = TData.from_tpoints(
+                    tpoints,
+                    tweights,
+                    data={FV.D: tD},
+                    dims={FV.D: (FC.STATE, FC.TARGET, FC.TPOINT)},
+                )
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index c41e63e..bfd8fea 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -112,17 +112,8 @@ class PartialAxiwake(PartialCentre):
         n_states = mdata.n_states
         n_targets = tdata.n_targets
 
-        # get D:
-        D = self.get_data(
-            FV.D,
-            FC.STATE_TARGET,
-            lookup="w",
-            algo=algo,
-            fdata=fdata,
-            tdata=tdata,
-            downwind_index=downwind_index,
-            upcast=True,
-        )
+        # get the diameters of the rotors that are hit by the wake:
+        D = tdata[FV.D][:, :, 0]
 
         # calc coordinates to rotor centres:
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
diff --git a/foxes/models/partial_wakes/top_hat.py b/foxes/models/partial_wakes/top_hat.py
index a48c050..d9c0d03 100644
--- a/foxes/models/partial_wakes/top_hat.py
+++ b/foxes/models/partial_wakes/top_hat.py
@@ -153,16 +153,8 @@ class PartialTopHat(PartialCentre):
             R = np.linalg.norm(yz, axis=-1)
             del yz
 
-            D = self.get_data(
-                FV.D,
-                FC.STATE_TARGET,
-                lookup="w",
-                fdata=fdata,
-                tdata=tdata,
-                downwind_index=downwind_index,
-                algo=algo,
-                upcast=True,
-            )
+            # the diameters of the rotors that are hit by the wake:
+            D = tdata[FV.D][:, :, 0]
 
             wr = wmodel.calc_wake_radius(
                 algo, mdata, fdata, tdata, downwind_index, x, ct
-- 
2.43.0


From 6ef8a2e9e2e6a4bf24b10ef51383f95db092a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 26/89] fix: axiwake partial wakes include wake centres exactly
 on the edge of the rotor

---
 foxes/models/partial_wakes/axiwake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index bfd8fea..f5f940f 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -137,7 +137,7 @@ class PartialAxiwake(PartialCentre):
             n[:, :, 0][~sel] = 1
 
         # case wake centre outside rotor disk:
-        sel = (x > 1e-8) & (R > D / 2)
+        sel = (x > 1e-8) & (R >= D / 2)
         if np.any(sel):
             n_sel = np.sum(sel)
             Rsel = np.zeros((n_sel, self.n + 1), dtype=config.dtype_double)
-- 
2.43.0


From eba1b78cca494a94c3765b1a9b84830f1f8f71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 27/89] fix: wake mirrors apply the partial wakes model also to
 the original wake

---
 foxes/models/ground_models/wake_mirror.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..7db1e33 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -75,8 +75,7 @@ class WakeMirror(GroundModel):
         # assert(np.all(fdata[FV.H]==fdata[FV.TXYH[..., 2]]))
 
         # contribution from main wake:
-        wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-        wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
+        pwake.contribute(algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel)
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
-- 
2.43.0


From 62b5926926c26e870a39ecefce49a5cc5325a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 28/89] fix: cut-in modification leaves the other curve
 unchanged and is applied once per turbine type

---
 foxes/algorithms/iterative/iterative.py |  2 +-
 foxes/models/turbine_types/PCt_file.py  | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 60fc3cb..399022c 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -131,7 +131,7 @@ class Iterative(Downwind):
         """
         super().initialize()
         if len(self._mod_cutin):
-            for t in self.farm_controller.turbine_types:
+            for t in dict.fromkeys(self.farm_controller.turbine_types):
                 t.modify_cutin(**self._mod_cutin)
 
     @property
diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 2b89a39..283a08e 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -186,7 +186,8 @@ class PCtFile(TurbineType):
             data = PandasFileHelper.read_file(fpath, **self.rpars)
 
         data = data.set_index(self.col_ws).sort_index()
-        self.data_ws = data.index.to_numpy()
+        self.data_ws_P = data.index.to_numpy()
+        self.data_ws_ct = self.data_ws_P
         self.data_P = data[self.col_P].to_numpy()
         self.data_ct = data[self.col_ct].to_numpy()
 
@@ -233,7 +234,7 @@ class PCtFile(TurbineType):
         """
         if modify_ct or modify_P:
 
-            ws = self.data_ws
+            ws = self.data_ws_ct if modify_ct else self.data_ws_P
             ct = self.data_ct
             P = self.data_P
 
@@ -258,20 +259,21 @@ class PCtFile(TurbineType):
                 new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
                 new_ct = np.zeros_like(new_ws)
                 new_P = np.zeros_like(new_ws)
+                new_ws_all = np.concatenate([new_ws[:-1], ws], axis=0)
 
                 if modify_ct:
                     new_ct[-1] = ct[0]
                     for it in range(iterations):
                         new_ct[1:-1] = a * new_ct[:-2] + (1 - a) * new_ct[2:]
+                    self.data_ws_ct = new_ws_all
+                    self.data_ct = np.concatenate([new_ct[:-1], ct], axis=0)
 
                 if modify_P:
                     new_P[-1] = P[0]
                     for it in range(iterations):
                         new_P[1:-1] = b * new_P[:-2] + (1 - b) * new_P[2:]
-
-                self.data_ws = np.concatenate([new_ws[:-1], ws], axis=0)
-                self.data_ct = np.concatenate([new_ct[:-1], ct], axis=0)
-                self.data_P = np.concatenate([new_P[:-1], P], axis=0)
+                    self.data_ws_P = new_ws_all
+                    self.data_P = np.concatenate([new_P[:-1], P], axis=0)
 
         else:
             super().modify_cutin(modify_ct, modify_P)
@@ -338,10 +340,10 @@ class PCtFile(TurbineType):
         }
 
         out[FV.P][st_sel] = np.interp(
-            rews3, self.data_ws, self.data_P, left=0.0, right=0.0
+            rews3, self.data_ws_P, self.data_P, left=0.0, right=0.0
         )
         out[FV.CT][st_sel] = np.interp(
-            rews2, self.data_ws, self.data_ct, left=0.0, right=0.0
+            rews2, self.data_ws_ct, self.data_ct, left=0.0, right=0.0
         )
 
         return out
@@ -359,4 +361,4 @@ class PCtFile(TurbineType):
 
         """
         super().finalize(algo, verbosity)
-        del self.data_ws, self.data_P, self.data_ct
+        del self.data_ws_P, self.data_ws_ct, self.data_P, self.data_ct
-- 
2.43.0


From 2b4101a9a8c787a94c2242ccd526f4e7a6febf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 29/89] fix: point wakes of several wake models are all based
 on the ambient results

---
 foxes/algorithms/downwind/models/point_wakes_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/point_wakes_calc.py b/foxes/algorithms/downwind/models/point_wakes_calc.py
index c8ff6d0..b2a01be 100644
--- a/foxes/algorithms/downwind/models/point_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/point_wakes_calc.py
@@ -115,6 +115,7 @@ class PointWakesCalculation(PointDataModel):
 
         """
         res = {}
+        amb_res = {v: tdata[v] for v in self.pvars if v in tdata}
         wmodels = (
             algo.wake_models.values() if self.wake_models is None else self.wake_models
         )
@@ -139,7 +140,9 @@ class PointWakesCalculation(PointDataModel):
                     if v not in res and v in tdata:
                         res[v] = tdata[v].copy()
 
-                gmodel.finalize_point_wakes(algo, mdata, fdata, res, wdeltas, wmodel)
+                gmodel.finalize_point_wakes(
+                    algo, mdata, fdata, amb_res, wdeltas, wmodel
+                )
 
                 for v in res.keys():
                     if v in wdeltas:
-- 
2.43.0


From 44148321c7096dc38e2b22047de597e36dde1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 30/89] fix: several Bastankhah2016 wake models do not share
 their intermediate results

---
 foxes/models/wake_models/wind/bastankhah16.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/wake_models/wind/bastankhah16.py b/foxes/models/wake_models/wind/bastankhah16.py
index b4b1c3c..4cbe281 100644
--- a/foxes/models/wake_models/wind/bastankhah16.py
+++ b/foxes/models/wake_models/wind/bastankhah16.py
@@ -150,6 +150,7 @@ class Bastankhah2016Model(Model):
         # store parameters:
         out = {self.PARS: self.pars}
         out[self.CHECK] = (
+            id(self),
             mdata.states_i0(counter=True),
             mdata.n_states,
             downwind_index,
@@ -353,6 +354,7 @@ class Bastankhah2016Model(Model):
 
         """
         check = (
+            id(self),
             mdata.states_i0(counter=True),
             mdata.n_states,
             downwind_index,
-- 
2.43.0


From bf8d81fb7873c5e291e5e788a0059d136e53ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 31/89] fix: under-relaxation of iterative calculations before
 wakes and at the end works

---
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 4 ++--
 foxes/algorithms/iterative/models/urelax.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 120480d..6dabf0c 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -164,8 +164,8 @@ class FarmWakesCalculation(FarmDataModel):
         wake_res[FV.WEIGHT] = weights
         rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts)
         res = algo.farm_controller.calculate(algo, mdata, fdata, pre_rotor=False)
-        if self.urelax is not None:
-            res = self.urelax.calculate(algo, mdata, fdata, res)
         fdata.update(res)
+        if self.urelax is not None:
+            fdata.update(self.urelax.calculate(algo, mdata, fdata))
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index cb706b2..e4e4fa7 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -71,9 +71,9 @@ class URelax(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        i0 = fdata.states_i0(counter=True, algo=algo)
+        i0 = fdata.states_i0(counter=True)
         i1 = i0 + fdata.n_states
-        pres = algo.prev_farm_results
+        pres = algo.farm_results_downwind
 
         out = {}
         for v, u in self.urel.items():
-- 
2.43.0


From 7f3fd0e30cabbe5775519385a1c812c5cf431d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 32/89] fix: effective wind speeds of single-point rotors are
 never negative

---
 foxes/core/rotor_model.py           |  6 ++----
 foxes/models/rotor_models/centre.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..f0907a4 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -289,7 +289,7 @@ class RotorModel(FarmDataModel):
                             )
                         )
                     else:
-                        rews2 = np.sqrt(np.einsum("stp,p->st", wsp**2, rpoint_weights))
+                        rews2 = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews2, downwind_index)
                     del rews2
                     vdone.append(v)
@@ -304,9 +304,7 @@ class RotorModel(FarmDataModel):
                             np.einsum("stp,p->st", wsp**3, rpoint_weights), 0.0
                         ) ** (1.0 / 3.0)
                     else:
-                        rews3 = (np.einsum("stp,p->st", wsp**3, rpoint_weights)) ** (
-                            1.0 / 3.0
-                        )
+                        rews3 = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews3, downwind_index)
                     del rews3
                     vdone.append(v)
diff --git a/foxes/models/rotor_models/centre.py b/foxes/models/rotor_models/centre.py
index dc34055..234bde7 100644
--- a/foxes/models/rotor_models/centre.py
+++ b/foxes/models/rotor_models/centre.py
@@ -126,7 +126,13 @@ class CentreRotor(RotorModel):
         """
         if len(rpoint_weights) > 1:
             return super().eval_rpoint_results(
-                algo, mdata, fdata, rpoint_results, rpoint_weights, downwind_index
+                algo,
+                mdata,
+                fdata,
+                rpoint_results,
+                rpoint_weights,
+                downwind_index,
+                copy_to_ambient,
             )
 
         n_states = mdata.n_states
@@ -183,7 +189,7 @@ class CentreRotor(RotorModel):
 
             for v in self.calc_vars:
                 if v == FV.REWS or v == FV.REWS2 or v == FV.REWS3:
-                    rews = wsp[:, :, 0]
+                    rews = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews, downwind_index)
                     del rews
                     vdone.append(v)
-- 
2.43.0


From 9b726203b43bf143585992de9332c1476f3943ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 33/89] fix: yawed wakes shift rotor points laterally instead
 of collapsing them

---
 foxes/models/wake_frames/yawed_wakes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 0c879e7..8bca397 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -273,10 +273,11 @@ class YawedWakes(WakeFrame):
         xy = np.einsum("stpd,p->std", xyz[..., :2], tdata[FC.TWEIGHTS])
         x = xy[:, :, 0]
         y = xy[:, :, 1]
+        y0 = y.copy()
 
-        # apply deflection:
+        # apply deflection, shifting all points of the target equally:
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
-        xyz[..., 1] = y[:, :, None]
+        xyz[..., 1] += (y - y0)[:, :, None]
 
         return xyz
 
-- 
2.43.0


From 345931ab1d5a12f1f58184583681e71af77b0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 34/89] fix: centreline of yawed wakes follows the deflection

---
 foxes/models/wake_frames/yawed_wakes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 8bca397..3521fd4 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -331,6 +331,8 @@ class YawedWakes(WakeFrame):
         y = np.zeros_like(x)
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
 
-        points += y[:, :, None] * ny
+        # the wake coordinate y is reduced by the deflection, so the
+        # centreline is where it vanishes:
+        points -= y[:, :, None] * ny
 
         return points
-- 
2.43.0


From 72374a6c6f29793f099084f01cabc9b29cd6cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 35/89] fix: yawed rotors are evaluated at the wake coordinate
 of their centre

---
 foxes/models/wake_models/dist_sliced.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/models/wake_models/dist_sliced.py b/foxes/models/wake_models/dist_sliced.py
index 1c21eb9..3d34eb0 100644
--- a/foxes/models/wake_models/dist_sliced.py
+++ b/foxes/models/wake_models/dist_sliced.py
@@ -1,6 +1,8 @@
+import numpy as np
 from abc import abstractmethod
 
 from foxes.core import WakeModel
+import foxes.constants as FC
 
 
 class DistSlicedWakeModel(WakeModel):
@@ -152,7 +154,7 @@ class DistSlicedWakeModel(WakeModel):
             (n_states, n_targets, n_tpoints, ...)
 
         """
-        x = wake_coos[:, :, 0, 0]
+        x = np.einsum("stp,p->st", wake_coos[..., 0], tdata[FC.TWEIGHTS])
         yz = wake_coos[..., 1:3]
 
         wdeltas, st_sel = self.calc_wakes_x_yz(
-- 
2.43.0


From 2736be133edd74fdcfdc8df42c230f8261f251ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 36/89] fix: ambient runs of the iterative algorithm return
 turbines in farm order

---
 foxes/algorithms/iterative/iterative.py   | 5 +++--
 foxes/algorithms/sequential/sequential.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 399022c..c64d289 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -77,6 +77,7 @@ class Iterative(Downwind):
         )
         self.__prev_farm_results = None
         self._it = None
+        self._final_run = False
         self._mlist = None
         self._reamb = False
         self._urelax = None
@@ -169,7 +170,7 @@ class Iterative(Downwind):
         """
         Helper function that creates model list
         """
-        if self._it == 0:
+        if self._it == 0 and not self._final_run:
             self._mlist0, self._calc_pars0 = super()._collect_farm_models(
                 outputs=False,
                 calc_parameters=calc_parameters,
@@ -249,7 +250,7 @@ class Iterative(Downwind):
 
     def _calc_farm_vars(self, mlist):
         """Helper function that gathers the farm variables"""
-        if self._it == 0:
+        if self._it == 0 and not self._final_run:
             super()._calc_farm_vars(mlist)
 
     def _launch_parallel_farm_calc(self, mlist, *data, **kwargs):
diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index abcc3df..2b2c152 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -143,6 +143,7 @@ class Sequential(Iterative):
             self._counter = 0
 
             self._it = 0
+            self._final_run = False
             mlist, __ = self._collect_farm_models(
                 None, self.calc_pars, ambient=self.ambient
             )
-- 
2.43.0


From 640189423950fa7e0d5ec289b037010f7c709de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 37/89] fix: sequential runs honour the ambient flag and the
 state counter

---
 foxes/algorithms/downwind/models/init_farm_data.py |  3 +++
 foxes/algorithms/sequential/models/seq_state.py    | 13 ++++++++++++-
 foxes/algorithms/sequential/sequential.py          | 10 ++++++++--
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 38b24db..f936c37 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -91,6 +91,9 @@ class InitFarmData(FarmDataModel):
                 fdata[FV.TXYH][:, ti, :2] = t.xy[None, :]
             else:
                 i0 = fdata.states_i0(counter=True)
+                if getattr(algo, "iterating", False):
+                    # sequential run, one state at a time:
+                    i0 = algo.counter
                 s = np.s_[i0 : i0 + fdata.n_states]
                 fdata[FV.TXYH][:, ti, :2] = t.xy[s]
 
diff --git a/foxes/algorithms/sequential/models/seq_state.py b/foxes/algorithms/sequential/models/seq_state.py
index 8b8759b..cff392b 100644
--- a/foxes/algorithms/sequential/models/seq_state.py
+++ b/foxes/algorithms/sequential/models/seq_state.py
@@ -1,3 +1,4 @@
+from foxes.core.data import MData
 from foxes.core.states import States
 
 
@@ -29,7 +30,7 @@ class SeqState(States):
         self.states = states
 
         # updated by SequentialIter:
-        self._size = states.size()
+        self._size = None
         self._indx = None
         self._counter = None
 
@@ -142,4 +143,14 @@ class SeqState(States):
             (n_states, n_targets, n_tpoints)
 
         """
+        # the wrapped states expect the counter of the current state:
+        if self._counter is not None:
+            mdata = MData(
+                data=dict(mdata),
+                dims=dict(mdata.dims),
+                loop_dims=mdata.loop_dims,
+                states_i0=self._counter,
+                name=mdata.name,
+            )
+
         return self.states.calculate(algo, mdata, fdata, tdata)
diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 2b2c152..4e47e26 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -169,6 +169,7 @@ class Sequential(Iterative):
                         ),
                     )
                     for v in self.farm_vars
+                    if not (self.ambient and v in FV.var2amb)
                 },
             )
             self._farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
@@ -202,7 +203,7 @@ class Sequential(Iterative):
                 outputs=self.farm_vars,
                 finalize=False,
                 ret_dwnd_order=True,
-                **self.calc_pars,
+                **{"ambient": self.ambient, **self.calc_pars},
             )
 
             for v in self._farm_results.data_vars.keys():
@@ -220,7 +221,12 @@ class Sequential(Iterative):
                 return fres
 
             else:
-                pres = super().calc_points(fres, points=self.points, finalize=False)
+                pres = super().calc_points(
+                    fres,
+                    points=self.points,
+                    ambient=self.ambient,
+                    finalize=False,
+                )
 
                 if self._point_results is None:
                     n_states = self._model_data.sizes[FC.STATE]
-- 
2.43.0


From c0e34c4e4ac140c49ee7da3461539858dbf5b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 38/89] fix: turbine models act on their own state selections
 and turbines

---
 foxes/core/farm_controller.py | 42 ++++++++++++++++++++---------------
 foxes/core/turbine.py         |  7 +++---
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..ea1ac64 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -31,7 +31,7 @@ class FarmController(FarmDataModel):
 
     """
 
-    def __init__(self, pars={}):
+    def __init__(self, pars=None):
         """
         Constructor.
 
@@ -48,7 +48,7 @@ class FarmController(FarmDataModel):
         self.turbine_model_names = None
         self.pre_rotor_models = None
         self.post_rotor_models = None
-        self.pars = pars
+        self.pars = pars if pars is not None else {}
 
     def sub_models(self):
         """
@@ -117,13 +117,13 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, ssels):
         """
         Helper function for model analysis
         """
         tmodels = []
         tmsels = []
-        mnames = [[m.name for m in mlist] for mlist in models]
+        mids = [[id(m) for m in mlist] for mlist in models]
         tmis = np.zeros(algo.n_turbines, dtype=config.dtype_int)
         news = True
         while news:
@@ -131,14 +131,14 @@ class FarmController(FarmDataModel):
 
             for ti, mlist in enumerate(models):
                 if tmis[ti] < len(mlist):
-                    mname = mnames[ti][tmis[ti]]
+                    mid = mids[ti][tmis[ti]]
                     isnext = True
-                    for tj, jnames in enumerate(mnames):
+                    for tj, jids in enumerate(mids):
                         if (
                             tj != ti
-                            and mname in jnames
-                            and tmis[tj] < len(jnames)
-                            and jnames[tmis[tj]] != mname
+                            and mid in jids
+                            and tmis[tj] < len(jids)
+                            and jids[tmis[tj]] != mid
                         ):
                             isnext = False
                             break
@@ -148,10 +148,10 @@ class FarmController(FarmDataModel):
                         tmodels.append(m)
 
                         tsel = np.zeros((algo.n_states, algo.n_turbines), dtype=bool)
-                        for tj, jnames in enumerate(mnames):
+                        for tj, jids in enumerate(mids):
                             mi = tmis[tj]
-                            if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                            if mi < len(jids) and jids[mi] == mid:
+                                ssel = ssels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -227,6 +227,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_ssels = [[] for t in algo.farm.turbines]
+        postr_ssels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -257,15 +259,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_ssels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_ssels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, ssels=prer_ssels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, ssels=postr_ssels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
@@ -275,13 +279,14 @@ class FarmController(FarmDataModel):
         else:
             raise ValueError(f"Controller '{self.name}': No turbine model found.")
 
-    def __get_pars(self, algo, models, ptype, mdata=None, downwind_index=None):
+    def __get_pars(
+        self, algo, models, ptype, mdata=None, downwind_index=None, mi0=0
+    ):
         """
         Private helper function for gathering model parameters.
         """
         pars = []
-        for m in models:
-            mi = self.turbine_model_names.index(m.name)
+        for mi, m in enumerate(models, start=mi0):
             if self._tmall[mi]:
                 s = np.s_[:, :] if downwind_index is None else np.s_[:, downwind_index]
             else:
@@ -395,7 +400,8 @@ class FarmController(FarmDataModel):
 
         """
         s = self.pre_rotor_models if pre_rotor else self.post_rotor_models
-        pars = self.__get_pars(algo, s.models, "calc", mdata, downwind_index)
+        mi0 = 0 if pre_rotor else len(self.pre_rotor_models.models)
+        pars = self.__get_pars(algo, s.models, "calc", mdata, downwind_index, mi0)
         res = s.calculate(algo, mdata, fdata, parameters=pars)
         return res
 
diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..419b2cf 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,13 +71,14 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
-        self.mstates_sel = models_state_sel
-        if self.mstates_sel is None:
+        if models_state_sel is None:
             self.mstates_sel = [None] * len(self.models)
+        else:
+            self.mstates_sel = list(models_state_sel)
 
     def add_model(self, model, states_sel=None):
         """
-- 
2.43.0


From bf7c0acf753018ae78c9c5e5a4b10d09e9046dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 39/89] fix: power curve types with files, cp data, single
 variable tables and yaw at the cut-in work

---
 foxes/data/parse.py                           |  2 +
 foxes/models/turbine_models/lookup_table.py   |  2 +-
 foxes/models/turbine_types/CpCt_file.py       | 16 +++-
 foxes/models/turbine_types/CpCt_from_two.py   |  2 +
 foxes/models/turbine_types/PCt_file.py        |  3 +-
 foxes/models/turbine_types/PCt_from_two.py    |  4 +-
 foxes/models/turbine_types/lookup.py          |  5 +-
 .../turbine_types/wsrho2PCt_from_two.py       | 72 +++++++++---------
 .../models/turbine_types/wsti2PCt_from_two.py | 76 +++++++++----------
 9 files changed, 97 insertions(+), 85 deletions(-)

diff --git a/foxes/data/parse.py b/foxes/data/parse.py
index d33358f..cf7c08b 100644
--- a/foxes/data/parse.py
+++ b/foxes/data/parse.py
@@ -42,6 +42,8 @@ def parse_Pct_file_name(file_name):
         pieces = sname.split("-")
     elif "_" in sname:
         pieces = sname.split("_")
+    else:
+        pieces = [sname]
 
     pars["name"] = pieces[0]
     pieces = pieces[1:]
diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 6a937ab..b34763b 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -150,7 +150,7 @@ class LookupTable(TurbineModel):
                 dvars[oname] = (
                     self.input_vars,
                     pivot_matrix.to_numpy(config.dtype_double).reshape(
-                        pivot_matrix.index.levshape
+                        [len(coords[v]) for v in self.input_vars]
                     ),
                 )
 
diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 6f4b959..f7a5f04 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -23,6 +23,7 @@ class CpCtFile(PCtFile):
         data_source,
         col_ws="ws",
         col_cp="cp",
+        col_ct="ct",
         rho=1.225,
         pd_file_read_pars={},
         **parameters,
@@ -38,6 +39,8 @@ class CpCtFile(PCtFile):
             The wind speed column
         col_cp: str
             The cp column
+        col_ct: str
+            The ct column
         rho: float
             The air density for the curves
         pd_file_read_pars: dict
@@ -57,8 +60,10 @@ class CpCtFile(PCtFile):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data = data.sort_values(by=col_ws)
         ws = data[col_ws].to_numpy()
         cp = data[col_cp].to_numpy()
+        ct = data[col_ct].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
 
         ws_delta = 0.0001
@@ -69,8 +74,17 @@ class CpCtFile(PCtFile):
         data_P = pd.DataFrame(index=range(N), dtype=config.dtype_double)
         data_P["ws"] = np.linspace(ws_min, ws_max, N, endpoint=True)
         data_P["cp"] = np.interp(data_P["ws"], ws, cp, left=0, right=0)
+        data_P["ct"] = np.interp(data_P["ws"], ws, ct, left=0, right=0)
         data_P["P"] = (
             0.5 * rho * A * data_P["cp"] * data_P["ws"] ** 3 / FC.P_UNITS[P_unit]
         )
 
-        super().__init__(data_P, col_ws="ws", col_P="P", rho=rho, P_unit=P_unit, **pars)
+        super().__init__(
+            data_P,
+            col_ws="ws",
+            col_P="P",
+            col_ct="ct",
+            rho=rho,
+            P_unit=P_unit,
+            **pars,
+        )
diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 73c55a4..3aa1d83 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -56,6 +56,7 @@ class CpCtFromTwo(PCtFromTwo):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_cp, data_source_ct)
+            pars.update(parameters)
             path_cp = get_input_path(data_source_cp)
             path_ct = get_input_path(data_source_ct)
             data_cp = PandasFileHelper.read_file(path_cp, **pd_file_read_pars_cp)
@@ -67,6 +68,7 @@ class CpCtFromTwo(PCtFromTwo):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data_cp = data_cp.sort_values(by=col_ws_cp_file)
         ws = data_cp[col_ws_cp_file].to_numpy()
         cp = data_cp[col_cp].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 283a08e..44729bc 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -7,7 +7,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_file_name
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFile(TurbineType):
@@ -192,7 +191,7 @@ class PCtFile(TurbineType):
         self.data_ct = data[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self.data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self.data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 14cb92a..0124822 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -6,7 +6,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_two_files
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFromTwo(TurbineType):
@@ -99,6 +98,7 @@ class PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
@@ -222,7 +222,7 @@ class PCtFromTwo(TurbineType):
         self._data_ct = self._data_ct[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self._data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self._data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 740bbfa..c42a49f 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -109,7 +109,7 @@ class FromLookupTable(TurbineType):
             output_vars=[FV.P, FV.CT],
             varmap=varmap,
             interpn_args=iargs,
-            **lookup_pars,
+            **{"pd_file_read_pars": pd_file_read_pars, **lookup_pars},
         )
 
     def __repr__(self):
@@ -186,8 +186,7 @@ class FromLookupTable(TurbineType):
         """
         super().initialize(algo, verbosity, force)
         if self.P_nominal is None:
-            col_P = self._lookup.varmap.get(FV.P, FV.P)
-            self.P_nominal = np.max(self._lookup._data[col_P].to_numpy())
+            self.P_nominal = np.max(self._lookup._data[FV.P].to_numpy())
 
     def modify_cutin(
         self,
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 4a96588..615c98d 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -92,6 +92,7 @@ class WsRho2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
@@ -192,7 +193,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._rho_P = np.sort(data.columns.to_numpy())
@@ -211,7 +212,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._rho_ct = np.sort(data.columns.to_numpy())
@@ -268,27 +269,19 @@ class WsRho2PCtFromTwo(TurbineType):
         st_sel = bsel
 
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
+        if np.any(st_sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
+            n_sel = np.sum(st_sel)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.RHO][st_sel_P]
+            qts[:, 0] = fdata[self.WSP][st_sel]
+            qts[:, 1] = fdata[FV.RHO][st_sel]
 
             # apply yaw corrections:
             if FV.YAWM in fdata and self.p_P is not None:
                 # calculate corrected wind speed wsc,
                 # gives ws**3 * cos**p_P in partial load region
                 # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
+                yawm = fdata[FV.YAWM][st_sel]
                 if np.any(np.isnan(yawm)):
                     raise ValueError(
                         f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
@@ -297,38 +290,36 @@ class WsRho2PCtFromTwo(TurbineType):
                 qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
                 del yawm, cosm
 
-            # run interpolation:
+            # run interpolation, zero outside the wind speed range:
+            insel = (qts[:, 0] >= self._ws_P[0]) & (qts[:, 0] <= self._ws_P[-1])
+            res = np.zeros(n_sel, dtype=config.dtype_double)
             try:
-                fdata[FV.P][st_sel_P] = interpn(
-                    (self._ws_P, self._rho_P), self._P, qts, **self.ipars_P
-                )
+                if np.any(insel):
+                    res[insel] = interpn(
+                        (self._ws_P, self._rho_P),
+                        self._P,
+                        qts[insel],
+                        **self.ipars_P,
+                    )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+            fdata[FV.P][st_sel] = res
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_ct[0])
-            & (fdata[self.WSCT] <= self._ws_ct[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
+        if np.any(st_sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
+            n_sel = np.sum(st_sel)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
-            qts[:, 1] = fdata[FV.RHO][st_sel_ct]
+            qts[:, 0] = fdata[self.WSCT][st_sel]
+            qts[:, 1] = fdata[FV.RHO][st_sel]
 
             # apply yaw corrections:
             if FV.YAWM in fdata and self.p_ct is not None:
                 # calculate corrected wind speed wsc,
                 # gives ws**3 * cos**p_P in partial load region
                 # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
+                yawm = fdata[FV.YAWM][st_sel]
                 if np.any(np.isnan(yawm)):
                     raise ValueError(
                         f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
@@ -337,14 +328,21 @@ class WsRho2PCtFromTwo(TurbineType):
                 qts[:, 0] *= (cosm**self.p_ct) ** 0.5
                 del yawm, cosm
 
-            # run interpolation:
+            # run interpolation, zero outside the wind speed range:
+            insel = (qts[:, 0] >= self._ws_ct[0]) & (qts[:, 0] <= self._ws_ct[-1])
+            res = np.zeros(n_sel, dtype=config.dtype_double)
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
-                    (self._ws_ct, self._rho_ct), self._ct, qts, **self.ipars_ct
-                )
+                if np.any(insel):
+                    res[insel] = interpn(
+                        (self._ws_ct, self._rho_ct),
+                        self._ct,
+                        qts[insel],
+                        **self.ipars_ct,
+                    )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+            fdata[FV.CT][st_sel] = res
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 73b4dfc..8ceba1c 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -99,6 +99,7 @@ class WsTI2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
@@ -204,7 +205,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._ti_P = np.sort(data.columns.to_numpy())
@@ -223,7 +224,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._ti_ct = np.sort(data.columns.to_numpy())
@@ -280,27 +281,19 @@ class WsTI2PCtFromTwo(TurbineType):
         st_sel = bsel
 
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
+        if np.any(st_sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
+            n_sel = np.sum(st_sel)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.TI][st_sel_P]
+            qts[:, 0] = fdata[self.WSP][st_sel]
+            qts[:, 1] = fdata[FV.TI][st_sel]
 
             # apply air density correction:
             if self.rho is not None:
                 # correct wind speed by air density, such
                 # that in the partial load region the
                 # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel_P]
+                rho = fdata[FV.RHO][st_sel]
                 qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
                 del rho
 
@@ -309,7 +302,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # calculate corrected wind speed wsc,
                 # gives ws**3 * cos**p_P in partial load region
                 # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
+                yawm = fdata[FV.YAWM][st_sel]
                 if np.any(np.isnan(yawm)):
                     raise ValueError(
                         f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
@@ -318,38 +311,36 @@ class WsTI2PCtFromTwo(TurbineType):
                 qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
                 del yawm, cosm
 
-            # run interpolation:
+            # run interpolation, zero outside the wind speed range:
+            insel = (qts[:, 0] >= self._ws_P[0]) & (qts[:, 0] <= self._ws_P[-1])
+            res = np.zeros(n_sel, dtype=config.dtype_double)
             try:
-                fdata[FV.P][st_sel_P] = interpn(
-                    (self._ws_P, self._ti_P), self._P, qts, **self.ipars_P
-                )
+                if np.any(insel):
+                    res[insel] = interpn(
+                        (self._ws_P, self._ti_P),
+                        self._P,
+                        qts[insel],
+                        **self.ipars_P,
+                    )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+            fdata[FV.P][st_sel] = res
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_ct[0])
-            & (fdata[self.WSCT] <= self._ws_ct[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
+        if np.any(st_sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
+            n_sel = np.sum(st_sel)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
-            qts[:, 1] = fdata[FV.TI][st_sel_ct]
+            qts[:, 0] = fdata[self.WSCT][st_sel]
+            qts[:, 1] = fdata[FV.TI][st_sel]
 
             # apply air density correction:
             if self.rho is not None:
                 # correct wind speed by air density, such
                 # that in the partial load region the
                 # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel_ct]
+                rho = fdata[FV.RHO][st_sel]
                 qts[:, 0] *= (self.rho / rho) ** 0.5
                 del rho
 
@@ -358,7 +349,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # calculate corrected wind speed wsc,
                 # gives ws**3 * cos**p_P in partial load region
                 # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
+                yawm = fdata[FV.YAWM][st_sel]
                 if np.any(np.isnan(yawm)):
                     raise ValueError(
                         f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
@@ -367,14 +358,21 @@ class WsTI2PCtFromTwo(TurbineType):
                 qts[:, 0] *= (cosm**self.p_ct) ** 0.5
                 del yawm, cosm
 
-            # run interpolation:
+            # run interpolation, zero outside the wind speed range:
+            insel = (qts[:, 0] >= self._ws_ct[0]) & (qts[:, 0] <= self._ws_ct[-1])
+            res = np.zeros(n_sel, dtype=config.dtype_double)
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
-                    (self._ws_ct, self._ti_ct), self._ct, qts, **self.ipars_ct
-                )
+                if np.any(insel):
+                    res[insel] = interpn(
+                        (self._ws_ct, self._ti_ct),
+                        self._ct,
+                        qts[insel],
+                        **self.ipars_ct,
+                    )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+            fdata[FV.CT][st_sel] = res
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
-- 
2.43.0


From dcf1e23769b2520be05dc0771f82ba798425dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 40/89] fix: turbine models set yaw, sectors, diameters and
 uniform turbulence as given

---
 .../downwind/models/init_farm_data.py         | 21 ++++++++++++-------
 foxes/models/turbine_models/kTI_model.py      |  2 +-
 .../turbine_models/sector_management.py       | 21 +++++++++++++------
 foxes/models/turbine_models/set_farm_vars.py  |  8 ++++---
 4 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index f936c37..4bbc0f1 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -85,27 +85,27 @@ class InitFarmData(FarmDataModel):
 
         # set X, Y, H, D:
         fdata[FV.D] = np.zeros((n_states, n_turbines), dtype=config.dtype_double)
+        i0 = fdata.states_i0(counter=True)
+        if getattr(algo, "iterating", False):
+            # sequential run, one state at a time:
+            i0 = algo.counter
+        s = np.s_[i0 : i0 + n_states]
         for ti, t in enumerate(algo.farm.turbines):
 
             if len(t.xy.shape) == 1:
                 fdata[FV.TXYH][:, ti, :2] = t.xy[None, :]
             else:
-                i0 = fdata.states_i0(counter=True)
-                if getattr(algo, "iterating", False):
-                    # sequential run, one state at a time:
-                    i0 = algo.counter
-                s = np.s_[i0 : i0 + fdata.n_states]
                 fdata[FV.TXYH][:, ti, :2] = t.xy[s]
 
             H = t.H
             if H is None:
                 H = algo.farm_controller.turbine_types[ti].H
-            fdata[FV.TXYH][:, ti, 2] = H
+            fdata[FV.TXYH][:, ti, 2] = H if np.ndim(H) == 0 else H[s]
 
             D = t.D
             if D is None:
                 D = algo.farm_controller.turbine_types[ti].D
-            fdata[FV.D][:, ti] = D
+            fdata[FV.D][:, ti] = D if np.ndim(D) == 0 else D[s]
 
         # calc WD and YAW at rotor centres:
         svrs = algo.states.output_point_vars(algo)
@@ -139,7 +139,12 @@ class InitFarmData(FarmDataModel):
                 and np.any(fdata[k] != fdata[k][0, 0, None, None])
             ):
                 fdata[k] = fdata[k][ssel, order]
-        fdata[FV.YAW] = fdata[FV.WD].copy()
+        yaw = fdata[FV.WD].copy()
+        if FV.YAW in algo.farm_controller.pre_rotor_models.output_farm_vars(algo):
+            # yaw angles set by pre-rotor models:
+            pyaw = fdata[FV.YAW][ssel, order]
+            yaw = np.where(np.isnan(pyaw), yaw, pyaw)
+        fdata[FV.YAW] = yaw
         for k in mdata.keys():
             if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
                 mdata[k] != mdata[k][0, 0, None, None]
diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index ed93057..cbc1c05 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -122,7 +122,7 @@ class kTI(TurbineModel):
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-            lookup="f",
+            lookup="sf",
             fdata=fdata,
             upcast=False,
             selection=st_sel,
diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index cacedd5..faee9e7 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -142,8 +142,12 @@ class SectorManagement(TurbineModel):
         self._rdata = data[self._rcols].to_numpy().reshape(n_trbs, n_rvars, 2)
         self._tdata = data[self._tcols].to_numpy()
 
+        # ranges of at least one period include all values:
+        self._rfull = np.zeros((n_trbs, n_rvars), dtype=bool)
         for vi, v in enumerate(self._rvars):
             if v in self._perds:
+                span = self._rdata[:, vi, 1] - self._rdata[:, vi, 0]
+                self._rfull[:, vi] = span >= self._perds[v]
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
 
     def output_farm_vars(self, algo):
@@ -202,16 +206,16 @@ class SectorManagement(TurbineModel):
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
                 ma = self._rdata[:, vi, 1]
-                sel = ma < mi
+                full = self._rfull[:, vi]
+                sel = (ma < mi) & ~full
                 if np.any(sel):
                     rsel[:, sel] = rsel[:, sel] & (
                         (d[:, sel] >= mi[sel]) | (d[:, sel] < ma[sel])
                     )
-                if np.any(~sel):
-                    rsel[:, ~sel] = (
-                        rsel[:, ~sel]
-                        & (d[:, ~sel] >= mi[~sel])
-                        & (d[:, ~sel] < ma[~sel])
+                sel = ~sel & ~full
+                if np.any(sel):
+                    rsel[:, sel] = (
+                        rsel[:, sel] & (d[:, sel] >= mi[sel]) & (d[:, sel] < ma[sel])
                     )
             else:
                 rsel = (
@@ -220,6 +224,11 @@ class SectorManagement(TurbineModel):
                     & (d < self._rdata[None, :, vi, 1])
                 )
 
+        # act on the selected states and turbines only:
+        asel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        asel[st_sel] = True
+        rsel = rsel & np.take_along_axis(asel, tsel, axis=1)
+
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index b91c3e1..4b1f98f 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -167,13 +167,15 @@ class SetFarmVars(TurbineModel):
                 for ti in range(algo.n_turbines):
                     t = algo.farm.turbines[ti]
                     x = np.zeros(algo.n_states, dtype=config.dtype_double)
+                    x0 = t.D if v == FV.D else t.H
+                    if x0 is None:
+                        ttype = algo.farm_controller.turbine_types[ti]
+                        x0 = ttype.D if v == FV.D else ttype.H
+                    x[:] = np.where(np.isnan(data[:, ti]), x0, data[:, ti])
                     if v == FV.D:
-                        x[:] = t.D
                         t.D = x
                     else:
-                        x[:] = t.H
                         t.H = x
-                    x[:] = np.where(np.isnan(data[:, ti]), x, data[:, ti])
 
         return idata
 
-- 
2.43.0


From 0e0d194fac3bb56986037db374cd2f4193aaf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 41/89] fix: outputs: means over turbines, ambient yields,
 exported files and returned data agree with the results

---
 foxes/input/farm_layout/from_csv.py |  4 +-
 foxes/output/calc_points.py         | 13 ++---
 foxes/output/farm_layout.py         |  2 +-
 foxes/output/farm_results_eval.py   | 14 ++---
 foxes/output/results_writer.py      | 52 +++++++++---------
 foxes/utils/pandas_utils.py         | 81 +++++++++++++----------------
 foxes/utils/xarray_utils.py         | 13 ++---
 7 files changed, 84 insertions(+), 95 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 91d0a64..272eed4 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -1,7 +1,7 @@
 import pandas as pd
 
 from foxes.core import Turbine
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 
 
 def add_from_csv(
@@ -88,7 +88,7 @@ def add_from_csv(
         tname = (
             f"{turbine_base_name}{i+s}" if col_name is None else data.loc[i, col_name]
         )
-        txy = data.loc[i, [col_x, col_y]].values
+        txy = data.loc[i, [col_x, col_y]].to_numpy(config.dtype_double)
 
         if turbine_ids is not None:
             tid = turbine_ids[i]
diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index d7bff65..180344c 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -101,11 +101,14 @@ class PointCalculator(Output):
         pres = self.algo.calc_points(self.farm_results, pts, *args, **kwargs)
 
         if states_mean:
-            weights = self.farm_results[FV.WEIGHT].to_numpy()[:, weight_turbine]
+            weights = self.farm_results[FV.WEIGHT].to_numpy()
+            if self.farm_results[FV.WEIGHT].dims == (FC.STATE, FC.TURBINE):
+                weights = weights[:, weight_turbine]
             pres = Dataset(
                 data_vars={
-                    v: np.einsum("s,sp->p", weights, pres[v].to_numpy())
-                    for v in pres.data_vars.keys()
+                    v: ((FC.POINT,), np.einsum("s,sp->p", weights, d.to_numpy()))
+                    for v, d in pres.data_vars.items()
+                    if d.dims == (FC.STATE, FC.POINT)
                 }
             )
 
@@ -134,9 +137,7 @@ class PointCalculator(Output):
                         "y": ((FC.POINT,), points[..., 1]),
                         "z": ((FC.POINT,), points[..., 2]),
                     }
-                dvars.update(
-                    {v: ((FC.STATE, FC.POINT), pres[v].to_numpy()) for v in vrs}
-                )
+                dvars.update({v: (pres[v].dims, pres[v].to_numpy()) for v in vrs})
                 ds = Dataset(
                     coords={FC.STATE: pres[FC.STATE].to_numpy()}, data_vars=dvars
                 )
diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index afdae5f..f3fcc6d 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -341,7 +341,7 @@ class FarmLayoutOutput(Output):
         data = self.get_layout_data()
 
         fname = file_path if file_path is not None else self.farm.name + ".xyh"
-        np.savetxt(fname, data, header="x y h")
+        np.savetxt(self.get_fpath(fname), data, header="x y h")
 
     def write_csv(self, file_name=None, type_col=None, algo=None):
         """
diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f6af445..1b6204f 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -254,7 +254,7 @@ class FarmResultsEval(Output):
                 else:
                     rdata[v] = self.weinsum("", vdata[None, :])
             elif op == "mean_no_weights":
-                rdata[v] = np.sum(vdata)
+                rdata[v] = np.mean(vdata)
             elif op == "sum":
                 rdata[v] = np.sum(vdata)
             elif op == "min":
@@ -369,8 +369,9 @@ class FarmResultsEval(Output):
             The fully contracted results
 
         """
-        op = {v: "weights" for v in vars}
-        return self.reduce_all(states_op=op, turbines_op=op)
+        sop = {v: "weights" for v in vars}
+        top = {v: "mean_no_weights" for v in vars}
+        return self.reduce_all(states_op=sop, turbines_op=top)
 
     def calc_farm_sum(self, vars):
         """
@@ -561,14 +562,15 @@ class FarmResultsEval(Output):
             yargs = dict(annual=True)
             yargs.update(kwargs)
             turbine_yield = self.calc_turbine_yield(**yargs)
-        farm_yield = turbine_yield.sum()
+        var_yld = FV.AMB_YLD if FV.AMB_YLD in turbine_yield.columns else FV.YLD
+        farm_yield = turbine_yield[var_yld].sum()
 
         if power_uncert is not None:
             P75 = farm_yield * (1.0 - (0.675 * power_uncert))
             P90 = farm_yield * (1.0 - (1.282 * power_uncert))
-            return farm_yield["YLD"], P75["YLD"], P90["YLD"]
+            return farm_yield, P75, P90
 
-        return farm_yield["YLD"]
+        return farm_yield
 
     def add_efficiency(self, verbosity=1):
         """
diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index d532c78..6d42527 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -50,23 +50,20 @@ class ResultsWriter(Output):
             )
 
     def _get_data_vars(self, variables):
-        """Helper function for variable gathering"""
+        """Helper function for variable selection and renaming"""
         data = self.data
+        inds = {s: s for s in self.data.index.names}
         if variables is None:
-            pass
+            data = data.copy()
         elif isinstance(variables, dict):
-            inds = {
-                s: variables.pop(s) for s in self.data.index.names if s in variables
-            }
-            if len(variables):
-                data = data[list(variables.keys())].rename(variables, axis=1)
-            if len(inds):
-                for s, ns in inds.items():
-                    data = data.rename_axis(index={s: ns})
+            vmap = {v: n for v, n in variables.items() if v not in inds}
+            inds.update({v: n for v, n in variables.items() if v in inds})
+            data = data[list(vmap.keys())] if len(vmap) else data
+            data = data.rename(vmap, axis=1).rename_axis(index=inds)
         else:
-            data = self.data[list(variables)]
+            data = data[list(variables)].copy()
 
-        return data, data.columns.tolist()
+        return data, data.columns.tolist(), inds
 
     def write_csv(
         self,
@@ -103,10 +100,13 @@ class ResultsWriter(Output):
         if verbosity:
             print(f"ResultsWriter: Writing file '{file_name}'")
 
-        data, variables = self._get_data_vars(variables)
-        data.reset_index(inplace=True)
-        fc2v = kwargs.pop("format_col2var", {})
-        tix = FC.TNAME if turbine_names else FC.TURBINE
+        data, variables, inds = self._get_data_vars(variables)
+        fc2v = dict(kwargs.pop("format_col2var", {}))
+        state = inds.get(FC.STATE, FC.STATE)
+        tix = FC.TNAME if turbine_names else inds.get(FC.TURBINE, FC.TURBINE)
+        if turbine_names:
+            data[FC.TNAME] = self.data[FC.TNAME].to_numpy()
+        data = data.reset_index()
 
         if state_turbine_table:
             if len(variables) != 1:
@@ -115,12 +115,9 @@ class ResultsWriter(Output):
                 )
             v = variables[0]
             cnames = {
-                t: f"{v}_T{t:04d}" if tix == FC.TURBINE else f"{v}_{t}"
-                for t in data[tix]
+                t: f"{v}_{t}" if turbine_names else f"{v}_T{t:04d}" for t in data[tix]
             }
-            for ti, (t, g) in enumerate(
-                data.reset_index().set_index(FC.STATE).groupby(tix)
-            ):
+            for ti, (t, g) in enumerate(data.set_index(state).groupby(tix)):
                 if ti == 0:
                     odata = pd.DataFrame(
                         index=g.index.to_numpy(), columns=list(cnames.values())
@@ -131,7 +128,7 @@ class ResultsWriter(Output):
                 fc2v[cname] = v
             data = odata
         else:
-            data.set_index([FC.STATE, tix], inplace=True)
+            data.set_index([state, tix], inplace=True)
 
         super().write(file_name, data, format_col2var=fc2v, **kwargs)
 
@@ -163,21 +160,22 @@ class ResultsWriter(Output):
             Additional parameters for write_nc()
 
         """
-        data, variables = self._get_data_vars(variables)
+        data, variables, inds = self._get_data_vars(variables)
+        state = inds.get(FC.STATE, FC.STATE)
+        turbine = inds.get(FC.TURBINE, FC.TURBINE)
         states = data.index.get_level_values(0).unique()
         n_states = len(states)
         n_turbines = len(data.index.get_level_values(1).unique())
 
-        crds = {FC.STATE: states}
+        crds = {state: states.to_numpy()}
         if turbine_names:
-            idx = pd.IndexSlice
-            crds[FC.TURBINE] = self.data.loc[idx[0, :], FC.TNAME].to_numpy()
+            crds[turbine] = self.data[FC.TNAME].to_numpy()[:n_turbines]
 
         ds = Dataset(
             coords=crds,
             data_vars={
                 v: (
-                    (FC.STATE, FC.TURBINE),
+                    (state, turbine),
                     data[v].to_numpy().reshape(n_states, n_turbines),
                 )
                 for v in variables
diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index fe375bb..eab0298 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -78,6 +78,19 @@ class PandasFileHelper:
 
     DATA_FILE_FORMATS = list(DEFAULT_READING_PARAMETERS.keys())
 
+    @classmethod
+    def _find_format(cls, file_path):
+        """Helper: find the basic format and the key of default parameters"""
+        sfx = [s[1:] for s in Path(file_path).suffixes]
+        if len(sfx) and sfx[-1] in ["csv", "h5", "nc"]:
+            return sfx[-1], sfx[-1]
+        if len(sfx) > 1 and sfx[-2] == "csv":
+            pkey = f"csv.{sfx[-1]}"
+            return "csv", pkey if pkey in cls.DATA_FILE_FORMATS else "csv"
+        raise KeyError(
+            f"Unknown file format '{Path(file_path).name}'. Supported formats: {cls.DATA_FILE_FORMATS}"
+        )
+
     @classmethod
     def read_file(cls, file_path, **kwargs):
         """
@@ -96,28 +109,17 @@ class PandasFileHelper:
             The data
 
         """
-        fpath = Path(file_path)
-        fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
-        f = None
-        for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
-                f = pd.read_csv
-            elif sfx == "h5":
-                f = pd.read_hdf
-            elif sfx == "nc":
-                f = lambda fname, **pars: xarray.open_dataset(
-                    fname, **pars
-                ).to_dataframe()
-
-            if f is not None:
-                pars = deepcopy(cls.DEFAULT_READING_PARAMETERS[fmt])
-                pars.update(kwargs)
-                return f(file_path, **pars)
-
-        raise KeyError(
-            f"Unknown file format '{fname}'. Supported formats: {cls.DATA_FILE_FORMATS}"
-        )
+        fmt, pkey = cls._find_format(file_path)
+        if fmt == "csv":
+            f = pd.read_csv
+        elif fmt == "h5":
+            f = pd.read_hdf
+        else:
+            f = lambda fname, **pars: xarray.open_dataset(fname, **pars).to_dataframe()
+
+        pars = deepcopy(cls.DEFAULT_READING_PARAMETERS[pkey])
+        pars.update(kwargs)
+        return f(file_path, **pars)
 
     @classmethod
     def write_file(cls, data, file_path, format_dict={}, **kwargs):
@@ -150,26 +152,15 @@ class PandasFileHelper:
             else:
                 out[c] = data[c]
 
-        fpath = Path(file_path)
-        fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
-        f = None
-        for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
-                f = out.to_csv
-            elif sfx == "h5":
-                f = out.to_hdf
-            elif sfx == "nc":
-                f = out.to_netcdf
-
-            if f is not None:
-                pars = cls.DEFAULT_WRITING_PARAMETERS[fmt]
-                pars.update(kwargs)
-
-                f(file_path, **pars)
-
-                return
-
-        raise KeyError(
-            f"Unknown file format '{file_path}'. Supported formats: {cls.DATA_FILE_FORMATS}"
-        )
+        fmt, pkey = cls._find_format(file_path)
+        if fmt == "csv":
+            f = out.to_csv
+        elif fmt == "h5":
+            f = out.to_hdf
+        else:
+            nums = {c: float for c in out.columns if c in fdict}
+            f = out.astype(nums).to_xarray().to_netcdf
+
+        pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[pkey])
+        pars.update(kwargs)
+        f(file_path, **pars)
diff --git a/foxes/utils/xarray_utils.py b/foxes/utils/xarray_utils.py
index ccf6a88..87a1804 100644
--- a/foxes/utils/xarray_utils.py
+++ b/foxes/utils/xarray_utils.py
@@ -31,18 +31,15 @@ def write_nc(
     """
     fpath = Path(fpath)
     if round is not None:
-        for v in ds.coords.keys():
+        rnd = {}
+        for v in list(ds.coords.keys()) + list(ds.data_vars.keys()):
             d = round.get(v, get_default_digits(v))
             if d is not None:
                 if verbosity > 1:
                     print(f"File {fpath.name}: Rounding {v} to {d} decimals")
-                ds[v].data = ds[v].data.round(decimals=d)
-        for v in ds.data_vars.keys():
-            d = round.get(v, get_default_digits(v))
-            if d is not None:
-                if verbosity > 1:
-                    print(f"File {fpath.name}: Rounding {v} to {d} decimals")
-                ds[v].data = ds[v].data.round(decimals=d)
+                rnd[v] = ds[v].copy(data=ds[v].to_numpy().round(decimals=d))
+        ds = ds.assign_coords({v: d for v, d in rnd.items() if v in ds.coords})
+        ds = ds.assign({v: d for v, d in rnd.items() if v in ds.data_vars})
 
     enc = None
     if complevel is not None and complevel > 0:
-- 
2.43.0


From 702b9fcef5731cebf5f91197946a2e4478b1ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 42/89] fix: slices default to the point variables and follow
 the label map, figures return the plotted data

---
 foxes/output/flow_plots_2d/flow_plots.py |  6 +++---
 foxes/output/grids.py                    | 12 ++++++++----
 foxes/output/slice_data.py               | 18 +++++++++++-------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 4937007..63bcdf1 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -156,7 +156,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -306,7 +306,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -457,7 +457,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index b9766b5..056ad08 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -563,7 +563,9 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
     n_a = len(a_pos)
     n_b = len(b_pos)
     minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
-    return pd.DataFrame(index=minds, data=data)
+    return pd.DataFrame(
+        index=minds, data={label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
+    )
 
 
 def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
@@ -601,7 +603,9 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
-    return pd.DataFrame(index=minds, data=data)
+    return pd.DataFrame(
+        index=minds, data={label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
+    )
 
 
 def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
@@ -638,7 +642,7 @@ def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
     return Dataset(
         coords={b: b_pos, a: a_pos},
         data_vars={
-            v: ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
+            label_map.get(v, v): ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
         },
         attrs={c: float(c_pos)},
     )
@@ -753,7 +757,7 @@ def data2xr(
     cn = list(reversed([allcn[i] for i in ci]))
 
     coords = {}
-    attrs = {allcn[cj]: allc[cj].to_numpy()}
+    attrs = {allcn[cj]: float(allc[cj])}
     if (
         FC.STATE in point_results.coords
         and isinstance(state_mean, bool)
diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index a4c87f9..b6449fa 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -96,7 +96,7 @@ class SliceData(Output):
 
             elif format == "pandas":
                 if verbosity > 0:
-                    print("Writing file", fpath)
+                    print("Writing file", self.get_fpath(fname))
                 self.write(fname, data, **write_pars)
 
             elif format == "xarray":
@@ -140,9 +140,11 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
-        else:
-            point_results.drop_vars(variables)
+            variables = [
+                v
+                for v, d in point_results.data_vars.items()
+                if d.dims == (FC.STATE, FC.POINT)
+            ]
         del g_pts
 
         # take mean over states:
@@ -657,9 +659,11 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
-        else:
-            point_results.drop_vars(variables)
+            variables = [
+                v
+                for v, d in point_results.data_vars.items()
+                if d.dims == (FC.STATE, FC.POINT)
+            ]
         del g_pts
 
         # convert to numpy:
-- 
2.43.0


From adf7f20c7c753c1732dc6fac987e91817b5f83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 43/89] fix: tab files with a single wind speed bin can be read

---
 foxes/utils/tab_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/tab_files.py b/foxes/utils/tab_files.py
index 130a81b..368ee17 100644
--- a/foxes/utils/tab_files.py
+++ b/foxes/utils/tab_files.py
@@ -31,7 +31,7 @@ def read_tab_file(fname, normalize=True):
         header.append(f.readline().replace("\t", " ").strip())
         sfreqs = f.readline().replace("\t", " ").strip()
         s = f.read().replace("\t", " ").strip()
-    data = np.genfromtxt(StringIO(s))
+    data = np.atleast_2d(np.genfromtxt(StringIO(s)))
     sfreqs = np.fromstring(sfreqs, sep=" ")
 
     descr = header[0]
-- 
2.43.0


From cec6044cebcdab7aadc6394451eabf78b776e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 44/89] fix: FieldDataNC bounds per farm, data set sources,
 user's sel untouched

---
 foxes/input/states/field_data_nc.py | 50 ++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 8a1b3bc..9e98043 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -182,7 +182,8 @@ class FieldDataNC(States):
         }
 
         self._N = None
-
+        self._sel = None
+        self.__source = data_source
         self.__data_source = data_source
         self.__inds = None
 
@@ -351,6 +352,33 @@ class FieldDataNC(States):
 
         # pre-load file reading:
         coords = [self.states_coord, self.h_coord, self.y_coord, self.x_coord]
+        if isinstance(self.__source, xr.Dataset):
+            self.__data_source = self.__source.isel(**self.isel).sel(**self.sel)
+            self.__inds = self.__data_source[self.states_coord].to_numpy()
+            self._N = len(self.__inds)
+            if self.time_format is not None:
+                self.__inds = pd.to_datetime(
+                    self.__inds, format=self.time_format
+                ).to_numpy()
+
+        # find bounds, data of other bounds needs to be replaced:
+        elif self.x_coord is not None and self.x_coord not in self.sel:
+            xy_min, xy_max = algo.farm.get_xy_bounds(
+                extra_space=self.bounds_extra_space, algo=algo
+            )
+            if verbosity > 0:
+                print(
+                    f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
+                )
+            sel = dict(self.sel)
+            sel[self.x_coord] = slice(xy_min[0], xy_max[0])
+            sel[self.y_coord] = slice(xy_min[1], xy_max[1])
+            if sel != self._sel:
+                self._sel = sel
+                self.__data_source = self.__source
+        else:
+            self._sel = self.sel
+
         if not isinstance(self.data_source, xr.Dataset):
 
             # check variables:
@@ -376,22 +404,6 @@ class FieldDataNC(States):
                         STATES, fpath.name, check_raw=False
                     )
 
-            # find bounds:
-            if self.x_coord is not None and self.x_coord not in self.sel:
-                xy_min, xy_max = algo.farm.get_xy_bounds(
-                    extra_space=self.bounds_extra_space, algo=algo
-                )
-                if verbosity > 0:
-                    print(
-                        f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
-                    )
-                self.sel.update(
-                    {
-                        self.x_coord: slice(xy_min[0], xy_max[1]),
-                        self.y_coord: slice(xy_min[1], xy_max[1]),
-                    }
-                )
-
             # read files:
             if verbosity > 0:
                 if self.load_mode == "preload":
@@ -417,7 +429,7 @@ class FieldDataNC(States):
                 vars=vars,
                 nc_engine=config.nc_engine,
                 isel=self.isel,
-                sel=self.sel,
+                sel=self._sel,
                 minimal=self.load_mode == "fly",
             )
 
@@ -698,7 +710,7 @@ class FieldDataNC(States):
                                 vars=vars,
                                 nc_engine=config.nc_engine,
                                 isel=isel,
-                                sel=self.sel,
+                                sel=self._sel,
                                 minimal=False,
                             )
                         )
-- 
2.43.0


From 640ced9d4e3914bdd7097dfad2c9eee726cd60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 45/89] fix: FieldDataNC with fixed wind speed or direction

---
 foxes/input/states/field_data_nc.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 9e98043..963f0e5 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -257,7 +257,7 @@ class FieldDataNC(States):
                 )
 
         data = np.zeros(
-            (n_sts, n_h, n_y, n_x, len(self.var2ncvar)), dtype=config.dtype_double
+            (n_sts, n_h, n_y, n_x, len(self._dkys)), dtype=config.dtype_double
         )
         for v in vars_shyx:
             ncv = self.var2ncvar[v]
@@ -279,13 +279,9 @@ class FieldDataNC(States):
         for v in vars_s:
             ncv = self.var2ncvar[v]
             data[..., self._dkys[v]] = ds[ncv].to_numpy()[:, None, None, None]
-        if FV.WD in self.fixed_vars:
-            data[..., self._dkys[FV.WD]] = np.full(
-                (n_sts, n_h, n_y, n_x),
-                self.fixed_vars[FV.WD],
-                dtype=config.dtype_double,
-            )
-
+        for v in [FV.WD, FV.WS]:
+            if v in self.fixed_vars and v in self._dkys:
+                data[..., self._dkys[v]] = self.fixed_vars[v]
         weights = None
         if self.weight_ncvar is not None:
             if self.weight_ncvar not in ds.data_vars:
@@ -476,7 +472,6 @@ class FieldDataNC(States):
         self._dkys = {}
         if FV.WS in self.ovars:
             self._dkys[FV.WD] = 0
-        if FV.WS in self.var2ncvar:
             self._dkys[FV.WS] = 1
         for v in self.var2ncvar:
             if v not in self._dkys:
@@ -737,11 +732,7 @@ class FieldDataNC(States):
         # translate WS, WD into U, V:
         if FV.WD in self.ovars and FV.WS in self.ovars:
             wd = data[..., self._dkys[FV.WD]]
-            ws = (
-                data[..., self._dkys[FV.WS]]
-                if FV.WS in self._dkys
-                else self.fixed_vars[FV.WS]
-            )
+            ws = data[..., self._dkys[FV.WS]]
             wdwsi = [self._dkys[FV.WD], self._dkys[FV.WS]]
             data[..., wdwsi] = wd2uv(wd, ws, axis=-1)
             del ws, wd
@@ -839,7 +830,11 @@ class FieldDataNC(States):
             out[FV.WD] = uv2wd(uv, axis=-1)
             del uv
         for v in self.ovars:
-            if v != FV.WEIGHT and v not in out:
+            if v in self.fixed_vars:
+                out[v] = np.full(
+                    (n_states, n_pts), self.fixed_vars[v], dtype=config.dtype_double
+                )
+            elif v != FV.WEIGHT and v not in out:
                 if v in self._dkys:
                     out[v] = data[..., self._dkys[v]]
                 else:
-- 
2.43.0


From 7d941eb1d1df3809271d8c2c749155ec89252619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 46/89] fix: WRGStates bounds at the rim of the data, weights
 from percent

---
 foxes/input/states/wrg_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 08d4610..c1198b2 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -121,7 +121,9 @@ class WRGStates(States):
             if verbosity > 0:
                 print(f"States '{self.name}': Farm bounds {xy_min} - {xy_max}")
             ij_min = np.asarray((xy_min - p0) / res, dtype=config.dtype_int)
-            ij_max = np.asarray((xy_max - p0) / res, dtype=config.dtype_int) + 1
+            ij_max = np.asarray((xy_max - p0) / res, dtype=config.dtype_int) + 2
+            ij_min = np.maximum(ij_min, 0)
+            ij_max = np.maximum(ij_max, 0)
             sx = slice(ij_min[0], ij_max[0])
             sy = slice(ij_min[1], ij_max[1])
         else:
@@ -289,7 +291,7 @@ class WRGStates(States):
 
         tdata.add(
             FV.WEIGHT,
-            f,
+            0.01 * f,
             dims=(FC.STATE, FC.TARGET, FC.TPOINT),
         )
 
-- 
2.43.0


From b1776b59ae27fba5bca93ec3b37eb24a0ad1923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 47/89] fix: fixed values and attributes in multi height states

---
 foxes/input/states/multi_height.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index b5d204a..3bc8cc1 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -469,7 +469,7 @@ class MultiHeightStates(States):
         for v in self.ovars:
             if has_wd and v == FV.WD:
                 results[v] = uv2wd(uv, axis=-1)
-            elif has_wd and v == FV.WS:
+            elif has_wd and v == FV.WS and v in vrs:
                 results[v] = np.linalg.norm(uv, axis=-1)
             elif v in self.fixed_vars:
                 results[v] = np.zeros(
@@ -657,7 +657,7 @@ class MultiHeightNCStates(MultiHeightStates):
                 continue
             c = self.var2col.get(v, v)
             if c in data.attrs:
-                self._solo[v] = np.full(self._N, data.attrs)
+                self._solo[v] = np.full(self._N, data.attrs[c])
             elif c in data.data_vars:
                 if data[c].dims == (self.state_coord,):
                     self._solo[v] = data.data_vars[c].to_numpy()
-- 
2.43.0


From 97107890a1874fb4720aeda96ffce90baa62ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 48/89] fix: StatesTable profile variables which are not in the
 table

---
 foxes/input/states/states_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 8b43c49..f6903b2 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -247,15 +247,18 @@ class StatesTable(States):
             )
 
         tcols = []
+        tvars = []
         for v in self._tvars:
             c = self.var2col.get(v, v)
             if c in data.columns:
                 tcols.append(c)
+                tvars.append(v)
             elif v not in self._profiles.keys():
                 raise KeyError(
                     f"States '{self.name}': Missing variable '{c}' in states table columns, profiles or fixed vars"
                 )
         data = data[tcols]
+        self._tvars = tvars
 
         idata = super().load_data(algo, verbosity)
         idata["coords"][self.VARS] = self._tvars
-- 
2.43.0


From 5c4b3952be3fc04ab72c0bfb6d48b2fc1966d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 49/89] fix: OnePointFlow states before the first front,
 variable order

---
 foxes/input/states/one_point_flow.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 012c3a8..73e0178 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -289,11 +289,12 @@ class OnePointFlowStates(States):
             # check for vicinity to reference plane:
             else:
                 lx = np.einsum("...d,...d->...", hdxy, nx)
-                seld = ((lx < 0) & (projx >= lx) & (projx <= 0)) | (
-                    (lx > 0) & (projx >= 0) & (projx <= lx)
+                eps = 1e-10 * np.abs(lx)
+                seld = ((lx < 0) & (projx >= lx - eps) & (projx <= 0)) | (
+                    (lx > 0) & (projx > 0) & (projx <= lx + eps)
                 )
                 if np.any(seld):
-                    w = projx / np.abs(lx)
+                    w = np.clip(projx / np.abs(lx), -1, 1)
                     coeffs[sel] = np.where(seld, w, coeffs[sel])
 
         # step backwards in time, until projection onto axis is negative:
@@ -340,6 +341,14 @@ class OnePointFlowStates(States):
 
                 del trs, sel0, hdxy
 
+        # points downstream of the front of the first state:
+        projx = np.einsum(
+            "...d,...d->...",
+            points[:, :, :2] - ref_xy[:, :, :2],
+            dxy[i0 + np.arange(n_states)][:, None],
+        )
+        trace_si[np.isnan(coeffs) & (projx > 0)] = -1
+
         return trace_si, coeffs
 
     def calculate(self, algo, mdata, fdata, tdata):
@@ -408,7 +417,7 @@ class OnePointFlowStates(States):
             if np.any(sel):
                 s = sts[sel]
                 c = -cfs[sel]
-                out[sel] = c * data[s] + (1 - c) * data[s - 1]
+                out[sel] = c * data[s] + (1 - c) * data[np.maximum(s - 1, 0)]
 
             sel = (~sel_low) & (~sel_hi) & (cfs > 0)
             if np.any(sel):
@@ -469,7 +478,8 @@ class OnePointFlowStates(States):
                         [ires[:, :, vres.index("U")], ires[:, :, vres.index("V")]],
                         axis=-1,
                     )
-                    results = {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    results[FV.WD] = uv2wd(uv)
+                    results[FV.WS] = np.linalg.norm(uv, axis=-1)
                     del uv
 
         # no dependence on height:
@@ -482,7 +492,8 @@ class OnePointFlowStates(States):
                     uv = np.stack(
                         [_interp_time(hi, "U"), _interp_time(hi, "V")], axis=-1
                     )
-                    results = {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    results[FV.WD] = uv2wd(uv)
+                    results[FV.WS] = np.linalg.norm(uv, axis=-1)
                     del uv
 
         # set weights:
-- 
2.43.0


From 7d7e115be71adee4fb2ccaefa5e94950c0180fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 50/89] fix: weight check for several heights in timelines

---
 foxes/models/wake_frames/timelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f6605d7..53a5a8c 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -122,7 +122,7 @@ class Timelines(WakeFrame):
 
             if weight_data is None:
                 weight_data = ((FC.STATE,), tdata[FV.WEIGHT][:, 0, 0])
-            elif not np.all(tdata[FV.WEIGHT] == weight_data[1]):
+            elif not np.all(tdata[FV.WEIGHT][:, 0, 0] == weight_data[1]):
                 raise AssertionError(
                     f"States '{self.name}': weight data mismatch between heights"
                 )
-- 
2.43.0


From 5f6edda23394abd6cb2226848e09fbf9dfc6d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 51/89] fix: bounds, differences, distances and figures of area
 geometries

---
 foxes/utils/geom2d/area_geometry.py | 11 ++++++-----
 foxes/utils/geom2d/circle.py        |  6 +++---
 foxes/utils/geom2d/polygon.py       |  6 +++---
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index d9d9eb8..7e9af12 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -108,6 +108,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
         """
         if fill_mode is not None:
+            pars_distance = dict(pars_distance)
             if "Nx" in pars_distance or "Ny" in pars_distance:
                 Nx = pars_distance.pop("Nx")
                 Ny = pars_distance.pop("Ny")
@@ -118,8 +119,8 @@ class AreaGeometry(metaclass=ABCMeta):
                 Nx = 500
                 Ny = 500
 
-            p0 = pars_distance.pop("p_min", self.p_min())
-            p1 = pars_distance.pop("p_max", self.p_max())
+            p0 = np.array(pars_distance.pop("p_min", self.p_min()), dtype=np.float64)
+            p1 = np.array(pars_distance.pop("p_max", self.p_max()), dtype=np.float64)
             if np.isinf(p0[0]):
                 q0 = self.inverse().p_min()
                 a0 = ax.get_xlim()[0]
@@ -214,7 +215,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
     def __sub__(self, g):
         if isinstance(g, list):
-            return AreaIntersection([self] + g.inverse())
+            return AreaIntersection([self] + [h.inverse() for h in g])
         else:
             return AreaIntersection([self, g.inverse()])
 
@@ -637,7 +638,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pmi[di]) and not np.isinf(imi[di]):
                         out[di] = np.minimum(out[di], imi[di])
             for di in range(2):
-                if not np.isinf(pmi[di]):
+                if not np.isinf(pmi[di]) or np.isinf(out[di]):
                     out[di] = -np.inf
             return out
 
@@ -665,7 +666,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pma[di]) and not np.isinf(ima[di]):
                         out[di] = np.maximum(out[di], ima[di])
             for di in range(2):
-                if not np.isinf(pma[di]):
+                if not np.isinf(pma[di]) or np.isinf(out[di]):
                     out[di] = np.inf
             return out
 
diff --git a/foxes/utils/geom2d/circle.py b/foxes/utils/geom2d/circle.py
index 2d1788c..3d6b1c2 100644
--- a/foxes/utils/geom2d/circle.py
+++ b/foxes/utils/geom2d/circle.py
@@ -89,9 +89,9 @@ class Circle(AreaGeometry):
             if np.all(sel):
                 minp = self.centre + deltas / magd[:, None] * self.radius
             else:
-                minp = np.zeros_like(points)
-                minp[sel] = deltas[sel] / magd[sel]
-                minp[~sel][:, 0] = 1
+                minp = np.zeros_like(deltas)
+                minp[sel] = deltas[sel] / magd[sel][:, None]
+                minp[~sel, 0] = 1
                 minp = self.centre + minp * self.radius
             return dists, minp
         else:
diff --git a/foxes/utils/geom2d/polygon.py b/foxes/utils/geom2d/polygon.py
index 11aa015..469ae42 100644
--- a/foxes/utils/geom2d/polygon.py
+++ b/foxes/utils/geom2d/polygon.py
@@ -32,10 +32,10 @@ class ClosedPolygon(AreaGeometry):
             The polygon points, shape: (n_points, 2)
 
         """
-        self.points = points
+        self.points = np.array(points, dtype=np.float64)
 
-        if not np.all(points[0] == points[-1]):
-            self.points = np.append(self.points, points[[0]], axis=0)
+        if not np.all(self.points[0] == self.points[-1]):
+            self.points = np.append(self.points, self.points[[0]], axis=0)
 
         self.poly = Path(self.points, closed=True)
 
-- 
2.43.0


From 14d2f1863c2ab83a9ff4b001642f495b65198c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 52/89] fix: real roots of cubics with one real root, wind
 directions along negative axes

---
 foxes/utils/cubic_roots.py | 22 ++++++++++------------
 foxes/utils/wind_dir.py    | 10 ++--------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/foxes/utils/cubic_roots.py b/foxes/utils/cubic_roots.py
index 37da261..b952ba0 100644
--- a/foxes/utils/cubic_roots.py
+++ b/foxes/utils/cubic_roots.py
@@ -52,23 +52,21 @@ def cubic_roots(a0, a1, a2, a3=None):
     D = Q3 + R * R
     b_a_3 = (1.0 / 3.0) * b_a
 
-    sel = Q == 0.0
+    sel = (Q == 0.0) & (R == 0.0)
     if np.any(sel):
-        o = out[sel, 0]
+        # One triple root
+        out[sel, 0] = -b_a_3[sel]
 
-        sel2 = R == 0.0
-        if np.any(sel2):
-            o[sel2] = -b_a_3[sel][sel2]
+    one = D > 1e-14 * R * R
+    if np.any(one):
+        # One real root
+        A = np.where(R[one] < 0, -1, 1) * np.cbrt(np.abs(R[one]) + np.sqrt(D[one]))
+        out[one, 0] = A - Q[one] / A - b_a_3[one]
 
-        if np.any(~sel2):
-            o[~sel2] = np.pow(2 * R[sel][~sel2], 1 / 3.0) - b_a_3[sel][~sel2]
-
-        out[sel, 0] = o
-
-    sel = D <= 0.0
+    sel = ~one & (Q < 0.0)
     if np.any(sel):
         # Three real roots
-        theta = np.arccos(R[sel] / np.sqrt(-Q3[sel]))
+        theta = np.arccos(np.clip(R[sel] / np.sqrt(-Q3[sel]), -1.0, 1.0))
         sqrt_Q = np.sqrt(-Q[sel])
 
         out[sel, 0] = 2 * sqrt_Q * np.cos(theta / 3.0) - b_a_3[sel]
diff --git a/foxes/utils/wind_dir.py b/foxes/utils/wind_dir.py
index a91876a..9747a29 100644
--- a/foxes/utils/wind_dir.py
+++ b/foxes/utils/wind_dir.py
@@ -78,14 +78,8 @@ def uv2wd(uv, axis=-1):
     :group: utils
 
     """
-    if axis == -1:
-        u = uv[..., 0]
-        v = uv[..., 1]
-    else:
-        s = tuple(0 if a == axis else slice(None) for a in range(len(uv.shape)))
-        u = uv[s]
-        s = tuple(1 if a == axis else slice(None) for a in range(len(uv.shape)))
-        v = uv[s]
+    u = np.take(uv, 0, axis=axis)
+    v = np.take(uv, 1, axis=axis)
 
     return np.mod(180 + np.rad2deg(np.arctan2(u, v)), 360)
 
-- 
2.43.0


From d984ac3e27ea2bcd5d14956e618ee39a866319e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 53/89] fix: names with trailing or missing parts do not match
 model templates

---
 foxes/utils/factory.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index ea230c4..13376b8 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -277,25 +277,32 @@ class Factory:
         """
         j = 0
         wlist = []
+        match = True
         for pi, p in enumerate(self._pre):
             if len(p) > 0:
                 i = name[j:].find(p)
                 if i < 0 or (pi == 0 and i > 0):
-                    if error:
-                        raise ValueError(
-                            f"Factory '{self.name_template}': Name '{name}' not matching template"
-                        )
-                    elif ret_pars:
-                        return False, {}
-                    else:
-                        return False
+                    match = False
+                    break
                 w = name[j : j + i]
                 j += i + len(p)
             else:
                 w = name[j:]
+                j = len(name)
             if pi > 0:
                 wlist.append(w)
 
+        # no missing values, no trailing characters:
+        if not match or j != len(name) or "" in wlist:
+            if error:
+                raise ValueError(
+                    f"Factory '{self.name_template}': Name '{name}' not matching template"
+                )
+            elif ret_pars:
+                return False, {}
+            else:
+                return False
+
         if ret_pars:
             kwargs = {}
             for vi, v in enumerate(self.variables):
@@ -305,8 +312,12 @@ class Factory:
                     o = self.options[v]
                     if hasattr(o, "__call__"):
                         kwargs[w] = o(data)
-                    else:
+                    elif data in self.options[v]:
                         kwargs[w] = self.options[v][data]
+                    else:
+                        raise ValueError(
+                            f"Factory '{self.name_template}': Unknown value '{data}' for variable '{v}', choose from {list(self.options[v])}"
+                        )
                 else:
                     kwargs[w] = data
 
-- 
2.43.0


From 2b1dac10454113dbf9c6e1bdb38902ea6a3362d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 54/89] fix: ambient calculations with under-relaxed wakes

---
 foxes/algorithms/iterative/iterative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index c64d289..15702dc 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -199,7 +199,7 @@ class Iterative(Downwind):
                     self._reamb = True
                     n += 1
 
-                if len(self._urelax["pre_wake"]):
+                if len(self._urelax["pre_wake"]) and not ambient:
                     self._mlist0.models[5 + n].urelax = mdls.URelax(
                         **self._urelax["pre_wake"]
                     )
-- 
2.43.0


From aec8a5dbb56de1a16f97111aa471d91230571f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 55/89] fix: kTI takes kb from the farm data

---
 foxes/models/turbine_models/kTI_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index cbc1c05..cdc64f6 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -49,7 +49,7 @@ class kTI(TurbineModel):
         self.k_var = k_var
         setattr(self, ti_var, ti_val)
         setattr(self, FV.KTI, kTI)
-        setattr(self, FV.KB, 0 if kb is None else kb)
+        setattr(self, FV.KB, kb)
 
     def __repr__(self):
         kti = getattr(self, FV.KTI)
@@ -111,14 +111,16 @@ class kTI(TurbineModel):
             upcast=False,
             selection=st_sel,
         )
-        kb = self.get_data(
-            FV.KB,
-            FC.STATE_TURBINE,
-            lookup="sf",
-            fdata=fdata,
-            upcast=False,
-            selection=st_sel,
-        )
+        kb = 0
+        if getattr(self, FV.KB) is not None or FV.KB in fdata:
+            kb = self.get_data(
+                FV.KB,
+                FC.STATE_TURBINE,
+                lookup="sf",
+                fdata=fdata,
+                upcast=False,
+                selection=st_sel,
+            )
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-- 
2.43.0


From 3d9a69a734fe8b4e9cdc11430c8da1dd8074bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 56/89] fix: point models: uniform data, turbulence from
 kinetic energy and friction velocity, normalised deltas

---
 foxes/models/point_models/set_uniform_data.py | 10 +++++++---
 foxes/models/point_models/ustar2ti.py         |  2 +-
 foxes/models/point_models/wake_deltas.py      |  2 +-
 foxes/variables.py                            |  5 +++++
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/foxes/models/point_models/set_uniform_data.py b/foxes/models/point_models/set_uniform_data.py
index f371ebd..2448b79 100644
--- a/foxes/models/point_models/set_uniform_data.py
+++ b/foxes/models/point_models/set_uniform_data.py
@@ -49,6 +49,8 @@ class SetUniformData(PointDataModel):
             pandas file reading parameters
 
         """
+        super().__init__()
+
         self.data_source = data_source
         self.ovars = output_vars
         self.var2col = var2col
@@ -81,6 +83,7 @@ class SetUniformData(PointDataModel):
         self.VARS = self.var("VARS")
         self.DATA = self.var("DATA")
 
+        data = None
         if isinstance(self.data_source, pd.DataFrame):
             data = self.data_source[
                 [self.var2col.get(v, v) for v in self.ovars]
@@ -98,8 +101,9 @@ class SetUniformData(PointDataModel):
             )
 
         idata = super().load_data(algo, verbosity)
-        idata["coords"][self.VARS] = self.ovars
-        idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
+        if data is not None:
+            idata["coords"][self.VARS] = self.ovars
+            idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
 
         return idata
 
@@ -147,7 +151,7 @@ class SetUniformData(PointDataModel):
         """
         for v in self.ovars:
             if self.DATA in mdata:
-                pdata[v][:] = mdata[v][None, self.ovars.index(v)]
+                pdata[v][:] = mdata[self.DATA][:, self.ovars.index(v), None, None]
             else:
                 pdata[v][:] = self.data_source[v]
 
diff --git a/foxes/models/point_models/ustar2ti.py b/foxes/models/point_models/ustar2ti.py
index c44cdb2..51a9414 100644
--- a/foxes/models/point_models/ustar2ti.py
+++ b/foxes/models/point_models/ustar2ti.py
@@ -79,6 +79,6 @@ class Ustar2TI(PointDataModel):
 
         ti = (ustar / FC.KAPPA) / ws
         if self.max_ti is not None:
-            ti = np.maximum(ti, self.max_ti)
+            ti = np.minimum(ti, self.max_ti)
 
         return {FV.TI: ti}
diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index 551df49..c958b31 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -81,6 +81,6 @@ class WakeDeltas(PointDataModel):
 
         if self.normalize:
             for v in self.vars:
-                out[v] /= pdata[FV.var2amb[v]]
+                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
 
         return out
diff --git a/foxes/variables.py b/foxes/variables.py
index dbfefde..ddf5140 100644
--- a/foxes/variables.py
+++ b/foxes/variables.py
@@ -261,6 +261,11 @@ MOL = "MOL"
 :group: foxes.variables
 """
 
+TKE = "TKE"
+""" The turbulent kinetic energy in m2/s2
+:group: foxes.variables
+"""
+
 USTAR = "USTAR"
 """ The friction velocity in m/s
 :group: foxes.variables
-- 
2.43.0


From a3cecacda2674a22e6feaa873596d620ed385447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 57/89] fix: rings of turbines with integer offset angles are
 not rounded to full degrees

---
 foxes/input/farm_layout/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/farm_layout/ring.py b/foxes/input/farm_layout/ring.py
index 0fe15d0..047abe3 100644
--- a/foxes/input/farm_layout/ring.py
+++ b/foxes/input/farm_layout/ring.py
@@ -45,7 +45,7 @@ def add_ring(
     """
     p0 = np.array(xy_base)
     R = n_turbines * dist / (2 * np.pi)
-    a = np.atleast_1d(offset_deg)
+    a = np.array([offset_deg], dtype=np.float64).reshape(1)
     da = 360 / n_turbines
 
     for i in range(n_turbines):
-- 
2.43.0


From c19351380fa85a1923d1e76e4c91dcaf04fbe98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 58/89] fix: random layouts respect the seed zero

---
 foxes/utils/random_xy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/random_xy.py b/foxes/utils/random_xy.py
index 18d97e8..3ae4db0 100644
--- a/foxes/utils/random_xy.py
+++ b/foxes/utils/random_xy.py
@@ -38,7 +38,7 @@ def random_xy_square(
     :group: utils
 
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     xmax = np.sqrt(n) * min_dist if xmax_ini is None else xmax_ini
-- 
2.43.0


From 0a50a673cdaf121d4a79bcb47174adfe8f8925b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 59/89] fix: layouts from compressed csv files can be given as
 path objects, json files respect the verbosity

---
 foxes/input/farm_layout/from_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/input/farm_layout/from_file.py b/foxes/input/farm_layout/from_file.py
index d42bc30..c93bd1d 100644
--- a/foxes/input/farm_layout/from_file.py
+++ b/foxes/input/farm_layout/from_file.py
@@ -39,13 +39,14 @@ def add_from_file(farm, file_path, *args, verbosity=1, dbook=None, **kwargs):
             print(f"Reading static data '{fpath.name}' from context '{FARM}'")
         file_path = dbook.get_file_path(FARM, fpath.name, check_raw=False)
 
+    fname = str(file_path)
     if fpath.suffix == ".json":
-        add_from_json(farm, file_path, *args, **kwargs)
+        add_from_json(farm, file_path, *args, verbosity=verbosity, **kwargs)
     elif (
         fpath.suffix == ".csv"
-        or (len(file_path) > 7 and file_path[-7:] == ".csv.gz")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.bz2")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.zip")
+        or (len(fname) > 7 and fname[-7:] == ".csv.gz")
+        or (len(fname) > 8 and fname[-8:] == ".csv.bz2")
+        or (len(fname) > 8 and fname[-8:] == ".csv.zip")
     ):
         add_from_csv(farm, file_path, *args, verbosity=verbosity, **kwargs)
     else:
-- 
2.43.0


From cd3e0bc014333e7086e3980370827801c06e2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:32 +0000
Subject: [PATCH 60/89] fix: wake deltas of point calculations with selected
 outputs

---
 foxes/models/point_models/wake_deltas.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index c958b31..ed87a1f 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -77,10 +77,15 @@ class WakeDeltas(PointDataModel):
 
         """
 
-        out = {f"DELTA_{v}": pdata[v] - pdata[FV.var2amb[v]] for v in self.vars}
+        # before the ambient results are set there are no wakes yet:
+        amb = {
+            v: pdata[FV.var2amb[v]] if FV.var2amb[v] in pdata else pdata[v]
+            for v in self.vars
+        }
+        out = {f"DELTA_{v}": pdata[v] - amb[v] for v in self.vars}
 
         if self.normalize:
             for v in self.vars:
-                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
+                out[f"DELTA_{v}"] /= amb[v]
 
         return out
-- 
2.43.0


From 59e357bdccf39eec7082b82692b9980dcbcdde67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 61/89] fix: point calculations with given farm results work
 with an algorithm that did not calculate them itself

---
 foxes/algorithms/downwind/downwind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index bc56cb8..f199473 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -785,7 +785,11 @@ class Downwind(Algorithm):
         if persist_mdata:
             model_data = model_data.persist()
         self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
+        if farm_results is not None:
+            self.print(
+                f"\nInput farm variables:",
+                ", ".join([str(v) for v in farm_results.data_vars]),
+            )
 
         # chunk farm results:
         self.print("\nInput farm data:\n\n", farm_results, "\n")
-- 
2.43.0


From f175001150233cc538668b7d686df5ee29a8ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 62/89] fix: point and farm models can be created by name, as
 in the model book section of parameter files

---
 foxes/core/farm_data_model.py  | 18 ++++++++++++++++++
 foxes/core/point_data_model.py | 34 +++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/foxes/core/farm_data_model.py b/foxes/core/farm_data_model.py
index 9f0e910..211eaee 100644
--- a/foxes/core/farm_data_model.py
+++ b/foxes/core/farm_data_model.py
@@ -2,6 +2,7 @@ from abc import abstractmethod
 import numpy as np
 
 from foxes.config import config
+from foxes.utils import new_instance
 import foxes.constants as FC
 
 from .data_calc_model import DataCalcModel
@@ -156,6 +157,23 @@ class FarmDataModel(DataCalcModel):
         else:
             return FarmDataModelList([self, m])
 
+    @classmethod
+    def new(cls, model_type, *args, **kwargs):
+        """
+        Run-time farm model factory.
+
+        Parameters
+        ----------
+        model_type: str
+            The selected derived class name
+        args: tuple, optional
+            Additional parameters for the constructor
+        kwargs: dict, optional
+            Additional parameters for the constructor
+
+        """
+        return new_instance(cls, model_type, *args, **kwargs)
+
 
 class FarmDataModelList(FarmDataModel):
     """
diff --git a/foxes/core/point_data_model.py b/foxes/core/point_data_model.py
index f18d315..8b16a25 100644
--- a/foxes/core/point_data_model.py
+++ b/foxes/core/point_data_model.py
@@ -142,6 +142,23 @@ class PointDataModel(DataCalcModel):
         else:
             return PointDataModelList([self, m])
 
+    @classmethod
+    def new(cls, model_type, *args, **kwargs):
+        """
+        Run-time point model factory.
+
+        Parameters
+        ----------
+        model_type: str
+            The selected derived class name
+        args: tuple, optional
+            Additional parameters for the constructor
+        kwargs: dict, optional
+            Additional parameters for the constructor
+
+        """
+        return new_instance(cls, model_type, *args, **kwargs)
+
 
 class PointDataModelList(PointDataModel):
     """
@@ -264,20 +281,3 @@ class PointDataModelList(PointDataModel):
             tdata.update(res)
 
         return {v: tdata[v] for v in self.output_point_vars(algo)}
-
-    @classmethod
-    def new(cls, model_type, *args, **kwargs):
-        """
-        Run-time point model factory.
-
-        Parameters
-        ----------
-        model_type: str
-            The selected derived class name
-        args: tuple, optional
-            Additional parameters for the constructor
-        kwargs: dict, optional
-            Additional parameters for the constructor
-
-        """
-        return new_instance(cls, model_type, *args, **kwargs)
-- 
2.43.0


From 7576cf66743eb2817a7b3985a882aa7cdf290ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 63/89] fix: lists of models, criteria and plugins that start
 empty are not shared between objects

---
 foxes/algorithms/iterative/models/convergence.py | 6 +++---
 foxes/algorithms/sequential/sequential.py        | 6 +++---
 foxes/core/farm_data_model.py                    | 6 +++---
 foxes/core/point_data_model.py                   | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/foxes/algorithms/iterative/models/convergence.py b/foxes/algorithms/iterative/models/convergence.py
index 927b5d0..ae5216a 100644
--- a/foxes/algorithms/iterative/models/convergence.py
+++ b/foxes/algorithms/iterative/models/convergence.py
@@ -83,20 +83,20 @@ class ConvCritList(ConvCrit):
 
     """
 
-    def __init__(self, crits=[], name=None):
+    def __init__(self, crits=None, name=None):
         """
         Constructor.
 
         Parameters
         ----------
-        crits: list of ConvCrit
+        crits: list of ConvCrit, optional
             The criteria
         name: str, optional
             The convergence criteria name
 
         """
         super().__init__(name)
-        self.crits = crits
+        self.crits = crits if crits is not None else []
 
     def add_crit(self, crit):
         """
diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 4e47e26..0678226 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -66,7 +66,7 @@ class Sequential(Iterative):
         points=None,
         ambient=False,
         calc_pars={},
-        plugins=[],
+        plugins=None,
         outputs=None,
         **kwargs,
     ):
@@ -88,7 +88,7 @@ class Sequential(Iterative):
         calc_pars: dict
             Parameters for model calculation.
             Key: model name str, value: parameter dict
-        plugins: list of foxes.algorithm.sequential.SequentialIterPlugin
+        plugins: list of foxes.algorithm.sequential.SequentialIterPlugin, optional
             The plugins, updated with every iteration
         outputs: list of str, optional
             The output variables
@@ -101,7 +101,7 @@ class Sequential(Iterative):
         self.calc_pars = calc_pars
         self.states0 = self.states.states
         self.points = points
-        self.plugins = plugins
+        self.plugins = plugins if plugins is not None else []
         self.outputs = outputs if outputs is not None else self.DEFAULT_FARM_OUTPUTS
 
         self._verbo0 = self.verbosity + 1
diff --git a/foxes/core/farm_data_model.py b/foxes/core/farm_data_model.py
index 211eaee..105fe43 100644
--- a/foxes/core/farm_data_model.py
+++ b/foxes/core/farm_data_model.py
@@ -192,18 +192,18 @@ class FarmDataModelList(FarmDataModel):
 
     """
 
-    def __init__(self, models=[]):
+    def __init__(self, models=None):
         """
         Constructor.
 
         Parameters
         ----------
-        models: list of foxes.core.FarmDataModel
+        models: list of foxes.core.FarmDataModel, optional
             The model list
 
         """
         super().__init__()
-        self.models = models
+        self.models = models if models is not None else []
 
     def __repr__(self):
         return f"{type(self).__name__}({[m.name for m in self.models]})"
diff --git a/foxes/core/point_data_model.py b/foxes/core/point_data_model.py
index 8b16a25..0adc128 100644
--- a/foxes/core/point_data_model.py
+++ b/foxes/core/point_data_model.py
@@ -177,18 +177,18 @@ class PointDataModelList(PointDataModel):
 
     """
 
-    def __init__(self, models=[]):
+    def __init__(self, models=None):
         """
         Constructor.
 
         Parameters
         ----------
-        models: list of foxes.core.PointDataModel
+        models: list of foxes.core.PointDataModel, optional
             The model list
 
         """
         super().__init__()
-        self.models = models
+        self.models = models if models is not None else []
 
     def __repr__(self):
         return f"{type(self).__name__}({[m.name for m in self.models]})"
-- 
2.43.0


From 08345c3e315bb3e0b57f0bcdb7ba6c91164ee095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 64/89] fix: parameter dicts can be used repeatedly, and
 engines they start are always stopped

---
 foxes/input/yaml/dict.py | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 70f9379..3c3ea5d 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -7,7 +7,7 @@ from foxes.core import States, Engine, WindFarm, Algorithm
 from foxes.models import ModelBook
 from foxes.output import Output
 from foxes.utils import Dict, new_cls
-from foxes.config import config
+from foxes.config import config, get_input_path
 import foxes.constants as FC
 
 
@@ -128,6 +128,7 @@ def read_dict(
         if algo is None:
             _print("Creating wind farm")
             fdict = idict.get_item("wind_farm")
+            fdict = Dict(fdict, name=fdict.name)
             lyts = [
                 Dict(l, name=f"{fdict.name}.layout{i}")
                 for i, l in enumerate(fdict.pop_item("layouts"))
@@ -152,15 +153,17 @@ def read_dict(
         _print(f"Initializing engine: {engine}")
         engine.initialize()
     elif "engine" in idict:
+        edict = dict(idict["engine"])
         if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
-        engine = Engine.new(**idict["engine"])
+            edict["verbosity"] = verbosity - 1
+        engine = Engine.new(**edict)
         engine.initialize()
         _print(f"Initializing engine: {engine}")
 
     # create algorithm:
     if algo is None:
         adict = idict.get_item("algorithm")
+        adict = Dict(adict, name=adict.name)
         if iterative is not None and iterative:
             adict["algo_type"] = "Iterative"
         _print("Creating algorithm :", adict["algo_type"])
@@ -169,7 +172,12 @@ def read_dict(
             adict["verbosity"] = verbosity - 1
         if algo_pars is not None:
             adict.update({v: d for v, d in algo_pars.items() if d is not None})
-        algo = Algorithm.new(**adict)
+        try:
+            algo = Algorithm.new(**adict)
+        except Exception as e:
+            if engine is not None:
+                engine.finalize()
+            raise e
 
     _print("------------------------------------------------------------------------\n")
 
@@ -241,7 +249,7 @@ def _get_object(rlabels, d):
     i0 = d.find("[")
     if i0 > 0:
         inds = tuple([int(x) for x in d[i0 + 1 :].split(",")])
-        return rlabels[d[:i0]][inds]
+        return rlabels[d[:i0]][inds if len(inds) > 1 else inds[0]]
     else:
         return rlabels[d]
 
@@ -302,7 +310,7 @@ def run_obj_function(
 
     # replace result labels by objects:
     for k, d in fdict.items():
-        if isinstance(d, str) and d[0] == "$":
+        if isinstance(d, str) and d.startswith("$"):
             fdict[k] = _get_object(rlabels, d)
 
     # run function:
@@ -438,7 +446,7 @@ def run_outputs(
         if len(odicts):
             _print()
 
-    return out if not ret_rlabels else out, rlabels
+    return (out, rlabels) if ret_rlabels else out
 
 
 def run_dict(idict, *args, verbosity=None, **kwargs):
@@ -479,8 +487,21 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     # read components:
     algo, engine = read_dict(idict, *args, verbosity=verbosity, **kwargs)
 
+    try:
+        return _run_calculations(idict, algo, verbosity, _print)
+
+    # shutdown engine, if created above:
+    finally:
+        if engine is not None:
+            _print(f"Finalizing engine: {engine}")
+            engine.finalize()
+
+
+def _run_calculations(idict, algo, verbosity, _print):
+    """Helper function for running calculations and outputs"""
+
     # run farm calculation:
-    rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
+    rdict = Dict(idict.get("calc_farm", {}), name=idict.name + ".calc_farm")
     if rdict.pop_item("run", True):
         _print("Running calc_farm")
         farm_results = algo.calc_farm(**rdict)
@@ -491,13 +512,13 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     # run points calculation:
     point_results = None
     if "calc_points" in idict:
-        rdict = idict.get_item("calc_points")
-        if rdict.pop_item("run"):
+        rdict = Dict(idict["calc_points"], name=idict.name + ".calc_points")
+        if rdict.pop_item("run", True):
             _print("Running calc_points")
             points = rdict.pop_item("points")
             if isinstance(points, str):
                 _print("Reading file", points)
-                points = pd.read_csv(points).to_numpy()
+                points = pd.read_csv(get_input_path(points)).to_numpy()
             point_results = algo.calc_points(farm_results, points=points, **rdict)
         else:
             point_results = None
@@ -506,9 +527,4 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     # run outputs:
     out += (run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),)
 
-    # shutdown engine, if created above:
-    if engine is not None:
-        _print(f"Finalizing engine: {engine}")
-        engine.finalize()
-
     return out
-- 
2.43.0


From b02b70743034890ab0156d009a06061b6520c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 65/89] fix: verbosity levels below zero are silent

---
 foxes/input/farm_layout/from_csv.py            | 2 +-
 foxes/input/farm_layout/from_file.py           | 2 +-
 foxes/input/farm_layout/from_json.py           | 2 +-
 foxes/input/states/create/random_abl_states.py | 2 +-
 foxes/input/states/wrg_states.py               | 2 +-
 foxes/models/point_models/set_uniform_data.py  | 2 +-
 foxes/output/results_writer.py                 | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 272eed4..283f093 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -74,7 +74,7 @@ def add_from_csv(
     if isinstance(data_source, pd.DataFrame):
         data = data_source
     else:
-        if verbosity:
+        if verbosity > 0:
             print("Reading file", data_source)
         pth = get_input_path(data_source)
         data = pd.read_csv(pth, index_col=col_index)
diff --git a/foxes/input/farm_layout/from_file.py b/foxes/input/farm_layout/from_file.py
index c93bd1d..b851576 100644
--- a/foxes/input/farm_layout/from_file.py
+++ b/foxes/input/farm_layout/from_file.py
@@ -35,7 +35,7 @@ def add_from_file(farm, file_path, *args, verbosity=1, dbook=None, **kwargs):
     dbook = StaticData() if dbook is None else dbook
 
     if not fpath.is_file():
-        if verbosity:
+        if verbosity > 0:
             print(f"Reading static data '{fpath.name}' from context '{FARM}'")
         file_path = dbook.get_file_path(FARM, fpath.name, check_raw=False)
 
diff --git a/foxes/input/farm_layout/from_json.py b/foxes/input/farm_layout/from_json.py
index 820ac32..de43887 100644
--- a/foxes/input/farm_layout/from_json.py
+++ b/foxes/input/farm_layout/from_json.py
@@ -29,7 +29,7 @@ def add_from_json(
 
     """
     fpath = get_input_path(file_path)
-    if verbosity:
+    if verbosity > 0:
         print("Reading file", fpath)
     with open(fpath) as f:
         dict = json.load(f)
diff --git a/foxes/input/states/create/random_abl_states.py b/foxes/input/states/create/random_abl_states.py
index 81f3381..784ad4d 100644
--- a/foxes/input/states/create/random_abl_states.py
+++ b/foxes/input/states/create/random_abl_states.py
@@ -100,7 +100,7 @@ def write_random_abl_states(
     """
 
     fpath = get_output_path(file_path)
-    if verbosity:
+    if verbosity > 0:
         print("Writing file", fpath)
 
     data = create_random_abl_states(
diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index c1198b2..4a1adf6 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -101,7 +101,7 @@ class WRGStates(States):
             fpath = algo.dbook.get_file_path(STATES, self.wrg_fname, check_raw=False)
             if verbosity > 0:
                 print(f"Path: {fpath}")
-        elif verbosity:
+        elif verbosity > 0:
             print(f"States '{self.name}': Reading file {fpath}")
         wrg = ReaderWRG(fpath)
         p0 = np.array([wrg.x0, wrg.y0], dtype=config.dtype_double)
diff --git a/foxes/models/point_models/set_uniform_data.py b/foxes/models/point_models/set_uniform_data.py
index 2448b79..02cf379 100644
--- a/foxes/models/point_models/set_uniform_data.py
+++ b/foxes/models/point_models/set_uniform_data.py
@@ -91,7 +91,7 @@ class SetUniformData(PointDataModel):
         elif isinstance(self.data_source, dict):
             pass
         else:
-            if verbosity:
+            if verbosity > 0:
                 print(f"States '{self.name}': Reading file {self.data_source}")
             rpars = dict(index_col=0)
             rpars.update(self._rpars)
diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index 6d42527..a508b3f 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -97,7 +97,7 @@ class ResultsWriter(Output):
             Additional parameters for Output.write()
 
         """
-        if verbosity:
+        if verbosity > 0:
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables, inds = self._get_data_vars(variables)
-- 
2.43.0


From d45a5456c570758b7d45843fbcb1ede4aec1eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 66/89] fix: engine of a parameter dict is stopped if the
 algorithm section is missing

---
 foxes/input/yaml/dict.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 3c3ea5d..ca73453 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -162,17 +162,17 @@ def read_dict(
 
     # create algorithm:
     if algo is None:
-        adict = idict.get_item("algorithm")
-        adict = Dict(adict, name=adict.name)
-        if iterative is not None and iterative:
-            adict["algo_type"] = "Iterative"
-        _print("Creating algorithm :", adict["algo_type"])
-        adict.update(dict(farm=farm, states=states, mbook=mbook))
-        if verbosity is not None:
-            adict["verbosity"] = verbosity - 1
-        if algo_pars is not None:
-            adict.update({v: d for v, d in algo_pars.items() if d is not None})
         try:
+            adict = idict.get_item("algorithm")
+            adict = Dict(adict, name=adict.name)
+            if iterative is not None and iterative:
+                adict["algo_type"] = "Iterative"
+            _print("Creating algorithm :", adict["algo_type"])
+            adict.update(dict(farm=farm, states=states, mbook=mbook))
+            if verbosity is not None:
+                adict["verbosity"] = verbosity - 1
+            if algo_pars is not None:
+                adict.update({v: d for v, d in algo_pars.items() if d is not None})
             algo = Algorithm.new(**adict)
         except Exception as e:
             if engine is not None:
-- 
2.43.0


From 46dcdfa56074a9d84ef4036f93da729d97b7e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 67/89] fix: rotor models do not change the given list of
 variables

---
 foxes/core/rotor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index f0907a4..1d98e1a 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -41,7 +41,7 @@ class RotorModel(FarmDataModel):
 
         """
         super().__init__()
-        self.calc_vars = calc_vars
+        self.calc_vars = None if calc_vars is None else list(calc_vars)
 
     def output_farm_vars(self, algo):
         """
-- 
2.43.0


From 4ba32c6be4d4f6626a8c83c8641c7daece3b9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 68/89] fix: data of states from relative paths can be read
 repeatedly

---
 foxes/input/states/multi_height.py | 36 +++++++++++++++---------------
 foxes/input/states/states_table.py | 20 ++++++++---------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index 3bc8cc1..6ebed7f 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -197,21 +197,21 @@ class MultiHeightStates(States):
 
         """
         if not isinstance(self.data_source, pd.DataFrame):
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
-            elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                    print(f"Path: {fpath}")
+            elif verbosity > 0:
+                print(f"States '{self.name}': Reading file {fpath}")
             rpars = dict(self.RDICT, **self.rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
         else:
             data = self.data_source
 
@@ -605,20 +605,20 @@ class MultiHeightNCStates(MultiHeightStates):
 
         """
         if not isinstance(self.data_source, Dataset):
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
-            elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
-            data = open_dataset(self.data_source, **self.xr_read_pars)
+                    print(f"Path: {fpath}")
+            elif verbosity > 0:
+                print(f"States '{self.name}': Reading file {fpath}")
+            data = open_dataset(fpath, **self.xr_read_pars)
         else:
             data = self.data_source
 
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index f6903b2..4855ea9 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -214,21 +214,21 @@ class StatesTable(States):
         if isinstance(self.data_source, pd.DataFrame):
             data = self.data_source
         else:
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
-            elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                    print(f"Path: {fpath}")
+            elif verbosity > 0:
+                print(f"States '{self.name}': Reading file {fpath}")
             rpars = dict(self.RDICT, **self.rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
 
         if self.states_sel is not None:
             data = data.iloc[self.states_sel]
@@ -543,7 +543,7 @@ class TabStates(StatesTable):
                     )
                     if verbosity > 0:
                         print(f"Path: {self.__tab_source}")
-                elif verbosity:
+                elif verbosity > 0:
                     print(f"States '{self.name}': Reading file {self.__tab_source}")
                 self.__tab_data = read_tab_file(self.__tab_source, self._normalize)
 
-- 
2.43.0


From 67a8792f238bb1f0010e68d7333f52e552043f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:40 +0000
Subject: [PATCH 69/89] fix: WRG states in point calculations with selected
 outputs

---
 foxes/input/states/wrg_states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 4a1adf6..c72e03f 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -244,14 +244,15 @@ class WRGStates(States):
 
         out = {}
 
-        out[FV.WS] = tdata[FV.WS]
+        shp = (n_states, n_targets, n_tpoints)
+        out[FV.WS] = np.zeros(shp, dtype=config.dtype_double)
         out[FV.WS][:] = ws[:, None, None]
 
-        out[FV.WD] = tdata[FV.WD]
+        out[FV.WD] = np.zeros(shp, dtype=config.dtype_double)
         out[FV.WD][:] = wd[:, None, None]
 
         for v, d in self.fixed_vars.items():
-            out[v] = tdata[v]
+            out[v] = np.zeros(shp, dtype=config.dtype_double)
             out[v][:] = d
 
         # interpolate A, k, f from x, y, wd
-- 
2.43.0


From 2be390e69eeb0eb98344f4c692ebe0508932fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 70/89] fix: files of SlicesData contain all slices

---
 foxes/output/slices_data.py | 40 ++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 3db23c7..323e0da 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -1,6 +1,7 @@
 import xarray as xr
 import pandas as pd
 
+from foxes.utils import write_nc
 import foxes.constants as FC
 
 from .output import Output
@@ -50,6 +51,8 @@ class SlicesData(Output):
         self,
         z_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -90,12 +93,17 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(z_list, name="z"))
         del out.attrs["z"]
+        if to_file is not None:
+            write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+
         return out
 
     def get_mean_data_xz(
         self,
         y_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -136,12 +144,17 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(y_list, name="y"))
         del out.attrs["y"]
+        if to_file is not None:
+            write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+
         return out
 
     def get_mean_data_yz(
         self,
         x_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -182,12 +195,17 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(x_list, name="x"))
         del out.attrs["x"]
+        if to_file is not None:
+            write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+
         return out
 
     def get_states_data_xy(
         self,
         z_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -228,12 +246,18 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(z_list, name="z"))
         del out.attrs["z"]
-        return out.transpose(FC.STATE, "z", ...)
+        out = out.transpose(FC.STATE, "z", ...)
+        if to_file is not None:
+            write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+
+        return out
 
     def get_states_data_xz(
         self,
         y_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -274,12 +298,18 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(y_list, name="y"))
         del out.attrs["y"]
-        return out.transpose(FC.STATE, "z", "y", ...)
+        out = out.transpose(FC.STATE, "z", "y", ...)
+        if to_file is not None:
+            write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+
+        return out
 
     def get_states_data_yz(
         self,
         x_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -320,4 +350,8 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(x_list, name="x"))
         del out.attrs["x"]
-        return out.transpose(FC.STATE, "z", "y", "x", ...)
+        out = out.transpose(FC.STATE, "z", "y", "x", ...)
+        if to_file is not None:
+            write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+
+        return out
-- 
2.43.0


From 19ba190b899b9c480c20726dd80a2a61e1176962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 71/89] fix: SlicesData respects the label map for coordinates

---
 foxes/output/slices_data.py | 78 +++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 323e0da..74819ae 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -77,13 +77,13 @@ class SlicesData(Output):
 
         """
         dsl = []
-        for z in z_list:
+        for z0 in z_list:
             if verbosity > 0:
-                print(f"{type(self).__name__}: Creating slice z = {z}")
+                print(f"{type(self).__name__}: Creating slice z = {z0}")
             dsl.append(
                 self._slice_data.get_mean_data_xy(
                     *args,
-                    z=z,
+                    z=z0,
                     data_format="xarray",
                     ret_states=False,
                     ret_grid=False,
@@ -91,8 +91,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
+        lmap = kwargs.get("label_map", {})
+        z = lmap.get("z", "z")
+        out = xr.concat(dsl, pd.Index(z_list, name=z))
+        del out.attrs[z]
         if to_file is not None:
             write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
 
@@ -128,13 +130,13 @@ class SlicesData(Output):
 
         """
         dsl = []
-        for y in y_list:
+        for y0 in y_list:
             if verbosity > 0:
-                print(f"{type(self).__name__}: Creating slice y = {y}")
+                print(f"{type(self).__name__}: Creating slice y = {y0}")
             dsl.append(
                 self._slice_data.get_mean_data_xz(
                     *args,
-                    y=y,
+                    y=y0,
                     data_format="xarray",
                     ret_states=False,
                     ret_grid=False,
@@ -142,8 +144,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
+        lmap = kwargs.get("label_map", {})
+        y = lmap.get("y", "y")
+        out = xr.concat(dsl, pd.Index(y_list, name=y))
+        del out.attrs[y]
         if to_file is not None:
             write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
 
@@ -179,13 +183,13 @@ class SlicesData(Output):
 
         """
         dsl = []
-        for x in x_list:
+        for x0 in x_list:
             if verbosity > 0:
-                print(f"{type(self).__name__}: Creating slice x = {x}")
+                print(f"{type(self).__name__}: Creating slice x = {x0}")
             dsl.append(
                 self._slice_data.get_mean_data_yz(
                     *args,
-                    x=x,
+                    x=x0,
                     data_format="xarray",
                     ret_states=False,
                     ret_grid=False,
@@ -193,8 +197,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
+        lmap = kwargs.get("label_map", {})
+        x = lmap.get("x", "x")
+        out = xr.concat(dsl, pd.Index(x_list, name=x))
+        del out.attrs[x]
         if to_file is not None:
             write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
 
@@ -230,13 +236,13 @@ class SlicesData(Output):
 
         """
         dsl = []
-        for z in z_list:
+        for z0 in z_list:
             if verbosity > 0:
-                print(f"{type(self).__name__}: Creating slice z = {z}")
+                print(f"{type(self).__name__}: Creating slice z = {z0}")
             dsl.append(
                 self._slice_data.get_states_data_xy(
                     *args,
-                    z=z,
+                    z=z0,
                     data_format="xarray",
                     ret_states=False,
                     ret_grid=False,
@@ -244,9 +250,11 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
-        out = out.transpose(FC.STATE, "z", ...)
+        lmap = kwargs.get("label_map", {})
+        s, z = [lmap.get(d, d) for d in (FC.STATE, "z")]
+        out = xr.concat(dsl, pd.Index(z_list, name=z))
+        del out.attrs[z]
+        out = out.transpose(s, z, ...)
         if to_file is not None:
             write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
 
@@ -282,13 +290,13 @@ class SlicesData(Output):
 
         """
         dsl = []
-        for y in y_list:
+        for y0 in y_list:
             if verbosity > 0:
-                print(f"{type(self).__name__}: Creating slice y = {y}")
+                print(f"{type(self).__name__}: Creating slice y = {y0}")
             dsl.append(
                 self._slice_data.get_states_data_xz(
                     *args,
-                    y=y,
+                    y=y0,
                     data_format="xarray",
                     ret_states=False,
                     ret_grid=False,
@@ -296,9 +304,11 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
-        out = out.transpose(FC.STATE, "z", "y", ...)
+        lmap = kwargs.get("label_map", {})
+        s, y, z = [lmap.get(d, d) for d in (FC.STATE, "y", "z")]
+        out = xr.concat(dsl, pd.Index(y_list, name=y))
+        del out.attrs[y]
+        out = out.transpose(s, z, y, ...)
         if to_file is not None:
             write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
 
@@ -334,13 +344,13 @@ class SlicesData(Output):
 
         """
         dsl = []
-        for x in x_list:
+        for x0 in x_list:
             if verbosity > 0:
-                print(f"{type(self).__name__}: Creating slice x = {x}")
+                print(f"{type(self).__name__}: Creating slice x = {x0}")
             dsl.append(
                 self._slice_data.get_states_data_yz(
                     *args,
-                    x=x,
+                    x=x0,
                     data_format="xarray",
                     ret_states=False,
                     ret_grid=False,
@@ -348,9 +358,11 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
-        out = out.transpose(FC.STATE, "z", "y", "x", ...)
+        lmap = kwargs.get("label_map", {})
+        s, x, y, z = [lmap.get(d, d) for d in (FC.STATE, "x", "y", "z")]
+        out = xr.concat(dsl, pd.Index(x_list, name=x))
+        del out.attrs[x]
+        out = out.transpose(s, z, y, x, ...)
         if to_file is not None:
             write_nc(out, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
 
-- 
2.43.0


From 8316c3abccbb5d8de5c288f3c6f8c21c38b54fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 72/89] fix: output directory option of foxes_windio

---
 foxes/input/yaml/windio/windio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/windio.py b/foxes/input/yaml/windio/windio.py
index cafe613..69be70e 100644
--- a/foxes/input/yaml/windio/windio.py
+++ b/foxes/input/yaml/windio/windio.py
@@ -175,7 +175,7 @@ def foxes_windio():
     idict, algo, odir = read_windio(wio, verbosity=args.verbosity)
 
     if args.output_dir is not None:
-        odir = args.odir
+        odir = args.output_dir
 
     run_dict(
         idict,
-- 
2.43.0


From 703ddd0e444a197a526db03f7649d7cf0da02090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 73/89] fix: windio outputs without cases_run

---
 foxes/input/yaml/windio/read_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_outputs.py b/foxes/input/yaml/windio/read_outputs.py
index b0c7cd5..fcb7106 100644
--- a/foxes/input/yaml/windio/read_outputs.py
+++ b/foxes/input/yaml/windio/read_outputs.py
@@ -190,7 +190,7 @@ def read_outputs(wio_outs, idict, algo, verbosity=1):
     cases_run = Dict(
         wio_outs.pop_item("cases_run", {}), name=wio_outs.name + ".cases_run"
     )
-    if cases_run.pop_item("all_occurences"):
+    if cases_run.pop_item("all_occurences", True):
         states_isel = None
     else:
         states_isel = cases_run.pop_item("subset")
-- 
2.43.0


From d864a66ce35a535d2055ac8a84d19f066ba40aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 74/89] fix: Dict with keys that are not strings

---
 foxes/utils/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/dict.py b/foxes/utils/dict.py
index 5c0afa4..644100c 100644
--- a/foxes/utils/dict.py
+++ b/foxes/utils/dict.py
@@ -43,7 +43,7 @@ class Dict(dict):
             )
 
         super().__init__(
-            **tmp,
+            tmp,
             **{
                 k: (
                     Dict(d, name=k)
-- 
2.43.0


From c2eee5e020ab8780c16cd060868d0e95a5b658cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 75/89] fix: constant windio fields are not replaced by
 defaults

---
 foxes/input/yaml/windio/read_site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index ccc952c..f6d7f42 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -99,7 +99,7 @@ def _get_Timeseries(
                 fix[v] = d
             elif verbosity > 2:
                 print(f"        ignoring field '{v}' with dims {dims[v]}")
-        fix.update({v: d for v, d in fixval.items() if v not in data})
+        fix.update({v: d for v, d in fixval.items() if v not in data and v not in fix})
 
         sdata = pd.DataFrame(index=coords[FC.TIME], data=data)
         sdata.index.name = FC.TIME
@@ -142,7 +142,7 @@ def _get_MultiHeightNCTimeseries(
                 fix[v] = d
             elif verbosity > 2:
                 print(f"        ignoring field '{v}' with dims {dims[v]}")
-        fix.update({v: d for v, d in fixval.items() if v not in data})
+        fix.update({v: d for v, d in fixval.items() if v not in data and v not in fix})
 
         sdata = Dataset(coords=coords, data_vars=data)
         states_dict.update(
-- 
2.43.0


From 8661ce3e4358e4292ba9bab97871c3b4b7498686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 76/89] fix: windio time series of multi height data

---
 foxes/input/yaml/windio/read_site.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index f6d7f42..7221fac 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -138,6 +138,8 @@ def _get_MultiHeightNCTimeseries(
                 data[v] = ((FC.TIME, FV.H), d)
             elif dims[v] == (FV.H, FC.TIME):
                 data[v] = ((FC.TIME, FV.H), np.swapaxes(d, 0, 1))
+            elif dims[v] == (FC.TIME,):
+                data[v] = ((FC.TIME,), d)
             elif len(dims[v]) == 0:
                 fix[v] = d
             elif verbosity > 2:
-- 
2.43.0


From 736aa30b35f83542ead0a08e36952e7be5d18cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 77/89] fix: windio input of a single state

---
 foxes/input/yaml/windio/read_site.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index 7221fac..ab5b9a5 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -47,8 +47,8 @@ def _get_SingleStateStates(
     """Try to generate single state parameters
     :group: input.yaml.windio
     """
-    for c in coords:
-        if not isinstance(c, Number):
+    for d in coords.values():
+        if not isinstance(d, Number):
             return False
 
     if verbosity > 2:
@@ -56,20 +56,18 @@ def _get_SingleStateStates(
 
     smap = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}
 
-    data = {smap[v]: d for v, d in fixval.items()}
+    data = {smap.get(v, v): d for v, d in fixval.items()}
     for v, d in coords.items():
         if v in smap:
             data[smap[v]] = d
         elif verbosity > 1:
             print(f"        ignoring coord '{v}'")
     for v, d in fields.items():
-        if v in smap and len(dims[v]) == 0:
-            data[smap[v]] = d
+        if len(dims[v]) == 0 and (v in smap or len(profiles)):
+            data[smap.get(v, v)] = d
         elif verbosity > 1:
             print(f"        ignoring field '{v}' with dims {dims[v]}")
 
-    sdata = pd.DataFrame(index=coords[FC.TIME], data=data)
-    sdata.index.name = FC.TIME
     states_dict.update(
         dict(
             states_type="SingleStateStates",
-- 
2.43.0


From eb5453a97b7233c3bcc5071a21465cc5f3cb030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 78/89] fix: verbose windio reading of constant coordinates

---
 foxes/input/yaml/windio/read_site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index ab5b9a5..9ae3370 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -263,7 +263,7 @@ def read_site(wio_dict, verbosity=1):
     if verbosity > 2:
         print("      Coords:")
         for c, d in coords.items():
-            print(f"        {c}: Shape {d.shape}")
+            print(f"        {c}: Shape {np.shape(d)}")
         print("      Fields:")
         for f, d in dims.items():
             if len(d):
-- 
2.43.0


From 619fe116f539f1b2cb449303c90f4761c889c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 79/89] fix: windio data can be read repeatedly

---
 foxes/input/yaml/windio/read_farm.py | 1 +
 foxes/input/yaml/windio/windio.py    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_farm.py b/foxes/input/yaml/windio/read_farm.py
index 36efebf..a5c1845 100644
--- a/foxes/input/yaml/windio/read_farm.py
+++ b/foxes/input/yaml/windio/read_farm.py
@@ -42,6 +42,7 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
 
     ttypes = {}
     for k, wio_trbns in wio_farm["turbine_types"].items():
+        wio_trbns = Dict(wio_trbns, name=f"turbine_types.{k}")
         tname = wio_trbns.pop_item("name")
         ttypes[k] = tname
         _print("    Reading turbine type", k, level=3)
diff --git a/foxes/input/yaml/windio/windio.py b/foxes/input/yaml/windio/windio.py
index 69be70e..9318b29 100644
--- a/foxes/input/yaml/windio/windio.py
+++ b/foxes/input/yaml/windio/windio.py
@@ -44,7 +44,7 @@ def read_windio(wio_dict, verbosity=1):
         wio_dict = Dict(wio_dict, name="windio")
 
     _print(f"Reading windio data")
-    _print("  Name:", wio_dict.pop_item("name", None))
+    _print("  Name:", wio_dict.get_item("name", None))
     _print("  Contents:", [k for k in wio_dict.keys()])
 
     idict = Dict(
-- 
2.43.0


From 5f3dd2a97cb206ff514e38244001f0a75184e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 80/89] fix: windio input without background rotor averaging

---
 foxes/input/yaml/windio/read_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index 90cf60e..b3bb34a 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -200,7 +200,7 @@ def _read_rotor_averaging(rotor_averaging, algo_dict, verbosity):
     if background_averaging in ["center", "centre"]:
         algo_dict["rotor_model"] = "centre"
     elif background_averaging in ["none", "None", None]:
-        algo_dict["rotor_model"] = None
+        algo_dict["rotor_model"] = "centre"
     elif background_averaging == "grid":
         algo_dict["rotor_model"] = f"grid{nx*ny}"
     else:
-- 
2.43.0


From b83c7a761301ef904b1406a898e85e8bf7a1ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 81/89] fix: name of the Bastankhah2016 deflection in windio
 input

---
 foxes/input/yaml/windio/read_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index b3bb34a..032d27a 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -232,6 +232,7 @@ def _read_deflection(deflection, induction, algo_dict, mbook, verbosity):
         {
             "None": "RotorWD",
             "Batankhah2016": "YawedWakes",
+            "Bastankhah2016": "YawedWakes",
         },
         name="defl_def_map",
     )
-- 
2.43.0


From 8e65be4ce34e89990f2ec8ea641c4c1434907b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 82/89] fix: TurbOPark wake model in windio input

---
 foxes/input/yaml/windio/read_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index 032d27a..ca402b1 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -19,7 +19,7 @@ def _read_wind_deficit(
             "Jensen": "JensenWake",
             "Bastankhah2014": "Bastankhah2014",
             "Bastankhah2016": "Bastankhah2016",
-            "TurbOPark": "TurbOPark",
+            "TurbOPark": "TurbOParkWake",
         },
         name="wind_def_map",
     )
-- 
2.43.0


From e6a274e34f20964bb68a8178cfbb7cbd2f4fa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 83/89] fix: RankineHalfBody with grid rotors and centre
 partial wakes

---
 foxes/models/wake_models/induction/rankine_half_body.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_models/induction/rankine_half_body.py b/foxes/models/wake_models/induction/rankine_half_body.py
index 039c6e7..ef757c7 100644
--- a/foxes/models/wake_models/induction/rankine_half_body.py
+++ b/foxes/models/wake_models/induction/rankine_half_body.py
@@ -269,5 +269,9 @@ class RankineHalfBody(TurbineInductionModel):
         # deduce WS and WD deltas:
         new_wd = uv2wd(wind_vec)
         new_ws = np.linalg.norm(wind_vec, axis=-1)
-        wake_deltas[FV.WS] += new_ws - amb_results[FV.WS]
-        wake_deltas[FV.WD] += delta_wd(amb_results[FV.WD], new_wd)
+        wake_deltas[FV.WS] = wake_deltas[FV.WS] + (
+            new_ws - amb_results[FV.WS]
+        )
+        wake_deltas[FV.WD] = wake_deltas[FV.WD] + delta_wd(
+            amb_results[FV.WD], new_wd
+        )
-- 
2.43.0


From 3d0d5dceb4db494a439850a5e9254eb4584cb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:14 +0000
Subject: [PATCH 84/89] fix: xarray engine gives each chunk its own copy of the
 algorithm and the models

---
 foxes/engines/dask.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index f4abd30..a4dab10 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -203,12 +203,15 @@ def _run_as_ufunc(
     out_coords,
     calc_pars,
     init_vars,
-    ensure_variables,
-    calculate,
+    model,
+    cstores,
 ):
     """
     Wrapper that mitigates between apply_ufunc and `calculate`.
     """
+    # chunks may run in threads that share memory, hence each needs its own copies:
+    algo, model = deepcopy((algo, model))
+
     n_prev = len(init_vars)
     if n_prev:
         prev = ldata[:n_prev]
@@ -296,8 +299,11 @@ def _run_as_ufunc(
         data[1].dims[FV.WEIGHT] = data[0].dims[FV.WEIGHT]
 
     # run model calculation:
-    ensure_variables(algo, *data)
-    results = calculate(algo, *data, **calc_pars)
+    model.ensure_variables(algo, *data)
+    results = model.calculate(algo, *data, **calc_pars)
+
+    # hand back the stored data of this chunk:
+    cstores.update({k: c for k, c in algo.chunk_store.items() if k[0] == i0_states})
 
     # replace missing results by first input data with matching shape:
     missing = set(out_vars).difference(results.keys())
@@ -507,6 +513,7 @@ class XArrayEngine(DaskBaseEngine):
 
         # setup arguments for wrapper function:
         out_coords = loop_dims + list(set(out_core_vars).difference([FC.VARS]))
+        cstores = {}
         wargs = dict(
             algo=algo,
             dvars=dvars,
@@ -520,8 +527,8 @@ class XArrayEngine(DaskBaseEngine):
             out_coords=out_coords,
             calc_pars=calc_pars,
             init_vars=ivars,
-            ensure_variables=model.ensure_variables,
-            calculate=model.calculate,
+            model=model,
+            cstores=cstores,
         )
 
         # run parallel computation:
@@ -546,7 +553,15 @@ class XArrayEngine(DaskBaseEngine):
         self.chunk_size_points = chunk_size_points0
 
         # update data by calculation results:
-        return results.compute(num_workers=self.n_procs)
+        results = results.compute(num_workers=self.n_procs)
+        if iterative:
+            for k, c in cstores.items():
+                if k in algo.chunk_store:
+                    algo.chunk_store[k].update(c)
+                else:
+                    algo.chunk_store[k] = c
+
+        return results
 
 
 @delayed
-- 
2.43.0


From 74ad475cd00f07ca0990887053fe8d8e54365892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:54 +0000
Subject: [PATCH 85/89] fix: several turbine type curves without given axes,
 wind rose bin plots into given axes

---
 foxes/output/rose_plot.py           | 1 +
 foxes/output/turbine_type_curves.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/output/rose_plot.py b/foxes/output/rose_plot.py
index 33db838..96c55ac 100644
--- a/foxes/output/rose_plot.py
+++ b/foxes/output/rose_plot.py
@@ -580,6 +580,7 @@ class WindRoseBinPlot(Output):
                 raise TypeError(
                     f"Require axes of type '{PolarAxes.__name__}' for '{type(self).__name__}', got '{type(ax).__name__}'"
                 )
+            fig = ax.get_figure()
         else:
             fig, ax = plt.subplots(figsize=figsize, subplot_kw={"projection": "polar"})
 
diff --git a/foxes/output/turbine_type_curves.py b/foxes/output/turbine_type_curves.py
index cd4007c..800f7e2 100644
--- a/foxes/output/turbine_type_curves.py
+++ b/foxes/output/turbine_type_curves.py
@@ -115,7 +115,9 @@ class TurbineTypeCurves(Output):
             y_labels = [y_labels]
         elif y_labels is None:
             y_labels = [None for v in vars]
-        if not isinstance(axs, (list, tuple, np.ndarray)):
+        if axs is None:
+            axs = [None for v in vars]
+        elif not isinstance(axs, (list, tuple, np.ndarray)):
             axs = [axs]
 
         ws = np.arange(ws_min, ws_max + ws_step, ws_step, dtype=config.dtype_double)
@@ -164,6 +166,7 @@ class TurbineTypeCurves(Output):
             ax = axs[i]
             if ax is None:
                 __, ax = plt.subplots(figsize=figsize)
+                axs[i] = ax
 
             pargs = {"linewidth": 2.5}
             pargs.update(kwargs)
-- 
2.43.0


From 9baba6094cc0f2e5553659e63b61e275ec2f20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:21 +0000
Subject: [PATCH 86/89] fix: several turbine type curves: axes given as tuples

---
 foxes/output/turbine_type_curves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/output/turbine_type_curves.py b/foxes/output/turbine_type_curves.py
index 800f7e2..ad83f74 100644
--- a/foxes/output/turbine_type_curves.py
+++ b/foxes/output/turbine_type_curves.py
@@ -119,6 +119,8 @@ class TurbineTypeCurves(Output):
             axs = [None for v in vars]
         elif not isinstance(axs, (list, tuple, np.ndarray)):
             axs = [axs]
+        else:
+            axs = list(axs)
 
         ws = np.arange(ws_min, ws_max + ws_step, ws_step, dtype=config.dtype_double)
         n_states = len(ws)
-- 
2.43.0


From eccd66d1ec790d092a4e0617cb6fc4b21c6c5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:21 +0000
Subject: [PATCH 87/89] fix: rotors and titles in flow figures of selected
 states, other directions and sequential animations

---
 foxes/output/flow_plots_2d/flow_plots.py      | 72 +++++++++++++------
 .../output/seq_plugins/seq_flow_ani_plugin.py | 12 +++-
 2 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 63bcdf1..0f89841 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -1,7 +1,9 @@
 import numpy as np
 
 from foxes.output import SliceData
+from foxes.utils import wd2uv
 import foxes.variables as FV
+import foxes.constants as FC
 
 from .get_fig import get_fig
 
@@ -314,7 +316,7 @@ class FlowPlots2D(SliceData):
         self,
         var,
         x_direction=270,
-        ylabel="x [m]",
+        ylabel="y [m]",
         zlabel="z [m]",
         levels=None,
         figsize=None,
@@ -583,6 +585,14 @@ class FlowPlots2D(SliceData):
             )
         )
 
+        # select the farm results of the plotted states:
+        fres = self.fres
+        if fres is not None:
+            if kwargs.get("states_isel", None) is not None:
+                fres = fres.isel({FC.STATE: kwargs["states_isel"]})
+            if kwargs.get("states_sel", None) is not None:
+                fres = fres.sel({FC.STATE: kwargs["states_sel"]})
+
         # loop over states:
         for si, s in enumerate(states):
             if animated and si == 0:
@@ -602,17 +612,17 @@ class FlowPlots2D(SliceData):
             # get data for show_turbines
             if rotor_color is not None:
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD][si] + fres[FV.YAWM][si]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD][si]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D][si],
+                    "H": fres[FV.H][si],
+                    "X": fres[FV.X][si],
+                    "Y": fres[FV.Y][si],
+                    "AMB_WD": fres[FV.AMB_WD][si],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -772,6 +782,15 @@ class FlowPlots2D(SliceData):
             )
         )
 
+        # select the farm results of the plotted states:
+        n_x = wd2uv(x_direction)
+        fres = self.fres
+        if fres is not None:
+            if kwargs.get("states_isel", None) is not None:
+                fres = fres.isel({FC.STATE: kwargs["states_isel"]})
+            if kwargs.get("states_sel", None) is not None:
+                fres = fres.sel({FC.STATE: kwargs["states_sel"]})
+
         # loop over states:
         for si, s in enumerate(states):
             if animated and si > 0 and vmin is not None and vmax is not None:
@@ -788,17 +807,17 @@ class FlowPlots2D(SliceData):
             # get data for show_turbines
             if rotor_color is not None:
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD][si] + fres[FV.YAWM][si]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD][si]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D][si],
+                    "H": fres[FV.H][si],
+                    "X": n_x[0] * fres[FV.X][si] + n_x[1] * fres[FV.Y][si],
+                    "Y": fres[FV.Y][si],
+                    "AMB_WD": fres[FV.AMB_WD][si],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -958,6 +977,15 @@ class FlowPlots2D(SliceData):
             )
         )
 
+        # select the farm results of the plotted states:
+        n_x = wd2uv(x_direction)
+        fres = self.fres
+        if fres is not None:
+            if kwargs.get("states_isel", None) is not None:
+                fres = fres.isel({FC.STATE: kwargs["states_isel"]})
+            if kwargs.get("states_sel", None) is not None:
+                fres = fres.sel({FC.STATE: kwargs["states_sel"]})
+
         # loop over states:
         for si, s in enumerate(states):
             if animated and si > 0 and vmin is not None and vmax is not None:
@@ -974,17 +1002,17 @@ class FlowPlots2D(SliceData):
             # get data for show_turbines
             if rotor_color is not None:
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD][si] + fres[FV.YAWM][si]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD][si]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D][si],
+                    "H": fres[FV.H][si],
+                    "X": fres[FV.X][si],
+                    "Y": n_x[0] * fres[FV.Y][si] - n_x[1] * fres[FV.X][si],
+                    "AMB_WD": fres[FV.AMB_WD][si],
                     "turb_angle": turb_angle,
                 }
             else:
diff --git a/foxes/output/seq_plugins/seq_flow_ani_plugin.py b/foxes/output/seq_plugins/seq_flow_ani_plugin.py
index 41c64cf..02045b1 100644
--- a/foxes/output/seq_plugins/seq_flow_ani_plugin.py
+++ b/foxes/output/seq_plugins/seq_flow_ani_plugin.py
@@ -97,7 +97,7 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
             else None
         )
 
-        self._data.append((of, od))
+        self._data.append((of, od, self.pars.get("title", None)))
 
     def gen_images(self, ax):
         """
@@ -117,15 +117,21 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
         gdata = None
         while len(self._data):
 
-            fres, d = self._data.pop(0)
+            fres, d, self.pars["title"] = self._data.pop(0)
 
             if d[2] is not None:
                 gdata = d[2]
 
             o = FlowPlots2D(self.algo, fres)
 
+            gen_fig = {
+                "xy": o.gen_states_fig_xy,
+                "xz": o.gen_states_fig_xz,
+                "yz": o.gen_states_fig_yz,
+            }[self.orientation]
+
             yield next(
-                o.gen_states_fig_xy(
+                gen_fig(
                     **self.pars,
                     ax=ax,
                     fig=fig,
-- 
2.43.0


From 456b7c24f7879125284feda2cc75e759b9c3c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:12 +0000
Subject: [PATCH 88/89] fix: selected states in point calculations with NetCDF
 fields that are not preloaded and with one point flow states

---
 foxes/input/states/field_data_nc.py  | 68 ++++++++++++++--------------
 foxes/input/states/one_point_flow.py | 10 ++--
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 963f0e5..80a1b8f 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -1,7 +1,6 @@
 import numpy as np
 import pandas as pd
 import xarray as xr
-from copy import copy
 from scipy.interpolate import interpn
 
 from foxes.core import States, get_engine
@@ -29,7 +28,12 @@ def _read_nc_file(
                 f"Missing coordinate '{c}' in file {fpath}, got: {list(data.coords.keys())}"
             )
     if minimal:
-        return data[coords[0]].to_numpy()
+        data = data[coords[0]]
+        if isel is not None and coords[0] in isel:
+            data = data.isel({coords[0]: isel[coords[0]]})
+        if sel is not None and coords[0] in sel:
+            data = data.sel({coords[0]: sel[coords[0]]})
+        return data.to_numpy()
     else:
         data = data[vars]
         data.attrs = {}
@@ -480,6 +484,10 @@ class FieldDataNC(States):
 
         idata = super().load_data(algo, verbosity)
 
+        if self.load_mode in ["lazy", "fly"]:
+            self.SINDS = self.var("sinds")
+            idata["data_vars"][self.SINDS] = ((FC.STATE,), np.arange(self._N))
+
         if self.load_mode == "preload":
             self.X = self.var(FV.X)
             self.Y = self.var(FV.Y)
@@ -671,8 +679,7 @@ class FieldDataNC(States):
 
         # case lazy:
         elif self.load_mode == "lazy":
-            i0 = mdata.states_i0(counter=True)
-            s = slice(i0, i0 + n_states)
+            s = mdata[self.SINDS]
             ds = self.data_source.isel({self.states_coord: s}).load()
             __, h, y, x, data, weights = self._get_data(ds, coords, verbosity=0)
             del ds
@@ -683,41 +690,34 @@ class FieldDataNC(States):
             if self.weight_ncvar is not None:
                 vars += [self.weight_ncvar]
 
-            i0 = mdata.states_i0(counter=True)
-            i1 = i0 + n_states
+            sinds = mdata[self.SINDS]
+            order = []
             j0 = 0
             data = []
             for fpath, n in self._files_maxi.items():
-                if i0 < j0:
-                    break
-                else:
-                    j1 = j0 + n
-                    if i0 < j1:
-                        a = i0 - j0
-                        b = min(i1, j1) - j0
-                        isel = copy(self.isel)
-                        isel[self.states_coord] = slice(a, b)
-
-                        data.append(
-                            _read_nc_file(
-                                fpath,
-                                coords=coords,
-                                vars=vars,
-                                nc_engine=config.nc_engine,
-                                isel=isel,
-                                sel=self._sel,
-                                minimal=False,
-                            )
-                        )
-
-                        i0 += b - a
-                    j0 = j1
-
-            assert (
-                i0 == i1
-            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': (i0, i1) = {(i0, i1)}"
+                sel = np.where((sinds >= j0) & (sinds < j0 + n))[0]
+                if len(sel):
+                    data.append(
+                        _read_nc_file(
+                            fpath,
+                            coords=coords,
+                            vars=vars,
+                            nc_engine=config.nc_engine,
+                            isel=self.isel,
+                            sel=self._sel,
+                            minimal=False,
+                        ).isel({self.states_coord: sinds[sel] - j0})
+                    )
+                    order.append(sel)
+                j0 += n
+
+            order = np.concatenate(order)
+            assert len(order) == len(
+                sinds
+            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': {sinds}"
 
             data = xr.concat(data, dim=self.states_coord)
+            data = data.isel({self.states_coord: np.argsort(order)})
             __, h, y, x, data, weights = self._get_data(data, coords, verbosity=0)
 
         else:
diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 73e0178..38b7328 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -142,6 +142,8 @@ class OnePointFlowStates(States):
         idata["data_vars"][self.WEIGHT] = Timelines._precalc_data(
             self, algo, self.base_states, self.heights, verbosity, needs_res=True
         )
+        self.SINDS = self.var("sinds")
+        idata["data_vars"][self.SINDS] = ((FC.STATE,), np.arange(self.size()))
 
         return idata
 
@@ -264,10 +266,10 @@ class OnePointFlowStates(States):
         n_states, n_points = points.shape[:2]
         dxy = self.timelines_data["dxy"].to_numpy()[hi]
 
-        i0 = mdata.states_i0(counter=True)
+        sinds = mdata[self.SINDS]
         trace_p = points[:, :, :2] - ref_xy[:, :, :2]
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = i0 + np.arange(n_states)[:, None]
+        trace_si[:] = sinds[:, None]
         coeffs = np.full((n_states, n_points), np.nan, dtype=config.dtype_double)
 
         # flake8: noqa: F821
@@ -322,7 +324,7 @@ class OnePointFlowStates(States):
             trace_p = np.where(
                 sel[:, :, None], points[:, :, :2] - ref_xy[:, :, :2], trace_p
             )
-            trace_si = np.where(sel, i0 + np.arange(n_states)[:, None] + 1, trace_si)
+            trace_si = np.where(sel, sinds[:, None] + 1, trace_si)
 
             sel &= trace_si < algo.n_states
             tshift = 1
@@ -345,7 +347,7 @@ class OnePointFlowStates(States):
         projx = np.einsum(
             "...d,...d->...",
             points[:, :, :2] - ref_xy[:, :, :2],
-            dxy[i0 + np.arange(n_states)][:, None],
+            dxy[sinds][:, None],
         )
         trace_si[np.isnan(coeffs) & (projx > 0)] = -1
 
-- 
2.43.0


From c80464acfd8eae805a65a2b12fb03d6421835d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:04 +0000
Subject: [PATCH 89/89] fix: heights and coordinates in descending order in
 multi height states and NetCDF field files

---
 foxes/input/states/field_data_nc.py | 13 +++++++++++++
 foxes/input/states/multi_height.py  |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 80a1b8f..56a59ea 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -40,6 +40,19 @@ def _read_nc_file(
         if isel is not None and len(isel):
             data = data.isel(**isel)
         if sel is not None and len(sel):
+            sel = dict(sel)
+            for c, s in sel.items():
+                # ranges of descending coordinates:
+                if (
+                    isinstance(s, slice)
+                    and s.start is not None
+                    and s.stop is not None
+                    and s.start < s.stop
+                    and c in data.indexes
+                    and len(data.indexes[c]) > 1
+                    and data.indexes[c].is_monotonic_decreasing
+                ):
+                    sel[c] = slice(s.stop, s.start, s.step)
             data = data.sel(**sel)
         return data
 
diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index 6ebed7f..4dd65f5 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -422,9 +422,9 @@ class MultiHeightStates(States):
         coeffs = np.zeros((n_h, n_h), dtype=config.dtype_double)
         np.fill_diagonal(coeffs, 1.0)
         ipars = dict(
-            assume_sorted=True,
+            assume_sorted=False,
             bounds_error=True,
-            fill_value=(coeffs[0], coeffs[-1]),
+            fill_value=(coeffs[np.argmin(h)], coeffs[np.argmax(h)]),
         )
         ipars.update(self.ipars)
         intp = interp1d(h, coeffs, axis=0, **ipars)
-- 
2.43.0

