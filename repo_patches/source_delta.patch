From 2e1d5db60bfb206140d118d29fa82b7ff5d97074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 01/35] fix: keep the requested result index (it was always
 reset to 1)

attrs calls __attrs_post_init__ without arguments, so ResultIndex(n) always
ended up with index 1 and every run was stored in /analyses/MCResult1.
---
 src/mcsas3/mc_hdf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 19db19a..790c0a4 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -24,9 +24,6 @@ class ResultIndex(object):
         ],
     )
 
-    def __attrs_post_init__(self, resultIndex: int = 1):
-        self.resultIndex = resultIndex
-
     @property
     def nxsEntryPoint(self):
         return PurePosixPath(f"/analyses/MCResult{self.resultIndex}")
-- 
2.43.0


From 93723d261f7c2c3b1bf8bac13e5b3c889e315f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 02/35] fix: storing under an existing HDF5 key replaces the
 old value

require_dataset() returns an existing dataset of the same shape and dtype
without writing the new data, so the old array stayed in the file. Scalars
were cast to the type of the old value (2.5 became 2), and a dict kept the
entries of the previous one.
---
 src/mcsas3/mc_hdf.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 790c0a4..1f833e2 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -104,6 +104,9 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
     assert path is not None, "HDF5 path cannot be empty"
 
     if isinstance(value, (dict, pandas.DataFrame)):
+        with h5py.File(filename, "a") as h5f:
+            if str(path) in h5f:  # replace the previous value, do not leave stale entries behind
+                del h5f[str(path)]
         storeKVPairs(filename, path, value.items())
         return
 
@@ -119,22 +122,16 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             value = value.timestamp()
         if isinstance(value, (list, tuple)):
             value = np.array(value)
+        if value is not None and key in h5g:  # replace the previous value
+            del h5g[key]
         if isinstance(value, (np.ndarray, pandas.Series)):
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
 
-            try:
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-            except TypeError:
-                del h5g[key]
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
+            dset = h5g.create_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
 
         elif value is not None:
-            dset = h5g.get(key, None)
-            if dset is None:
-                dset = h5g.create_dataset(key, data=value)
-            else:
-                dset[()] = value
+            dset = h5g.create_dataset(key, data=value)
 
         if unit is not None:
             dset.attrs["unit"] = str(unit)
-- 
2.43.0


From bc5d321c270e77cc7519aa8e5056ec9f1d7c473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 03/35] fix: strings in a stored dict load as strings, not as
 bytes

---
 src/mcsas3/mc_hdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 1f833e2..b1d131f 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -69,6 +69,8 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
                     value.update({key: subDict})
                 else:
                     value.update({key: keyValue[()]})
+                    if isinstance(keyValue[()], bytes):
+                        value.update({key: keyValue[()].decode()})
                     if isinstance(keyValue[()], np.ndarray):
                         if isinstance(keyValue[()][0], bytes):
                             value.update({key: np.array([i.decode() for i in keyValue[()]])})
-- 
2.43.0


From 7280d3ee640b82970b19193933607a971f4c8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 04/35] fix: keep the restored data range and csv arguments
 after loading a state file

The constructor loaded the state first and then reset it to the defaults.
---
 src/mcsas3/mc_data_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index b0b32e9..e0dc245 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -24,7 +24,7 @@ class McData1D(McData):
         resultIndex: int = 1,
         **kwargs: dict,
     ) -> None:
-        super().__init__(loadFromFile=loadFromFile, resultIndex=resultIndex, **kwargs)
+        super().__init__(resultIndex=resultIndex, **kwargs)
         self.csvargs = {
             "sep": r"\s+",
             "header": None,
@@ -32,6 +32,8 @@ class McData1D(McData):
         }  # default for 1D, overwritten in subclass
         self.dataRange = [-np.inf, np.inf]  # min-max for data range to fit
         self.qNudge = 0  # nudge in case of misaligned centers. Applied to measData
+        if loadFromFile is not None:  # after setting the defaults: these must not replace the state
+            self.load(loadFromFile)
         self.processKwargs(**kwargs)  # redo kwargs in case the reset values have been updated
 
         # load from dataframe if provided
-- 
2.43.0


From b577168f854bdac3a2efdf0faab0e4610331ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 05/35] fix: restore qNudge and pathDict from a state file,
 accept empty csvargs

qNudge was stored but not loaded, so restored Q values lacked the offset.
An empty csvargs dict leaves no group in the file, loading it failed.
---
 src/mcsas3/mc_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 1be7217..ff64fd9 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -81,8 +81,10 @@ class McData:
             "IEmin": float,
             "binning": "str",
             "dataRange": None,  # not sure what this is.. array?
+            "pathDict": "dict",
             "csvargs": "dict",
             "loader": "str",
+            "qNudge": None,
             "omitQRanges": list,  # not sure if this works?
         }
     )
@@ -333,7 +335,7 @@ class McData:
             path = self.resultIndex.nxsEntryPoint / "mcdata"
         for key, datatype in self.loadKeys.items():
             value = loadKV(filename, path / key, datatype=datatype, default=None, dbg=True)
-            if key == "csvargs":
+            if key == "csvargs" and value is not None:
                 self.csvargs.update(value)
             else:
                 if value is not None:
-- 
2.43.0


From 49f5a0a3a7386b726ceea451f4c8fd5c2579e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 06/35] fix: omit only the datapoints within the omitted range

Dropping by index label also removed other datapoints with the same label,
e.g. in concatenated DataFrames.
---
 src/mcsas3/mc_data_1d.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index e0dc245..ee9691e 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -115,11 +115,10 @@ class McData1D(McData):
             assert (
                 len(omitQRange) == 2
             ), "each omitQRange must contain two elements: a minimum and maximum value"
-            # we drop the matches:
-            self.clippedData.drop(
-                self.clippedData.query(f"{omitQRange[0]} <= Q < {omitQRange[1]}").index,
-                inplace=True,
-            )
+            # we drop the matches (not by index label, labels need not be unique):
+            self.clippedData = self.clippedData.query(
+                f"not ({omitQRange[0]} <= Q < {omitQRange[1]})"
+            ).copy()
 
     def reBin(
         self, nbins: Optional[int] = None, IEmin: Optional[float] = None, QEMin: float = 0.01
-- 
2.43.0


From 130843dd3283602ebe476bb9e09b6b53529b7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 07/35] fix: rebinning lost the first datapoint to rounding,
 and data at a single Q

10**log10(qMin) can be larger than qMin, the first datapoint was then in no
bin. If all datapoints have the same Q, the last bin was empty.
---
 src/mcsas3/mc_data_1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index ee9691e..cdcf589 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -136,7 +136,7 @@ class McData1D(McData):
         qMax = self.clippedData.Q.dropna().max()
 
         # prepare bin edges:
-        binEdges = np.logspace(np.log10(qMin), np.log10(qMax), num=nbins + 1)
+        binEdges = np.geomspace(qMin, qMax, num=nbins + 1)
         binDat = pandas.DataFrame(
             data={
                 "Q": np.full(nbins, np.nan),  # mean Q
@@ -155,7 +155,9 @@ class McData1D(McData):
         )
 
         # add a little to the end to ensure the last datapoint is captured:
-        binEdges[-1] = binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2])
+        binEdges[-1] = max(
+            binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2]), np.nextafter(qMax, np.inf)
+        )
 
         # now do the binning per bin.
         for binN in range(len(binEdges) - 1):
-- 
2.43.0


From 61dd4af97d28b838a0862c1649fc254ec82ea8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 08/35] fix: use the supplied bounds, and valid default bounds
 for negative intensities

Supplied xBounds were ignored (and initialGuess failed). A negative mean
intensity gave a lower background bound above the upper one.
---
 src/mcsas3/osb.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mcsas3/osb.py b/src/mcsas3/osb.py
index 84afa8c..8b6a0a6 100644
--- a/src/mcsas3/osb.py
+++ b/src/mcsas3/osb.py
@@ -46,14 +46,10 @@ class optimizeScalingAndBackground(object):
         self.measDataI = measDataI
         self.measDataISigma = measDataISigma
         self.validate()
+        self.xBounds = xBounds
         if xBounds is None:
-            self.xBounds = [
-                [0, None],
-                [
-                    -self.measDataI[np.isfinite(self.measDataI)].mean(),
-                    self.measDataI[np.isfinite(self.measDataI)].mean(),
-                ],
-            ]
+            maxBackground = abs(self.measDataI[np.isfinite(self.measDataI)].mean())
+            self.xBounds = [[0, None], [-maxBackground, maxBackground]]
             # [self.measDataI[np.isfinite(self.measDataI)].min(),
             # self.measDataI[np.isfinite(self.measDataI)].max()]]
 
-- 
2.43.0


From 162a4ab7aaa310d691e783bb5ea00eb54a6c682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 09/35] fix: record the goodness-of-fit reached with an
 accepted pick, not the one before

---
 src/mcsas3/mc_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 1907d81..d693cce 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -204,10 +204,10 @@ class McCore:
         newGof = self.reEvaluate()  # 2 ms
         # if this is an improvement:
         if newGof < self._opt.gof:
-            # accept the move:
-            self.accept()  # 500 µs
-            # and store the new GOF as current:
+            # store the new GOF as current:
             self._opt.gof = newGof
+            # and accept the move, this records the GOF reached:
+            self.accept()  # 500 µs
         # increment step counter in either case:
         self._opt.step += 1
 
-- 
2.43.0


From f8299339e566504bfa5c1b313b49cf3716788b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 10/35] fix: do not change the loaded acceptance history

The loaded history is an array, += added the gof to each of its elements.
---
 src/mcsas3/mc_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index d693cce..1b35b83 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -96,8 +96,9 @@ class McCore:
         # store the initial background and scaling optimization as new initial guess:
         self._opt.x0 = self._opt.testX0
 
-        self._opt.acceptedSteps += [0]
-        self._opt.acceptedGofs += [self._opt.gof]
+        if loadFromFile is None:  # the loaded history includes this already
+            self._opt.acceptedSteps += [0]
+            self._opt.acceptedGofs += [self._opt.gof]
         return  # one of the following tests always fails for test data, what's the purpose?
         # the hope was to test that the previously stored optimization result still
         # gives the same answer for GOF and scaling/background
-- 
2.43.0


From 8663dc33ab5cc2da2aea1aeaceaadc32104ffb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 11/35] fix: python -m mcsas3 passes its arguments as dicts, it
 always failed with a list

---
 src/mcsas3/__main__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/mcsas3/__main__.py b/src/mcsas3/__main__.py
index 3ff3841..cd1a526 100644
--- a/src/mcsas3/__main__.py
+++ b/src/mcsas3/__main__.py
@@ -114,25 +114,23 @@ if __name__ == "__main__":
 
     adict = vars(args)
     # split arguments into two dictionaries, one for the optimizer and one for the histogrammer
-    adict_optimize = [
-        {
-            k: v
-            for k, v in adict.items()
-            if k
-            in [
-                "dataFile",
-                "resultFile",
-                "readConfigFile",
-                "runConfigFile",
-                "resultIndex",
-                "deleteIfExists",
-                "nThreads",
-            ]
-        }
-    ]
-    adict_histogram = [
-        {k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]}
-    ]
+    adict_optimize = {
+        k: v
+        for k, v in adict.items()
+        if k
+        in [
+            "dataFile",
+            "resultFile",
+            "readConfigFile",
+            "runConfigFile",
+            "resultIndex",
+            "deleteIfExists",
+            "nThreads",
+        ]
+    }
+    adict_histogram = {
+        k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]
+    }
     try:
         McSAS3_cli_optimize(**adict_optimize)
         McSAS3_cli_histogram(**adict_histogram)
-- 
2.43.0


From 130882692972e20ced92edc8b0313e81add004c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 12/35] fix: keep the last row and column of the valid 2D
 pixels

---
 src/mcsas3/mc_data_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index c1f4842..9d50128 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -103,11 +103,11 @@ class McData2D(McData):
         # find crop envelope:
         Q0Lim = (
             np.argwhere(withinLimits.sum(axis=1) > 0).min(),
-            np.argwhere(withinLimits.sum(axis=1) > 0).max(),
+            np.argwhere(withinLimits.sum(axis=1) > 0).max() + 1,
         )
         Q1Lim = (
             np.argwhere(withinLimits.sum(axis=0) > 0).min(),
-            np.argwhere(withinLimits.sum(axis=0) > 0).max(),
+            np.argwhere(withinLimits.sum(axis=0) > 0).max() + 1,
         )
         assert Q0Lim[0] < Q0Lim[1], "Could not determine valid crop limits for axis 0 (y)"
         assert Q1Lim[0] < Q1Lim[1], "Could not determine valid crop limits for axis 1 (x)"
-- 
2.43.0


From 48c884774f47a504099348c812e2eec14def4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 13/35] fix: 2D pixels outside the Q limits but within the crop
 envelope are not fitted

---
 src/mcsas3/mc_data_2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index 9d50128..7b721b9 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -123,7 +123,11 @@ class McData2D(McData):
         self.clippedData["kansas"] = self.clippedData["I2D"].shape
         # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
         bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
-        self.clippedData["invMask"] = bArr * np.invert(self.clippedData["mask2D"]).astype(bool)
+        self.clippedData["invMask"] = (
+            bArr
+            * np.invert(self.clippedData["mask2D"]).astype(bool)
+            * withinLimits[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
+        )
 
         self.clippedData["I"] = (self.clippedData["I2D"][self.clippedData["invMask"]]).flatten()
         self.clippedData["ISigma"] = (
-- 
2.43.0


From 79e2932e7d8468288c5f6c892bfcad3591592acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 14/35] fix: run() stores under the result index the McHat was
 set up with

Its default was index 1, which split a result over two entries.
---
 src/mcsas3/mc_hat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 864be0b..28ef1e4 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -93,9 +93,11 @@ class McHat:
                     np.pi / np.min(measData["Q"]),
                 ]
 
-    def run(self, measData: dict, filename: Path, resultIndex: int = 1) -> None:
+    def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
+        if resultIndex is None:
+            resultIndex = self.resultIndex.resultIndex
 
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
@@ -135,10 +137,12 @@ class McHat:
         filename: Path,
         repetition: int = 0,
         bufferStdIO: bool = False,
-        resultIndex: int = 1,
+        resultIndex: Optional[int] = None,
     ) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
+        if resultIndex is None:
+            resultIndex = self.resultIndex.resultIndex
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
-- 
2.43.0


From e41b3a7e17381bb6509e1b6cdcb70584fa031008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 15/35] fix: repetitions in parallel use different random
 numbers with a given seed

Each worker process seeded its own generator with the same value (default
12345), so that all repetitions gave the identical result.
---
 src/mcsas3/mc_hat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 28ef1e4..a88794f 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -149,7 +149,12 @@ class McHat:
         if self._opt is None:
             self._opt = McOpt(**self._optArgs)
         if self._model is None:
-            self._model = McModel(**self._modelArgs)
+            modelArgs = dict(self._modelArgs)
+            seed = modelArgs.get("seed", McModel.seed)
+            if isinstance(seed, (int, np.integer)):
+                # worker processes start without a model, they must not repeat each other's picks
+                modelArgs["seed"] = seed + repetition
+            self._model = McModel(**modelArgs)
 
         self._opt.repetition = repetition
         self._model.resetParameterSet()
-- 
2.43.0


From bf28c040e1ac5462e1e9d28ee295543c467be130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 16/35] fix: do not replace 'auto' limits in the dict of the
 caller

Reusing the same settings for the next dataset kept the limits of the first.
---
 src/mcsas3/mc_hat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index a88794f..1351492 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -71,6 +71,9 @@ class McHat:
             [(key, kwargs.pop(key)) for key in McModel.settables if key in kwargs]
         )
         self._modelArgs.update({"resultIndex": resultIndex})
+        if "fitParameterLimits" in self._modelArgs:
+            # own copy, 'auto' is replaced in here
+            self._modelArgs["fitParameterLimits"] = dict(self._modelArgs["fitParameterLimits"])
 
         for key, value in kwargs.items():
             assert key in self.storeKeys, "Key {} is not a valid option".format(key)
-- 
2.43.0


From 1715fbceaf5b77ef1053917d3a069f464fdb7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 17/35] fix: logarithmic histogram bins span exactly the
 requested range

Rounding in 10**log10(x) could leave out a value at the end of the range.
---
 src/mcsas3/mc_model_histogrammer.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_model_histogrammer.py b/src/mcsas3/mc_model_histogrammer.py
index d2ff95b..3aebc99 100644
--- a/src/mcsas3/mc_model_histogrammer.py
+++ b/src/mcsas3/mc_model_histogrammer.py
@@ -201,11 +201,7 @@ class McModelHistogrammer:
         if histRange.binScale == "linear":
             binEdges = np.linspace(histRange.rangeMin, histRange.rangeMax, histRange.nBin + 1)
         elif histRange.binScale == "log":
-            binEdges = np.logspace(
-                np.log10(histRange.rangeMin),
-                np.log10(histRange.rangeMax),
-                histRange.nBin + 1,
-            )
+            binEdges = np.geomspace(histRange.rangeMin, histRange.rangeMax, histRange.nBin + 1)
         elif histRange.binScale == "auto":
             assert isinstance(
                 parameterSet, pandas.DataFrame
-- 
2.43.0


From 639011c0d9ed1dc45195d3b7d42c6fc4f2499395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 18/35] fix: use picked scattering length densities in the
 internal sphere model

---
 src/mcsas3/mc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index db806c2..910f805 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -78,7 +78,7 @@ class mcsasSphereModel(object):
         Int = (
             V**2
             # * self.scale
-            * ((self.sld - self.sld_solvent) / 1e2)
+            * ((parDict.get("sld", self.sld) - parDict.get("sld_solvent", self.sld_solvent)) / 1e2)
             ** 2  # WARNING: CONVERSION FACTOR PRESENT (1e2) to convert from 1/A^2 to 1/nm^2!!!
             * F**2
         )
-- 
2.43.0


From d066f4ede0abc84db942a006a48f5a7be02bc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 19/35] fix: keep the automatic starting guess within supplied
 scaling bounds

---
 src/mcsas3/osb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcsas3/osb.py b/src/mcsas3/osb.py
index 8b6a0a6..dd4fc23 100644
--- a/src/mcsas3/osb.py
+++ b/src/mcsas3/osb.py
@@ -64,6 +64,7 @@ class optimizeScalingAndBackground(object):
             sc = 1.0  # auto-determination failed, but we need to stay within bounds
         # x0 = np.array([self.measDataI.mean() / optI.mean(), self.measDataI.min()])
         # sc = ((self.measDataI) / optI).mean()
+        sc = np.clip(sc, self.xBounds[0][0], self.xBounds[0][1])
         bgnd = np.clip(bgnd, self.xBounds[1][0], self.xBounds[1][1])
         return np.array([sc, bgnd])
 
-- 
2.43.0


From 948eebf57de4ad07f83ebefe551a0e313264fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 20/35] fix: internal models do not share their parameter
 defaults between instances

---
 src/mcsas3/mc_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 910f805..ae58b1a 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -23,7 +23,8 @@ class sphereParameters(object):
     }
 
     def __init__(self) -> None:
-        pass
+        # not the dict shared by all instances, it is updated with the static parameters later
+        self.defaults = dict(self.defaults)
 
 
 # ibid.
@@ -32,7 +33,7 @@ class sphereInfo(object):
     parameters = sphereParameters()
 
     def __init__(self) -> None:
-        pass
+        self.parameters = sphereParameters()
 
 
 class mcsasSphereModel(object):
@@ -98,7 +99,8 @@ class simParameters(object):
     }
 
     def __init__(self):
-        pass
+        # not the dict shared by all instances, it is updated with the static parameters later
+        self.defaults = dict(self.defaults)
 
 
 # ibid.
@@ -107,7 +109,7 @@ class simInfo(object):
     parameters = simParameters()
 
     def __init__(self):
-        pass
+        self.parameters = simParameters()
 
 
 # ibid.
-- 
2.43.0


From 5ccf38bb90fe7858bcce5f60677ea5defd084c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 21/35] fix: do not add simDataQ1 to the static parameters dict
 of the caller

---
 src/mcsas3/mc_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index ae58b1a..520147e 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -538,7 +538,8 @@ class McModel:
     def loadSimModel(self) -> None:
         if "simDataQ1" not in self.staticParameters.keys():
             # if it was None when written, it might not exist when loading
-            self.staticParameters.update({"simDataQ1": None})
+            # (a copy, the dict belongs to the caller)
+            self.staticParameters = dict(self.staticParameters, simDataQ1=None)
 
         self.func = McSimPseudoModel(
             extrapY0=self.staticParameters["extrapY0"],
-- 
2.43.0


From e2643b8ae1fb0af55610a52cda4a9a9e5e1aa104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 22/35] fix: leave NaN pixels of 2D data out of the fit, like
 infinite ones

---
 src/mcsas3/mc_data_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index 7b721b9..562770a 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -121,8 +121,8 @@ class McData2D(McData):
         self.clippedData["Q1Crop2D"] = Q1[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
 
         self.clippedData["kansas"] = self.clippedData["I2D"].shape
-        # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
-        bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
+        # remove non-finite intensities and zero-uncertainty datapoints as well (add to mask):
+        bArr = np.isfinite(self.clippedData["I2D"]) & (self.clippedData["ISigma2D"] != 0)
         self.clippedData["invMask"] = (
             bArr
             * np.invert(self.clippedData["mask2D"]).astype(bool)
-- 
2.43.0


From d41c58c88914af843a3f9c0751042edd08a1fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 23/35] fix: with -d, keep the data file also if given by
 another path than the result file

---
 src/mcsas3/cli_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 430e413..97be29f 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -41,7 +41,7 @@ class McSAS3_cli_optimize(object):
         if self.resultFile.is_file():
             # only remove result file if it is not the main file!
             # This way, you can add McSAS to an existing nexus file
-            if (self.resultFile != self.dataFile) & (self.deleteIfExists):
+            if self.deleteIfExists and not self.resultFile.samefile(self.dataFile):
                 self.resultFile.unlink()
         # read the configuration file
         with open(self.readConfigFile, "r") as f:
-- 
2.43.0


From e0510f61b3c304edc7cfba8bd7a99111ea970a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 24/35] fix: store tables with text columns (pandas string
 type)

---
 src/mcsas3/mc_hdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index b1d131f..093646c 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -124,6 +124,8 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             value = value.timestamp()
         if isinstance(value, (list, tuple)):
             value = np.array(value)
+        if isinstance(value, pandas.Series):  # its string type is unknown to HDF5
+            value = value.to_numpy()
         if value is not None and key in h5g:  # replace the previous value
             del h5g[key]
         if isinstance(value, (np.ndarray, pandas.Series)):
-- 
2.43.0


From 0d923872aa0cb53fc0729ffb2447dc8808dd3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 25/35] fix: read dictionaries with empty arrays from a result
 file

---
 src/mcsas3/mc_hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 093646c..bb82dee 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -72,7 +72,7 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
                     if isinstance(keyValue[()], bytes):
                         value.update({key: keyValue[()].decode()})
                     if isinstance(keyValue[()], np.ndarray):
-                        if isinstance(keyValue[()][0], bytes):
+                        if keyValue.size > 0 and isinstance(keyValue[()][0], bytes):
                             value.update({key: np.array([i.decode() for i in keyValue[()]])})
 
     if datatype == "dictToPandas":
-- 
2.43.0


From 33a96859b8123b9358f48156ecaf234662764966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 26/35] fix: decode texts in nested dictionaries of a result
 file

---
 src/mcsas3/mc_hdf.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index bb82dee..91587ad 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -38,6 +38,22 @@ def loadKVPairs(filename: Path, path: PurePosixPath, keys: Iterable) -> Iterable
             yield key, h5f[str(path / key)][()]
 
 
+def loadDict(group: h5py.Group) -> dict:
+    """Load the entries of a group, with text decoded, and its subgroups as dicts"""
+    value = {}
+    for key, keyValue in group.items():
+        if isinstance(keyValue, h5py.Group):
+            value.update({key: loadDict(keyValue)})
+        else:
+            value.update({key: keyValue[()]})
+            if isinstance(keyValue[()], bytes):
+                value.update({key: keyValue[()].decode()})
+            if isinstance(keyValue[()], np.ndarray):
+                if keyValue.size > 0 and isinstance(keyValue[()][0], bytes):
+                    value.update({key: np.array([i.decode() for i in keyValue[()]])})
+    return value
+
+
 def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg=False):
     """Load a single key-value pair from HDF5 file"""
     path = str(path)
@@ -59,21 +75,8 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
             value = datatype(value)
 
     elif datatype in ("dict", "dictToPandas"):
-        value = {}
         with h5py.File(filename, "r") as h5f:
-            for key, keyValue in h5f[path].items():
-                if isinstance(keyValue, h5py.Group):
-                    subDict = {}
-                    for gkey, gValue in keyValue.items():
-                        subDict.update({gkey: gValue[()]})
-                    value.update({key: subDict})
-                else:
-                    value.update({key: keyValue[()]})
-                    if isinstance(keyValue[()], bytes):
-                        value.update({key: keyValue[()].decode()})
-                    if isinstance(keyValue[()], np.ndarray):
-                        if keyValue.size > 0 and isinstance(keyValue[()][0], bytes):
-                            value.update({key: np.array([i.decode() for i in keyValue[()]])})
+            value = loadDict(h5f[path])
 
     if datatype == "dictToPandas":
         cols, idx, vals = (
-- 
2.43.0


From d6bd50270abff7ab637c6619faddbcc68cad8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 27/35] fix: read texts with datatype=str

---
 src/mcsas3/mc_hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 91587ad..4e32323 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -66,7 +66,7 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
     if datatype is None or datatype == "str" or inspect.isclass(datatype):
         with h5py.File(filename, "r") as h5f:
             value = h5f[path][()]
-        if (datatype == "str" or datatype == Path) and not isinstance(value, str):
+        if datatype in ("str", str, Path) and not isinstance(value, str):
             if isinstance(value, (bytes, bytearray)):
                 value = value.decode()
             else:
-- 
2.43.0


From 75d9afca8cc05d04c630ee3a753cb92f265aee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 28/35] fix: store an empty dictionary as such, so it reads
 back as one

---
 src/mcsas3/mc_hdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 4e32323..745dfee 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -112,6 +112,7 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
         with h5py.File(filename, "a") as h5f:
             if str(path) in h5f:  # replace the previous value, do not leave stale entries behind
                 del h5f[str(path)]
+            h5f.require_group(str(path))  # an empty dict is one, too
         storeKVPairs(filename, path, value.items())
         return
 
-- 
2.43.0


From ec5c17156e834e6e96c6579102b25903677f7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 29/35] fix: replace the limits and static parameters of an
 earlier model in the file

---
 src/mcsas3/mc_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 520147e..9510e50 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -484,8 +484,8 @@ class McModel:
         assert filename is not None
 
         path = self.resultIndex.nxsEntryPoint / "model"
-        storeKVPairs(filename, path / "fitParameterLimits", self.fitParameterLimits.items())
-        storeKVPairs(filename, path / "staticParameters", self.staticParameters.items())
+        storeKV(filename, path / "fitParameterLimits", self.fitParameterLimits)
+        storeKV(filename, path / "staticParameters", self.staticParameters)
         storeKV(filename, path=path / "modelName", value=str(self.modelName))  # store modelName
 
         psDict = self.parameterSet.copy().to_dict(orient="split")
-- 
2.43.0


From 8f7d1ac98b7de7bfe09c905cee4bada1e8731c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 30/35] fix: leave no settings of an earlier dataset behind
 when storing a dataset

---
 src/mcsas3/mc_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index ff64fd9..92b1e43 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -9,7 +9,7 @@ import h5py
 import numpy as np
 import pandas
 
-from mcsas3.mc_hdf import ResultIndex, loadKV, storeKVPairs
+from mcsas3.mc_hdf import ResultIndex, loadKV, storeKV
 
 # todo use attrs to @define a McData dataclass
 
@@ -326,8 +326,8 @@ class McData:
         pairs = [(key, getattr(self, key, None)) for key in self.storeKeys]
         if pairs is None:
             print("I don't understand, there's supposed to be a list of pairs here.. ")
-        if pairs is not None:
-            storeKVPairs(filename=filename, path=path, pairs=pairs)
+        if pairs is not None:  # as a dict: leaves nothing behind of an earlier dataset
+            storeKV(filename=filename, path=path, value=dict(pairs))
 
     def load(self, filename: Path, path: Optional[PurePosixPath] = None) -> None:
         # this loads the data from a prior McSAS run.
-- 
2.43.0


From 4ae66828dff2dcace4b8c032d95adab62ea018be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 31/35] fix: restore the csv arguments as stored, without the
 default ones

---
 src/mcsas3/mc_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 92b1e43..4a13ec8 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -326,6 +326,9 @@ class McData:
         pairs = [(key, getattr(self, key, None)) for key in self.storeKeys]
         if pairs is None:
             print("I don't understand, there's supposed to be a list of pairs here.. ")
+        if self.csvargs is not None:  # here, None is a value as well, and not left out
+            csvargs = {k: h5py.Empty("f") if v is None else v for k, v in self.csvargs.items()}
+            pairs += [("csvargs", csvargs)]
         if pairs is not None:  # as a dict: leaves nothing behind of an earlier dataset
             storeKV(filename=filename, path=path, value=dict(pairs))
 
@@ -336,7 +339,9 @@ class McData:
         for key, datatype in self.loadKeys.items():
             value = loadKV(filename, path / key, datatype=datatype, default=None, dbg=True)
             if key == "csvargs" and value is not None:
-                self.csvargs.update(value)
+                self.csvargs = {  # as stored, without any of the defaults
+                    k: None if isinstance(v, h5py.Empty) else v for k, v in value.items()
+                }
             else:
                 if value is not None:
                     setattr(self, key, value)
-- 
2.43.0


From c6367ecdc14e83b1cc1e01c7020402b9e15bbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 32/35] fix: leave no seed of an earlier repetition behind when
 storing one without a seed

---
 src/mcsas3/mc_model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 9510e50..cdd60a6 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -8,7 +8,7 @@ import sasmodels.core
 import sasmodels.direct_model
 from scipy import interpolate
 
-from mcsas3.mc_hdf import ResultIndex, loadKV, storeKV, storeKVPairs
+from mcsas3.mc_hdf import ResultIndex, loadKV, storeKV
 
 
 # TODO: perhaps better defined as a dataclass with attrs
@@ -489,11 +489,16 @@ class McModel:
         storeKV(filename, path=path / "modelName", value=str(self.modelName))  # store modelName
 
         psDict = self.parameterSet.copy().to_dict(orient="split")
-        storeKVPairs(filename, path / f"repetition{repetition}" / "parameterSet", psDict.items())
-        storeKVPairs(
+        # as a dict: leaves nothing behind of an earlier repetition of this number
+        storeKV(
             filename,
             path / f"repetition{repetition}",
-            [("seed", self.seed), ("volumes", self.volumes), ("modelDType", self.modelDType)],
+            dict(
+                parameterSet=psDict,
+                seed=self.seed,
+                volumes=self.volumes,
+                modelDType=self.modelDType,
+            ),
         )
 
     # SasView SasModel helper functions:
-- 
2.43.0


From 008fd64d068154a6ede33ce7cd0c9a353d120ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 33/35] fix: continue the acceptance history of a loaded
 repetition instead of altering it

---
 src/mcsas3/mc_opt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_opt.py b/src/mcsas3/mc_opt.py
index 31c3cdd..6d9058f 100644
--- a/src/mcsas3/mc_opt.py
+++ b/src/mcsas3/mc_opt.py
@@ -111,4 +111,6 @@ class McOpt:
         if path is None:
             path = self.resultIndex.nxsEntryPoint / "optimization" / f"repetition{repetition}"
         for key, value in loadKVPairs(filename, path, self.loadKeys):
+            if key in ("acceptedSteps", "acceptedGofs"):
+                value = list(value)  # to be appended to if the optimization is continued
             setattr(self, key, value)
-- 
2.43.0


From edf6dcbb2b29df157e754a10fbd1e0c7d15cbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 34/35] fix: store all of a run under the result index given
 for the run

---
 src/mcsas3/mc_hat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 1351492..5a9589a 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -159,6 +159,8 @@ class McHat:
                 modelArgs["seed"] = seed + repetition
             self._model = McModel(**modelArgs)
 
+        # all of it belongs to this result, also if the instances were made for another one
+        self._opt.resultIndex = self._model.resultIndex = ResultIndex(resultIndex)
         self._opt.repetition = repetition
         self._model.resetParameterSet()
         mc = McCore(measData, model=self._model, opt=self._opt, resultIndex=resultIndex)
@@ -177,7 +179,7 @@ class McHat:
             STORE_LOCK.acquire()
         try:
             mc.store(filename=filename)
-            self.store(filename=filename)
+            self.store(filename, ResultIndex(resultIndex).nxsEntryPoint / "optimization")
         except Exception as e:
             print(f"{mc}: {e}: {str(e)}\n")
         finally:
-- 
2.43.0


From c6fea7653fef16f4a884c5a09f8553aa83ede974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 35/35] fix: 2-D NeXus data whose vanishing Q component is not
 the last one could not be read

---
 src/mcsas3/mc_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 4a13ec8..66591d4 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -281,9 +281,9 @@ class McData:
             QxyIndices = np.argwhere(
                 [self.rawData["Q"][i, :, :].any() for i in range(self.rawData["Q"].shape[0])]
             )
-            self.rawData["Q"] = self.rawData["Q"][QxyIndices, :, :].squeeze()
             self.rawData["Qx"] = self.rawData["Q"][QxyIndices[1], :, :].squeeze()
             self.rawData["Qy"] = self.rawData["Q"][QxyIndices[0], :, :].squeeze()
+            self.rawData["Q"] = self.rawData["Q"][QxyIndices, :, :].squeeze()
             self.rawData2D = self.rawData.copy()  # intermediate storage of original data
             # but we also need to prepare a Pandas-compatible list-format data
             del self.rawData["Q"]
-- 
2.43.0

