From d864bd2c038dba7e1fe5e97d42d127a58dded651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 01/29] fix: SP3 cells without a record are NaN instead of
 uninitialised memory

---
 src/georinex/sp3.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..f2da272 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,9 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
+        # NaN where the file has no record (velocity and clock rate are optional)
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+        vel = np.full((Nsv, 3), np.nan)
         i = 0
 
         times = [sp3dt(ln)]
@@ -77,11 +78,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)
+                vel = np.full((Nsv, 3), np.nan)
 
                 i = 0
                 continue
-- 
2.43.0


From 4673f47fa227a809e86dc3ceb219754f6813b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 02/29] fix: SP3 records are filed under the satellite they
 name, not by position

---
 src/georinex/sp3.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index f2da272..a1f605a 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -67,7 +67,7 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecef = np.full((Nsv, 3), np.nan)
         clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
         vel = np.full((Nsv, 3), np.nan)
-        i = 0
+        isv = {sv: i for i, sv in enumerate(svs)}
 
         times = [sp3dt(ln)]
 
@@ -81,17 +81,20 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 ecef = np.full((Nsv, 3), np.nan)
                 clock = np.full((Nsv, 2), np.nan)
                 vel = np.full((Nsv, 3), np.nan)
-
-                i = 0
                 continue
 
+            if ln[0] in ("P", "V"):
+                i = isv.get(ln[1:4].replace(" ", ""))
+                if i is None:
+                    logging.info(f"satellite not listed in header {ln}")
+                    continue
+
             if ln[0] == "P":
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From 0ed43e495e51a72fbf3cf7cae3a726a57d51546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 03/29] fix: SP3 output respects overwrite instead of
 destroying an existing file

---
 src/georinex/base.py | 2 +-
 src/georinex/sp3.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..dcfc89a 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -80,7 +80,7 @@ def load(
     assert isinstance(rinexfn, Path)
 
     if info["rinextype"] == "sp3":
-        return load_sp3(rinexfn, outfn)
+        return load_sp3(rinexfn, outfn, overwrite=overwrite)
     elif rinexfn.suffix == ".nc":
         # outfn not used here, because we already have the converted file!
         try:
diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index a1f605a..624bb33 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -19,7 +19,7 @@ ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
 __all__ = ["load_sp3"]
 
 
-def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
+def load_sp3(fn: Path, outfn: Path | None, *, overwrite: bool = False) -> xarray.Dataset:
     """
     The basic format is a position and clock record;
     a second, optional, record contains velocities and clock rates-of-change.
@@ -128,6 +128,8 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
 
     if outfn:
         outfn = Path(outfn).expanduser()
+        if outfn.is_file() and not overwrite:
+            raise ValueError(f"{outfn} already exists")
         enc = {k: ENC for k in ds.data_vars}
         ds.to_netcdf(outfn, mode="w", encoding=enc, format="NETCDF4")
 
-- 
2.43.0


From 6ed9febc8b9b5baf5125a692fdd011690a86d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 04/29] fix: NetCDF files opened to look at them are closed
 again

---
 src/georinex/base.py | 9 ++++-----
 src/georinex/geo.py  | 4 ++--
 src/georinex/rio.py  | 6 +++---
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index dcfc89a..99bca81 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -94,7 +94,7 @@ def load(
             obs = None
 
         if nav is not None and obs is not None:
-            return {"nav": nav, "obs": rinexobs(rinexfn)}
+            return {"nav": nav, "obs": obs}
         elif nav is not None:
             return nav
         elif obs is not None:
@@ -258,9 +258,8 @@ def _groupexists(fn: Path, group: str, overwrite: bool) -> str:
 
     # be sure there isn't already NAV in it
     try:
-        xarray.open_dataset(fn, group=group)
-        raise ValueError(f"{group} already in {fn}")
+        xarray.open_dataset(fn, group=group).close()
     except OSError:
-        pass
+        return "a"
 
-    return "a"
+    raise ValueError(f"{group} already in {fn}")
diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..36d5066 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -29,8 +29,8 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     hdr: dict[T.Hashable, T.Any]
     for file in files:
         if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
-            hdr = dat.attrs
+            with xarray.open_dataset(file, group="OBS") as dat:
+                hdr = dat.attrs
         else:
             try:
                 hdr = rinexheader(file)
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..da53a13 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -148,11 +148,11 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
             for g in ("OBS", "NAV"):
                 try:
-                    dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
+                    with xarray.open_dataset(fn, group=g) as dat:
+                        attrs["rinextype"].append(g.lower())
+                        attrs.update(dat.attrs)
                 except OSError:
                     continue
-                attrs.update(dat.attrs)
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From f191100968e80e7f1cea06bfeb648b469cdd5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 05/29] fix: batch_convert carries on after any error of one
 file

---
 src/georinex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 99bca81..6619f81 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -133,7 +133,8 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
+        except Exception as e:
+            # whatever is wrong with this file, carry on with the others
             logging.error(f"{fn.name}: {e}")
 
 
-- 
2.43.0


From b0a7e9a0be21c38289a185e5f36702b40f20fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 06/29] fix: unrecognised text is refused with ValueError
 whatever stream it comes in

---
 src/georinex/rio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index da53a13..6910fda 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -133,7 +133,9 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(
+            f"could not find first valid header line in {getattr(f, 'name', type(f).__name__)}"
+        )
 
     return line
 
@@ -194,7 +196,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From 1b454174795e5d53cd4d69bb4b2a9dea6dc01e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 07/29] fix: unsupported RINEX 2 NAV type is refused with the
 intended error

---
 src/georinex/nav2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..d5536fb 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -121,7 +121,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
                 "TransTime",
             ]
         else:
-            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["sys"]}  {fn}')
+            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["filetype"]}  {fn}')
         # %% loop over times
         for ln in f:
             # %% read Epoch / ToC (Time of Clock)
-- 
2.43.0


From 5d96458e0c0ff41a163054b267fd38b324ea7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 08/29] fix: OBS 3 number of satellites is read from its full
 I3 field

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..0d536ea 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -98,7 +98,7 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
                 raw += ln[3:]
-- 
2.43.0


From ebe553df47e6799b25b73b1813530f4bbf221a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 09/29] fix: RINEX 3 event records are no observations and do
 not end the reading

---
 src/georinex/obs3.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 0d536ea..2388540 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -84,6 +84,11 @@ def rinexobs3(
             if not ln.startswith(">"):  # end of file
                 break
 
+            if _isevent(ln):  # special event, header lines may follow: no observations
+                for _, _ in zip(range(int(ln[32:35].strip() or 0)), f):
+                    pass
+                continue
+
             try:
                 time = _timeobs(ln)
             except ValueError:  # garbage between header and RINEX data
@@ -183,6 +188,11 @@ def _timeobs(ln: str) -> datetime:
     )
 
 
+def _isevent(ln: str) -> bool:
+    """is this epoch line a special event (moving antenna, new site, header information), pg. A13"""
+    return ln[31:32] in {"2", "3", "4"}
+
+
 def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     """
     return all times in RINEX file
@@ -192,7 +202,7 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
 
     with opener(fn) as f:
         for ln in f:
-            if ln.startswith("> "):
+            if ln.startswith("> ") and not _isevent(ln):
                 try:
                     times.append(_timeobs(ln))
                 except (ValueError, IndexError):
-- 
2.43.0


From fc8c4bef93843b203c165819f48b33aed83c7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 10/29] fix: OBS 3 receiver clock offsets are those of the
 epochs that are kept

---
 src/georinex/obs3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 2388540..147378b 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -95,10 +95,7 @@ def rinexobs3(
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            offset = ln[41:56]  # receiver clock offset
             # %% get SV indices
             sv = []
             raw = ""
@@ -123,6 +120,11 @@ def rinexobs3(
                     else:
                         last_epoch += interval
 
+            try:
+                time_offset.append(float(offset))
+            except ValueError:
+                pass
+
             if verbose:
                 print(time, end="\r")
 
-- 
2.43.0


From c7fb7081b6efd214f5afdc8df633604447d35105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 11/29] fix: repeated or incomplete receiver position does not
 stop the reading

---
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..5d71162 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -400,8 +400,8 @@ def obsheader2(
     hdr["Nl_sv"] = ceil(hdr["Nobs"] / 5)
     # %% list with receiver location in x,y,z cartesian ECEF (OPTIONAL)
     try:
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()]
-        if ecef2geodetic is not None:
+        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
+        if ecef2geodetic is not None and len(hdr["position"]) == 3:
             hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
     except (KeyError, ValueError):
         pass
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 147378b..2378a93 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -156,7 +156,7 @@ def rinexobs3(
 
     if "position" in hdr.keys():
         data.attrs["position"] = hdr["position"]
-        if ecef2geodetic is not None:
+        if "position_geodetic" in hdr.keys():
             data.attrs["position_geodetic"] = hdr["position_geodetic"]
 
     if time_offset:
-- 
2.43.0


From ce519ad2e5d25517a1f2e7324f69427b70229726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 12/29] fix: OBS 3 satellite without any value does not shift
 the others' values

---
 src/georinex/obs3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 2378a93..bfed527 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -103,7 +103,8 @@ def rinexobs3(
             for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
-                raw += ln[3:]
+                # NumPy drops an empty line, so a satellite without data keeps a blank
+                raw += f"{ln[3:].rstrip():1s}\n"
 
             if tlim is not None:
                 if time < tlim[0]:
-- 
2.43.0


From f7d2f14e2572f240598d5ea740fb238cd9cef010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 13/29] fix: result order does not depend on the hash seed

---
 src/georinex/nav3.py | 2 +-
 src/georinex/obs2.py | 2 +-
 src/georinex/obs3.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..fb978be 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -84,7 +84,7 @@ def rinexnav3(
     t = np.array([np.datetime64(t, "ns") for t in times])
     nav = xarray.Dataset({}, coords={"time": [], "sv": []})
 
-    for sv in set(svs):
+    for sv in sorted(set(svs)):
         svi = np.array([i for i, s in enumerate(svs) if s == sv])
 
         check = np.array([True] * t[svi].size)
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 5d71162..4335e5c 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -41,7 +41,7 @@ def rinexobs2(
         {}, coords={"time": np.array([], dtype="datetime64[ns]"), "sv": np.array([], dtype="<U3")}
     )
     attrs: dict[T.Hashable, T.Any] = {}
-    for u in use:
+    for u in sorted(use):
         o = rinexsystem2(
             fn,
             system=u,
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index bfed527..97be6ef 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -364,7 +364,7 @@ def obsheader3(
         if not set(fields.keys()).intersection(use):
             raise KeyError(f"system type {use} not found in RINEX file")
 
-        fields = {k: fields[k] for k in use if k in fields}
+        fields = {k: v for k, v in fields.items() if k in use}
 
     # perhaps this could be done more efficiently, but it's probably low impact on overall program.
     # simple set and frozenset operations do NOT preserve order, which would completely mess up reading!
@@ -379,7 +379,7 @@ def obsheader3(
                         ind[i] = True
 
             fields[sk] = np.array(fields[sk])[ind].tolist()
-            sysind[sk] = np.empty(Fmax * 3, dtype=bool)  # *3 due to LLI, SSI
+            sysind[sk] = np.zeros(Fmax * 3, dtype=bool)  # *3 due to LLI, SSI
             for j, i in enumerate(ind):
                 sysind[sk][j * 3 : j * 3 + 3] = i
     else:
-- 
2.43.0


From 587050b223fe0617c400f9281c0ed71022179906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 14/29] fix: strict OBS 2 reading with an interval labels
 values with their own time

---
 src/georinex/obs2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 4335e5c..dd43e17 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -176,6 +176,8 @@ def rinexsystem2(
                     raise IndexError(
                         f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
                     )
+            elif interval is not None:
+                times[j] = time_epoch  # not every time of the file is kept
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
-- 
2.43.0


From fc243a737b03f7f8749bb5cf1e18516766df59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 15/29] fix: truncated OBS 2 epoch line is rejected as any
 other garbage line

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index dd43e17..4eeadad 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -593,7 +593,7 @@ def _timeobs(ln: str) -> datetime:
         microsecond=usec,
     )
     # %% check if valid time
-    eflag = int(ln[28])
+    eflag = int(ln[28:29])
     if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
         raise ValueError(f"{t}: epoch flag {eflag}")
 
-- 
2.43.0


From e130747184b0112ac77006b02a9fcfb352d91f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 16/29] fix: indicators are returned for every observable that
 has them

---
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 4eeadad..ddba32e 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -260,8 +260,8 @@ def rinexsystem2(
     for field in hdr["fields"]:
         fields.append(field)
         if useindicators:
-            if field not in {"S1", "S2", "S5"}:
-                if field in {"L1", "L2", "L5"}:
+            if not field.startswith("S"):
+                if field.startswith("L"):
                     fields.append(f"{field}lli")
                 else:
                     fields.append(None)
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 97be6ef..cf16fe3 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -273,7 +273,7 @@ def _indicators(d: dict, k: str, arr: np.ndarray) -> dict[str, tuple]:
     """
     handle LLI (loss of lock) and SSI (signal strength)
     """
-    if k.startswith(("L1", "L2")):
+    if k.startswith("L"):
         d[k + "lli"] = (("time", "sv"), np.atleast_2d(arr[:, 0]))
 
     d[k + "ssi"] = (("time", "sv"), np.atleast_2d(arr[:, 1]))
-- 
2.43.0


From 93814210349a81873bfb37900d1bd41de8a96b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 17/29] fix: OBS time system of SBAS and blank system files

---
 src/georinex/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..19527b5 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -52,7 +52,7 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in ("G", "S", " "):  # SBAS is aligned to GPS, blank means GPS
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
-- 
2.43.0


From 13f8cefbc2ce9ae6713a660ea1e09665a2d78b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 18/29] fix: text is decoded alike whatever the compression

---
 src/georinex/rio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 6910fda..64a2ff7 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -90,7 +90,8 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                text = unlzw(zu.read()).decode("ascii", errors="ignore")
+                with io.StringIO(text, newline=None) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From fc9caa23623f96eb6b8bffb6b35dffa4b4d8d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 19/29] fix: zip archives hold one file, which may be Hatanaka
 compressed

---
 src/georinex/rio.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 64a2ff7..93018b8 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -78,13 +78,20 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 yield f
         elif suffix == ".zip" or magic.startswith(b"\x50\x4b"):
             with zipfile.ZipFile(fn, "r") as z:
-                flist = z.namelist()
-                for rinexfn in flist:
-                    with z.open(rinexfn, "r") as bf:
-                        f = io.StringIO(
-                            io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
-                        )
-                        yield f
+                flist = [n for n in z.namelist() if not n.endswith("/")]
+                if len(flist) != 1:
+                    raise ValueError(f"expected one file in {fn.name}, found {len(flist)}")
+
+                with z.open(flist[0], "r") as bf:
+                    f = io.StringIO(
+                        io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
+                    )
+                    _, is_crinex = rinex_version(first_nonblank_line(f))
+                    f.seek(0)
+
+                    if is_crinex and not header:
+                        f = io.StringIO(crx2rnx(f.read()))
+                    yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
                 raise ImportError("ncompress unlzw not available")
-- 
2.43.0


From a07c3dcab1173ec7d314c7aea4eda0d4a3283abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 20/29] fix: missing optional packages are reported as such

---
 src/georinex/plots.py     | 1 +
 src/georinex/plots_geo.py | 3 +++
 src/georinex/rio.py       | 5 ++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 3444f6e..ca34cb7 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -6,6 +6,7 @@ try:
     from .plots_geo import navtimeseries
 except ImportError as e:
     logging.info(e)
+    navtimeseries = None
 
 
 def timeseries(data):
diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 32f5f6f..2aa2a98 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -22,6 +22,9 @@ def navtimeseries(nav: xarray.Dataset):
     if not isinstance(nav, xarray.Dataset):
         return
 
+    if pm is None:
+        raise ImportError("pymap3d is needed to plot satellite positions")
+
     svs = nav.sv.values
 
     if cartopy is not None:
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 93018b8..d814684 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -14,7 +14,10 @@ try:
     from hatanaka import crx2rnx
 except ImportError:
     logging.info("hatanaka crx2rnx not available")
-    crx2rnx = None
+
+    def crx2rnx(crinex):
+        raise ImportError("hatanaka crx2rnx not available, needed for CRINEX files")
+
 
 try:
     from ncompress import decompress as unlzw
-- 
2.43.0


From 21bd51aeb0588d8a4b25337ccc96e83977d4ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 21/29] fix: satellite positions of data selected from a file,
 and of GLONASS and SBAS

---
 src/georinex/keplerian.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..21144c4 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -22,7 +22,10 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    # a mixed file's first system type is not necessarily this satellite's
+    svtype = str(np.atleast_1d(sv["sv"].values)[0])[0] if "sv" in sv else sv.svtype[0]
+
+    if svtype in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
@@ -38,13 +41,13 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
+    if svtype == "E":
         weeks = sv["GALWeek"].values - 1024
         # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {svtype}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
-- 
2.43.0


From 1e9b2ae618ca8caaad4d847d3a000e33e62e81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 22/29] fix: OBS 2 observable count mismatch is logged for
 streams without a name too

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index ddba32e..9f95aa2 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -412,7 +412,7 @@ def obsheader2(
         hdr["fields"] = hdr["# / TYPES OF OBSERV"]
         if hdr["Nobs"] != len(hdr["fields"]):
             logging.error(
-                f"{f.name} number of observations declared in header does not match fields"
+                f"{hdr['Nobs']} observations declared in header do not match fields"
             )
             hdr["Nobs"] = len(hdr["fields"])
 
-- 
2.43.0


From 2869ea94f5d102acb0d878d6ab590fa9ddaea245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 23/29] fix: RINEX 2 OBS file with a blank system letter is a
 GPS file

---
 src/georinex/obs2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 9f95aa2..98d7b19 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -111,7 +111,8 @@ def rinexsystem2(
 
     hdr = obsheader2(fn, useindicators, meas)
 
-    if hdr["systems"] != "M" and system != hdr["systems"]:
+    # blank means GPS
+    if hdr["systems"] != "M" and system != hdr["systems"].replace(" ", "G"):
         logging.debug(f"system {system} in {fn} was not present")
         return xarray.Dataset({})
     # %% preallocate
-- 
2.43.0


From 48646310171e43af3e0ed9a1a0f422372ef658e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 24/29] fix: clock files are not read as OBS files

---
 src/georinex/rio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index d814684..874fa9e 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -193,7 +193,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         else:
             system = line[40]
 
-        if line[20] in ("O", "C"):
+        # "C" alone is a clock file
+        if line[20] == "O" or line[20:40] == "COMPACT RINEX FORMAT":
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
             rinex_type = "nav"
-- 
2.43.0


From 751dc1392be79cbc43a831ba3ada93279ec5dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 25/29] fix: SP3 streams load, other unknown streams are
 refused with ValueError

---
 src/georinex/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 6619f81..a6d4456 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -77,11 +77,9 @@ def load(
             interval=interval,
         )
 
-    assert isinstance(rinexfn, Path)
-
     if info["rinextype"] == "sp3":
         return load_sp3(rinexfn, outfn, overwrite=overwrite)
-    elif rinexfn.suffix == ".nc":
+    elif isinstance(rinexfn, Path) and rinexfn.suffix == ".nc":
         # outfn not used here, because we already have the converted file!
         try:
             nav = rinexnav(rinexfn)
-- 
2.43.0


From aa25fa13a88e39483278435525be32f3d5ef1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 26/29] fix: a NetCDF file holding both OBS and NAV groups can
 be loaded again

each group's own rinextype attribute replaced the list of groups found so far
---
 src/georinex/rio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 874fa9e..ba364ec 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -158,14 +158,16 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            attrs: dict[T.Hashable, T.Any] = {}
+            groups = []
             for g in ("OBS", "NAV"):
                 try:
                     with xarray.open_dataset(fn, group=g) as dat:
-                        attrs["rinextype"].append(g.lower())
+                        groups.append(g.lower())
                         attrs.update(dat.attrs)
                 except OSError:
                     continue
+            attrs["rinextype"] = groups  # each group names its own type only
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From ce483b2c9e80bbdfe72f60c09dc05055bfda3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 27/29] fix: a first line whose version field overflows is
 refused with ValueError

---
 src/georinex/rio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index ba364ec..8170733 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -210,7 +210,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError, IndexError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError, OverflowError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From d20e03b161fff0cfe4235463c3444c90cef75982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 28/29] fix: nav3 and obs3 read on behind a blank or stray
 line, as gettime does

---
 src/georinex/nav3.py | 3 ---
 src/georinex/obs3.py | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index fb978be..7501937 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -39,9 +39,6 @@ def rinexnav3(
         header = navheader3(f)
         # %% read Epoch / ToC (Time of Clock)
         for line in f:
-            if line.startswith("\n"):  # EOF
-                break
-
             try:
                 time = _time(line)
             except ValueError:  # blank or garbage line
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index cf16fe3..e4c4f0c 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -81,8 +81,8 @@ def rinexobs3(
         # %% process OBS file
         time_offset = []
         for ln in f:
-            if not ln.startswith(">"):  # end of file
-                break
+            if not ln.startswith(">"):  # not an epoch line, go on to the next one
+                continue
 
             if _isevent(ln):  # special event, header lines may follow: no observations
                 for _, _ in zip(range(int(ln[32:35].strip() or 0)), f):
-- 
2.43.0


From 26f891f192372d8fdc1f8fba8d8e803dd11d23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 29/29] fix: Galileo positions count time from the week the
 RINEX file states

---
 src/georinex/keplerian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 21144c4..b9d6447 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -42,8 +42,7 @@ def keplerian2ecef(
 
     # from GPS Week 0
     if svtype == "E":
-        weeks = sv["GALWeek"].values - 1024
-        # TODO: need to add N*4096 for year 2058 and beyond
+        weeks = sv["GALWeek"].values  # RINEX: aligned to the GPS week
     elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-- 
2.43.0

