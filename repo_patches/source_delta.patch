From 8a60171b2bdd9a729812a6fa52c729529ee315b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 01/27] fix: cache downloaded GSOD years atomically and never
 cache failures

A process stopping while the cache file was written, a full disk, or a second
reader in the meantime left or saw truncated data which was then returned as
complete; a failed or empty transfer could overwrite or delete a good file
cached concurrently, and was remembered; concurrent creation of the year
directory raised.
---
 fluids/design_climate.py | 57 ++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 5d7c014..1a7d0e4 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -36,6 +36,7 @@ __all__ = [
 import datetime
 import gzip
 import os
+import uuid
 from calendar import isleap
 from collections import namedtuple
 from io import BytesIO as StringIO
@@ -741,6 +742,33 @@ def get_closest_station(latitude, longitude, minumum_recent_data=20140000,
                     "specified near the specified coordinates.")
 
 
+def write_file_atomically(path, text):
+    """Write `text` to the file `path` such that the file always holds either
+    its previous content or all of `text`, regardless of other writers and
+    readers, of failures, and of the process or the machine stopping midway.
+
+    Parameters
+    ----------
+    path : str
+        File to be created or replaced, [-]
+    text : str
+        Complete new content of the file, [-]
+    """
+    temp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(temp_path, "w") as f:
+            f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_path, path)
+    except BaseException:
+        try:
+            os.remove(temp_path)
+        except OSError:
+            pass
+        raise
+
+
 # This should be aggressively cached
 def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
     """Basic method to download data from the GSOD database, given a station
@@ -776,31 +804,22 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
     if os.path.exists(path):
         with open(path) as f:
             data = f.read()
-            if data and data != "Exception":
-                return data
-            else:
-                # Remove the bad file and try to redownload it
-                try:
-                    os.remove(path)
-                except:
-                    pass
-                # raise ValueError(data)
+        if data and data != "Exception":
+            return data
+        # An empty file, or the marker of a failed download written by earlier
+        # versions; it is replaced once the data has been obtained
 
     toget = ("ftp://ftp.ncdc.noaa.gov/pub/data/gsod/" + str(year) + "/"
              + station + "-" + str(year) +".op.gz")
     try:
-        data = urlopen(toget, timeout=5)  # nosec B310
+        with urlopen(toget, timeout=5) as response:  # nosec B310
+            data = response.read()
     except Exception as e:
-        if not os.path.exists(gsod_year_dir):
-            os.makedirs(gsod_year_dir)
-        with open(path, "w") as f:
-            f.write("Exception")
         raise ValueError("Could not obtain desired data; check "
                         "if the year has data published for the "
                         "specified station and the station was specified "
                         f"in the correct form. The full error is {e}")
 
-    data = data.read()
     data_thing = StringIO(data)
 
     f = gzip.GzipFile(fileobj=data_thing, mode="r")
@@ -809,12 +828,12 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
         year_station_data = year_station_data.decode("utf-8")
     except:
         pass
+    if not year_station_data:
+        raise ValueError("Could not obtain desired data; the transfer was empty")
 
     # Cache the data for future use
-    if not os.path.exists(gsod_year_dir):
-        os.makedirs(gsod_year_dir)
-    open(path, "w").write(year_station_data)
-
+    os.makedirs(gsod_year_dir, exist_ok=True)
+    write_file_atomically(path, year_station_data)
 
     return year_station_data
 
-- 
2.43.0


From 8a754bc052bbd45d0519a1e96dce83ffdfb25a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 02/27] fix: publish the weather station table only once it is
 complete

The list was visible while still being filled, so a second thread making its
first query saw an empty or partial table, and an error or interrupt while
loading left the module permanently without coordinates and index.
---
 fluids/design_climate.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 1a7d0e4..9a1fdd1 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -36,6 +36,7 @@ __all__ = [
 import datetime
 import gzip
 import os
+import threading
 import uuid
 from calendar import isleap
 from collections import namedtuple
@@ -392,7 +393,7 @@ class IntegratedSurfaceDatabaseStation:
                  END):
         try:
             self.USAF = int(USAF)
-        except:
+        except (TypeError, ValueError):
             self.USAF = USAF # Nones
         self.WBAN = WBAN
         self.NAME = NAME
@@ -615,6 +616,7 @@ _stations = None
 _latlongs = None
 _station_count = None
 _kd_tree = None
+_station_data_lock = threading.Lock()
 
 def _load_station_data():
     """Read in the parsed data into
@@ -624,8 +626,10 @@ def _load_station_data():
     the index of the nearest weather stations.
     """
     global _stations, _latlongs, _station_count, _kd_tree
-    if _stations is None:
-        _stations = []
+    with _station_data_lock:
+        if _stations is not None:
+            return
+        temp_stations = []
         temp_latlongs = []
 
         history_file = os.path.join(folder, "isd-history-cleaned.tsv")
@@ -645,18 +649,24 @@ def _load_station_data():
                                 values[i] = float(v)
                             if int(v) == 99999:
                                 values[i] = None
-                        except:
+                        except ValueError:
                             continue
                 lat, lon = values[6], values[7]
                 # Some stations have no lat-long; this isn't useful
                 if lat and lon:
-                    _stations.append(IntegratedSurfaceDatabaseStation(*values))
+                    temp_stations.append(IntegratedSurfaceDatabaseStation(*values))
                     temp_latlongs.append((lat, lon))
 
-        # _latlongs must be unchanged as data is not copied
-        _latlongs = np.array(temp_latlongs)
-        _station_count = len(_stations)
-        _kd_tree = cKDTree(_latlongs)
+        # The latlongs must be unchanged as data is not copied
+        temp_latlongs = np.array(temp_latlongs)
+        temp_kd_tree = cKDTree(temp_latlongs)
+
+        # Only publish the data once all of it is complete, with the variable
+        # which marks it as loaded last
+        _latlongs = temp_latlongs
+        _station_count = len(temp_stations)
+        _kd_tree = temp_kd_tree
+        _stations = temp_stations
 
 def get_station_count():
     """Get the total number of stations."""
-- 
2.43.0


From 9443de84131d8fe55b777b667b288c4550d46c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:48 +0000
Subject: [PATCH 03/27] fix: replace the weather station table atomically

A rebuild that failed or was stopped midway left a truncated table under the
name of the complete one, which was then loaded as if complete.
---
 fluids/design_climate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 9a1fdd1..ac8741b 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -323,7 +323,8 @@ def get_clean_isd_history(dest=os.path.join(folder, "isd-history-cleaned.tsv"),
     """
     import pandas as pd
     df = pd.read_csv(url, dtype={"USAF": str, "WBAN": str})
-    df.to_csv(dest, sep="\t", index=False, header=False)
+    text = df.to_csv(sep="\t", index=False, header=False)
+    write_file_atomically(dest, text.replace(os.linesep, "\n"))
 
 
 class IntegratedSurfaceDatabaseStation:
-- 
2.43.0


From 907a675cfc9b4a21f85f7822e0bcb68ace807b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 04/27] fix: keep geocode cache addresses apart, unlocked and
 usable from any thread

The address column had type STRING, which sqlite gives numeric affinity, so
'01001', '1001' and '1001.0' shared one entry and any of them was answered
with whichever coordinates were stored first. A failed INSERT left its
transaction open, so the database stayed locked for every other process; and
the connection only worked in the thread which happened to create it.
---
 fluids/design_climate.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index ac8741b..fa81864 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -113,15 +113,20 @@ class SimpleGeolocatorCache:
     """
 
     def __init__(self, file_name):
-        self.connection = conn = sqlite3.connect(file_name)
+        # Autocommit, so that a failed statement never leaves a transaction and
+        # its lock open; and usable from any thread, as the cache is a singleton
+        self.connection = conn = sqlite3.connect(
+            file_name, isolation_level=None, check_same_thread=False)
         cursor = self.connection.cursor()
-        cursor.execute("CREATE TABLE IF NOT EXISTS geopy ( "
-                       "address STRING PRIMARY KEY, latitude real, longitude real )")
+        # The type has to be TEXT; a column of type STRING, as in the `geopy`
+        # table used before, turns addresses which look like numbers into numbers
+        cursor.execute("CREATE TABLE IF NOT EXISTS geopy_addresses ( "
+                       "address TEXT PRIMARY KEY, latitude real, longitude real )")
         self.connection.commit()
 
     def cached_address(self, address):
         cursor = self.connection.cursor()
-        cursor.execute("SELECT latitude, longitude FROM geopy WHERE address=?", (address, ))
+        cursor.execute("SELECT latitude, longitude FROM geopy_addresses WHERE address=?", (address, ))
         res = cursor.fetchone()
         if res is None:
             return None
@@ -129,7 +134,7 @@ class SimpleGeolocatorCache:
 
     def cache_address(self, address, latitude, longitude):
         cursor = self.connection.cursor()
-        cursor.execute("INSERT INTO geopy(address, latitude, longitude) VALUES(?, ?, ?)",
+        cursor.execute("INSERT OR REPLACE INTO geopy_addresses(address, latitude, longitude) VALUES(?, ?, ?)",
                        (address, latitude, longitude))
         self.connection.commit()
 
@@ -165,7 +170,7 @@ def geocode(address):
     try:
         cache = geopy_cache()
         loc_tuple = cache.cached_address(address)
-    except:
+    except Exception:
         # Handle bugs in the cache, i.e. if there is no space on disk to create
         # the database, by ignoring them
         pass
@@ -178,7 +183,7 @@ def geocode(address):
         location = geocoder.geocode(address)
         try:
             cache.cache_address(address, location.latitude, location.longitude)
-        except:
+        except Exception:
             pass
         return (location.latitude, location.longitude)
 
-- 
2.43.0


From 8435e3fffd15086c7d8a6e53197505cb73265ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 05/27] fix: never swallow interrupts in recovery clauses

The bare except clauses around trial calculations also caught
KeyboardInterrupt and SystemExit, so that Ctrl-C during a calculation was
turned into a fallback answer, a retry or another error. They now catch
Exception only.
---
 fluids/__init__.py                   |  2 +-
 fluids/compressible.py               |  8 ++---
 fluids/design_climate.py             |  4 +--
 fluids/drag.py                       |  2 +-
 fluids/fittings.py                   |  4 +--
 fluids/flow_meter.py                 | 10 +++---
 fluids/geometry.py                   | 16 +++++-----
 fluids/jet_pump.py                   | 24 +++++++-------
 fluids/numba.py                      | 10 +++---
 fluids/numerics/__init__.py          | 48 ++++++++++++++--------------
 fluids/numerics/arrays.py            |  4 +--
 fluids/numerics/special.py           | 10 +++---
 fluids/optional/irradiance.py        |  4 +--
 fluids/optional/pychebfun.py         |  2 +-
 fluids/particle_size_distribution.py | 14 ++++----
 fluids/piping.py                     |  6 ++--
 fluids/units.py                      | 18 +++++------
 17 files changed, 93 insertions(+), 93 deletions(-)

diff --git a/fluids/__init__.py b/fluids/__init__.py
index 2633c52..1210fbe 100644
--- a/fluids/__init__.py
+++ b/fluids/__init__.py
@@ -173,5 +173,5 @@ __version__ = "1.3.1"
 try:
     fluids_dir = os.path.dirname(__file__)
     fluids_data_dir = os.path.join(fluids_dir, "data")
-except:
+except Exception:
     pass
diff --git a/fluids/compressible.py b/fluids/compressible.py
index 65c87e7..ebf1441 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -917,10 +917,10 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             if not (P2 <= P1):
                 raise ValueError("Failed")
             return P1
-        except:
+        except Exception:
             try:
                 return brenth(isothermal_gas_err_P1, P2, Pcf, args=(fd, rho, P2, L, D, m))
-            except:
+            except Exception:
                 m_max = isothermal_gas(rho, fd, P1=Pcf, P2=P2, L=L, D=D)  # numba: delete
                 raise ValueError(f"The desired mass flow rate of {m:f} kg/s cannot " # numba: delete
                                  "be achieved with the specified downstream pressure; the maximum flow rate is " # numba: delete
@@ -948,11 +948,11 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             if not (P2 < P1):
                 raise ValueError("Should not be the case")
             return P2
-        except:
+        except Exception:
             Pcf = P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
             try:
                 return brenth(isothermal_gas_err_P2, Pcf, P1, args=(rho, fd, P1, L, D, m))
-            except:
+            except Exception:
                 m_max = isothermal_gas(rho, fd, P1=P1, P2=Pcf, L=L, D=D)
                 raise ValueError("The desired mass flow rate cannot be achieved " # numba: delete
                                  f"with the specified upstream pressure of {P1:f} Pa; the maximum flow rate is {m_max:f} " # numba: delete
diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index fa81864..3e6bd75 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -446,7 +446,7 @@ class StationDataGSOD:
                 try:
                     year_data = get_station_year_text(self.station.USAF, self.station.WBAN, year, data_dir_override=self.data_dir_override)
                     self.raw_text[year] = year_data
-                except:
+                except Exception:
                     pass
 
     def parse_data(self):
@@ -842,7 +842,7 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
     year_station_data = f.read()
     try:
         year_station_data = year_station_data.decode("utf-8")
-    except:
+    except Exception:
         pass
     if not year_station_data:
         raise ValueError("Could not obtain desired data; the transfer was empty")
diff --git a/fluids/drag.py b/fluids/drag.py
index 5d4ec18..1106b84 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1442,7 +1442,7 @@ def time_v_terminal_Stokes(D: float, rhop: float, rho: float, mu: float, V0: flo
                 v_term = v_term_base*(1.0 - tol)
             numerator = term + 18.*mu*v_term
             return log(numerator/denominator)*const
-        except:
+        except Exception:
             tol = tol + tol
             if tol > 0.01:
                 raise ValueError("Could not find a solution")
diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..743d93c 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -3265,7 +3265,7 @@ def Darby3K(NPS: float | None=None, Re: float | None=None, name: str | None=None
         if K1 is None:
             try:
                 K1, Ki, Kd = Darby_values[Darby_keys.index(name)]
-            except:
+            except Exception:
                 raise ValueError("Name of fitting is not in database")
     elif K1 is not None and Ki is not None and Kd is not None:
         pass
@@ -3397,7 +3397,7 @@ def Hooper2K(Di: float, Re: float, name: str | None=None, K1: float | None=None,
         if K1 is None:
             try:
                 K1, Kinfty = Hooper_values[Hooper_keys.index(name)]
-            except:
+            except Exception:
                 raise ValueError("Name of fitting is not in database")
     elif K1 is not None and Kinfty is not None:
         pass
diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 3893cab..0675fb9 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2813,24 +2813,24 @@ def differential_pressure_meter_solver(D: float, rho: float, mu: float, k: float
         try:
             try:
                 return secant(err_dp_meter_solver_D2, D*.3, args=args, high=D, low=D*1e-10, bisection=True)
-            except:
+            except Exception:
                 return secant(err_dp_meter_solver_D2, D*.75, args=args, high=D, low=D*1e-10, bisection=True)
-        except:
+        except Exception:
             return brenth(err_dp_meter_solver_D2, D*(1-1E-9), D*5E-3, args=args)
     elif P2 is None and D is not None and D2 is not None and m is not None and P1 is not None:
         args = (D, D2, m, P1, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
         try:
             try:
                 return secant(err_dp_meter_solver_P2, P1*0.9, low=P1*0.5, args=args, high=P1, bisection=True)
-            except:
+            except Exception:
                 return secant(err_dp_meter_solver_P2, P1*0.9, low=P1*1e-10, args=args, high=P1, bisection=True)
-        except:
+        except Exception:
             return brenth(err_dp_meter_solver_P2, P1*(1-1E-9), P1*0.5, args=args)
     elif P1 is None and D is not None and D2 is not None and m is not None and P2 is not None:
         args = (D, D2, m, P2, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
         try:
             return secant(err_dp_meter_solver_P1, P2*1.5, args=args, low=P2, bisection=True)
-        except:
+        except Exception:
             return brenth(err_dp_meter_solver_P1, P2*(1+1E-9), P2*1.4, args=args)
     else:
         raise ValueError("Solver is capable of solving for one of P1, P2, D2, or m only.")
diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..638caa5 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -2257,13 +2257,13 @@ def _SA_partial_horiz_torispherical_head_int_1(x: float, b: float, c: float) ->
     x4 = c*c
     try:
         x5 = 1.0/sqrt(x1 - x4)
-    except:
+    except Exception:
         x5 = 1.0/csqrt(x1 - x4) # type: ignore
     x6 = x3 + x4
     x7 = sqrt(b)
     try:
         x3_pow = x3**(-1.5)
-    except:
+    except Exception:
         x3_pow = (x3+0j)**(-1.5)
     ans = (x*cacos(c/x2) + x3_pow*x5*(-c*x1*csqrt(-x6*x6)*catan(x*x2/(csqrt(x3)*csqrt(x6)))
         + x6*x7*csqrt(-x1*x1)*catan(c*x*x5/x7))/csqrt(-x6/x1))
@@ -2282,11 +2282,11 @@ def _SA_partial_horiz_torispherical_head_int_2(y: float, t2: float, s: float, c1
         try:
             # Some tiny heights make the square root slightly under 0
             x = (sqrt(c1 - y2 + (s+s)*x10)).real
-        except:
+        except Exception:
             # Python 2 compat - don't take the square root of a negative number with no complex part
             x = (csqrt(c1 - y2 + (s+s)*x10 + 0.0j)).real
 
-    except:
+    except Exception:
         x10 = csqrt(t2 - y2+0.0j) # type: ignore
         x = (csqrt(c1 - y2 + (s+s)*x10 + 0.0j)).real
     try:
@@ -2304,7 +2304,7 @@ def _SA_partial_horiz_torispherical_head_int_2(y: float, t2: float, s: float, c1
 
 
         ans = x4*sqrt(t2*t10/(x0*x3))*catan(x/x4).real
-    except:
+    except Exception:
         ans = 0.0
 #     ans = sqrt((t2* (s**2+t2-x**2+2.0*s* sqrt(t2-x**2)))/((t2-x**2)* (s**2+t2-x**2+2 *s* sqrt(t2-x**2)-y**2)))* sqrt(s**2+t2-x**2+2 *s* sqrt(t2-x**2)-y**2) *atan(y/sqrt(s**2+t2-x**2+2 *s* sqrt(t2-x**2)-y**2))
 #    print(float(y), float(t2), float(s), float(c1), float(ans.real))
@@ -2435,7 +2435,7 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
         x2 = x*x # numba: delete
         try: # numba: delete
             G = sqrt(c1 - x2 + (s+s)*sqrt(t2 - x2)) # numba: delete
-        except: # numba: delete
+        except Exception: # numba: delete
             # Python 2 compat - don't take the square root of a negative number with no complex part # numba: delete
             G = sqrt(c1 - x2 + (s+s)*sqrt(t2 - x2+0.0j) + 0.0j) # numba: delete
         return G.real # Some tiny heights make the square root slightly under 0 # numba: delete
@@ -2457,7 +2457,7 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
 #        SA = 2.0*quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, a2, args=(t2, s, c1))[0] # numba: uncomment
         try:
             high = _SA_partial_horiz_torispherical_head_int_1(f*D*sin_alpha, b, c)
-        except:
+        except Exception:
             # Expression with the substitution is equally complicated
             high = _SA_partial_horiz_torispherical_head_int_1(f*D*sin_alpha*(1.0 + 1e-14), b, c)
         int_1_term1 = high - _SA_partial_horiz_torispherical_head_int_1(R-h, b, c)
@@ -3747,7 +3747,7 @@ class TANK:
                 if not self.table:
                     self.set_table()
                 return float(self.interp_h_from_V(V))
-            except:
+            except Exception:
                 # Missing scipy
                 return self.h_from_V(V, "brenth")
         elif method == "chebyshev":
diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..d8d66f3 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -191,7 +191,7 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
                               P1=None, P2=P2)
         try:
             return brenth(err, 1E-9, d_nozzle*20)
-        except:
+        except Exception:
             return secant(err, d_nozzle*2)
     else:
         raise ValueError("Impossible")
@@ -435,40 +435,40 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
         if v == "d_nozzle":
             try:
                 var_guesses.append(d_mixing*0.4)
-            except:
+            except Exception:
                 var_guesses.append(0.01)
         if v == "d_mixing":
             try:
                 var_guesses.append(d_nozzle*2)
-            except:
+            except Exception:
                 var_guesses.append(0.02)
         elif v == "P1":
             try:
                 var_guesses.append(P2*5)
-            except:
+            except Exception:
                 var_guesses.append(P5*5)
         elif v == "P2":
             try:
                 var_guesses.append((P1 + P5)*0.5)
-            except:
+            except Exception:
                 try:
                     var_guesses.append(P1/1.1)
-                except:
+                except Exception:
                     var_guesses.append(P5*1.25)
         elif v == "P5":
             try:
                 var_guesses.append(P1*1.12)
-            except:
+            except Exception:
                 var_guesses.append(P2*1.12)
         elif v == "Qp":
             try:
                 var_guesses.append(Qs*1.04)
-            except:
+            except Exception:
                 var_guesses.append(0.01)
         elif v == "Qs":
             try:
                 var_guesses.append(Qp*0.5)
-            except:
+            except Exception:
                 var_guesses.append(0.01)
 
     C = rhos/rhop
@@ -580,7 +580,7 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
 
         try:
             return solve_with_newton(var_guesses)
-        except:
+        except Exception:
             pass
         # Just do variations on this until it works
         for _ in range(int(max_variations/8)):
@@ -591,7 +591,7 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
                         l = list(var_guesses)
                         l[idx] = l[idx]*i
                         return solve_with_newton(l)
-                    except:
+                    except Exception:
                         pass
         # Vary both parameters at once
         for _ in range(int(max_variations/8)):
@@ -604,7 +604,7 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
                         l[0] = l[0]*i
                         l[1] = l[1]*j
                         return solve_with_newton(l)
-                    except:
+                    except Exception:
                         pass
         raise ValueError("Could not solve")
 
diff --git a/fluids/numba.py b/fluids/numba.py
index f290c2e..15f5eb3 100644
--- a/fluids/numba.py
+++ b/fluids/numba.py
@@ -101,7 +101,7 @@ try:
 
     add_scipy_special_overloads()
 
-except:
+except Exception:
     pass
 
 def numba_exec_cacheable(source, lcs=None, gbls=None, cache_name="cache-safe"):
@@ -312,7 +312,7 @@ def transform_lists_to_arrays(module, to_change, __funcs, vec=False, cache_black
 
         try:
             real_mod = getattr(module, mod)
-        except:
+        except Exception:
             real_mod = module
             for s in mod.split("."):
                 real_mod = getattr(real_mod, s)
@@ -479,7 +479,7 @@ def create_numerics(replaced, vec=False):
     names = list(NUMERICS_SUBMOD.__all__)
     try:
         names += NUMERICS_SUBMOD.__numba_additional_funcs__
-    except:
+    except Exception:
         pass
 
     NUMERICS_SUBMOD.py_solve = np.linalg.solve
@@ -562,7 +562,7 @@ def transform_module(normal, __funcs, replaced, vec=False, blacklist=frozenset([
     # Run module-by-module. Expensive, as we need to create module copies
     try:
         all_submodules = normal.all_submodules(False)
-    except:
+    except Exception:
         all_submodules = normal.submodules
     for mod in all_submodules:
         #print(all_submodules, mod)
@@ -590,7 +590,7 @@ def transform_module(normal, __funcs, replaced, vec=False, blacklist=frozenset([
 
         try:
             names = set(SUBMOD.__all__)
-        except:
+        except Exception:
             names = set()
         for mod_obj_name in dir(SUBMOD):
             obj = getattr(SUBMOD, mod_obj_name)
diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..30185ef 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -408,18 +408,18 @@ except AttributeError:
 # Hacks for numba - allow the module to run in different ways
 try:
     IS_PYPY = FORCE_PYPY  # noqa: F821
-except:
+except Exception:
     pass
 try:
     array_if_needed  # noqa: F821, B018
-except:
+except Exception:
     array_if_needed = lambda x: x
 
 try:
     is_micropython = sys.implementation.name == "micropython"
     if is_micropython:
         IS_PYPY = True
-except:
+except Exception:
     is_micropython = False
 
 if is_micropython:
@@ -469,7 +469,7 @@ try:
             if sinSign:
                 sin = -sin
             return sin, cos
-except:
+except Exception:
     pass
 
 try:
@@ -477,14 +477,14 @@ try:
     from cmath import atan as catan
     from cmath import atanh as catanh
     from cmath import isclose as cisclose
-except:
+except Exception:
     cacos = py_cacos
     catan = py_catan
     catanh = py_catanh
 
 try:
     from math import cbrt
-except:
+except Exception:
     def cbrt(x):
         return x**(1.0/3.0)
 
@@ -520,14 +520,14 @@ np = numpy
 try:
     scalar_types = (float, int, np.float64, np.float32, np.float16, np.float128,
                     np.int8, np.int16, np.int32, np.int64)
-except:
+except Exception:
     scalar_types = (float, int)
 #IS_PYPY = True
 
 try:
     from sys import float_info
     epsilon = float_info.epsilon
-except:
+except Exception:
     # Probably micropython
     epsilon = 2.220446049250313e-16
 
@@ -807,7 +807,7 @@ def central_diff_weights(points, divisions=1):
     key = (divisions, points)
     try:
         return central_diff_weights_precomputed[key]
-    except:
+    except Exception:
         pass
 
     if points < divisions + 1:
@@ -845,7 +845,7 @@ def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True,
     """
     try:
         weights = central_diff_weights_precomputed[(n, order)]
-    except:
+    except Exception:
         if order < n + 1:
             raise ValueError
         if order % 2 == 0:
@@ -1240,7 +1240,7 @@ def hessian(f, x0, scalar=True, perturbation=1e-9, zero_offset=1e-7, full=True,
     if not isinstance(base, (float, int, complex)):
         try:
             ny = len(base)
-        except:
+        except Exception:
             ny = 1
     else:
         ny = 1
@@ -1905,10 +1905,10 @@ def assert_close(a, b, rtol=1e-7, atol=0.0):
             try:
                 assert isclose(a, b, rel_tol=rtol, abs_tol=atol)  # noqa: S101
                 return
-            except:
+            except Exception:
                 assert cisclose(a, b, rel_tol=rtol, abs_tol=atol)  # noqa: S101
                 return
-        except:
+        except Exception:
             pass
     from numpy.testing import assert_allclose
     return assert_allclose(a, b, rtol=rtol, atol=atol)
@@ -1949,9 +1949,9 @@ def assert_close2d(a, b, rtol=1e-7, atol=0.0):
                 try:
                     try:
                         good = isclose(a1, b1, rel_tol=rtol, abs_tol=atol)
-                    except:
+                    except Exception:
                         good = cisclose(a1, b1, rel_tol=rtol, abs_tol=atol)
-                except:
+                except Exception:
                     pass
             if not good:
                 from numpy.testing import assert_allclose
@@ -2102,7 +2102,7 @@ def interp2d_linear(x, y, xs, ys, vals):
 try:
     _array = np.array
     Polynomial = np.polynomial.Polynomial
-except:
+except Exception:
     pass
 def implementation_optimize_tck(tck, force_numpy=False):
     """Converts 1-d or 2-d splines calculated with SciPy's `splrep` or.
@@ -2211,7 +2211,7 @@ def translate_bound_jac(jac, bounds=None, low=None, high=None):
                 v *= (1.0 + trunc_exp(-x[i]))**-2
                 jac_base[i] = v
             return jac_base
-        except:
+        except Exception:
             raise NotImplementedError("Fail")
 
     def translate_into(x):
@@ -2267,7 +2267,7 @@ def translate_bound_f_jac(f, jac, bounds=None, low=None, high=None,
             if as_np:
                 jac_base = np.array(jac_base)
             return f_base, jac_base
-        except:
+        except Exception:
             raise NotImplementedError("Fail")
 
     def translate_into(x):
@@ -3064,7 +3064,7 @@ def one_sided_secant(f, x0, x_flat, args=tuple(), maxiter=100, xtol=1.48e-8,
                         step = (sln[0].real - x1)
                     has_step = True
                     # print(f'Quadratic desired point:  x={x1 + step}')
-            except:
+            except Exception:
                 # print('Quadratic had a numerical error')
                 pass
 
@@ -3636,7 +3636,7 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
                 if do_next and factor != factors[-1]:# numba: delete
                     # print('math error, trying next point')
                     continue# numba: delete
-            except: # numba: delete
+            except Exception: # numba: delete
                 # print(f'Line search calculation with point failed') # numba: delete
                 continue # numba: delete
 #            fnew, jnew = f(xnew, *args) # numba: uncomment
@@ -3839,7 +3839,7 @@ def homotopy_solver(f, x0, jac, xtol=1e-8, ytol=None, maxiter=100, lambd_step=0.
             x2, niter, Fx, J = newton_system(f=f_n, x0=x1, jac=jac, xtol=use_xtol, ytol=use_ytol, maxiter=remaining_iters,
                                       damping=damping, args=args, solve_func=solve_func, line_search=line_search,
                                       with_point=True)
-        except:
+        except Exception:
             # undo the lambda change, continue the loop with half the lambda step
             lambd -= working_lambda_step
             working_lambda_step *= 0.5
@@ -4590,7 +4590,7 @@ def compute_accelerated_step(
     try:
         RR_inv = inv(RR)
         alpha = sum_matrix_rows(RR_inv)
-    except:
+    except Exception:
         # Fallback to least squares if matrix is singular
         ones = [1.0] * len(residuals)
         alpha = gelsd(RR, ones)[0]
@@ -4868,7 +4868,7 @@ def fixed_point_anderson_residual(
             try:
                 RR_inv = inv(RR)
                 alpha = sum_matrix_rows(RR_inv)
-            except:
+            except Exception:
                 ones = [1.0] * len(residuals_hist)
                 alpha = gelsd(RR, ones)[0]
 
@@ -6269,7 +6269,7 @@ try:
         if erf is None:
             from scipy.special import erf
 
-except:
+except Exception:
     pass
 
 
diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 9c8a329..925cfeb 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -453,7 +453,7 @@ def shape(value):
     """
     try:
         return value.shape
-    except:
+    except Exception:
         pass
     dims = [len(value)]
     try:
@@ -468,7 +468,7 @@ def shape(value):
                 break
             # except:
             #     break
-    except:
+    except Exception:
         pass
     return tuple(dims)
 
diff --git a/fluids/numerics/special.py b/fluids/numerics/special.py
index b9495ee..0605129 100644
--- a/fluids/numerics/special.py
+++ b/fluids/numerics/special.py
@@ -26,11 +26,11 @@ from math import asinh, atan2, copysign, exp, fabs, log, pi, sqrt
 
 try:
     from math import log1p
-except:
+except Exception:
     log1p = log
 try:
     from math import cbrt
-except:
+except Exception:
     def cbrt(x):
         return x**(1.0/3.0)
 
@@ -43,7 +43,7 @@ def py_factorial(n):
     return factorial
 try:
     from math import factorial
-except:
+except Exception:
     factorial = py_factorial
 
 def py_comb(n, k):
@@ -52,7 +52,7 @@ def py_comb(n, k):
     return factorial(n) // (factorial(k) * factorial(n - k))
 try:
     from math import comb
-except:
+except Exception:
     comb = py_comb
 
 inf = float("inf")
@@ -131,7 +131,7 @@ def trunc_exp(x, trunc=1.7976931348622732e+308):
     # maximum value occurs at 709.782712893384 exactly
     try:
         return exp(x)
-    except:
+    except Exception:
         # Really exp(709.7) 1.6549840276802644e+308
         return trunc
 
diff --git a/fluids/optional/irradiance.py b/fluids/optional/irradiance.py
index 89bedb1..0afbb7a 100644
--- a/fluids/optional/irradiance.py
+++ b/fluids/optional/irradiance.py
@@ -114,7 +114,7 @@ def get_relative_airmass(zenith, model="kastenyoung1989"):
         try:
             am = (1.0 / (cos(zenith_rad) +
                   0.50572*((6.07995 + (90.0 - z))**-1.6364)))
-        except:
+        except Exception:
             am = nan
         if isinstance(am, complex):
             am = nan
@@ -188,7 +188,7 @@ def ineichen(apparent_zenith, airmass_absolute, linke_turbidity,
     try:
         bnci_2 = ((1.0 - (0.1 - 0.2*exp(-tl))/(0.1 + 0.882/fh1)) /
                   cos_zenith)
-    except:
+    except Exception:
         bnci_2 = 1e20
 
     multiplier = min(bnci_2, 1e+20)
diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 7411281..2ce3a90 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -566,7 +566,7 @@ class Chebfun(Polyfun):
                 return np.concatenate(
                     (self.restrict([self._domain[0],split_point]).roots(),
                      self.restrict([split_point,self._domain[1]]).roots()))
-            except:
+            except Exception:
                 # Seems to have many fake roots for high degree fits
                 coeffs = self.coefficients()
                 domain = self._domain
diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..5f97e4e 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -703,7 +703,7 @@ def cdf_lognormal(d: float, d_characteristic: float, s: float) -> float:
     """
     try:
         return 0.5*(1.0 + erf((log(d/d_characteristic))/(s*sqrt(2.0))))
-    except:
+    except Exception:
         # math error at cdf = 0 (x going as low as possible)
         return 0.0
 
@@ -1669,7 +1669,7 @@ class ParticleSizeDistributionContinuous:
         """
         try:
             import matplotlib.pyplot as plt
-        except:  # pragma: no cover
+        except Exception:  # pragma: no cover
             raise ValueError(NO_MATPLOTLIB_MSG)
         ds = self.ds_discrete(d_min=d_min, d_max=d_max, pts=pts, method=method)
         try:
@@ -1718,7 +1718,7 @@ class ParticleSizeDistributionContinuous:
         """
         try:
             import matplotlib.pyplot as plt
-        except:  # pragma: no cover
+        except Exception:  # pragma: no cover
             raise ValueError(NO_MATPLOTLIB_MSG)
 
         ds = self.ds_discrete(d_min=d_min, d_max=d_max, pts=pts, method=method)
@@ -1726,7 +1726,7 @@ class ParticleSizeDistributionContinuous:
             for ni in n:
                 cdfs = self.cdf_discrete(ds=ds, n=ni)
                 plt.semilogx(ds, cdfs, label=_label_distribution_n(ni))
-        except:
+        except Exception:
             cdfs = self.cdf_discrete(ds=ds, n=n)
             plt.semilogx(ds, cdfs, label=_label_distribution_n(n))
         if self.points:
@@ -2064,7 +2064,7 @@ try:
     ParticleSizeDistributionContinuous.mean_size_ISO.__doc__ = _mean_size_iso_docstring %(ParticleSizeDistributionContinuous.mean_size_ISO.__doc__)
     ParticleSizeDistribution.mean_size.__doc__ = _mean_size_docstring %(ParticleSizeDistribution.mean_size.__doc__)
     ParticleSizeDistribution.mean_size_ISO.__doc__ = _mean_size_iso_docstring %(ParticleSizeDistribution.mean_size_ISO.__doc__)
-except:
+except Exception:
     pass # micropython
 del _mean_size_iso_docstring
 del _mean_size_docstring
@@ -2229,12 +2229,12 @@ class PSDCustom(ParticleSizeDistributionContinuous):
         else:
             try:
                 self.name = distribution.dist.__class__.__name__
-            except:
+            except Exception:
                 pass
         try:
             self.parameters = dict(distribution.kwds)
             self.parameters.update({"d_min": d_min, "d_max": d_max})
-        except:
+        except Exception:
             self.parameters = {"d_min": d_min, "d_max": d_max}
 
         self.distribution = distribution
diff --git a/fluids/piping.py b/fluids/piping.py
index 10a27f5..eb27eb6 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -969,7 +969,7 @@ def gauge_from_t(t: float, SI: bool=True, schedule: str="BWG") -> float:
     # Get the schedule
     try:
         sch_integers, sch_inch, sch_SI, decreasing = wire_schedules[schedule]
-    except:
+    except Exception:
         raise ValueError("Wire gauge schedule not found")
 
     # Check if outside limits
@@ -1043,13 +1043,13 @@ def t_from_gauge(gauge: float, SI: bool=True, schedule: str="BWG") -> float:
     """
     try:
         sch_integers, sch_inch, sch_SI, decreasing = wire_schedules[schedule]
-    except:
+    except Exception:
         raise ValueError("Wire gauge schedule not found; supported gauges are \
 'BWG', 'AWG', 'SWG', 'MWG', 'BSWG', and 'SSWG'.")
 
     try:
         i = sch_integers.index(gauge)
-    except:
+    except Exception:
         raise ValueError("Input gauge not found in selected schedule")
     if SI:
         return sch_SI[i] # returns thickness in m
diff --git a/fluids/units.py b/fluids/units.py
index a661e79..798b98c 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -54,7 +54,7 @@ except ImportError: # pragma: no cover
 
 try:
     doc_stripped = sys.flags.optimize == 2
-except:
+except Exception:
     doc_stripped = False
 # is_critical_flow is broken
 
@@ -64,7 +64,7 @@ def get_docstring(f):
     try:
         if f.__doc__ is not None:
             return f.__doc__
-    except:
+    except Exception:
         # micropython
         return None
     if not doc_stripped:
@@ -94,7 +94,7 @@ def func_args(func):
     """
     try:
         return tuple(inspect.getfullargspec(func).args)
-    except:
+    except Exception:
         return tuple(inspect.getargspec(func).args)
 
 u.autoconvert_offset_to_baseunit = True
@@ -187,7 +187,7 @@ def check_args_order(func):
     """
     try:
         argspec = inspect.getfullargspec(func)
-    except:
+    except Exception:
         argspec = inspect.getargspec(func)
     parsed_data = parse_numpydoc_variables_units(func)
     # compare the parsed arguments with those actually defined
@@ -244,7 +244,7 @@ def check_module_docstring_parameters(module, bad_names={"__getattr__", "all_sub
 
         try:
             sig_params = list(inspect.signature(obj).parameters.keys())
-        except:
+        except Exception:
             sig_params = inspect.getargspec(obj).args
 
         parsed = parse_numpydoc_variables_units(obj)
@@ -447,7 +447,7 @@ class UnitAwareClass:
                     return d
                 try:
                     return value*self.property_units[name]
-                except:
+                except Exception:
                     # Not everything is going to work. The most common case here
                     # is returning a list, some of the values being None and so
                     # it cannot be wrapped.
@@ -475,7 +475,7 @@ class UnitAwareClass:
                         result = value(*args_base, **kwargs_base)
                         try:
                             wrapped_type = self.wrapped.__name__
-                        except:
+                        except Exception:
                             wrapped_type = self.wrapped.__class__.__name__
                         if name == "__init__":
                             return result
@@ -538,7 +538,7 @@ def wrap_numpydoc_obj(obj_to_wrap):
     class_methods = set()
     try:
         replace = [("`units`", obj_to_wrap.units)]
-    except:
+    except Exception:
         replace = None
     other_bases = obj_to_wrap.__mro__[1:-1]
     for prop in dir(obj_to_wrap):
@@ -549,7 +549,7 @@ def wrap_numpydoc_obj(obj_to_wrap):
                     static_methods.add(prop)
                 if isinstance(obj_to_wrap.__dict__[prop], classmethod):
                     class_methods.add(prop)
-            except:
+            except Exception:
                 pass
             if type(attr) is property:
                 name = prop
-- 
2.43.0


From 74c94dd9993d153aadd4f132dc4c83dba87c6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 06/27] fix: hand out copies, not the library's or the caller's
 own lists

gas_liquid_viscosity_methods and central_diff_weights returned the very
lists the library keeps, so a caller editing the result changed later
answers; ParticleSizeDistribution kept the caller's lists, so editing
them afterwards changed the distribution.
---
 fluids/numerics/__init__.py          | 4 ++--
 fluids/particle_size_distribution.py | 6 ++++--
 fluids/two_phase_voidage.py          | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 30185ef..1a4e140 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -806,7 +806,7 @@ def central_diff_weights(points, divisions=1):
     # Check the cache
     key = (divisions, points)
     try:
-        return central_diff_weights_precomputed[key]
+        return list(central_diff_weights_precomputed[key])
     except Exception:
         pass
 
@@ -832,7 +832,7 @@ def central_diff_weights(points, divisions=1):
     w = [i*factor for i in inverted[divisions]]
 #    w = [i*factor for i in (inv(X)[divisions]).tolist()]
     central_diff_weights_precomputed[key] = w
-    return w
+    return list(w)
 
 
 def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True,
diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 5f97e4e..888d21d 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -115,6 +115,7 @@ __all__: list[str] = [
     "psd_spacing",
 ]
 
+from copy import copy
 from math import exp, log, log10, pi, sqrt
 from typing import Callable
 
@@ -1840,7 +1841,8 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
     name = "Discrete"
     def __init__(self, ds: list[float] | np.ndarray, fractions: list[float], cdf: bool=False, order: int=3, monotonic: bool=True) -> None:
         self.monotonic = monotonic
-        self.ds = ds
+        # The inputs belong to the caller, who may change them later
+        self.ds = ds = copy(ds)
         self.order = order
 
         if ds is not None and (len(ds) == len(fractions) + 1):
@@ -1869,7 +1871,7 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
             tot_d3 = sum(d3s)
             self.fractions = [i/tot_d3 for i in d3s]
         else:
-            self.fractions = fractions
+            self.fractions = copy(fractions)
         # Set the number fractions
         D3s = [self.di_power(i, power=3) for i in range(self.N)]
         numbers = [Vi/Vp for Vi, Vp in zip(self.fractions, D3s)]
diff --git a/fluids/two_phase_voidage.py b/fluids/two_phase_voidage.py
index 4e61c1e..82392a2 100644
--- a/fluids/two_phase_voidage.py
+++ b/fluids/two_phase_voidage.py
@@ -2753,7 +2753,7 @@ def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=Non
     """
     methods = ["McAdams", "Cicchitti", "Lin Kwok"]
     if rhol is not None and rhog is not None:
-        methods = liquid_gas_viscosity_correlations_list
+        methods = list(liquid_gas_viscosity_correlations_list)
     return methods
 _gas_liquid_viscosity_method_unknown = f"Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}"
 
-- 
2.43.0


From 6d6f7d4b54f2598a753b3adfda35f7cd4741e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:46 +0000
Subject: [PATCH 07/27] fix: publish a tank's height-volume table only once it
 is complete

Two threads building it at the same time mixed heights and volumes of
different resolutions, which raised or gave answers from another method.
---
 fluids/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 638caa5..dba24d8 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3803,13 +3803,16 @@ class TANK:
             Vertical distance between steps in the interpolation table, [m]
         """
         if dx:
-            self.heights = linspace(0.0, self.h_max, int(self.h_max/dx)+1)
+            heights = linspace(0.0, self.h_max, int(self.h_max/dx)+1)
         else:
-            self.heights = linspace(0.0, self.h_max, n)
-        self.volumes = [self.V_from_h(h) for h in self.heights]
+            heights = linspace(0.0, self.h_max, n)
+        volumes = [self.V_from_h(h) for h in heights]
         from scipy.interpolate import PchipInterpolator
         # TODO replace with splrep/splev to avoid the object
-        self.interp_h_from_V = PchipInterpolator(self.volumes, self.heights, extrapolate=False)
+        interp_h_from_V = PchipInterpolator(volumes, heights, extrapolate=False)
+        # Set only once complete - the table may be in use by another thread
+        self.heights, self.volumes = heights, volumes
+        self.interp_h_from_V = interp_h_from_V
         self.table = True
 
     def set_chebyshev_approximators(self, deg_forward=50, deg_backwards=200):
-- 
2.43.0


From f8420a28585174b287547a96aea18385a0ba0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 08/27] fix: PSDInterpolated keeps the basis integral of each
 exponent apart

_pdf_basis_integral looked entries up by n but stored and read them by
int(n), so a non-integer exponent replaced the integral of another one and
later answers depended on which queries ran first.
---
 fluids/particle_size_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 888d21d..fd68621 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2353,6 +2353,6 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             basis_integral = ds**float(n)*pdf_vals
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
-                self.basis_integrals[int(n)] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
-        return max(float(self.basis_integrals[int(n)](d)), 0.0)
+                self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From 6a43e77f146af672a94566e28d862102c1e43045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:13 +0000
Subject: [PATCH 09/27] fix: gtd7 no longer changes the caller's input while it
 runs

Below 72.5 km gtd7 set Input.alt to 72.5 during the thermospheric part. A
second thread evaluating the same input, or a caller reusing it after an
interrupted evaluation, got the atmosphere at the wrong altitude.
---
 fluids/nrlmsise00/nrlmsise_00.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/nrlmsise00/nrlmsise_00.py b/fluids/nrlmsise00/nrlmsise_00.py
index f1ce4af..269bad7 100644
--- a/fluids/nrlmsise00/nrlmsise_00.py
+++ b/fluids/nrlmsise00/nrlmsise_00.py
@@ -38,6 +38,7 @@ THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR IMPLI
  */
 """
 
+from copy import copy
 from math import cos, exp, log, pow, sin, sqrt
 
 from .nrlmsise_00_data import pavgm, pd, pdl, pdm, pma, ps, pt, ptl, ptm
@@ -895,12 +896,11 @@ def gtd7(Input, flags, output):
     else:
         altt=zn2[0]
 
-    tmp=Input.alt
-    Input.alt=altt
+    # work on a copy: the caller's input is never changed, not even for a while
+    tinput = copy(Input)
+    tinput.alt = altt
 
-    dm28 = gts7(Input, flags, soutput, gsurf, re_nrlmsise_00, apt, plg, meso_tn1, meso_tgn1)
-    altt=Input.alt
-    Input.alt=tmp
+    dm28 = gts7(tinput, flags, soutput, gsurf, re_nrlmsise_00, apt, plg, meso_tn1, meso_tgn1)
     if (flags.sw[0]): # pragma: no cover  #/* metric adjustment */
         dm28m= dm28*1.0E6
     else:
-- 
2.43.0


From 615926d4afb39d4ef42a88f5989d2984f80cb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 10/27] fix: making a function unit-aware no longer edits the
 cached docstring information

wraps_numpydoc popped the 'results' entry of the shared cache entry and
wrap_numpydoc_obj extended it: two threads wrapping at once, or an
interrupted wrap, lost or misaligned output units for good.
---
 fluids/units.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fluids/units.py b/fluids/units.py
index 798b98c..1eea8bf 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -356,8 +356,8 @@ def wraps_numpydoc(ureg, strict=True):
         # Handle the case of dict answers - require the first line's args to be
         # parsed as 'results'
         if out_vars and "results" == out_vars[0]:
-            out_units.pop(0)
-            out_vars.pop(0)
+            out_units = out_units[1:]
+            out_vars = out_vars[1:]
 
         in_vars_cache[func] = in_vars
         in_units_cache[func] = in_units
@@ -511,8 +511,9 @@ class UnitAwareClass:
 
 
 def clean_parsed_info(parsed_info):
-    in_vars = parsed_info["Parameters"]["vars"]
-    in_units = parsed_info["Parameters"]["units"]
+    # the parsed information is cached and shared, so it must not be changed here
+    in_vars = copy(parsed_info["Parameters"]["vars"])
+    in_units = copy(parsed_info["Parameters"]["units"])
     if "Other Parameters" in parsed_info:
         in_vars += parsed_info["Other Parameters"]["vars"]
         in_units += parsed_info["Other Parameters"]["units"]
@@ -525,8 +526,8 @@ def clean_parsed_info(parsed_info):
     # Handle the case of dict answers - require the first line's args to be
     # parsed as 'results'
     if out_vars and "results" == out_vars[0]:
-        out_units.pop(0)
-        out_vars.pop(0)
+        out_units = out_units[1:]
+        out_vars = out_vars[1:]
 
     return in_vars, in_units, in_vars_to_dict, out_vars, out_units
 
-- 
2.43.0


From 9d87943abb1475483414ff5763df4d5ca27ba7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 11/27] fix: compute finite difference weights anew only when
 they are not known

Any error while reading the table, a failed allocation for example, made
central_diff_weights replace the tabulated weights by slightly different ones.
---
 fluids/numerics/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 1a4e140..ac18070 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -805,10 +805,8 @@ central_diff_weights_precomputed = {
 def central_diff_weights(points, divisions=1):
     # Check the cache
     key = (divisions, points)
-    try:
+    if key in central_diff_weights_precomputed:
         return list(central_diff_weights_precomputed[key])
-    except Exception:
-        pass
 
     if points < divisions + 1:
         raise ValueError("Points < divisions + 1, cannot compute")
@@ -843,9 +841,9 @@ def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True,
 
     Support for vector value functions has also been added.
     """
-    try:
+    if (n, order) in central_diff_weights_precomputed:
         weights = central_diff_weights_precomputed[(n, order)]
-    except Exception:
+    else:
         if order < n + 1:
             raise ValueError
         if order % 2 == 0:
-- 
2.43.0


From ee4e58a04e872e9dd00016fc56dfccc28276fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 12/27] fix: load the NRLMSISE-00 package before its submodules

Importing fluids.nrlmsise00.nrlmsise_00 first takes the import lock of the
submodule and then waits for the package, which another thread may be
loading while it waits for the submodule: the interpreter then breaks the
deadlock by failing one of the imports. After a load of the package which
was interrupted, the submodules are still known to the interpreter and the
package is never loaded, so that all_submodules raises AttributeError.
---
 fluids/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluids/__init__.py b/fluids/__init__.py
index 1210fbe..1bfd522 100644
--- a/fluids/__init__.py
+++ b/fluids/__init__.py
@@ -153,6 +153,7 @@ if not numerics.is_micropython: # type: ignore
         raise AttributeError(f"module {__name__} has no attribute {name}")
 
 def all_submodules(with_numerics=True):
+    import fluids.nrlmsise00
     import fluids.nrlmsise00.nrlmsise_00
     import fluids.nrlmsise00.nrlmsise_00_data
     import fluids.nrlmsise00.nrlmsise_00_header
-- 
2.43.0


From fcd525eed1486a73ecf8944121323eb164e05b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:25 +0000
Subject: [PATCH 13/27] fix: solar_position_loop wrote past the result array
 for sst and esd

solar_position_numba allocates three rows with sst and one with esd, but the
compiled loop always wrote six: heap corruption. Write what was asked for.
---
 fluids/optional/spa.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fluids/optional/spa.py b/fluids/optional/spa.py
index b1ab2bd..1922578 100644
--- a/fluids/optional/spa.py
+++ b/fluids/optional/spa.py
@@ -1041,6 +1041,9 @@ if IS_NUMBA:
             jce = julian_ephemeris_century(jde)
             jme = julian_ephemeris_millennium(jce)
             R = heliocentric_radius_vector(jme)
+            if esd:
+                out[0, i] = R
+                continue
             L = heliocentric_longitude(jme)
             B = heliocentric_latitude(jme)
 
@@ -1062,11 +1065,11 @@ if IS_NUMBA:
             v = apparent_sidereal_time(v0, delta_psi, epsilon)
             alpha = geocentric_sun_right_ascension(lamd, epsilon, beta)
             delta = geocentric_sun_declination(lamd, epsilon, beta)
-#                if sst:
-#                    out[0, i] = v
-#                    out[1, i] = alpha
-#                    out[2, i] = delta
-#                    continue
+            if sst:
+                out[0, i] = v
+                out[1, i] = alpha
+                out[2, i] = delta
+                continue
             m = sun_mean_longitude(jme)
             eot = equation_of_time(m, alpha, delta_psi, epsilon)
             H = local_hour_angle(v, lon, alpha)
-- 
2.43.0


From 5cb5ad983c5b99316a22f16f15a3d11f9bf3ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 14/27] fix: keep the threaded solar position driver out of
 numba compilation

fluids.numba compiled solar_position_numba itself, which splits arrays and
starts threads, so that every call of it failed to compile. Only the loop
it runs in the threads can be compiled, and is.
---
 fluids/numba.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/numba.py b/fluids/numba.py
index 15f5eb3..c3534e3 100644
--- a/fluids/numba.py
+++ b/fluids/numba.py
@@ -441,7 +441,8 @@ def transform_dataypes_module(SUBMOD):
 
 #nopython = set(['Clamond'])
 skip = set()
-total_skip = set()
+# starts threads: stays in Python, around a compiled loop
+total_skip = {"solar_position_numba"}
 skip_cache = {"secant", "brenth", "py_solve"}
 bad_names = {"__file__", "__name__", "__package__", "__cached__", "solve"}
 
@@ -610,7 +611,7 @@ def transform_module(normal, __funcs, replaced, vec=False, blacklist=frozenset([
         for name in names:
             obj = getattr(SUBMOD, name)
             if isinstance(obj, types.FunctionType):
-                if name not in total_skip and name not in blacklist:
+                if (vec or name not in total_skip) and name not in blacklist:
                     SUBMOD.__dict__[name] = obj = conv_fun(cache=(caching and name not in cache_blacklist), **extra_args)(obj)
                     numba_funcs.append(obj)
                 else:
-- 
2.43.0


From cc0e908a0b0d6983bad074982a4f41b799590e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:13 +0000
Subject: [PATCH 15/27] fix: liquid_jet_pump returned NaN or sign-flipped
 pressures when no solution exists

With P5 unknown the result of the closed form equations was returned
without a check: an infeasible specification gave a NaN flow rate, or a
negative pressure whose sign was dropped, instead of the ValueError
raised by every other combination of unknowns.
---
 fluids/jet_pump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index d8d66f3..6e7ffbe 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -561,6 +561,9 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
                                d_mixing=vals["d_mixing"], Qs=vals["Qs"], Qp=vals["Qp"], P2=vals["P2"],
                                P1=vals["P1"], P5=None,
                                nozzle_retracted=nozzle_retracted, d_diffuser=d_diffuser)["P5"]
+        # No flow rate or pressure satisfies the equations if one comes out as NaN or negative
+        if not all(vals[v] >= 0.0 for v in unknown_vars):
+            raise ValueError("Could not solve")
         # Compute the remaining parameters
         obj_err([vals[unknown_vars[0]], vals[unknown_vars[1]]])
         return vals
-- 
2.43.0


From 7842611bf58124b438275eeb44afae726dff450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 16/27] fix: system solvers took a not-a-number residual for
 convergence

A residual norm of NaN is not greater than the tolerance, so newton_system,
newton_minimize and the fixed point solvers returned the point as solved;
fixed_point_anderson compared its last point with itself after maxiter.
---
 fluids/numerics/__init__.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index ac18070..85581ed 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3712,14 +3712,14 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         # if not jac_also:  # numba: delete
         #     j = jac(x, *args)  # numba: delete
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
 #        raise UnconvergedError("Failed to converge; maxiter (%d) reached, value=%s" %(maxiter, x))
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
 #            raise UnconvergedError("Failed to converge; maxiter (%d) reached, value=%s" %(maxiter, x))
             raise UnconvergedError("Failed to converge")
     if with_point: # numba: delete
@@ -3767,9 +3767,9 @@ def newton_minimize(f, x0, jac, hess, xtol=None, ytol=None, maxiter=100, damping
         if ytol is not None and err(j) < ytol:
             break
 
-    if xtol is not None and norm2(j) > xtol:
+    if xtol is not None and not norm2(j) <= xtol:
         raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={x} ")
-    if ytol is not None and err(j) > ytol:
+    if ytol is not None and not err(j) <= ytol:
         raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={x} ")
 
     return x, iter
@@ -3940,13 +3940,13 @@ def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
 
 
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4004,13 +4004,13 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4107,13 +4107,13 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4778,10 +4778,9 @@ def fixed_point_anderson(
         x = x_acc
 
     # Check final convergence
-    x_err = max(abs((a - b) / abs(b)) for a, b in zip(x_acc, x))
-    if xtol is not None and x_err > xtol:
+    if xtol is not None and not x_err <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {x_err}")
-    if ytol is not None and err1 > ytol:
+    if ytol is not None and not err1 <= ytol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {err1}")
 
     return x, iteration
@@ -4904,9 +4903,9 @@ def fixed_point_anderson_residual(
 
         x = x_new
 
-    if xtol is not None and err1 > xtol:
+    if xtol is not None and not err1 <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations")
-    if ytol is not None and err1 > ytol:
+    if ytol is not None and not err1 <= ytol:
         raise ValueError(f"Failed to converge after {maxiter} iterations")
 
     return x, iteration
-- 
2.43.0


From 2e45ac68a973a616034b8efcfd1dc0ea18699241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 17/27] fix: newton_system with_point returned two values when
 already converged

---
 fluids/numerics/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 85581ed..5538818 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3589,6 +3589,10 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         err0 += abs(v)
 
     if xtol is None and (ytol is not None and err0 < ytol):
+        if with_point: # numba: delete
+            if not jac_also: # numba: delete
+                j = jac(x0, *args) # numba: delete
+            return x0, 0, fcur, j # numba: delete
         return x0, 0
 
 
-- 
2.43.0


From 43b7f28585f2ccf88dcebb7c191086fef9f0a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 18/27] fix: newton_system line search continued from points
 which were not evaluated

A trial whose evaluation raised left the next point paired with the residual of
another trial; when every trial raised, the error of the function was replaced
by UnboundLocalError.
---
 fluids/numerics/__init__.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 5538818..7a05e8e 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3614,33 +3614,44 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
             else:# numba: delete
                 raise e# numba: delete
 #        dx = solve_func(j, -fcur) # numba: uncomment
+        fnew = None # numba: delete
         for factor in factors:
             # print(factor)
             mult = factor*damping
             if damping_func is None:
-#                xnew = x + dx*mult # numba: uncomment
-                xnew = [xi + dxi*mult for xi, dxi in zip(x, dx)] # numba: delete
+#                xtrial = x + dx*mult # numba: uncomment
+                xtrial = [xi + dxi*mult for xi, dxi in zip(x, dx)] # numba: delete
             else:
-                xnew = damping_func(x, dx, damping*factor, *args)
+                xtrial = damping_func(x, dx, damping*factor, *args)
             try: # numba: delete
                 if jac_also: # numba: delete
-                    fnew, jnew = f(xnew, *args) # numba: delete
-                    jac_updated = True # numba: delete
+                    ftrial, jtrial = f(xtrial, *args) # numba: delete
                 else: # numba: delete
-                    fnew = f(xnew, *args)  # numba: delete
+                    ftrial = f(xtrial, *args)  # numba: delete
                 # print(xnew, 'xnew')
                 # print(fnew, 'fnew')
                 do_next = False # numba: delete
                 if check_numbers: # numba: delete
-                    for v in fnew: # numba: delete
+                    for v in ftrial: # numba: delete
                         if isinf(v) or isnan(v): # numba: delete
                             do_next = True # numba: delete
                 if do_next and factor != factors[-1]:# numba: delete
                     # print('math error, trying next point')
                     continue# numba: delete
-            except Exception: # numba: delete
+            except Exception as e: # numba: delete
                 # print(f'Line search calculation with point failed') # numba: delete
+                if fnew is None and factor == factors[-1]: # numba: delete
+                    # No trial point could be evaluated, there is nothing to continue from
+                    raise e # numba: delete
                 continue # numba: delete
+            # Only a point which was evaluated can be the next point
+            xnew, fnew = xtrial, ftrial # numba: delete
+            if jac_also: # numba: delete
+                jnew = jtrial # numba: delete
+                jac_updated = True # numba: delete
+            else: # numba: delete
+                jac_updated = False # numba: delete
+#            xnew = xtrial # numba: uncomment
 #            fnew, jnew = f(xnew, *args) # numba: uncomment
             err_new = 0.0
             for v in fnew:
@@ -3686,7 +3697,7 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Completed line search without reducing the objective function error, cannot proceed")
 
         fcur = fnew
-        if err_new >= err0:
+        if not err_new < err0:
             # edge case, didn't make any progress but keep going
             if require_progress:
                 raise ValueError("Completed line search without reducing the objective function error, cannot proceed")
-- 
2.43.0


From 747aaac3529ec155b72f9009329fc6cbe3f15bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 19/27] fix: nelder_mead evaluated its initial simplex outside
 the bounds

Also accept an upper bound without a lower bound.
---
 fluids/numerics/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 7a05e8e..f83ece4 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5457,7 +5457,7 @@ else:
     quad = lazy_quad
 
 def bounds_clip_naive(x, low, high):
-    N = len(low)
+    N = len(x)
     if low is not None:
         for i in range(N):
             if x[i] < low[i]:
@@ -5525,6 +5525,8 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
 
     for k in range(N + 1):
+        if has_bounds:
+            sim[k] = bounds_clip_naive(sim[k], low, high)
         fsim[k] = func(sim[k])
 
 #     print(sim, fsim)
-- 
2.43.0


From 1784cbc93e0436539989f04167cc315d0d06d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 20/27] fix: best_bounding_bounds compared the wrong value for
 the upper bound

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f83ece4..208712c 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2629,7 +2629,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From 7620a44f74b2e37c0e8e17601fbf3ee59f511181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 21/27] fix: broyden2 returned unconverged points as solutions

---
 fluids/numerics/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 208712c..12e2b62 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3920,6 +3920,8 @@ def broyden2(xs, fun, jac, xtol=1e-7, maxiter=100, jac_has_fun=False,
         for fi in fcur:
             err += abs(fi)
 
+    if not err <= xtol:
+        raise UnconvergedError("Failed to converge")
     return xs, iter
 
 def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
-- 
2.43.0


From 5c769ce6a26fa17a2b38b771cb5a8453949850bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 22/27] fix: secant returned unevaluated midpoints as converged
 and left the bounds

Having met ytol and then bisected, the midpoint is not a refinement of the point
which met ytol; an additional guess skipped for being out of bounds was still
used as the next point.
---
 fluids/numerics/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 12e2b62..f13f6a6 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2900,26 +2900,28 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
             p = high
 
         # After computing new point
+        bisected = False
         if bisection and a is not None and b is not None:
             if not (a < p < b) or (b < p < a):
                 # print('Bisecting')
                 p = 0.5*(a + b)
+                bisected = True
         # Check the exit conditions
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
             if abs(q1) < ytol and (not require_xtol or abs(p0 - p1) <= abs(xtol*p0)):
 #            if abs(p0 - p1) <= abs(xtol*p0) and abs(q1) < ytol:
-                if require_eval:
+                if require_eval or bisected:
                     return p1
                 return p
         elif xtol is not None:
             if abs(p0 - p1) <= abs(xtol*p0) and not (p0 == p1 and (p0 == low or p0 == high)):
-                if require_eval:
+                if require_eval or bisected:
                     return p1
                 return p
         elif ytol is not None:
             if abs(q1) < ytol:
-                if require_eval:
+                if require_eval or bisected:
                     return p1
                 return p
 
@@ -2948,9 +2950,10 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                 if additional_guesses and not did_additional_guesses:
                     # print('Converged to points with a slope of zero, attempting to bisect the problem...')
                     for guess_factor in secant_bisection_factors:
-                        p = x0*guess_factor*additional_guess_scale
-                        if (low is not None and p < low) or (high is not None and p > high):
+                        guess = x0*guess_factor*additional_guess_scale
+                        if (low is not None and guess < low) or (high is not None and guess > high):
                             continue
+                        p = guess
                         temp_q = func(p, *args, **kwargs)
                         # print(f'Did not bisect the problem at x={p}')
                         if not (isnan(q1) or isinf(q1)) and temp_q*q0 < 0.0:
-- 
2.43.0


From acf16e771d46c512abd8081f673aba573f9d1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 23/27] fix: newton took a step cut short by a bound for
 convergence

Also do not return a bisection midpoint in place of the point that met ytol.
---
 fluids/numerics/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f13f6a6..8e27395 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3293,6 +3293,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
             else:
                 p = p0 - halley_step
 
+        bisected = False
         if bisection and a is not None and b is not None:
             if ((not (a < p < b) and not (b < p < a)) or it > 40):
                 # Arbitrary switch to bisection if we should have converged by now.
@@ -3301,10 +3302,12 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
 #                    if p < a:
                 # print('bisecting')
                 p = 0.5*(a + b)
+                bisected = True
 #                else:
 #                    if p > b:
 #                        p = 0.5*(a + b)
 
+        p_unbounded = p
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
@@ -3330,17 +3333,17 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
             ytol_met = abs(fval) <= ytol
             xtol_met = abs(p - p0) <= abs(xtol*p) # Has to be less or equal to for the case of zero!
             if (xtol_met and ytol_met) or (not require_xtol and ytol_met):
-                if require_eval:
+                if require_eval or bisected:
                     return p0
                 return p
         elif xtol is not None:
-            if abs(p - p0) < abs(xtol*p):
-                if require_eval:
+            if abs(p_unbounded - p0) < abs(xtol*p_unbounded): # the step is not small because a bound cut it
+                if require_eval or bisected:
                     return p0
                 return p
         elif ytol is not None:
             if abs(fval) < ytol:
-                if require_eval:
+                if require_eval or bisected:
                     return p0
                 return p
         fval0, fval1, fval2, fval3 = fval, fval0, fval1, fval2
-- 
2.43.0


From 8aae21f88c2d46ed4c97b75ac9a5909149176eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 24/27] fix: halley returned points that are not roots

With a zero derivative and no ytol, with a step cut short by a bound, with a
value that is not finite; with no ytol at a bound it raised TypeError.
---
 fluids/numerics/__init__.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 8e27395..15411ab 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3370,8 +3370,10 @@ def halley(func, x0, args=(), maxiter=100,
         fval, fder, fder2 = func(p0, *args)
         if fval == 0.0:
             return p0 # Cannot continue or already finished
+        elif isnan(fval) or isinf(fval):
+            raise UnconvergedError(f"Cannot continue - math error in function value on iteration {it}, guess={p0:f}, value={fval:f}")
         elif fder == 0.0:
-            if ytol is None or abs(fval) < ytol:
+            if ytol is not None and abs(fval) < ytol:
                 return p0
             else:
                 raise UnconvergedError(f"Derivative became zero; maxiter ({maxiter}) reached, value={p0:f} ")
@@ -3399,14 +3401,17 @@ def halley(func, x0, args=(), maxiter=100,
             else:
                 p = p0 - step2
 
+        bisected = False
         if bisection and a is not None and b is not None:
             if (not (a < p < b) and not (b < p < a)):
                 p = 0.5*(a + b)
+                bisected = True
 
+        p_unbounded = p
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return low
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3415,7 +3420,7 @@ def halley(func, x0, args=(), maxiter=100,
         if high is not None and p > high:
             hit_high += 1
             if p0 == high and hit_high > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return high
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3429,17 +3434,17 @@ def halley(func, x0, args=(), maxiter=100,
             if ytol is not None and xtol is not None:
                 # Meet both tolerance - new value is under ytol, and old value
                 if abs(p - p0) < abs(xtol*p) and abs(fval) < ytol:
-                    if require_eval:
+                    if require_eval or bisected:
                         return p0
                     return p
             elif xtol is not None:
-                if abs(p - p0) < abs(xtol*p):
-                    if require_eval:
+                if abs(p_unbounded - p0) < abs(xtol*p_unbounded): # the step is not small because a bound cut it
+                    if require_eval or bisected:
                         return p0
                     return p
             elif ytol is not None:
                 if abs(fval) < ytol:
-                    if require_eval:
+                    if require_eval or bisected:
                         return p0
                     return p
 
-- 
2.43.0


From e94069f972ce620e156ef322bd0e2dd008e7bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 25/27] fix: newton took an infinite step for one within xtol

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 15411ab..bf9c0dd 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3331,7 +3331,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
             ytol_met = abs(fval) <= ytol
-            xtol_met = abs(p - p0) <= abs(xtol*p) # Has to be less or equal to for the case of zero!
+            xtol_met = abs(p - p0) <= abs(xtol*p) and not isinf(p) # Has to be less or equal to for the case of zero!
             if (xtol_met and ytol_met) or (not require_xtol and ytol_met):
                 if require_eval or bisected:
                     return p0
-- 
2.43.0


From a880c5bfffe05881a4fd7574caebc6f522609d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 26/27] fix: brenth stepped outside its bracket while waiting
 for ytol

---
 fluids/numerics/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index bf9c0dd..542fa9e 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2794,6 +2794,8 @@ def brenth(f, xa, xb, args=(),
         fpre = fcur
         if abs(scur) > delta:
             xcur += scur
+        elif abs(sbis) < delta:
+            xcur += sbis # only ytol is not met yet; a step of delta could leave the bracket
         else:
             if sbis > 0.0:
                 xcur += delta
-- 
2.43.0


From 790d621596b18c6260860cb2fb1c0e036f5d01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 27/27] fix: secant, newton and halley returned not-a-number
 where no next point exists

---
 fluids/numerics/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 542fa9e..6b43033 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2872,6 +2872,8 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
             # For the check, we will require a significant difference in result magnitude
             if not (isnan(q1) or isinf(q1)) and abs(q1/q0-1.0) > 1e-10:
                 break
+        if isnan(q1) or isinf(q1):
+            raise UnconvergedError("Bad function evaluation on second starting point", iterations=0, point=p1, err=q1)
 
     did_additional_guesses = False
 
@@ -2908,22 +2910,23 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                 # print('Bisecting')
                 p = 0.5*(a + b)
                 bisected = True
+        no_next = isnan(p) or isinf(p) # p1 may have converged, but there is no point to follow it
         # Check the exit conditions
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
             if abs(q1) < ytol and (not require_xtol or abs(p0 - p1) <= abs(xtol*p0)):
 #            if abs(p0 - p1) <= abs(xtol*p0) and abs(q1) < ytol:
-                if require_eval or bisected:
+                if require_eval or bisected or no_next:
                     return p1
                 return p
         elif xtol is not None:
             if abs(p0 - p1) <= abs(xtol*p0) and not (p0 == p1 and (p0 == low or p0 == high)):
-                if require_eval or bisected:
+                if require_eval or bisected or no_next:
                     return p1
                 return p
         elif ytol is not None:
             if abs(q1) < ytol:
-                if require_eval or bisected:
+                if require_eval or bisected or no_next:
                     return p1
                 return p
 
@@ -3330,12 +3333,13 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
 
         # p0 is last point (fval at that point), p is new (unknown fval)
         it += 1
+        no_next = isnan(p) or isinf(p) # p0 may have converged, but there is no point to follow it
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
             ytol_met = abs(fval) <= ytol
-            xtol_met = abs(p - p0) <= abs(xtol*p) and not isinf(p) # Has to be less or equal to for the case of zero!
+            xtol_met = abs(p - p0) <= abs(xtol*p) and not no_next # Has to be less or equal to for the case of zero!
             if (xtol_met and ytol_met) or (not require_xtol and ytol_met):
-                if require_eval or bisected:
+                if require_eval or bisected or no_next:
                     return p0
                 return p
         elif xtol is not None:
@@ -3345,7 +3349,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
                 return p
         elif ytol is not None:
             if abs(fval) < ytol:
-                if require_eval or bisected:
+                if require_eval or bisected or no_next:
                     return p0
                 return p
         fval0, fval1, fval2, fval3 = fval, fval0, fval1, fval2
@@ -3446,7 +3450,7 @@ def halley(func, x0, args=(), maxiter=100,
                     return p
             elif ytol is not None:
                 if abs(fval) < ytol:
-                    if require_eval or bisected:
+                    if require_eval or bisected or isnan(p) or isinf(p):
                         return p0
                     return p
 
-- 
2.43.0

