From d90dec8e42534490af712c4e901479ffcf5db0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 01/24] fix: veronis fails on every call with NumPy >= 2.4,
 which removed np.trapz

---
 neutralocean/label.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..d2d3205 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,9 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+
+    # Trapezoidal integration. (`np.trapz` was removed in NumPy 2.4)
+    return 0.5 * np.sum((y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From 7ff93cdcdafb535b71c874b4c231f1fca555e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 02/24] fix: out-of-bounds read (and write, for an empty cast)
 in diff_1d_samesize

---
 neutralocean/ppinterp/lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..b98b348 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,10 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    if d.size > 0:
+        d[-1] = np.nan
     return d
 
 
-- 
2.43.0


From 513a15b9835d9c2512a1068d5ae86bacdc2fe7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 03/24] fix: neutral_trajectory reads out of bounds when the
 first cast is land, and has p0 but no s, t when p0 is off the first cast

---
 neutralocean/traj.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..7bf2ed9 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -276,11 +276,13 @@ def neutral_trajectory(
         k, K = valid_range_1_two(Sc, Pc)
 
         if c == 0:
-            # Evaluate S and T on first cast at p0
-            Sppc = ppc_fn(Pc[k:K], Sc[k:K])
-            Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-            s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
-            p[0] = p0
+            # Evaluate S and T on first cast at p0, if that is possible
+            if K - k > 1:
+                Sppc = ppc_fn(Pc[k:K], Sc[k:K])
+                Tppc = ppc_fn(Pc[k:K], Tc[k:K])
+                s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
+            if np.isfinite(s[0]):
+                p[0] = p0
         else:
             # Make a neutral connection from previous bottle to the cast (S[c,:], T[c,:], P[c,:])
             s[c], t[c], p[c] = _ntp_bottle_to_cast(
-- 
2.43.0


From acbfd15a179cfcf25f6175b831fc8b7d24c49ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 04/24] fix: wetting tested a new link against the mixed layer
 of the cast it came from, not of the cast being wet

---
 neutralocean/bfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..f221f7e 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,9 +336,9 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
-                            # on the neighbouring cast is below the mixed layer.
+                            # on this dry cast is below the mixed layer.
                             p0 += p_
                             denom += 1
 
-- 
2.43.0


From bad655da6cb0bc9477315253a1ab949e950c6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 05/24] fix: potential_surf and anomaly_surf moved the surface
 to pin_p even though ref and isoval were given

---
 neutralocean/surface/isopycnal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..cace846 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    pinned = isoval is None  # pin_cast and pin_p are only used in this case
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
@@ -378,7 +379,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     timer = time()
     s, t, p = vertsolve(S, T, P, ref, isoval, TOL_P_SOLVER)
 
-    if pin_p is not None:  # pin_cast must also be valid
+    if pinned:  # pin_cast and pin_p must be valid
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-- 
2.43.0


From 6bda443528f8d958326090ea57b64325690162ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 06/24] fix: isopycnal surfaces counted the pinning cast as
 wet, with NaN s and t, when pin_p is off that cast

---
 neutralocean/surface/isopycnal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index cace846..ecef34b 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -383,12 +383,13 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-        p[n] = pin_p
         Sn, Tn, Pn = S[n], T[n], P[n]
         k, K = valid_range_1(Sn + Pn)  # Sn and Tn have same nan-structure
         Sppcn = ppc_fn(Pn[k:K], Sn[k:K])
         Tppcn = ppc_fn(Pn[k:K], Tn[k:K])
         s[n], t[n] = ppval_1_two(pin_p, Pn[k:K], Sppcn, Tppcn)
+        # Ensure s,t,p all have the same nan structure
+        p[n] = pin_p if np.isfinite(s[n]) else np.nan
 
     d = dict()
     d["ref"] = ref
-- 
2.43.0


From 3215bb5f95d7291c6a379940088e1c48f8023176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 07/24] fix: omega_surf dropped the last iteration from all
 diagnostics but e_MAV and e_RMS

---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..672edca 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -463,7 +463,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From b8b984cb7477bf357f5f594b3969572e3a6a57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 08/24] fix: pin_cast pinned another cast when a dict not in
 dimension order or on a decreasing coordinate, and failed as a list

---
 neutralocean/lib.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..dfcd09d 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -351,19 +351,35 @@ def _process_pin_cast(pin_cast, S):
         suitable for `S[pin_cast]` where S is an ndarray.
     If pinning cast is an int:
         wrap it into a 1-element tuple, so np.ravel_multi_index works
+    If pinning cast is a list:
+        convert it to a tuple, so it indexes one cast
     Otherwise, just return the input `pin_cast`.
     """
     # TODO: There must be a better way of doing this...
     # One issue is this always rounds one way, whereas a "nearest" neighbour
     # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        # Order by the dimensions of S, not by the order of keys in pin_cast
+        return tuple(
+            _coord_to_index(S.get_index(k), pin_cast[k])
+            for k in S.dims
+            if k in pin_cast
+        )
     elif isinstance(pin_cast, int):
         return (pin_cast,)
+    elif isinstance(pin_cast, list):
+        return tuple(pin_cast)
     else:
         return pin_cast
 
 
+def _coord_to_index(index, v):
+    # Exact label, as for `S.sel`, even if the coordinate is not increasing
+    if v in index:
+        return int(index.get_loc(v))
+    return int(index.searchsorted(v))
+
+
 def _process_eos(eos, grav=None, rho_c=None, need_s_t=False):
     # Process equation of state argument and make cache functions
 
-- 
2.43.0


From 8a05caa451fe64f302433761fd19a1f0b3be0477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 09/24] fix: grids without dist or distperp raised KeyError
 rather than taking them as 1.0, as documented

---
 neutralocean/ntp.py           | 9 +++++----
 neutralocean/surface/omega.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..6ec3ed4 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -108,8 +108,9 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
-
+    dist = grid.get("dist", 1.0)
+    distperp = grid.get("distperp", 1.0)
+    area = dist * distperp  # Area [m^2] centred on edges
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
     # L1 norm of vector [a_i], weighted by vector [w_i], is sum( w_i * |a_i| ) / sum( w_i )
@@ -124,8 +125,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 672edca..4cd6cb4 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = grid.get("distperp", 1.0) / grid.get("dist", 1.0)
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
-- 
2.43.0


From 6cb98dad6885a73bc896c7dded45551905f6b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 10/24] fix: tripolar grid rejected the documented padded
 (nj+1, ni+2) distance arrays

---
 neutralocean/grid/tripolar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..f91368b 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -145,12 +145,12 @@ def _build_edgedata(dims, data):
 
     nj, ni = dims
     v, u = data
+    if np.shape(v) == (nj + 1, ni + 2):
+        v = np.asarray(v)[:-1, 1:-1]
+    if np.shape(u) == (nj + 1, ni + 2):
+        u = np.asarray(u)[:-1, 1:-1]
     v = np.broadcast_to(v, dims)
     u = np.broadcast_to(u, dims)
-    if v.shape == (nj + 1, ni + 2):
-        v = v[:-1, 1:-1]
-    if u.shape == (nj + 1, ni + 2):
-        u = u[:-1, 1:-1]
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From 3800d0cbe4fba4b37181fe4dd040d42b2de76ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 11/24] fix: xgcm grid failed on every call with xgcm >= 0.10,
 which renamed and removed the arguments it used

---
 neutralocean/grid/xgcm.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..10dc5a9 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -224,11 +224,11 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
     coords = {"i": np.arange(n), "j": np.arange(n), tile: np.arange(nf)}
     grid = xgcm.Grid(
         xr.Dataset(None, coords),
-        periodic=False,
         face_connections=face_connections,
+        autoparse_metadata=False,
         coords={
-            "X": {"center": "i", "left": "i", "right": "i"},
-            "Y": {"center": "j", "left": "j", "right": "j"},
+            "X": {"center": "i"},
+            "Y": {"center": "j"},
         },
     )
 
@@ -252,8 +252,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -266,8 +266,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -285,8 +285,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -304,8 +304,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
-- 
2.43.0


From f8621910d0867cbd3e777623d1c827c6fcbcd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 12/24] fix: xgcm grid swapped the i and j edges' distances,
 and rejected the default scalar distances

---
 neutralocean/grid/xgcm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 10dc5a9..e09767c 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,15 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = np.broadcast_to(dxC, im1.shape).reshape(-1)
+    dist[N:] = np.broadcast_to(dyC, jm1.shape).reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    # dyG lives at same place as dxC, and dxG lives at same place as dyC
+    distperp[:N] = np.broadcast_to(dyG, im1.shape).reshape(-1)
+    distperp[N:] = np.broadcast_to(dxG, jm1.shape).reshape(-1)
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From 9dcf9509511ef54309aed57be5e17306f0321f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 13/24] fix: val_at lost singleton dimensions, failed with 1D T
 and int k, and wrote NaN into T for negative int k

---
 neutralocean/lib.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index dfcd09d..23fc0ad 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -184,18 +184,17 @@ def val_at(T, k):
     >>> val_at(Z, n_good - 1)  # Z doesn't have NaN structure, so use n_good from T as above
     array([[  nan, 1000.], [4500., 4500.], [4500., 4500.]])
     """
-    if isinstance(k, int) or T.ndim == 1:
+    if np.ndim(k) == 0 or T.ndim == 1:
         # select the k'th element along the last dimension of T
         Tk = T[..., k]
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1)[..., 0]
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-    # Set to NaN any place where k is negative
-    Tk[k < 0] = np.nan
-    return Tk
+    # Set to NaN any place where k is negative, without mutating T
+    return np.where(np.asarray(k) < 0, np.nan, Tk)
 
 
 def xr_to_np(S):
-- 
2.43.0


From d9627a135551bbceba8bd016c4360a83dc786ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 14/24] fix: xarray input whose vertical dimension has no
 coordinate raised ValueError

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 23fc0ad..5b6efb6 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -212,7 +212,7 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim, errors="ignore"), 0)
     else:
         return None
 
-- 
2.43.0


From 74bb54ec143ae76ef29ad9f8dbd5f4050746737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 15/24] fix: stabilize_ST left its input unchanged unless
 vert_dim was last and the data float64 and C contiguous

---
 neutralocean/stability.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..3043d38 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,10 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    # Views of the arrays to be mutated, with the vertical dimension last
+    S_, T_ = (
+        np.moveaxis(xr_to_np(X), _process_vert_dim(vert_dim, X), -1) for X in (S, T)
+    )
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -225,6 +229,10 @@ def stabilize_ST(S, T, P, eos, **kw):
                 ΔT = res.x[n:]
                 S[c][k:K] += ΔS
                 T[c][k:K] += ΔT
+
+                # S and T can be copies of the input: mutate the input itself
+                S_[c][k:K] = S[c][k:K]
+                T_[c][k:K] = T[c][k:K]
             else:
                 raise RuntimeError(f"Cast {c} stabilization failed.")
 
-- 
2.43.0


From 9d22a53a0bfb356b12c96ca3e8a7481ebd684451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 16/24] fix: graph grid failed on dist and distperp given as
 sparse matrices, as documented

---
 neutralocean/grid/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..a39c960 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -261,7 +261,12 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if issparse(A):
+        # scipy.linalg.issymmetric only accepts dense arrays
+        symmetric = A.shape[0] == A.shape[1] and (A != A.T).nnz == 0
+    else:
+        symmetric = issymmetric(A)
+    if symmetric:
         return triu(A)
     else:
         return A
-- 
2.43.0


From 0cf7e85a775b1e4996ab80056f42b1e15fa46cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 17/24] fix: veronis failed, rather than returning NaN, below
 the deepest bottle of a cast padded with NaN pressures

---
 neutralocean/label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index d2d3205..aaf6d6c 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -192,12 +192,13 @@ def pot_dens_1(p0, p_ref, P, Sppc, Tppc, eos):
 @nb.njit
 def _int_dlrpd_dz(p1, p0, P, Sppc, Tppc, dp, eos_s_t):
     # Integrate d(LRPD)/dz from p0 to p1 in 1 cast.
+    P_max = np.nanmax(P)  # P[-1] could be NaN, below the ocean floor
     if (
         np.isnan(p0 + p1 + P[0])
         or p0 < P[0]
-        or P[-1] < p0
+        or P_max < p0
         or p1 < P[0]
-        or P[-1] < p1
+        or P_max < p1
     ):
         return np.nan
 
-- 
2.43.0


From e5b6d0b6c86477c560ed104976f5b3419b18c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:58 +0000
Subject: [PATCH 18/24] fix: guess_to_bounds never returned for a NaN guess, so
 ntp_bottle_to_cast hung on a bottle with NaN pressure

---
 neutralocean/fzero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/fzero.py b/neutralocean/fzero.py
index 3f3b6a2..e3cc08b 100644
--- a/neutralocean/fzero.py
+++ b/neutralocean/fzero.py
@@ -178,6 +178,10 @@ def guess_to_bounds(f, x, A, B, args=()):
         Lower and upper bounds within which `f(x)` changes sign.
     """
 
+    # Protection against NaN, which would lead to an infinite loop below.
+    if np.isnan(x) or np.isnan(A) or np.isnan(B):
+        return (np.nan, np.nan)
+
     # Check value of f at bounds
     if f(A, *args) == 0.0:
         return (A, A)
-- 
2.43.0


From 99108be0483bfb5c51bced59bb9397bfea1aa6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:31 +0000
Subject: [PATCH 19/24] fix: omega_surf given an initial surface of int or
 float32 worked in that type, failing or losing precision

---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 4cd6cb4..6b3d963 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -331,7 +331,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
             )
         p_init = np.reshape(p_init, -1)  # now reshape to 1D
         pin_p = p_init[pin_c]
-        p = p_init.copy()
+        p = p_init.astype(np.float64)  # a copy, since this is mutated
 
         # Interpolate S and T onto the surface
         s, t = interp_two(p, P, S, T, 0)
-- 
2.43.0


From 451af41f954633a0d100128f8a0612e951b00ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 20/24] fix: pressure of a labelled surface kept attributes of
 salinity that pressure lacks, such as its long_name

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 5b6efb6..5d3738d 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -227,11 +227,11 @@ def _xrs_in(S, T, P, vert_dim):
         pxr = None
     else:
         pxr = sxr.copy()
+        pxr.attrs.clear()  # no attributes of S, e.g. its long_name
         try:
             pxr.attrs.update(P.attrs)
             pxr.name = P.name
         except:
-            pxr.attrs.clear()
             pxr.name = None
 
     return sxr, txr, pxr
-- 
2.43.0


From dacf4844589df293d2bbbd4fd5b00118c32a01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:32 +0000
Subject: [PATCH 21/24] fix: omega_surf rejected a mixed layer array that is
 not in native byte order, as read from netCDF

---
 neutralocean/surface/omega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 6b3d963..f193d03 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -252,7 +252,8 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         p_ml = np.full(surf_shape, -np.inf)
         # p_ml = np.broadcast_to(-np.inf, (ni, nj))  # DEV: Doesn't work with @numba.njit
     # Ensure p_ml is 1D array, in case it was given as a 2D array.
-    p_ml = np.reshape(p_ml, -1)
+    # numba needs its byte order to be native.
+    p_ml = np.reshape(np.asarray(p_ml, dtype=np.float64), -1)
 
     # Pre-calculate grid adjacency needed for Breadth First Search
     edges = grid["edges"]
-- 
2.43.0


From 5314307963b782aea35f0d007eda62be2749a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:15 +0000
Subject: [PATCH 22/24] fix: veronis failed at the only bottle of a cast padded
 with NaN pressures

---
 neutralocean/label.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index aaf6d6c..be10d41 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -1,7 +1,7 @@
 import numpy as np
 import numba as nb
 
-from .ppinterp import make_pp, ppval_1_two, pval
+from .ppinterp import make_pp, ppval_1_two, pval, valid_range_1
 from .lib import _process_eos
 
 
@@ -192,15 +192,18 @@ def pot_dens_1(p0, p_ref, P, Sppc, Tppc, eos):
 @nb.njit
 def _int_dlrpd_dz(p1, p0, P, Sppc, Tppc, dp, eos_s_t):
     # Integrate d(LRPD)/dz from p0 to p1 in 1 cast.
-    P_max = np.nanmax(P)  # P[-1] could be NaN, below the ocean floor
+    k, K = valid_range_1(P)  # P could be NaN below the ocean floor
     if (
-        np.isnan(p0 + p1 + P[0])
+        k > 0
+        or K < 2
+        or np.isnan(p0 + p1)
         or p0 < P[0]
-        or P_max < p0
+        or P[K - 1] < p0
         or p1 < P[0]
-        or P_max < p1
+        or P[K - 1] < p1
     ):
         return np.nan
+    P = P[0:K]
 
     if p1 >= p0:
         sgn = 1
-- 
2.43.0


From fc3a18825dda459cac0ff6eeeddd0f5bcf179650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 23/24] fix: casts of a given surface not connected to the
 pinning cast could not be wetted again

---
 neutralocean/bfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index f221f7e..bc56042 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -296,6 +296,10 @@ def bfs_conncomp1_wet_perim(
                 qT -= 1
                 wet_adj[n] = True
 
+    # Nodes still good are wet but beyond the connected component containing root.
+    # They will be dry, so are to be wetted when wetting reaches them.
+    wet_adj[good] = False
+
     # Set p to nan everywhere beyond the connected component containing root.
     good[:] = False
     for i in range(qt + 1):
-- 
2.43.0


From 9ae37a32882de7f37bf98fa5b77cdce7de57c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 24/24] fix: divergence failed when the last casts, or all of
 them, have no edges

---
 neutralocean/grid/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/tools.py b/neutralocean/grid/tools.py
index 664cbcb..67d4cef 100644
--- a/neutralocean/grid/tools.py
+++ b/neutralocean/grid/tools.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from neutralocean.lib import aggsum
 
 
@@ -14,7 +16,9 @@ def divergence(vector, edges, distperp=1.0, area=1.0):
     """
 
     a, b = edges
-    N = max(max(a), max(b)) + 1  # number of nodes
+    N = max(max(a, default=-1), max(b, default=-1)) + 1  # number of nodes
+    if np.ndim(area) > 0:
+        N = max(N, len(area))  # there can be nodes without edges
     e = vector * distperp
     divg = (aggsum(e, a, N) - aggsum(e, b, N)) / area
     return divg
-- 
2.43.0

