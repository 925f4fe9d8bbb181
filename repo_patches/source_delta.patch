From 92e7faafaff2a14437a408560f2507df3422ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 01/50] fix: uniform cartesian randoms return their points and
 span the x range

randoms_1d returned an undefined name and randoms_2d/3d used the lower x bound as the upper one.
---
 magpie/randoms/cart.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From 0ed2c65411e2f9aa453b6ec3aa0836b0f7e6bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 02/50] fix: random_prob_draw never draws an item of
 probability zero

random_sample covers [0, 1), so the draw u=0 selected items with prob=0.
---
 magpie/randoms/subsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/subsample.py b/magpie/randoms/subsample.py
index 9f970cc..1a8b32d 100644
--- a/magpie/randoms/subsample.py
+++ b/magpie/randoms/subsample.py
@@ -56,7 +56,7 @@ def random_prob_draw(sample, prob, size=None):
     """
     u_r = np.random.random_sample(len(sample))
     if size is None:
-        cond = np.where(u_r <= prob)[0]
+        cond = np.where(u_r < prob)[0]
         randsamp = sample[cond]
         randsamp = shuffle(randsamp)
     else:
-- 
2.43.0


From bc543e9ac81082e13a93a4c7dd8c8d248e0231ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 03/50] fix: rotate_polar rotates the angles it is given

It ignored phi and failed for every input.
---
 magpie/coords/polar.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..d659ceb 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,11 +18,7 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
-    rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
-    rot_phi[cond] += 2.*np.pi
+    rot_phi = (phi + rotate) % (2.*np.pi)
     return rot_phi
 
 
-- 
2.43.0


From 9259cfec425e248d705230cfee4c90ef903d2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 04/50] fix: rotate_polar_grid interpolates towards the shifted
 cell

The two interpolation weights were swapped, the wrapped row read an already
overwritten row, and shifts below one cell overwrote the caller's array.
---
 magpie/coords/polar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index d659ceb..4ea0d1e 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -50,11 +50,12 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+        f_polar_rot[:] = f_polar
+    f_polar_first = np.copy(f_polar_rot[0])
+    f_polar_rot[:-1] = (1.-w_shift)*f_polar_rot[:-1] + w_shift*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
-    if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
+    if np.isclose(pedges[-1] - pedges[0], 2.*np.pi):
+        f_polar_rot[-1] = (1.-w_shift)*f_polar_rot[-1] + w_shift*f_polar_first
     else:
-        f_polar_rot[-1] *= w_shift
+        f_polar_rot[-1] *= 1.-w_shift
     return f_polar_rot
-- 
2.43.0


From 981aea13dd37ad95dc5fdd8c803e78d76db4f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 05/50] fix: ring remappers rotate their polar grids

rotate_polar called the angle rotation with the arguments of the grid rotation.
---
 magpie/coords/__init__.py      | 1 +
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..7f023a0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..3c45f8c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From 6dffdf16aa266a6470b4fb334305ad23e852839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 06/50] fix: usphere_phi_shift leaves its input array alone

The in-place shift also changed the caller's array through usphere_shift and
usphere_spin.
---
 magpie/coords/usphere.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..f3964f8 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,9 +100,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)[0]
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 3f11d34a45ac527c4ca1d4270603a46da5c02afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 07/50] fix: usphere_phi_shift wraps only the angles that need
 it in 2D arrays

---
 magpie/coords/usphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index f3964f8..31c9b02 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -102,9 +102,9 @@ def usphere_phi_shift(phi, dphi):
     # shift phi
     phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
-        condition = np.where(phi_new > 2.*np.pi)[0]
+        condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-        condition = np.where(phi_new < 0.)[0]
+        condition = np.where(phi_new < 0.)
         phi_new[condition] += 2.*np.pi
     # scalar case
     else:
-- 
2.43.0


From be997b8c9b28da0a881096288afc7e36b7bd5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 08/50] fix: usphere_phi_shift accepts a full turn

usphere_spin documents alpha within [0, 2pi] and usphere_shift longitudes within
[0, 2pi], both of which can ask for a shift of exactly 2pi.
---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 31c9b02..8ba505e 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -97,7 +97,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From ccb68fb0b087cf939e3f4bde64df1a8efdead30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 09/50] fix: usphere_rotate between two labels of the same
 point

At a pole, or for longitudes 0 and 2pi, the rotation axis was 0/0.
---
 magpie/coords/usphere.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 8ba505e..951b2a8 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -51,6 +51,10 @@ def usphere_rotate(phi, theta, phi_end, theta_end, phi_start=0.,
     # calculate other dummy variables (n, t, alpha, Rn, T, invT) to do the
     # rotation, see notes to see how these are determined.
     n = np.cross(u, v)
+    if np.sqrt(np.sum((u - v)**2.)) < 1e-12:
+        # the same point under different labels (e.g. at a pole), the rotation
+        # is the identity and any axis perpendicular to u will do
+        n = np.cross(u, np.eye(3)[np.argmin(abs(u))])
     n /= np.sqrt(np.sum(n**2.))
     t = np.cross(n, u)
     alpha = np.arctan2(v.dot(t), v.dot(u))
-- 
2.43.0


From 6e6383411eaf6de3ccdccdb7544bf4599afc09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 10/50] fix: cart2sphere handles arrays of any dimension like
 the other conversions

---
 magpie/coords/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 3401676..15ad38d 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -88,8 +88,8 @@ def cart2sphere(x, y, z, center=[0., 0., 0.]):
     else:
         condition = np.where(phi < 0.)
         phi[condition] += 2.*np.pi
-        theta = np.zeros(len(phi))
-        condition = np.where(r != 0.)[0]
+        theta = np.zeros(np.shape(phi))
+        condition = np.where(r != 0.)
         theta[condition] = np.arccos((z[condition]-center[2])/r[condition])
     return r, phi, theta
 
-- 
2.43.0


From aad065695a3ac0dae38a89af7db096f3ebc90f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 11/50] fix: HEALPix remappers call the renamed unit sphere
 helpers

sky_area and randoms_sky are now usphere_area and randoms_usphere.
---
 magpie/densegrid/heal2polar.py  | 2 +-
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 7f023a0..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3c45f8c..5edc1da 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 1d8e83d8624bb91e7b23cb946671e270ef35e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 12/50] fix: weighted HEALPix remaps accept a weight map of the
 right length

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..4d70df0 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -148,7 +148,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5edc1da..eb2e768 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -145,7 +145,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From 0bc0961e9a05bffe4f04941c0dd323adf88dcd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 13/50] fix: dense grid remaps rebin each axis by its own
 factor

The rows of the dense grid run along phi (y), so they are grouped by rebin_p
(rebin_y); unequal factors failed to reshape or mixed neighbouring cells.
---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..64ab32b 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..711d7f8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..b8c4bd6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..ab415f7 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From 78e9793f8dc5659236ba1df91b66cea56a49ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 14/50] fix: Heal2Ortho normalises by the summed weights

f_box is summed along both axes, so dividing by a mean over one of them scaled
every pixel by the rebin factor.
---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 711d7f8..22d9212 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -147,7 +147,7 @@ class Heal2Ortho:
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
         f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
-- 
2.43.0


From e68730563233109a8fe1c7d25897f01bc035803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 15/50] fix: Heal2Ortho.transform projects onto the sphere that
 was set up

It always used a unit sphere, so points did not line up with a map drawn for
another radius.
---
 magpie/densegrid/heal2ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 22d9212..93b96ea 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -182,9 +182,9 @@ class Heal2Ortho:
     def transform(self, phi, theta):
         """Transforms coordinates from the original Healpix coordinate system to the orthographic projection"""
         if np.isscalar(phi) == True:
-            r = 1.
+            r = self.radius
         else:
-            r = np.ones(len(phi))
+            r = self.radius*np.ones(len(phi))
         phi, theta = coords.usphere_shift(phi, theta, self.center[0], self.center[1], self.end_center[0], self.end_center[1])
         x, y, z = coords.sphere2cart(r, phi, theta)
         if np.isscalar(phi) == True:
-- 
2.43.0


From 03d510f8570508254783a59e2dcf5ca470b556cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 16/50] fix: dense Cube2Shell reads f in the layout of its own
 x3d, y3d, z3d

The coordinate cubes come from meshgrid and have the y-axis first, which the
Monte Carlo Cube2Shell and both Box2Ring classes follow.
---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e3c7918 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From 20a65938e09e686fd33c9e5ecac632b7b67bb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 17/50] fix: remap grids may have a single bin along an axis

The setups accept any positive number of bins but took the bin width from the
second bin centre.
---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 64ab32b..6a4133c 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e3c7918..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 93b96ea..144fb02 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index b8c4bd6..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index ab415f7..d2c8161 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..ce84e03 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..2e523b0 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 4d70df0..afe1cf5 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index eb2e768..d2aa7b3 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From 9106b85d62ef59401eeb94d4f97d6f070d823968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 18/50] fix: Monte Carlo weights keep one index array per
 target cell

np.array merged the per-cell arrays whenever they happened to have equal
lengths, which made remap fail or index with the wrong type.
---
 magpie/montecarlo/box2ring.py   | 24 +++++++++---------------
 magpie/montecarlo/cube2shell.py | 32 ++++++++++++--------------------
 magpie/montecarlo/heal2polar.py | 16 ++++++----------
 magpie/montecarlo/heal2ring.py  | 16 ++++++----------
 4 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ce84e03..f5f3201 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -208,13 +208,10 @@ class Box2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_xs = []
-        ind_ys = []
-        ind_ws = []
+        ind_xs = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ys = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.r2d), dtype=object)
         for i in range(0, len(self.r2d)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_ws = []
             for j in range(0, len(self.r2d[0])):
                 rmin, rmax = self.redges[j], self.redges[j+1]
                 pmin, pmax = self.pedges[i], self.pedges[i+1]
@@ -232,17 +229,14 @@ class Box2Ring:
                 ind_x = condition[1]
                 ind_y = condition[0]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 2e523b0..cf7d6c5 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -140,15 +140,11 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
-        ind_xs = []
-        ind_ys = []
-        ind_zs = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ys = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_zs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ws = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
         for i in range(0, len(self.rmid)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_zs = []
-            _ind_ws = []
             for j in range(0, hp.nside2npix(self.nside)):
                 pix = j
                 rmin, rmax = self.redges[i], self.redges[i+1]
@@ -162,20 +158,16 @@ class Cube2Shell:
                 ind_y = condition[0]
                 ind_z = condition[2]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_zs.append(ind_z)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_zs[i, j] = ind_z
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_zs = ind_zs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index afe1cf5..fe0936f 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -101,11 +101,9 @@ class Heal2Polar:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.x2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.x2d), dtype=object)
         for i in range(0, len(self.x2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.x2d[0])):
                 x_min, x_max = self.xedges[j], self.xedges[j+1]
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
@@ -119,14 +117,12 @@ class Heal2Polar:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index d2aa7b3..f3104af 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -99,11 +99,9 @@ class Heal2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.alpha2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.alpha2d), dtype=object)
         for i in range(0, len(self.alpha2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
@@ -116,14 +114,12 @@ class Heal2Ring:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From cb5e92ea5031b3332740b123c724a67e3daa31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 19/50] fix: Box2Ring.polar2radial leaves out cells beyond the
 box entirely

Partially covered cells were set to zero but still weighted, which pulled the
profile down, they went unnoticed unless some cell was fully outside, and the
mask was multiplied into the caller's weights.
---
 magpie/densegrid/box2ring.py  | 7 ++++---
 magpie/montecarlo/box2ring.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 6a4133c..65e4192 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -262,7 +262,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
@@ -270,9 +270,10 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.copy(w)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(f_polar))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index f5f3201..c88dc8c 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -348,7 +348,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
@@ -356,9 +356,10 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.copy(w)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(f_polar))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From fd1046d12921b52eb18b8c495833dc8d718e109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 20/50] fix: setting up a ring remapper again forgets areas and
 masks of the old grid

polar2radial kept the cell areas, the pixel area and the in-bound mask of the
first grid it saw.
---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 7 +++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 65e4192..2417235 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -116,6 +118,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2c8161..0f1b40b 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -49,6 +49,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -97,6 +98,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index c88dc8c..e7c0417 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -140,6 +142,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -191,6 +195,8 @@ class Box2Ring:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -237,6 +243,7 @@ class Box2Ring:
         self.ind_xs = ind_xs
         self.ind_ys = ind_ys
         self.ind_ws = ind_ws
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index f3104af..a5971be 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -82,6 +83,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
 
-- 
2.43.0


From ec99e878a7840368babf32e9a32a0a89fca04e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 21/50] fix: remap output cells just left of the input grid

For an output cell inside pixel -1 the pixel indices and weights were returned
uninitialised, so the remap read arbitrary memory.
---
 magpie/src/remap_utils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..809627a 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -263,7 +263,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
       end if
 
     end do
-  else if (pix1 .NE. -1) then
+  else
     do i = 1, pixlen
       pix(i) = pix1 + i-1
       if ((pix(i) .GE. 0) .AND. (pix(i) .LT. grid1)) then
-- 
2.43.0


From 2946236fadcd9463a9330365e842aa95211b8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 22/50] fix: grid2grid1D without boxsizeout keeps the box size

The documented default raised a TypeError.
---
 magpie/remap/grid2grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..5f38b7f 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -27,6 +27,9 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
         The remapped pixel values for the output 1D grid."""
     x1min = origin
     x1max = origin + boxsize
+    if boxsizeout is None:
+        boxsizeout = boxsize
+
     x2min = originout
     x2max = originout + boxsizeout
     f1shape = np.shape(f1)
-- 
2.43.0


From 7556ed3832d2813493d716707aa4a32a4a31465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 23/50] fix: grid2grid3D accepts a list of output grid
 divisions

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 5f38b7f..c705c80 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -174,7 +174,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From a8aa35ed56df70db41aef16e0e46d16f588b69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 24/50] fix: rebin_1d into a bin covering the whole range

The bin below the first edge was only dropped when the bin above the last edge
was not, so the last bin was counted twice.
---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..5d0accc 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -42,7 +42,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -96,7 +96,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -172,7 +172,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-- 
2.43.0


From 97d3850ae0245d67376612de2664fe12428e287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 25/50] fix: rebin_1d weights the last partly covered bin by
 its own width

The overlap was divided by the width of the bin before it.
---
 magpie/one_d/one_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 5d0accc..61bbe2e 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -50,7 +50,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         weights[index] = w
     return weights
 
@@ -104,7 +104,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         return np.sum(w*data[index])/np.sum(w)
 
 
-- 
2.43.0


From 1a6ef9446980ba5cabe4f9fbf8d775bace207bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 26/50] fix: rebin_1d_single_bin_weights indexes the bins
 around an edge

The weights were assigned one bin too far to the right, beyond the array at the
last edge.
---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 61bbe2e..98f084d 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -27,13 +27,13 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            weights[condition[0]-1] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            weights[condition[0]] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
         # To deal with edges
         elif condition[0] == 0:
             weights[condition[0]] = 1.
         elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
+            weights[condition[0]-1] = 1.
     else:
         # General case
         # Create weights equal to one
-- 
2.43.0


From ea8755ab3adf593a65fd60f16a0298004736961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 27/50] fix: rebin_1d errors use the overlaps of the rebinned
 data

The general case measured the partly covered bins from the wrong edges.
---
 magpie/one_d/one_d.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 98f084d..f8a7415 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -176,14 +176,14 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-        if index[0] != 0:
+        if condition[0] != 0:
             # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
+            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            length[0] = bin_edges[condition[0]] - bin_min
+        if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+            length[-1] = bin_max - bin_edges[condition[-1]]
         condition2 = np.where(length > 0.)[0]
         index = index[condition2]
         w = w[condition2]
-- 
2.43.0


From 9a33c0d5b007124e05ee5a9e03c86d19d82f86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 28/50] fix: weighted rebin_1d errors are normalised by the
 summed weights

Equal weights have to give the unweighted errors.
---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index f8a7415..e6c7c78 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -230,7 +230,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin_sigma(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From 83a8efe9d52df241db7e9e43f0badae87cf9f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 29/50] fix: PointOfView.reverse undoes the spin

usphere_spin takes angles within [0, 2pi], so the negative angle was refused.
---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..e2ebb78 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -103,7 +103,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi - self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From 7341add1db8ae761ca36115a10992702529ac695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 30/50] fix: HEALPix neighbours across the polar seams and the
 2pi wrap

One of the four polar seams was off by one pixel and the wrap missed the last
diagonal of the star index plane.
---
 magpie/pixel/healpix_index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..13903b8 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -303,9 +303,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1, jstar + 1]
     elif istar % nside == 0 and jstar + 1 - nside*(np.floor(istar/nside) + 1) > 0:
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside)),
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh > 9*nside-2)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From 65fcb241794e7be5279cb869f4838bce68a27a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 31/50] fix: healpix_ijs_neighbours keeps the i and j indices
 of a neighbour together

Removing duplicates from each index on its own lost which i belongs to which j.
---
 magpie/pixel/healpix_index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 13903b8..14287b4 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -352,8 +352,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    istar_neigh, jstar_neigh = np.unique([istar_neigh, jstar_neigh], axis=1)
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From d2143bc10eeee2b6530664bc588ba578fc51e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 32/50] fix: get_box hides a corner only if the box is in front
 of it

---
 magpie/pixel/basic_shapes.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/magpie/pixel/basic_shapes.py b/magpie/pixel/basic_shapes.py
index f8a175f..6be0bbc 100644
--- a/magpie/pixel/basic_shapes.py
+++ b/magpie/pixel/basic_shapes.py
@@ -160,17 +160,11 @@ def get_box(xmin, xmax, ymin, ymax, zmin, zmax, steps=120,
                             [xmax, ymin, zmin], [xmax, ymin, zmax],
                             [xmax, ymax, zmin], [xmax, ymax, zmax]])
         xc, yc, zc = corners[:, 0], corners[:, 1], corners[:, 2]
-        remove_corner = []
-        for i in range(0, len(corners)):
-            xx = np.linspace(0., 1., 100)*(xc[i] - center[0]) + center[0]
-            yy = np.linspace(0., 1., 100)*(yc[i] - center[1]) + center[1]
-            zz = np.linspace(0., 1., 100)*(zc[i] - center[2]) + center[2]
-            condition = np.where((xx > xmin) & (xx < xmax) & (yy > ymin) &
-                                 (yy < ymax) & (zz > zmin) & (zz < zmax))[0]
-            if len(condition) == 0:
-                remove_corner.append(False)
-            else:
-                remove_corner.append(True)
+        # a corner is hidden if the line of sight reaches it through the box
+        hidden = ((center[0] - xc)*(xmin + xmax - 2.*xc) > 0.) & \
+                 ((center[1] - yc)*(ymin + ymax - 2.*yc) > 0.) & \
+                 ((center[2] - zc)*(zmin + zmax - 2.*zc) > 0.)
+        remove_corner = hidden.tolist()
         xnew = []
         ynew = []
         znew = []
-- 
2.43.0


From 3cd9b4912d146458d51e87dbff407f4e75d9aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 33/50] fix: dense Cube2Shell loses no point between two
 periodic images

---
 magpie/densegrid/cube2shell.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 9a003b9..eea2fdf 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -139,17 +139,16 @@ class Cube2Shell:
             pix = np.arange(hp.nside2npix(self.nside*self.rebin_shell))
             theta, phi = hp.pix2ang(self.nside*self.rebin_shell, pix)
             r = np.ones(len(phi))*self.rebin_rmid[i]
+            # Cells are found once, about the center, and then shifted by whole boxes,
+            # so that no point is lost to rounding between two periodic images.
+            x, y, z = coords.sphere2cart(r, phi, theta, center=self.center)
+            xind0 = np.floor((x - self.xedges[0]) / self.dx).astype(int)
+            yind0 = np.floor((y - self.yedges[0]) / self.dy).astype(int)
+            zind0 = np.floor((z - self.zedges[0]) / self.dz).astype(int)
             for j in range(0, len(self.centers)):
-                x, y, z = coords.sphere2cart(r, phi, theta, center=self.centers[j])
-                x -= self.xedges[0]
-                y -= self.yedges[0]
-                z -= self.zedges[0]
-                xind = x / self.dx
-                yind = y / self.dy
-                zind = z / self.dz
-                xind = np.floor(xind).astype(int)
-                yind = np.floor(yind).astype(int)
-                zind = np.floor(zind).astype(int)
+                xind = xind0 + int(np.rint((self.centers[j][0] - self.center[0]) / self.dx))
+                yind = yind0 + int(np.rint((self.centers[j][1] - self.center[1]) / self.dy))
+                zind = zind0 + int(np.rint((self.centers[j][2] - self.center[2]) / self.dz))
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
                 f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
-- 
2.43.0


From a8c9e2b3635f31e51daf9e7d17ee4fc8178b6905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 34/50] fix: rebin_1d takes integer data with integer weights

---
 magpie/one_d/one_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index e6c7c78..5579a7f 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -224,13 +224,13 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
         data_new = np.array([_rebin_1d_single_bin(bin_edges, data, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     else:
         data_new = np.array([_rebin_1d_single_bin(bin_edges, data*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-        data_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+        data_new = data_new/np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     if sigma is not None:
         if w is None:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new = sigma_new/np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From 616f6ab5e992411f04b3e8d88f7b3dad8c04ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 35/50] fix: usphere_phi_shift takes integer angles and shifts

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 951b2a8..98f18ed 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -104,7 +104,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    phi_new = phi + dphi
+    phi_new = phi + float(dphi)
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 1449800131849d48e8497d8f6e4b100b2083aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 36/50] fix: rebin_1d lets NaN of a bin that is only touched
 into the new bin

---
 magpie/one_d/one_d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 5579a7f..0b780d9 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -82,6 +82,11 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
             w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
             w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            # A bin that is only touched does not contribute, whatever its value is.
+            if w1 == 0.:
+                return data[condition[0]]
+            if w2 == 0.:
+                return data[condition[0]-1]
             return (w1*data[condition[0]-1] + w2*data[condition[0]])/(w1+w2)
         # To deal with edges
         elif condition[0] == 0:
@@ -105,6 +110,9 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
             w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+        # A bin that is only touched does not contribute, whatever its value is.
+        index = index[w > 0.]
+        w = w[w > 0.]
         return np.sum(w*data[index])/np.sum(w)
 
 
-- 
2.43.0


From 4665ed8a8ea0306a7dae3f16068c946d3c779ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 37/50] fix: grid2grid multiplies the next cell by zero, which
 spreads NaN

---
 magpie/src/remap_utils.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 809627a..2c745dd 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -271,6 +271,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
           weights(i) = 1.
         else
           weights(i) = 0.
+          pix(i) = -1
         end if
       else
         weights(i) = 0.
-- 
2.43.0


From 6a94901466f928c92d4e8c653a9a008c39ea10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 38/50] fix: rotating a polar grid by whole cells spreads NaN
 of the next cell

---
 magpie/coords/polar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 4ea0d1e..221901f 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -52,6 +52,9 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
     else:
         f_polar_rot[:] = f_polar
     f_polar_first = np.copy(f_polar_rot[0])
+    if w_shift == 0.:
+        # a shift by whole cells, there is nothing to interpolate
+        return f_polar_rot
     f_polar_rot[:-1] = (1.-w_shift)*f_polar_rot[:-1] + w_shift*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if np.isclose(pedges[-1] - pedges[0], 2.*np.pi):
-- 
2.43.0


From 968099e6badb24b5db01c656ff246c7913dea94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 39/50] fix: an impossible centre or spin is refused before the
 remapper changes

---
 magpie/densegrid/heal2ortho.py | 2 ++
 magpie/densegrid/heal2polar.py | 3 +++
 magpie/densegrid/heal2ring.py  | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 144fb02..95dbfe9 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -84,6 +84,8 @@ class Heal2Ortho:
         if y_grid is None:
             y_grid = x_grid
         assert len(center) == 2, "center list must have length 2."
+        assert center[0] >= 0. and center[0] <= 2.*np.pi, "center phi must lie within [0, 2pi]."
+        assert center[1] >= 0. and center[1] <= np.pi, "center theta must lie within [0, pi]."
         # compute grid info
         self.xedges = np.linspace(-x_length/2., x_length/2., x_grid+1)
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 2a5ff2b..d8c587b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -89,6 +89,9 @@ class Heal2Polar:
         else:
             assert y_grid > 0, "y_grid must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        assert center[0] >= 0. and center[0] <= 2.*np.pi, "center phi must lie within [0, 2pi]."
+        assert center[1] >= 0. and center[1] <= np.pi, "center theta must lie within [0, pi]."
+        assert alpha >= 0. and alpha <= 2.*np.pi, "alpha must lie within [0, 2pi]."
         # compute grid info
         self.xedges = np.linspace(-x_length/2., x_length/2., x_grid+1)
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 0f1b40b..5d8c3d4 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -91,6 +91,9 @@ class Heal2Ring:
         assert beta_max <= 2.*np.pi, "beta_max must be smaller of equal to 2pi."
         assert num_beta > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        assert center[0] >= 0. and center[0] <= 2.*np.pi, "center phi must lie within [0, 2pi]."
+        assert center[1] >= 0. and center[1] <= np.pi, "center theta must lie within [0, pi]."
+        assert beta_shift >= 0. and beta_shift <= 2.*np.pi, "beta_shift must lie within [0, 2pi]."
         self.alpha_edges = np.linspace(alpha_min, alpha_max, num_alpha+1)
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
-- 
2.43.0


From fc39415bc3c4414467970653061e4d7e6b511da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 40/50] fix: a cube without cells along z is refused before the
 remapper changes

---
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/montecarlo/cube2shell.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index eea2fdf..7a03c32 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index cf7d6c5..f90bf65 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
-- 
2.43.0


From 1d90963dcc20766bd31edcce7e256079ea2c8bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 41/50] fix: outlines are drawn from the shapes of the pixel
 package

---
 magpie/plots/ortho.py  | 2 +-
 magpie/plots/shapes.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 7c9352e..a90a844 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -341,7 +341,7 @@ class PlotOrtho:
             _t1, _t2 = theta_min, theta_max
             theta_min = np.pi/2. - _t2
             theta_max = np.pi/2. - _t1
-        phi_box, theta_box = shapes.get_box(phi_min, phi_max, theta_min, theta_max, divisions=divisions)
+        phi_box, theta_box = pixel.get_square(phi_min, phi_max, theta_min, theta_max, steps=4*divisions)
         x, y = self.heal2ortho.transform(phi_box, theta_box)
         if ax is None:
             plt.plot(x, y, **kwargs)
diff --git a/magpie/plots/shapes.py b/magpie/plots/shapes.py
index b7509f8..9c7a054 100644
--- a/magpie/plots/shapes.py
+++ b/magpie/plots/shapes.py
@@ -22,7 +22,7 @@ def plot_box(x_min, x_max, y_min, y_max, ax=None, divisions=100, **kwargs):
     divisions : int, optional
         Divisions in each line segment.
     """
-    x, y = shapes.get_box(x_min, x_max, y_min, y_max, divisions=divisions)
+    x, y = pixel.get_square(x_min, x_max, y_min, y_max, steps=4*divisions)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
@@ -43,7 +43,7 @@ def plot_circle(radius=1., center=[0., 0.], length=1000, ax=None, **kwargs):
     ax : class, optional
         Axis to plot on.
     """
-    x, y = shapes.get_circle(radius, center=center, length=length)
+    x, y = pixel.get_arc(radius, center=center, steps=length)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
-- 
2.43.0


From 909357ef64eaf9743300e777b1eccefe1e090b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 42/50] fix: labels on the sphere lose digits when decimals are
 asked for

---
 magpie/plots/ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index a90a844..299c5ef 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -138,7 +138,7 @@ class PlotOrtho:
         if onsphere == True:
             for ii in range(0, len(phi_grid)):
                 phi_val = phi_grid[ii]
-                phi_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(phi_val), decimals=decimals))[:-2]
+                phi_str = r'$ %.*f ^{\circ}$' % (decimals, np.rad2deg(phi_val))
                 theta_val = zeropoint[1]
                 phi_val -= np.deg2rad(shift[0])
                 x, y = self.heal2ortho.transform(phi_val, theta_val)
@@ -161,7 +161,7 @@ class PlotOrtho:
                 theta_val = theta_grid[ii]
                 if lonlat == True:
                     theta_val = np.pi/2. - theta_val
-                theta_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(theta_val), decimals=decimals))[:-2]
+                theta_str = r'$ %.*f ^{\circ}$' % (decimals, np.rad2deg(theta_val))
                 theta_val = theta_grid[ii]
                 phi_val = zeropoint[0]
                 theta_val -= np.deg2rad(shift[1])
-- 
2.43.0


From 2ef4447f3e53018ea9076a799c9c7fd57ed6941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 43/50] fix: axis labels of the orthographic view cannot be
 drawn

---
 magpie/plots/ortho.py | 181 ++++++++++++++++--------------------------
 1 file changed, 67 insertions(+), 114 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 299c5ef..86f255b 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -1,6 +1,5 @@
 import numpy as np
 import matplotlib.pylab as plt
-import scipy.interpolate as interpolate
 
 from . import shapes as plot_shapes
 from .. import coords
@@ -94,6 +93,65 @@ class PlotOrtho:
                 ax.plot(x, y, color=color, linestyle=linestyle, **kwargs)
 
 
+    def _get_sphere_coords(self, x, y):
+        """Returns the coordinates on the sphere of points in the orthographic
+        projection, points outside of the sphere are NaN.
+
+        Parameters
+        ----------
+        x, y : array
+            Coordinates in the orthographic projection.
+
+        Returns
+        -------
+        phi, theta : array
+            Coordinates on the sphere.
+        """
+        phi, theta = np.full(len(x), np.nan), np.full(len(x), np.nan)
+        z = coords.ortho2cart(x, y, r=self.heal2ortho.radius, fill_value=np.nan)
+        condition = np.where(np.isfinite(z))[0]
+        if len(condition) > 0:
+            _, _phi, _theta = coords.cart2sphere(x[condition], y[condition], z[condition])
+            phi[condition], theta[condition] \
+                = coords.usphere_shift(_phi, _theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1],
+                                       self.heal2ortho.center[0], self.heal2ortho.center[1])
+        return phi, theta
+
+
+    def _get_axis_ticks(self, axis, angle, angle_grid):
+        """Finds where an angle takes the values of a grid along an axis.
+
+        Parameters
+        ----------
+        axis : array
+            Positions along the axis.
+        angle : array
+            The angle at each position.
+        angle_grid : array
+            Values of the angle to find.
+
+        Returns
+        -------
+        ticks, values : array
+            Positions found and the values of the angle there.
+        """
+        ticks, values = [], []
+        for i in range(0, len(axis)-1):
+            # the shorter way around, so that the range does not break at 2pi
+            step = (angle[i+1] - angle[i] + np.pi) % (2.*np.pi) - np.pi
+            if np.isfinite(step) == False or step == 0.:
+                continue
+            for value in angle_grid:
+                if step > 0.:
+                    fraction = ((value - angle[i]) % (2.*np.pi))/step
+                else:
+                    fraction = ((angle[i] - value) % (2.*np.pi))/(-step)
+                if fraction < 1.:
+                    ticks.append(axis[i] + fraction*(axis[i+1] - axis[i]))
+                    values.append(value)
+        return np.array(ticks), np.array(values)
+
+
     def plot_labels(self, dtheta=15., dphi=None, decimals=0, lonlat=False, zeropoint=[0., np.pi/2.],
                     shift=[0., 0.], ax=None, onsphere=False, userotation=False, ha='left', va='top',
                     interpaxis=100, **kwargs):
@@ -188,123 +246,18 @@ class PlotOrtho:
             # Get Y-axis
             y = np.linspace(self.heal2ortho.yedges[0], self.heal2ortho.yedges[-1], interpaxis)
             x = self.heal2ortho.xedges[-1]*np.ones(interpaxis)
-            z = np.sqrt(self.heal2ortho.radius**2. - (x**2. + y**2.))
-            rr, phi, theta = coords.cart2sphere(x, y, z)
-            phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
-
-            if np.argmax(theta) != 0 and np.argmax(theta) != len(theta)-1:
-                split = True
-                inbetween = 'max'
-            elif np.argmin(theta) != 0 and np.argmin(theta) != len(theta)-1:
-                split = True
-                inbetween = 'min'
-            else:
-                split = False
-                inbetween = None
-
-            if split == False:
-                condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
-                f = interpolate.interp1d(theta, y)
-                y_ticks = f(theta_grid[condition])
-                y_labels = coords.polar2lonlat(theta_grid[condition])
-            else:
-                if inbetween == 'min':
-
-                    y1, theta1 = y[0:np.argmin(theta)], theta[0:np.argmin(theta)]
-
-                    condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
-                    f = interpolate.interp1d(theta1, y1)
-                    y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
-
-                    y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
-
-                    condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
-                    f = interpolate.interp1d(theta2, y2)
-                    y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
-
-                elif inbetween == 'max':
-
-                    y1, theta1 = y[0:np.argmax(theta)], theta[0:np.argmax(theta)]
-
-                    condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
-                    f = interpolate.interp1d(theta1, y1)
-                    y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
-
-                    y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
-
-                    condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
-                    f = interpolate.interp1d(theta2, y2)
-                    y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
-                y_ticks = np.concatenate([y_ticks1, y_ticks2])
-                y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
-            y_labels = np.round(y_labels, decimals=0).astype('int')
+            phi, theta = self._get_sphere_coords(x, y)
+            y_ticks, y_labels = self._get_axis_ticks(y, theta, theta_grid)
+            if lonlat == True:
+                y_labels = coords.sphere2lonlat(y_labels)
+            y_labels = ['%.*f' % (decimals, label) for label in np.rad2deg(y_labels)]
 
             # Get X-axis
             x = np.linspace(self.heal2ortho.xedges[0], self.heal2ortho.xedges[-1], interpaxis)
             y = self.heal2ortho.yedges[0]*np.ones(interpaxis)
-            z = np.sqrt(self.heal2ortho.radius**2. - (x**2. + y**2.))
-            rr, phi, theta = coords.cart2sphere(x, y, z)
-            phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
-
-            if np.argmax(phi) != 0 and np.argmax(phi) != len(phi)-1:
-                split = True
-                inbetween = 'max'
-            elif np.argmin(phi) != 0 and np.argmin(phi) != len(phi)-1:
-                split = True
-                inbetween = 'min'
-            else:
-                split = False
-                inbetween = None
-
-            phi_grid = np.linspace(0., 2.*np.pi, int(360./20.)+1)[:-1]
-
-            if split == False:
-                condition = np.where((phi_grid >= phi.min()) & (phi_grid <= phi.max()))[0]
-
-                f = interpolate.interp1d(phi, x)
-                x_ticks = f(phi_grid[condition])
-                x_labels = np.rad2deg(phi_grid[condition])
-
-            else:
-                if inbetween == 'min':
-
-                    x1, phi1 = x[0:np.argmin(phi)], phi[0:np.argmin(phi)]
-
-                    condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
-                    f = interpolate.interp1d(phi1, x1)
-                    x_ticks1 = f(phi_grid[condition])
-                    x_labels1 = phi_grid[condition]
-
-                    x2, phi2 = x[np.argmin(phi):-1], phi[np.argmin(phi):-1]
-
-                    condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
-                    f = interpolate.interp1d(phi2, x2)
-                    x_ticks2 = f(phi_grid[condition])
-                    x_labels2 = phi_grid[condition]
-
-                elif inbetween == 'max':
-
-                    x1, phi1 = x[0:np.argmax(phi)], phi[0:np.argmax(phi)]
-
-                    condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
-                    f = interpolate.interp1d(phi1, x1)
-                    x_ticks1 = f(phi_grid[condition])
-                    x_labels1 = phi_grid[condition]
-
-                    x2, phi2 = x[np.argmax(phi):-1], phi[np.argmax(phi):-1]
-
-                    condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
-                    f = interpolate.interp1d(phi2, x2)
-                    x_ticks2 = f(phi_grid[condition])
-                    x_labels2 = phi_grid[condition]
-
-                x_ticks = np.concatenate([x_ticks1, x_ticks2])
-                x_labels = np.rad2deg(np.concatenate([x_labels1, x_labels2]))
-            x_labels = np.round(x_labels, decimals=0).astype('int')
+            phi, theta = self._get_sphere_coords(x, y)
+            x_ticks, x_labels = self._get_axis_ticks(x, phi, phi_grid)
+            x_labels = ['%.*f' % (decimals, label) for label in np.rad2deg(x_labels)]
 
             if ax is None:
                 plt.xticks(ticks=x_ticks, labels=x_labels, **kwargs)
-- 
2.43.0


From 32eb0c80ae5a343cb044c8b1e5e201ca5b7079b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 44/50] fix: labels turn to NaN degrees where the north pole is
 hidden

---
 magpie/plots/ortho.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 86f255b..525957c 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -192,7 +192,12 @@ class PlotOrtho:
         phi_grid = np.linspace(0., 2.*np.pi, nlines + 1)[:-1]
         nlines = int(180/dtheta)
         theta_grid = np.linspace(0., np.pi, nlines + 1)[1:-1]
+        # labels point to the north pole, or away from the south pole if it is the visible one
         xc, yc = self.heal2ortho.transform(0., 0.)
+        rotation_offset = 270.
+        if np.isfinite(xc) == False:
+            xc, yc = self.heal2ortho.transform(0., np.pi)
+            rotation_offset = 90.
         if onsphere == True:
             for ii in range(0, len(phi_grid)):
                 phi_val = phi_grid[ii]
@@ -200,7 +205,7 @@ class PlotOrtho:
                 theta_val = zeropoint[1]
                 phi_val -= np.deg2rad(shift[0])
                 x, y = self.heal2ortho.transform(phi_val, theta_val)
-                rotation_angle = 270. - np.rad2deg(np.arctan2((y-yc), (x-xc)))
+                rotation_angle = rotation_offset - np.rad2deg(np.arctan2((y-yc), (x-xc)))
                 #x += shiftfractionphi[0]*(self.heal2ortho.xedges[-1] - self.heal2ortho.xedges[0])
                 #y += shiftfractionphi[1]*(self.heal2ortho.yedges[-1] - self.heal2ortho.yedges[0])
                 if x >= self.heal2ortho.xedges[0] and x <= self.heal2ortho.xedges[-1] and y >= self.heal2ortho.yedges[0] and y <= self.heal2ortho.yedges[-1]:
@@ -228,7 +233,7 @@ class PlotOrtho:
                 elif phi_val >= 2.*np.pi:
                     phi_val -= 2.*np.pi
                 x, y = self.heal2ortho.transform(phi_val, theta_val)
-                rotation_angle = 270. - np.rad2deg(np.arctan2((y-yc), (x-xc)))
+                rotation_angle = rotation_offset - np.rad2deg(np.arctan2((y-yc), (x-xc)))
                 #x += shiftfractiontheta[0]*(self.heal2ortho.xedges[-1] - self.heal2ortho.xedges[0])
                 #y += shiftfractiontheta[1]*(self.heal2ortho.yedges[-1] - self.heal2ortho.yedges[0])
                 if x >= self.heal2ortho.xedges[0] and x <= self.heal2ortho.xedges[-1] and y >= self.heal2ortho.yedges[0] and y <= self.heal2ortho.yedges[-1]:
-- 
2.43.0


From 57563ec7b937cb2a5c5f0a4e4e023f1ec50c8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 45/50] fix: remappers and viewpoints keep their own center,
 changing the list afterwards does not move them

---
 magpie/densegrid/box2ring.py    | 2 +-
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 2 +-
 magpie/densegrid/heal2polar.py  | 2 +-
 magpie/densegrid/heal2ring.py   | 2 +-
 magpie/densegrid/pointofview.py | 4 ++--
 magpie/montecarlo/box2ring.py   | 4 ++--
 magpie/montecarlo/cube2shell.py | 4 ++--
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 10 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2417235..d23988c 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -120,7 +120,7 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
         self.mask_in_bound = None
-        self.center = center
+        self.center = list(center)
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
         self.rebin_p = rebin_p
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 7a03c32..c272c74 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -104,7 +104,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
-        self.center = center
+        self.center = list(center)
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
         centers = []
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 95dbfe9..5667b65 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -101,7 +101,7 @@ class Heal2Ortho:
         self.onsphere[condition] = np.nan
         self.z2d[condition] = 0.
 
-        self.center = center
+        self.center = list(center)
         self.rebin_x = rebin_x
         self.rebin_y = rebin_y
         self.rebin_xedges = np.linspace(self.xedges[0], self.xedges[-1], self.rebin_x*len(self.xmid) + 1)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d8c587b..252b010 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -100,7 +100,7 @@ class Heal2Polar:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
-        self.center = center
+        self.center = list(center)
         self.alpha = alpha
         self.rebin_x = rebin_x
         self.rebin_y = rebin_y
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 5d8c3d4..1eed1fd 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -102,7 +102,7 @@ class Heal2Ring:
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.area2d = None
-        self.center = center
+        self.center = list(center)
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
         self.rebin_beta = rebin_beta
diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e2ebb78..b4932db 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -31,8 +31,8 @@ class PointOfView:
         spin : float, optional
             rotate the perspective around the central point defined by point.
         """
-        self.camera  = camera
-        self.point   = point
+        self.camera  = list(camera)
+        self.point   = list(point)
         self.display = display
         _r, _phi, _theta = coords.cart2sphere(self.point[0], self.point[1], self.point[2], center=self.camera)
         self.phi_point_towards = _phi
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index e7c0417..d87ab57 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -144,7 +144,7 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
         self.mask_in_bound = None
-        self.center = center
+        self.center = list(center)
         self.phi_shift = phi_shift
 
 
@@ -197,7 +197,7 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
         self.mask_in_bound = None
-        self.center = center
+        self.center = list(center)
         self.phi_shift = phi_shift
 
 
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index f90bf65..f81287e 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -93,7 +93,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
-        self.center = center
+        self.center = list(center)
 
 
     def setup_polar_log(self, rmin, rmax, numr, nside, center=[0., 0., 0.], addzero=True):
@@ -126,7 +126,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
         self.nside = nside
-        self.center = center
+        self.center = list(center)
 
 
     def get_weights(self, mc_size=100, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index fe0936f..292529f 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -84,7 +84,7 @@ class Heal2Polar:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
-        self.center = center
+        self.center = list(center)
         self.alpha = alpha
 
 
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index a5971be..ba28444 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -84,7 +84,7 @@ class Heal2Ring:
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.area2d = None
-        self.center = center
+        self.center = list(center)
         self.beta_shift = beta_shift
 
 
-- 
2.43.0


From 7a551ee8d9b40a0ccff7a9618bc8ddc17e4a01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 46/50] fix: weights times values no longer overflow for small
 integer types

---
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ortho.py | 2 +-
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/one_d/one_d.py          | 4 ++--
 magpie/polar/polar2radial.py   | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index d23988c..fe3c297 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -193,7 +193,7 @@ class Box2Ring:
         if w is None:
             f_polar = self._remap(f)
         else:
-            f_polar = self._remap(f*w)/self._remap(w)
+            f_polar = self._remap(f*np.asanyarray(w, dtype=float))/self._remap(w)
         return f_polar
 
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 5667b65..aa4dfe4 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -177,7 +177,7 @@ class Heal2Ortho:
         if w is None:
             f_box = self._remap(f)
         else:
-            f_box = self._remap(f*w)/self._remap(w)
+            f_box = self._remap(f*np.asanyarray(w, dtype=float))/self._remap(w)
         return f_box
 
 
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 252b010..732e96e 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -172,7 +172,7 @@ class Heal2Polar:
         if w is None:
             f_box = self._remap(f)
         else:
-            f_box = self._remap(f*w)/self._remap(w)
+            f_box = self._remap(f*np.asanyarray(w, dtype=float))/self._remap(w)
         return f_box
 
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 1eed1fd..24b2b75 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -173,7 +173,7 @@ class Heal2Ring:
         if w is None:
             f_polar = self._remap(f)
         else:
-            f_polar = self._remap(f*w)/self._remap(w)
+            f_polar = self._remap(f*np.asanyarray(w, dtype=float))/self._remap(w)
         return f_polar
 
 
diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 0b780d9..a4f2a0b 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -231,13 +231,13 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
     if w is None:
         data_new = np.array([_rebin_1d_single_bin(bin_edges, data, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     else:
-        data_new = np.array([_rebin_1d_single_bin(bin_edges, data*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+        data_new = np.array([_rebin_1d_single_bin(bin_edges, data*np.asanyarray(w, dtype=float), new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         data_new = data_new/np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     if sigma is not None:
         if w is None:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
-            sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*np.asanyarray(w, dtype=float), new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
             sigma_new = sigma_new/np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
diff --git a/magpie/polar/polar2radial.py b/magpie/polar/polar2radial.py
index c865062..dad7c9e 100644
--- a/magpie/polar/polar2radial.py
+++ b/magpie/polar/polar2radial.py
@@ -70,10 +70,10 @@ def polar2radial(f, area2d, pixarea, sigma=None, w=None):
             sigma_radial = np.sqrt(np.sum((pixarea/area2d)*sigma**2., axis=0)/(float(len(f))**2.))
     else:
         # with weights, calculate weighted mean
-        f_radial = np.sum(f*w, axis=0)/np.sum(w, axis=0)
+        f_radial = np.sum(f*np.asanyarray(w, dtype=float), axis=0)/np.sum(w, axis=0)
         if sigma is not None:
             # standard weighted error with corrections for pixel size
-            sigma_radial = np.sqrt(np.sum((pixarea/area2d)*(w*sigma)**2., axis=0)/(np.sum(w, axis=0)**2.))
+            sigma_radial = np.sqrt(np.sum((pixarea/area2d)*(np.asanyarray(w, dtype=float)*sigma)**2., axis=0)/(np.sum(w, axis=0)**2.))
     # returns results
     if sigma is not None:
         return f_radial, sigma_radial
-- 
2.43.0


From 69de0dd2cbb8ec6fa816a43e068f9c853933badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 47/50] fix: orthographic remap keeps non-finite pixels out of
 cells they do not cover

---
 magpie/densegrid/heal2ortho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index aa4dfe4..3d4ca09 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -145,6 +145,8 @@ class Heal2Ortho:
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
+        # points that are not on the sphere do not contribute, whatever their value is
+        f_box_highres[weights == 0.] = 0.
         f_box_highres *= weights
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
         f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
-- 
2.43.0


From 5b6d09cd7993bd50545f4a3edab211a82ecd37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 48/50] fix: radial profile of a ring remap set up in single
 precision is no longer masked everywhere

---
 magpie/densegrid/box2ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index fe3c297..c9d7780 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -161,7 +161,7 @@ class Box2Ring:
         yind = np.floor(yind).astype(int)
         condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)))
         f_polar_highres[condition] = f[yind[condition], xind[condition]]
-        rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
+        rbin_weights = np.asarray(self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2, dtype=float)
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
         f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
-- 
2.43.0


From 5f8bbd045352e17a5015b6c95ab2da4a1acdeabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 49/50] fix: errors of rebin_1d with integer bin edges no
 longer lose the parts of bins

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index a4f2a0b..57aa822 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -131,7 +131,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         Maximum edge for the new bin.
     """
     condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    lengths = bin_edges[1:] - bin_edges[:-1]
+    lengths = np.asarray(bin_edges[1:] - bin_edges[:-1], dtype=float)
     if len(condition) == 0:
         condition1 = np.where((bin_edges >= bin_min))[0]
         if len(condition1) != 0 and len(condition1) != len(bin_edges):
-- 
2.43.0


From 65b8dfd243d1e98a6f28eb8265ef543081995502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 50/50] fix: a radius given as a small integer no longer wraps
 in ortho2cart of a single point

---
 magpie/coords/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 15ad38d..c4fa02b 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -146,7 +146,7 @@ def ortho2cart(x, y, r=1., fill_value=np.nan):
     xy = x**2. + y**2.
     if np.isscalar(x) is True:
         if xy < r**2.:
-            z = np.sqrt(r**2 - xy)
+            z = np.sqrt(r**2. - xy)
         else:
             z = fill_value
     else:
-- 
2.43.0

