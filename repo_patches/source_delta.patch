From b2c509d2f8984f2ec20b483edfee9590cf086451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/80] fix: BBox inequality compares like corners

---
 pytracer/geometry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..ee79426 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,8 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not np.array_equal(self.pMin, other.pMin) or \
+		       not np.array_equal(self.pMax, other.pMax)
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From 957032c07f8e03a9a1846573c148a12a0ab859ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 02/80] fix: look_at maps the camera axes to world instead of
 the transpose

---
 pytracer/transform/__init__.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..54d7dbb 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -202,33 +202,33 @@ class Transform(object):
 		c2w[1][3] = pos.y
 		c2w[2][3] = pos.z
 
-		# c2w rotation
+		# c2w rotation, camera axes as columns
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[1][0] = xc.y
+		c2w[2][0] = xc.z
+		c2w[0][1] = yc.x
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[2][1] = yc.z
+		c2w[0][2] = zc.x
+		c2w[1][2] = zc.y
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[0][1] = xc.y
+		w2c[0][2] = xc.z
+		w2c[1][0] = yc.x
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[1][2] = yc.z
+		w2c[2][0] = zc.x
+		w2c[2][1] = zc.y
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From f7dbfce55bf79bb4166cde23513c53a7b7a4cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 03/80] fix: transforms carry the offset rays of a ray
 differential

---
 pytracer/transform/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 54d7dbb..be26c31 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,11 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			if r.has_differentials:
+				r.rxOrigin = self(r.rxOrigin)
+				r.ryOrigin = self(r.ryOrigin)
+				r.rxDirection = self(r.rxDirection)
+				r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From c6cc2e4422218a4b4a6ecd505e1c078789efe13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 04/80] fix: quaternion of a rotation matrix (trace of the
 rotation part, largest diagonal entry)

---
 pytracer/transform/quat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..74bfe62 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0:3, 0:3].trace()
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0:3, 0:3].trace()
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From 8c08c56b8a6ccfafb337ee3b2d52be5ab7ebab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 05/80] fix: motion bounds of a still transform apply it
 forwards unless the inverse is asked for

---
 pytracer/transform/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index be26c31..11b8846 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -324,7 +324,10 @@ class AnimatedTransform(object):
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
-			return self.startTransform.inverse()(b)
+			t = self.startTransform
+			if use_inv:
+				t = t.inverse()
+			return t(b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
-- 
2.43.0


From f8925f40a1ad85954fe6b4e0d14fd85dcaf19da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 06/80] fix: triangles index per-vertex data and sampled points
 by the mesh's vertex indices

---
 pytracer/shape/triangle.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..3112fd2 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,10 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			vi = self.mesh.vertexIndex
+			return [[self.mesh.uvs[2 * vi[self.v]], self.mesh.uvs[2 * vi[self.v] + 1]],
+			        [self.mesh.uvs[2 * vi[self.v + 1]], self.mesh.uvs[2 * vi[self.v + 1] + 1]],
+			        [self.mesh.uvs[2 * vi[self.v + 2]], self.mesh.uvs[2 * vi[self.v + 2] + 1]]]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
@@ -148,7 +149,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
@@ -322,7 +323,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
@@ -339,17 +340,18 @@ class Triangle(Shape):
 			b = [1. - b[0] - b[1], b[0], b[1]]
 
 		# compute shading tangents
+		vi = self.mesh.vertexIndex
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[vi[self.v]] +
+			                   b[1] * self.mesh.n[vi[self.v + 1]] +
+			                   b[2] * self.mesh.n[vi[self.v + 2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[vi[self.v]] +
+			                   b[1] * self.mesh.s[vi[self.v + 1]] +
+			                   b[2] * self.mesh.s[vi[self.v + 2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From ca2761b53492b6569998e768dd7c435d61db4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 07/80] fix: sphere samples uniform on the partial sphere, v in
 [0, 1], no debug output; cosine hemisphere from the concentric disk; cone
 sampling calls cos

---
 pytracer/montecarlo/utility.py |  7 +++----
 pytracer/shape/sphere.py       | 17 ++++++-----------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
@@ -218,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..5a78f90 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -44,16 +44,12 @@ class Sphere(Shape):
 		"""
 		account for partial sphere
 		"""
-		from pytracer.montecarlo import uniform_sample_sphere
-		v = uniform_sample_sphere(u1, u2)
+		# area is uniform in height and azimuth
+		z = self.zmin + u1 * (self.zmax - self.zmin)
+		r = np.sqrt(max(0., self.radius * self.radius - z * z))
+		phi = u2 * self.phiMax
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(r * np.cos(phi), r * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
@@ -187,7 +183,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -249,7 +245,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From ac71b4d8e87ed8f9124967a51b05c822ee8ee226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 08/80] fix: disk: samples uniform over the partial annulus
 with the disk's normal, parametric v and tangents of an annulus

---
 pytracer/shape/disk.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..0b84e85 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,12 +44,16 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * np.pi
+		phi *= self.phiMax * INV_2PI
+		ri2 = self.inner_radius * self.inner_radius
+		r = np.sqrt(ri2 + (x * x + y * y) * (self.radius * self.radius - ri2))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
@@ -92,15 +96,17 @@ class Disk(Shape):
 
 		# otherwise ray hits the disk
 		# initialize the differential structure
+		if phit.x == 0. and phit.y == 0.:
+			phit.x = EPS * self.radius
+		rhit = np.sqrt(phit.x * phit.x + phit.y * phit.y)
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		v = 1. - ((rhit - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(-phit.x / rhit, -phit.y / rhit, 0.)
+		dpdv *= self.radius - self.inner_radius
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From 831f08e132a0ebf81ef57cf786a823edf775412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 09/80] fix: cylinder can be instantiated and computes its
 height coordinate

---
 pytracer/shape/cylinder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..ecbe58d 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -106,7 +106,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -190,3 +190,10 @@ class Cylinder(Shape):
 
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
+
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
-- 
2.43.0


From 5144bb4444fbc5d6c5abed8355415637ae7cfcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 10/80] fix: world bound of a shape holds all eight corners of
 its object bound

---
 pytracer/shape/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..8f4e11e 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -61,7 +61,13 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		b = self.object_bound()
+		ret = geo.BBox()
+		for x in (b.pMin.x, b.pMax.x):
+			for y in (b.pMin.y, b.pMax.y):
+				for z in (b.pMin.z, b.pMax.z):
+					ret = ret.union(self.o2w(geo.Point(x, y, z)))
+		return ret
 
 	def can_intersect(self) -> bool:
 		return True
-- 
2.43.0


From 2e96dd9eabd4972b486f6028d029a41846ed1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 11/80] fix: BVH partition boundaries, leaves over coincident
 centroids, slab test for rays along an axis

---
 pytracer/aggregate/accelerator/bvh.py | 51 +++++++++++----------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..725243d 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -111,13 +111,13 @@ class BVH(Aggregate):
 		assert start <= end
 		i = start
 		k = end - 1
-		while i < k:
+		while i <= k:
 			if data[i].centroid[dim] < mid:
 				i += 1
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	@staticmethod
 	def _insertion_sort(data: ['BVH._BVHPrimitive'], start: INT, end: INT, dim: INT):
@@ -135,7 +135,7 @@ class BVH(Aggregate):
 		i = start
 		k = end - 1
 		diff = centroid_bounds.pMax[dim] - centroid_bounds.pMin[dim]
-		while i < k:
+		while i <= k:
 			b = INT(n_buckets * ((data[i].centroid[dim] - centroid_bounds.pMin[dim]) / diff))
 			if b == n_buckets:
 				b -= 1
@@ -147,7 +147,7 @@ class BVH(Aggregate):
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	def _recursive_build(self, data: ['BVH._BVHPrimitive'], segment: [UINT], ordered_prims: ['BVH._BVHPrimitive']):
 		"""Recursively build BVH, segment: [start, end, total]"""
@@ -260,7 +260,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
@@ -294,30 +294,19 @@ class BVH(Aggregate):
 	
 	@staticmethod
 	def _intersect_p(bounds: geo.BBox, ray: geo.Ray, inv_dir: geo.Vector, dir_neg: [bool]) -> bool:
-		# ray intersection against x and y slabs
-		tmin = (bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmax = (bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmin_y = (bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y
-		tmax_y = (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y
-		
-		if tmin > tmax_y or tmin_y > tmax:
-			return False
-		if tmin_y > tmin:
-			tmin = tmin_y
-		if tmax_y < tmax:
-			tmax = tmax_y
-		# z slab
-		tmin_z = (bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z
-		tmax_z = (bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z
-
-		if tmin > tmax_z or tmin_z > tmax:
-			return False
-		if tmin_z > tmin:
-			tmin = tmin_z
-		if tmax_z < tmax:
-			tmax = tmax_z
-	
-		return tmin < ray.maxt and tmax > ray.mint
+		tmin, tmax = ray.mint, ray.maxt
+		for axis in range(3):
+			# comparisons with NaN (origin on a slab the ray is parallel to) are False
+			near = (bounds[dir_neg[axis]][axis] - ray.o[axis]) * inv_dir[axis]
+			far = (bounds[1 - dir_neg[axis]][axis] - ray.o[axis]) * inv_dir[axis]
+			if near > tmin:
+				tmin = near
+			if far < tmax:
+				tmax = far
+			if tmin > tmax:
+				return False
+
+		return True
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		from pytracer.aggregate.accelerator.bvh import BVH
@@ -325,7 +314,7 @@ class BVH(Aggregate):
 			return False
 		hit = False
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		dir_neg = inv_dir < 0.
 		
 		todo_idx = 0
 		node_idx = 0
@@ -370,7 +359,7 @@ class BVH(Aggregate):
 			return False
 		origin = ray(ray.mint)
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		dir_neg = inv_dir < 0.
 
 		todo_idx = 0
 		node_idx = 0
-- 
2.43.0


From fec97514def94eb2a6607b358ebc302d6585134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 12/80] fix: list and grid aggregates report the nearest hit;
 grid traversal starts at the entry point and steps by whole cells

---
 pytracer/aggregate/aggregate.py | 52 ++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..2168798 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -78,17 +78,11 @@ class SimpleAggregate(Aggregate):
 
 		tmp = Intersection()
 		any_hit = False
-		mint = np.inf
 		for pr in self.primitives:
+			# a hit shortens the ray, so a later hit is closer
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
-				if ray.maxt < mint:
-					mint = ray.maxt
-					SimpleAggregate._copy_isect(tmp, isect)
+				SimpleAggregate._copy_isect(tmp, isect)
 
 		return any_hit
 
@@ -252,8 +246,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -264,17 +260,20 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
-		                 for axis in range(3)]
-		delta_t = self.width / ray.d
+		# never leave a slab the ray is parallel to
+		next_crossing = np.full(3, np.inf)
+		delta_t = np.full(3, np.inf)
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
-			if ray.d[axis] < 0:
+			if ray.d[axis] > 0:
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = self.width[axis] / ray.d[axis]
+			elif ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
-				delta_t[axis] *= -1
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = -self.width[axis] / ray.d[axis]
 				step[axis] = -1
 				out[axis] = -1
 
@@ -302,8 +301,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -314,17 +315,20 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
-		                 for axis in range(3)]
-		delta_t = self.width / ray.d
+		# never leave a slab the ray is parallel to
+		next_crossing = np.full(3, np.inf)
+		delta_t = np.full(3, np.inf)
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
-			if ray.d[axis] < 0:
+			if ray.d[axis] > 0:
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = self.width[axis] / ray.d[axis]
+			elif ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
-				delta_t[axis] *= -1
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = -self.width[axis] / ray.d[axis]
 				step[axis] = -1
 				out[axis] = -1
 
-- 
2.43.0


From c13bff7555d9c7a8e6749c6c4de34d155a8f0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 13/80] fix: transformed primitive can be instantiated, refined
 and printed

---
 pytracer/aggregate/primitive.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..9dfc024 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -176,11 +176,23 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return self.primitive.can_intersect()
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		r = []
+		self.primitive.refine(r)
+		for prim in r:
+			refined.append(TransformedPrimitive(prim, self.w2p))
+
+	# intersections refer to the primitive that was hit, not to its placement
+
+	def get_area_light(self):
+		return None
+
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return None
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return None
 
 
-- 
2.43.0


From 4126f7c94c4e963d3f0b6d95582c5128bb978831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 14/80] fix: vertical crop of a film is relative to its height

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From b6ee08746e9d33998720ddc81f8b704f017f67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 15/80] fix: image reading resamples in its own orientation and
 drops alpha; a cropped image is updated at its place

---
 pytracer/utility/imageio.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..1008283 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -30,18 +30,18 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	img = None
 	with PIL.Image.open(filename) as pic:
 		img = np.array(pic)
-		width, height, chn = np.shape(img) # note the order of height and width
-		if chn >= 4:
-			# desert alpha
-			img = img[:,:,0:3]
+		height, width, chn = np.shape(img)
 
 		# avoid expensive resizing in src.core.texture.MIPMap.__init__()
 		if (not util.is_pow_2(width)) or (not util.is_pow_2(height)):
 			# re-sample to power of 2
 			width = util.next_pow_2(width)
 			height = util.next_pow_2(height)
-			pic.resize((width, height))
-			img = np.array(pic)
+			img = np.array(pic.resize((width, height)))
+
+		if chn >= 4:
+			# desert alpha
+			img = img[:,:,0:3]
 
 	if img is not None:
 		return img
@@ -81,7 +81,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From 3bdd850c6d4abf6f19c5740db11d5e0f78ed1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:27 +0000
Subject: [PATCH 16/80] fix: camera ray differentials are the rays of the
 neighbouring pixels at the time of the sample; pinhole rays have unit
 direction

---
 pytracer/camera/camera.py     |  6 ++----
 pytracer/camera/projective.py | 22 +++-------------------
 2 files changed, 5 insertions(+), 23 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..4505ddb 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -54,15 +54,13 @@ class Camera(object, metaclass=ABCMeta):
 		# find ray shift along x
 		from pytracer.sampler import CameraSample
 		
-		xshift = sample.duplicate(1)[0]
-		xshift.imageX += 1
+		xshift = CameraSample(sample.imageX + 1, sample.imageY, sample.lens_u, sample.lens_v, sample.time)
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
-		yshift.imageY += 1
+		yshift = CameraSample(sample.imageX, sample.imageY + 1, sample.lens_u, sample.lens_v, sample.time)
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
 		rd.ryDirection = ry.d
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..92172fe 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,7 +29,7 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(pp - p)
+		d = geo.normalize(self.c2w.startTransform(pp - p))
 		p = self.c2w.startTransform(p)
 		return 1., geo.Ray(p, d)
 
@@ -110,22 +110,6 @@ class OrthoCamera(ProjectiveCamera):
 		ray = self.c2w(ray)
 		return [1., ray]
 
-	def generate_ray_differential(self, sample: 'CameraSample') -> [FLOAT, 'geo.RayDifferential']:
-		"""
-		Generate ray differential.
-		"""
-		wt, rd = self.generate_ray(sample)
-		rd = geo.RayDifferential.from_ray(rd)
-
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
-		rd.rxDirection = rd.ryDirection = rd.d
-		rd.has_differentials = True
-		rd = self.c2w(rd)
-
-		return [wt, rd]
-
 
 class PerspectiveCamera(ProjectiveCamera):
 	"""
@@ -225,9 +209,9 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = sample.time
-		ray = self.c2w(ray)
+		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
 		ray.has_differentials = True
+		ray = self.c2w(ray)
 
 		return [1., ray]
 
-- 
2.43.0


From d5db491059c92582c6531435ee0c28fb13817be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 17/80] fix: environment camera rays carry their time

---
 pytracer/camera/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..2bd04b8 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -39,5 +39,5 @@ class EnvironmentCamera(Camera):
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, time))
 		return [1., ray]
-- 
2.43.0


From f04e6942ead72bcf09ca338f1f883e2ee958f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 18/80] fix: camera rays are taken at the time of the sample,
 which the sampler has already spread over the shutter

---
 pytracer/camera/environment.py | 4 +---
 pytracer/camera/projective.py  | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 2bd04b8..c296803 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,13 +31,11 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
-
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
 		phi = 2 * np.pi * sample.imageX / self.film.xResolution
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, sample.time))
 		return [1., ray]
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 92172fe..aa59f89 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -155,7 +155,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -209,7 +209,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray.has_differentials = True
 		ray = self.c2w(ray)
 
-- 
2.43.0


From 05d7df37382687972f8937cf939d9593ed7445fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 19/80] fix: subwindows of a sampler tile its pixel range

---
 pytracer/sampler/sampler/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..65eae9f 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,10 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		x = np.array([x0 / nx, (x0 + 1) / nx])
+		y = np.array([y0 / ny, (y0 + 1) / ny])
+		return np.floor(np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
+		                                util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])).astype(INT)
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From bbe611ee9d76694dae2d7f8605a6bb8b34f8cb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 20/80] fix: tabulated distributions skip empty steps and
 return a continuous v

---
 pytracer/montecarlo/distribution.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..8da9796 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -54,8 +54,8 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
@@ -74,8 +74,8 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
 
@@ -107,7 +107,7 @@ class Distribution2D(object):
 		self.p_marg_v = Distribution1D(marginal_v)
 
 	def __repr__(self):
-		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
+		return "{}\nSteps: {} x {}\n".format(self.__class__, self.p_cond_v[0].cnt, self.p_marg_v.cnt)
 
 	def sample_cont(self, u0: FLOAT, u1: FLOAT) -> [list, FLOAT]:
 		"""
@@ -120,9 +120,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		vi = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[vi].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From bf8d19b653c45d2c8d199198d1e889d4ce0f7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 21/80] fix: concentric disk mapping is continuous across its
 left and lower sectors

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 6705cdc..f67abaa 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. - sx / sy
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. + sy / sx
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From b838326445744ea365dc8d7b731c84ad854675e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:37 +0000
Subject: [PATCH 22/80] fix: spectrum sampling, averaging and RGB conversion
 errors

from_sampled sampled the wrong sub-ranges for the last bin, averaging stopped short
at an exact sample, from_rgb mixed up the magenta/yellow cases
---
 pytracer/spectral/spectrum.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..ca080b8 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -414,14 +414,14 @@ class SampledSpectrum(CoefficientSpectrum):
 	@classmethod
 	def from_sampled(cls, lam: Iterable, v: Iterable):
 		# sort the spectrum if necessary
-		v = np.array(v)[np.argsort(lam)]
-		lam = np.sort(lam)
+		v = np.array(v, dtype=FLOAT)[np.argsort(lam)]
+		lam = np.sort(np.array(lam, dtype=FLOAT))
 
 		# compute average SPD values 
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i+1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
@@ -470,7 +470,7 @@ class SampledSpectrum(CoefficientSpectrum):
 			bk_lam_lo = lam[idx_lo]
 			bk_v_lo = v[idx_lo]
 
-		if idx_hi < len(lam) and lam[idx_hi] != le:
+		if idx_hi < len(lam):
 			bk_lam_hi = lam[idx_hi]
 			bk_v_hi = v[idx_hi]
 			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
@@ -502,9 +502,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -517,9 +517,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -580,7 +580,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From dc42fa6729245b46401f9fb80fbafbae7c1860b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 23/80] fix: Fresnel reflectance of dielectrics for parallel
 polarised light

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From 0be8c2fdaa5d204ed56c36368f79332ee6db2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 24/80] fix: BSDF frame and flags

l2w was not the inverse of w2l, BDFType was always true so that sampled
BSDFs never summed their components, and rho_hd took world directions as local
---
 pytracer/reflection/bdf/bdf.py | 12 ++++++++++++
 pytracer/reflection/bsdf.py    |  7 ++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..0fc9453 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,18 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v != 0)
+
+	def __eq__(self, other):
+		return bool(self.v == (other.v if isinstance(other, BDFType) else other))
+
+	def __ne__(self, other):
+		return not self == other
+
+	def __hash__(self):
+		return hash(self.v)
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..03ca8f7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
@@ -233,6 +233,7 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 
+		wo = self.w2l(wo)
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
 			if bdf.match_flag(flags):
-- 
2.43.0


From ede79d712302b9615cfe749414a35bb603b025e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 25/80] fix: BDF adapters forward densities, and ScaledBDF
 calls the BDF it holds

---
 pytracer/reflection/bdf/bdf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 0fc9453..1977f91 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -206,6 +206,8 @@ class BRDF2BTDF(BDF):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT: return self.brdf.pdf(wo, self.switch(wi))
+
 	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.brdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
@@ -226,16 +228,18 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT: return self.bdf.pdf(wo, wi)
+
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From 64dded5a6dffc7a91b4ab79344007f2397e9e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 26/80] fix: microfacet reflectance is never negative, and
 half-angle tables are indexed over their range

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 pytracer/reflection/bdf/torrance.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..9d50d8d 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -100,9 +100,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / PI * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..0af021c 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import
 from abc import (ABCMeta, abstractmethod)
 from pytracer import *
 import pytracer.geometry as geo
-from pytracer.reflection.utility import (abs_cos_theta, cos_theta, cos_phi, sin_phi)
+from pytracer.reflection.utility import abs_cos_theta
 from pytracer.reflection.bdf.bdf import (BDFType, BDF)
 
 __all__ = ['MicrofacetDistribution', 'Blinn', 'Anisotropic', 'Microfacet']
@@ -198,8 +198,8 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
-- 
2.43.0


From 1c8e58a73ccee1c57a06b39a9044b989c13168e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 27/80] fix: specular transmission refracts by Snell's law

---
 pytracer/reflection/bdf/bdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 1977f91..24a9620 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -301,7 +301,8 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
+			# ray is on the inside
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -319,7 +320,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From 340f9fb8f50f928359df821fe5471d659ff6d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 28/80] fix: the power of a light is a method taking the scene

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 84ee2f4c9548adae0e593196ac635bfe3255b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 29/80] fix: normals of emitted rays are built by from_arr

---
 pytracer/light/light.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..25e8e07 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -137,7 +137,7 @@ class PointLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -199,7 +199,7 @@ class SpotLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -307,7 +307,7 @@ class ProjectionLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -391,7 +391,7 @@ class GonioPhotometricLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -440,7 +440,7 @@ class DistantLight(Light):
 
 		# set ray
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-- 
2.43.0


From 8980502fd7496da5aee866c031d80e3dfa3999fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 30/80] fix: illumination by spot, projection and
 goniophotometric lights

the intensity was divided by the falloff (or texture) and did not fall with the squared distance
---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 25e8e07..104527f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -385,7 +385,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From cd9758eb57c287d2ce7e9ace905391953ccfe140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 31/80] fix: projection and goniophotometric lights read their
 texture

and light with their full cone and unit intensity when there is none
---
 pytracer/light/light.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 104527f..e912a0d 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -234,12 +234,12 @@ class ProjectionLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.hypot(self.scr_x1, self.scr_y1)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -321,8 +321,9 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
-					self.intensity * 2. * PI * (1. - self.cos_width)
+		avg = Spectrum(1.) if self.projMap is None else \
+			Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return avg * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
 		return True
@@ -343,7 +344,6 @@ class GonioPhotometricLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -377,7 +377,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -398,7 +398,9 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		avg = Spectrum(1.) if self.MIPMap is None else \
+			Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * avg
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From f0439a59a27442457b08d3ddf2c72f9473682cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 32/80] fix: shadow rays towards distant lights

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e912a0d..2cb6613 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -424,7 +424,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From 0114207fb9a7ba1b6a14f89d1811e3f51bfb6031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 33/80] fix: area lights emit from their surface only, with
 their whole area

---
 pytracer/light/light.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 2cb6613..521f8bf 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -477,7 +477,7 @@ class AreaLight(Light):
 									'called'.format(self.__class__)) 		
 
 
-class DiffuseAreaLight(Light):
+class DiffuseAreaLight(AreaLight):
 	"""
 	DiffuseAreaLight Class
 	
@@ -494,11 +494,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
-
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
+		self.area = self.shape_set.sum_area
 
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit if n.dot(w) > 0. else Spectrum(0.)
@@ -528,7 +524,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From cfe039ceb826984f03f821651488d171fbfc13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 34/80] fix: sampling of infinite area lights

densities follow the environment map weighted by the sine of the polar angle,
and are taken over solid angle; rays leaving the light start on a disk chosen
independently of their direction
---
 pytracer/light/light.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 521f8bf..6220ca8 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -558,7 +558,7 @@ class InfiniteAreaLight(Light):
 			try:
 				import pytracer.utility.imageio as iio
 				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				height, width = np.shape(texels)[:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
@@ -580,7 +580,7 @@ class InfiniteAreaLight(Light):
 			st = np.sin(PI * (v + .5) / height)
 			for u in range(width):
 				up = u / width
-				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
+				img[v][u] = self.radMap.look_up([up, vp, filt]).y() * st
 
 		# compute sampling distribution
 		self.dist = mc.Distribution2D(img)
@@ -589,7 +589,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -607,10 +607,7 @@ class InfiniteAreaLight(Light):
 		wi = self.l2w(geo.Vector(st * cp, st * sp, ct))
 
 		# compute pdf for sampled inf light direction
-		if st == 0.:
-			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
-
+		pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 
 		# return radiance value
 		vis = VisibilityTester()
@@ -626,8 +623,7 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / (2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -652,19 +648,17 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
+		dir_pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 		area_pdf = 1. / (PI * rad * rad)
 		pdf = dir_pdf * area_pdf
-		if st == 0.:
-			pdf == 0.
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 9e4fe554d7410e66362eef3c75ec289f60ece1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 35/80] fix: VisibilityTester keeps the ray it is given

---
 pytracer/light/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..d4f0046 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -26,7 +26,7 @@ class VisibilityTester(object):
 	VisibilityTester Class
 	"""
 	def __init__(self, ray: 'geo.Ray'=None):
-		self.ray = None
+		self.ray = ray
 
 	def __repr__(self):
 		return "{}\ngeo.Ray: {}\n".format(self.__class__, self.ray)
-- 
2.43.0


From 588c72cd1f5d6f0b615c268814b95aff589e9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 36/80] fix: a scene with a volume leaves the bounds of its
 aggregate alone

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..9daeab2 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -24,7 +24,7 @@ class Scene(object):
 		self.lights = lights
 		self.vr = vr
 
-		self.bound = self.aggregate.world_bound()
+		self.bound = geo.BBox.from_bbox(self.aggregate.world_bound())
 		if self.vr is not None:
 			self.bound.union(vr.world_bound())
 
-- 
2.43.0


From a001dbea35251425458709d87026523a6f0f92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 37/80] fix: rays leaving a light carry their time, not a
 bounce depth

---
 pytracer/light/light.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 6220ca8..7bd5dca 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,7 +136,7 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
@@ -198,7 +198,7 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
@@ -306,7 +306,7 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
@@ -390,7 +390,7 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
@@ -441,7 +441,7 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
@@ -523,7 +523,7 @@ class DiffuseAreaLight(AreaLight):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -653,7 +653,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
-- 
2.43.0


From 8c2d4fbca86e7d00ac9e16586540e088e1781a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 38/80] fix: rays of direct lighting carry their time, not a
 bounce depth

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..590d200 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -242,7 +242,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
 				# add contribution
 				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
+				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
 				hit, light_isect = scene.intersect(ray)
 				if hit:
 					if light_isect.primitive.get_area_light() == light:
-- 
2.43.0


From b71746d78d31a92afa01887fd882ca39a97d2b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 39/80] fix: time of rays through participating media

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..63a789a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -222,7 +222,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, time=r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From 5252a4ce94eb8d53294c82e4aef1c6534014f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 40/80] fix: light refracted by a surface is the radiance, not
 the transmittance, of the ray

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 590d200..3134ca8 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 9a6de44d39e88202d6ef93fa5466d50066d51aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 41/80] fix: reflected rays leave the intersection they come
 from alone

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 3134ca8..06a33a4 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From c901fe7d45c6db3b50c5da5878294a69d52a399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 42/80] fix: differentials of refracted rays

---
 pytracer/integrator/utility.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 06a33a4..532d105 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -173,9 +173,9 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
+			# relative index seen from the side of `wo`
 			eta = bsdf.eta
-			w = -wo
-			if wo.dot(n) < 0.:
+			if wo.dot(n) > 0.:
 				eta = 1. / eta
 
 			# compute reflected directions of differentials
@@ -189,12 +189,13 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			dDNdx = dwodx.dot(n) + wo.dot(dndx)
 			dDNdy = dwody.dot(n) + wo.dot(dndy)
 
-			mu = eta * w.dot(n) - wi.dot(n)
-			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
-			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
+			# wi = mu * n - eta * wo
+			mu = eta * wo.dot(n) + wi.dot(n)
+			dmudx = (eta + (eta * eta * wo.dot(n) / wi.dot(n))) * dDNdx
+			dmudy = (eta + (eta * eta * wo.dot(n) / wi.dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx + geo.Vector.from_arr(mu * dndx + dmudx * n)
+			rd.ryDirection = wi - eta * dwody + geo.Vector.from_arr(mu * dndy + dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From ea697f1da9f6c81f60b29ee06bf51df61d55a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 43/80] fix: direct lighting by sampled BSDF directions

non-specular directions were skipped, the intersection was not passed,
and attenuation changed the emission of the light itself
---
 pytracer/integrator/utility.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 532d105..248ae9f 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -222,7 +222,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 			# add contribution to reflected radiance
 			## account for attenuation due to participating media,
 			## left for `VolumeIntegrator` to do
-			Li *= vis.transmittance(scene, renderer, None, rng)
+			Li = Li * vis.transmittance(scene, renderer, None, rng)
 			if light.is_delta_light():
 				Ld += f * Li * (wi.abs_dot(n) / light_pdf)
 			else:
@@ -237,25 +237,26 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not smp_type & BDFType.SPECULAR:  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
-	return Ld
+			# add contribution
+			from pytracer.aggregate import Intersection
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() == light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
 
+			if not util.is_black(Li):
+				Li = Li * renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+
+	return Ld
-- 
2.43.0


From b3f7aa5793f324e2da8bdc38de9cac7a14f52f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 44/80] fix: direct lighting by one light

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From 8391134d9a96852b4ef944819a8b0b60bc7a6f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 45/80] fix: every segment of a path is attenuated

---
 pytracer/integrator/surface/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..b5c22be 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -134,8 +134,7 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 97af5fe8d56fadcfbb139e98c637e7c1e62ef30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 46/80] fix: rays are not attenuated without a volume
 integrator

---
 pytracer/renderer/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..54e3686 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,10 +72,10 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From dcf67696d840ae85b9ce2a27a3163007ad5600c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 47/80] fix: camera rays that hit nothing see the lights around
 the scene

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 54e3686..ddd95fe 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -174,7 +174,7 @@ class SamplerRendererTask(object):
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From 299f117347bfdf8a9239b1f57c486aa7a8fb8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 48/80] fix: copies of differential geometry keep normal and
 screen-space differentials

---
 pytracer/geometry/diffgeom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..5133802 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,11 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
+		dg.dpdx, dg.dpdy = self.dpdx.copy(), self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 9860163ed2564e1d079377783c52dfe83ac635c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 49/80] fix: volumes are intersected in their own space

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 63a789a..3025c6f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From 00919d3a778b941cb272e97267ecaa1287db15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 50/80] fix: phase functions of volumes use their asymmetry,
 not the time

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 3025c6f..f82647f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From b4d444294fe6e57ac2675790c4e07c96ce354772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 51/80] fix: VolumeGridDensity can be built, and is indexed in
 the order of its axes

---
 pytracer/volume/volume.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index f82647f..0b097b3 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,18 +243,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -262,10 +257,12 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x = min(max(x, 0), self.nx - 1)
+		y = min(max(y, 0), self.ny - 1)
+		z = min(max(z, 0), self.nz - 1)
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -274,7 +271,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
+		vox *= [self.nx, self.ny, self.nz]
 		vox -= .5
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
-- 
2.43.0


From ca1c3201899977c916265f9731270e188e72bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 52/80] fix: emission and phase function of aggregate volumes

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 0b097b3..9daa23d 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -365,11 +365,11 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		s = 0.
 		for region in self.regions:
 			s += region.p(pnt, wi, wo, tm)
 		return s		
-- 
2.43.0


From 23b1711be85ab887f14830e7d7948fbea53f2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 53/80] fix: precedence in Schlick's phase function

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From 1bf0c9c27f824b6ee937476d73ada4229ca6e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 54/80] fix: measured volume scattering is returned as
 absorption, then reduced scattering

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..90033a0 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# data are stored as [sigma'_s, sigma_a]
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From 7375561e6a92bb8181778330e738ae169ac1ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 55/80] fix: representation of BSSRDF

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..a774052 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -29,7 +29,7 @@ class BSSRDF(object):
 
 	def __repr__(self):
 		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
-						self.__sig_a, self.__sigp_s)
+						self.__e, self.__sig_a, self.__sigp_s)
 
 	@property
 	def eta(self):
-- 
2.43.0


From 2c25ca2a15663ae16b10fb1ce082f56d06bc4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:43 +0000
Subject: [PATCH 56/80] fix: motion bounds hold all eight corners of the box

---
 pytracer/transform/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 11b8846..586c6d0 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -327,7 +327,7 @@ class AnimatedTransform(object):
 			t = self.startTransform
 			if use_inv:
 				t = t.inverse()
-			return t(b)
+			return self.__union_corners(geo.BBox(), t, b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
@@ -335,7 +335,16 @@ class AnimatedTransform(object):
 			t = self.interpolate(time)
 			if use_inv:
 				t = t.inverse()
-			ret.union(t(b))
+			self.__union_corners(ret, t, b)
+		return ret
+
+	@staticmethod
+	def __union_corners(ret: 'geo.BBox', t: 'Transform', b: 'geo.BBox') -> 'geo.BBox':
+		# all corners are needed once `t` turns or mirrors the box
+		for x in (b.pMin.x, b.pMax.x):
+			for y in (b.pMin.y, b.pMax.y):
+				for z in (b.pMin.z, b.pMax.z):
+					ret.union(t(geo.Point(x, y, z)))
 		return ret
 
 	@staticmethod
-- 
2.43.0


From 1907697a526db5294219cc8040bf0e8a78f82ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:43 +0000
Subject: [PATCH 57/80] fix: world bounds of volumes hold all eight corners of
 their extent

---
 pytracer/volume/volume.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 9daa23d..d26736b 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -15,6 +15,16 @@ __all__ = ['VolumeRegion', 'DensityRegion', 'HomogeneousVolumeDensity',
            'VolumeGridDensity', 'ExponentialDensity', 'AggregateVolume']
 
 
+def bound_extent(v2w: 'trans.Transform', extent: 'geo.BBox') -> 'geo.BBox':
+	# bound all eight corners of the extent of a region
+	ret = geo.BBox()
+	for x in (extent.pMin.x, extent.pMax.x):
+		for y in (extent.pMin.y, extent.pMax.y):
+			for z in (extent.pMin.z, extent.pMax.z):
+				ret.union(v2w(geo.Point(x, y, z)))
+	return ret
+
+
 # Volume Interface
 class VolumeRegion(object, metaclass=ABCMeta):
 	"""
@@ -133,7 +143,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return bound_extent(self.w2v.inverse(), self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -293,7 +303,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return bound_extent(self.w2v.inverse(), self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -323,7 +333,7 @@ class ExponentialDensity(DensityRegion):
 		return self.a * np.exp(-self.b * h)
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return bound_extent(self.w2v.inverse(), self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 6017f0b63d7c2361531f8712e33ecf58b715ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 58/80] fix: spherical and cylindrical mappings' differentials
 in y, cylindrical mapping

---
 pytracer/texture/texturemap/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..3749900 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -84,7 +84,7 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
@@ -104,7 +104,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
@@ -123,7 +123,7 @@ class CylindricalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
-- 
2.43.0


From f943d1c28a7b4a121327ca66b63b79d72d195964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 59/80] fix: smooth_step goes from zero to one over its
 interval

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..8b7a129 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
-- 
2.43.0


From e04ec125e84ca61eaba285433d1dbedb76d2dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 60/80] fix: Perlin noise's gradients and its interpolation in
 y

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 8b7a129..6524265 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From 650e2ada27ef1f50c22ad4404898fc386088ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 61/80] fix: FBm sums its octaves; no octaves are left where
 the footprint is too large

---
 pytracer/texture/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 6524265..a5e9bf8 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -58,7 +58,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	"""
 	# number of octaves
 	s2 = max(dpdx.sq_length(), dpdy.sq_length())
-	foct = min(max_octaves, 1. - .5 * np.log2(s2))
+	foct = min(max_octaves, max(0., 1. - .5 * np.log2(s2))) if s2 > 0. else max_octaves
 	octaves = util.ftoi(foct)
 
 	# sum of octaves of noise
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
@@ -83,7 +83,7 @@ def turbulence(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FL
 	"""
 	# number of octaves
 	s2 = max(dpdx.sq_length(), dpdy.sq_length())
-	foct = min(max_octaves, 1. - .5 * np.log2(s2))
+	foct = min(max_octaves, max(0., 1. - .5 * np.log2(s2))) if s2 > 0. else max_octaves
 	octaves = util.ftoi(foct)
 
 	# sum of octaves
-- 
2.43.0


From 61bfc95178214df3b675445c57fb64e88c71ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 62/80] fix: the filtered checkerboard blends its two textures
 by their area

---
 pytracer/texture/texture/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..191709c 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -167,16 +167,17 @@ class Chekcerboard2DTexture(Texture):
 
 			## box filtering check region
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
+			# a filter of no width lies in a single check
 			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
 				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
+				 (2. * ds) if ds > 0. else util.ftoi(s) % 2
 			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+				 (2. * dt) if dt > 0. else util.ftoi(t) % 2
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From 489a6677d796666f74ba50d569e20d1ffead3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 63/80] fix: DotsTexture shows its dots

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 191709c..8d3db4a 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -218,16 +218,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From 9e8903a4771b6ea494c8a1ace951b8956e118969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 64/80] fix: MarbleTexture evaluates its spline

---
 pytracer/texture/texture/__init__.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 8d3db4a..6cf87c3 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -296,7 +296,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -307,19 +307,18 @@ class MarbleTexture(Texture):
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
 		from pytracer.texture.utility import FBm
 		p, dpdx, dpdy = self.mapping(dg)
-		p *= self.scale
+		p = self.scale * p
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
-		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
-		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
-		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		nseg = self.spline_num - 3
+		fst = min(util.ftoi(t * nseg), nseg - 1)
+		t = t * nseg - fst
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From 1504e6a76742e31c1dab4119bcfd632050b7da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 65/80] fix: texture package exports ScaleTexture

---
 pytracer/texture/texture/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 6cf87c3..8eea73a 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -333,7 +333,7 @@ class MarbleTexture(Texture):
 
 from pytracer.texture.texture.image import ImageTexture
 
-__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'SpectrumType', 'MixTexture',
+__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'ScaleTexture', 'MixTexture',
            'BilerpTexture', 'UVTexture', 'Chekcerboard2DTexture', 'Checkboard3DTexture',
            'DotsTexture', 'FBmTexture', 'WrinkledTexture', 'WindyTexture', 'MarbleTexture']
 
-- 
2.43.0


From 5eade50f11636c265057f36cb7b992e84ad1fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 66/80] fix: MIPMap indexes its levels in rows, and holds
 levels of any type

---
 pytracer/texture/utility.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index a5e9bf8..2217aef 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,7 +223,10 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
-		sres, tres = img.shape[0:2]
+		# images are stored in rows, i.e., indexed by [t, s]
+		if img.dtype != object:
+			img = img.astype(FLOAT)     # 8-bit texels shall not wrap around
+		tres, sres = img.shape[0:2]
 
 		resampled = None
 
@@ -240,7 +243,7 @@ class MIPMap(object):
 			s_wts = MIPMap.resample(sres, sp)
 
 			# init, take advantage of numba.jit
-			resampled = np.empty([tp, sp], dtype=typename)
+			resampled = np.empty([tp, sp], dtype=object)
 			for t in range(tres):
 				for s in range(sp):
 					resampled[t, s] = typename(0.)
@@ -256,7 +259,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.empty(tp, dtype=object)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
@@ -282,13 +285,13 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -308,7 +311,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -320,7 +323,8 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		ret = l[t, s]
+		return ret.view(self.typename) if isinstance(ret, np.ndarray) else self.typename(ret)
 
 	@property
 	def width(self):
@@ -336,7 +340,9 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		v, u = self.__pyramid[level].shape[0:2]
+		s = s * u - .5
+		t = t * v - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -349,7 +355,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From 762c341145799621f70a2c97a51f9211fa57c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 67/80] fix: coarse levels of a MIPMap are not darkened by
 BLACK wrapping

---
 pytracer/texture/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 2217aef..325962c 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -299,9 +299,9 @@ class MIPMap(object):
 				for s in range(s_res):
 					self.__pyramid[i][t, s] = \
 						.25 * (self.texel(i - 1, 2 * s, 2 * t) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t) +
-						       self.texel(i - 1, 2 * s, 2 * t + 1) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t + 1))
+						       self.texel(i - 1, min(2 * s + 1, u - 1), 2 * t) +
+						       self.texel(i - 1, 2 * s, min(2 * t + 1, v - 1)) +
+						       self.texel(i - 1, min(2 * s + 1, u - 1), min(2 * t + 1, v - 1)))
 
 				# init EVA filter weighted if needed
 		if MIPMap.weight_lut is None:
@@ -433,7 +433,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From 6a9147f1c5fcd9dcb12195ac17259d78e65a0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 68/80] fix: MIPMap's EWA filter

---
 pytracer/texture/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 325962c..03f0da2 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -381,7 +381,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -398,7 +398,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(util.ftoi(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
@@ -456,8 +456,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 1edcee5c9dd18c984dbae015509b1e878de26101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 69/80] fix: image textures of different types do not share a
 cache entry

---
 pytracer/texture/texture/image.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..7c172ef 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -38,7 +38,8 @@ class ImageTexture(Texture):
 		"""
 
 		def __init__(self, filename: str, trilinear: bool, max_aniso: FLOAT, wrap: 'ImageWrap',
-		             scale: FLOAT, gamma: FLOAT):
+		             scale: FLOAT, gamma: FLOAT, type_mem: type=None):
+			self.type_mem = type_mem
 			self.filename = filename
 			self.trilinear = trilinear
 			self.max_aniso = max_aniso
@@ -48,12 +49,12 @@ class ImageTexture(Texture):
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
 			return hash((self.filename, self.trilinear, self.max_aniso, self.wrap,
-			             self.scale, self.gamma))
+			             self.scale, self.gamma, self.type_mem))
 
 		def __eq__(self, other):
 			return (self.filename == other.filename) and \
@@ -61,7 +62,8 @@ class ImageTexture(Texture):
 			       (self.max_aniso == other.max_aniso) and \
 			       (self.wrap == other.wrap) and \
 			       (self.scale == other.scale) and \
-			       (self.gamma == other.gamma)
+			       (self.gamma == other.gamma) and \
+			       (self.type_mem is other.type_mem)
 
 		def __ne__(self, other):
 			return not (self == other)
@@ -126,7 +128,7 @@ class ImageTexture(Texture):
 	def get_texture(self, filename: str, trilinear: bool, max_aniso: FLOAT,
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
-		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
+		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma, self.type_mem)
 		if tex_info in ImageTexture.textures:
 			return ImageTexture.textures[tex_info]
 
-- 
2.43.0


From 48364295c90661b978af5c93c97c819e9d9aeb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 70/80] fix: image textures can be built and evaluated

---
 pytracer/texture/texture/image.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 7c172ef..31a6cc3 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -96,7 +96,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (FLOAT, float):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -111,11 +111,11 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -134,7 +134,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
@@ -151,8 +151,8 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
-			ret = MIPMap(self.type_mem, val)
+			val = np.array([[scale ** gamma]])
+			ret = MIPMap(self.type_mem, val, trilinear, max_aniso, wrap)
 
 		ImageTexture.textures[tex_info] = ret
 		return ret
-- 
2.43.0


From 9f11eaf8913c6046fa68e138e282a9b7a824322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:31 +0000
Subject: [PATCH 71/80] fix: bump mapping

---
 pytracer/material/material.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..e33ecc2 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
@@ -86,15 +86,14 @@ class Material(object, metaclass=ABCMeta):
 		# compute bump mapped dg
 		dg = dgs.copy()
 
-		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * geo.Vector.from_arr(dgs.nn) + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * geo.Vector.from_arr(dgs.nn) + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From dbed1a1b54f6195def1fd75632d10f9e7ea25ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:31 +0000
Subject: [PATCH 72/80] fix: MixMaterial blends its two materials

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index e33ecc2..1848a79 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -391,9 +391,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From 178a542eb96e987a11f635020b07ab7430b57f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:31 +0000
Subject: [PATCH 73/80] fix: SubsurfaceMaterial's reflection

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 1848a79..f0737ae 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -545,7 +545,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From 5e673f6494c4955cfbcb966f308722583d6328c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:31 +0000
Subject: [PATCH 74/80] fix: plastic and uber materials have their index
 inside, not outside

---
 pytracer/material/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index f0737ae..0edde88 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -175,7 +175,7 @@ class PlasticMaterial(Material):
 		# diffuse
 		kd = self.Kd(dgs).clip()
 		diff = Lambertian(kd)
-		fresnel = FresnelDielectric(1.5, 1.)
+		fresnel = FresnelDielectric(1., 1.5)
 
 		# glossy specular
 		ks = self.Ks(dgs).clip()
@@ -347,18 +347,18 @@ class UberMaterial(Material):
 		e = self.eta(dgs)
 		ks = op * self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			bsdf.push_back(SpecularReflection(kr, fresnel))
 
 		kt = op * self.Kt(dgs).clip()
 		if not kt.is_black():
-			bsdf.push_back(SpecularTransmission(kt, e, 1.))
+			bsdf.push_back(SpecularTransmission(kt, 1., e))
 
 		return bsdf
 
-- 
2.43.0


From 4b74944153c9843f9a5b56f232c9f1a103f53bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:31 +0000
Subject: [PATCH 75/80] fix: measured materials read once keep their samples,
 by the file they are from

---
 pytracer/material/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 0edde88..8bf3632 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -428,9 +428,9 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			if filename in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[filename]
 				return
 
 			# read file
@@ -481,7 +481,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[filename] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From f67550cf3915d1ad94225840cde0e195b637f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:21 +0000
Subject: [PATCH 76/80] fix: weights of the limit surface of subdivisions

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..50ba744 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From 6e69b30f1a80ff762587cccd6edc619466869fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:21 +0000
Subject: [PATCH 77/80] fix: tangents of subdivisions at interior vertices

---
 pytracer/shape/loopsubdiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 50ba744..2aad90e 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,8 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
 
 
 			else:
-- 
2.43.0


From 665abb6a3e2938254651ee92c2476ecd963c6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 78/80] fix: boundary vertices of subdivisions are put on the
 limit curve

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 2aad90e..996097c 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -387,7 +387,7 @@ class LoopSubdiv(Shape):
 		Plimit = []  # [geo.Point]
 		for vv in v:
 			if vv.boundary:
-				Plimit.append(self.weight_boundary(vv, .2))
+				Plimit.append(self.weight_boundary(vv, 1. / 6.))
 			else:
 				Plimit.append(self.weight_one_ring(vv, self.gamma(vv.valence())))
 
-- 
2.43.0


From d16b0dc21749b74df99b29a9ceb55f6c269c7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:07 +0000
Subject: [PATCH 79/80] fix: differences of periodic texture coordinates across
 the seam

---
 pytracer/texture/texturemap/__init__.py | 36 +++++++++++--------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 3749900..9b4ec80 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -34,6 +34,18 @@ class TextureMapping2D(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.texture.{}.map(): abstract method '
 		                          'called'.format(self.__class__))
 
+	@staticmethod
+	def across_seam(d: FLOAT) -> FLOAT:
+		"""
+		Difference of a periodic coordinate,
+		the short way round.
+		"""
+		if d > .5:
+			return d - 1.
+		if d < -.5:
+			return d + 1.
+		return d
+
 
 class UVMapping2D(TextureMapping2D):
 	def __init__(self, su: FLOAT, sv: FLOAT, du: FLOAT, dv: FLOAT):
@@ -76,19 +88,11 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+		dtdx = self.across_seam(tx - t) / delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		dtdy = self.across_seam(ty - t) / delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -114,20 +118,12 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
+		dsdx = self.across_seam(sx - s) / delta
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
+		dsdy = self.across_seam(sy - s) / delta
 		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From f00add76eb700f86f6b413516915e76e74149f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:07 +0000
Subject: [PATCH 80/80] fix: greyscale and palette images are read as colours

---
 pytracer/utility/imageio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 1008283..de781a0 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -29,6 +29,9 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	specs = None
 	img = None
 	with PIL.Image.open(filename) as pic:
+		# greyscale or palette
+		if pic.mode not in ('RGB', 'RGBA'):
+			pic = pic.convert('RGB')
 		img = np.array(pic)
 		height, width, chn = np.shape(img)
 
-- 
2.43.0

