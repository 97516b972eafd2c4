From 2a974b9abbabd6e0a807d86e7758ee10ce9e5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 001/115] fix: normalize the centers of quadratic constraints,
 not only shift them

---
 psdr/domains/euclidean.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 4f38fed..e19e4aa 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -993,8 +993,7 @@ class EuclideanDomain(Domain):
 			
 	@property
 	def ys_norm(self):
-		c = self._center()
-		return [y - c for y in self.ys]	
+		return [self.normalize(y) for y in self.ys]	
 
 	@property
 	def rhos_norm(self):
-- 
2.43.0


From 198442939f33334000310794a7f49bc475d303fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 002/115] fix: sign of the center in the constrained least
 squares objective

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index e19e4aa..2dd70c3 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -356,7 +356,7 @@ class EuclideanDomain(Domain):
 		c = self._center()	
 			
 		# \| A x - b\|_2 
-		obj = cp.norm( (A @ D) @ x_norm - b - (A @ c) )
+		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**kwargs)
-- 
2.43.0


From 78b5d387efc407292caa4c2f522a7576ec617e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 003/115] fix: orientation of the vertex matrix in
 ConvexHullDomain._build_constraints

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index babea3a..ebd737c 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -248,7 +248,7 @@ class ConvexHullDomain(LinQuadDomain):
 	def _build_constraints(self, x):
 		
 		alpha = cp.Variable(len(self.X), name = 'alpha')
-		constraints = [x == alpha @ self._X.T,  alpha >=0, cp.sum(alpha) == 1]
+		constraints = [x == alpha @ self._X,  alpha >=0, cp.sum(alpha) == 1]
 		constraints += LinQuadDomain._build_constraints(self, x)
 		return constraints
 		
-- 
2.43.0


From 03585301405cc7c50f961d008b2facd1255e25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 004/115] fix: UnboundedDomain never set the solver options
 every query needs

---
 psdr/domains/unbounded.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 40c41e2..2071dc7 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -2,7 +2,9 @@ from __future__ import division
 
 import numpy as np
 
+from .domain import DEFAULT_CVXPY_KWARGS
 from .euclidean import EuclideanDomain
+from ..misc import merge
 
 class UnboundedDomain(EuclideanDomain):
 	r""" A domain without any constraints
@@ -20,6 +22,7 @@ class UnboundedDomain(EuclideanDomain):
 	"""
 	def __init__(self, dimension, names = None):
 		self._dimension = dimension
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self._init_names(names)
 
 		self._unbounded = True
-- 
2.43.0


From 1e6b936ca6118b203e45a755aa19443997bfd5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 005/115] fix: extent of an unbounded domain is infinite

---
 psdr/domains/unbounded.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 2071dc7..caf069b 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -44,6 +44,9 @@ class UnboundedDomain(EuclideanDomain):
 	def _closest_point(self, x0, L = None, **kwargs):
 		return x0
 
+	def _extent(self, x, p):
+		return np.inf
+
 	def _normalize(self, X):
 		return X
 
-- 
2.43.0


From 038c415f5aa254d5285d492fcd2821fc4fdd7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 006/115] fix: LogNormalDomain never set the solver options
 every query needs

---
 psdr/domains/lognormal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7973b80..832de4a 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -1,7 +1,8 @@
 from __future__ import division
 
 import numpy as np
-from .domain import TOL
+from ..misc import merge
+from .domain import TOL, DEFAULT_CVXPY_KWARGS
 from .box import BoxDomain
 from .random import RandomDomain
 from .normal import NormalDomain
@@ -35,6 +36,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 	"""	
 	def __init__(self, mean, cov = 1., offset = 0., scaling = 1., truncate = None, names = None):
 		self.tol = 1e-6
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self.normal_domain = NormalDomain(mean, cov, truncate = truncate)
 		assert len(self.normal_domain) == 1, "Only defined for one-dimensional distributions"
 
-- 
2.43.0


From 9d534ef2aadb29565d5b282acb378f4e0374c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 007/115] fix: support of a log-normal domain starts at its
 offset

---
 psdr/domains/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 832de4a..7f552ec 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -54,7 +54,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)
 			self._ub = self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)
 		else:
-			self._lb = 0.*np.ones(1)
+			self._lb = self.offset*np.ones(1)
 			self._ub = np.inf*np.ones(1)
 
 		self._init_names(names)
-- 
2.43.0


From f9e2be2bef4be72740e9ef575ca33d8e4a7a38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 008/115] fix: log-normal density divides by the standard
 deviation, not the variance

---
 psdr/domains/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7f552ec..66c516d 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -78,5 +78,5 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 
 	def _pdf(self, X):
 		X_norm = (X - self.offset)/self.scaling
-		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*self.cov*np.sqrt(2*np.pi))
+		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*np.sqrt(self.cov)*np.sqrt(2*np.pi))
 		return p
-- 
2.43.0


From 119ddb30d5281d1dfd0a164ff61a86f421ac871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 009/115] fix: log-normal density is zero outside of the
 support and normalized when truncated

---
 psdr/domains/lognormal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 66c516d..3890364 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -77,6 +77,12 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			return self
 
 	def _pdf(self, X):
-		X_norm = (X - self.offset)/self.scaling
-		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*np.sqrt(self.cov)*np.sqrt(2*np.pi))
+		X = X.reshape(-1)
+		p = np.zeros(X.shape)
+		# The density vanishes outside of the support
+		I = self.isinside(X.reshape(-1,1)) & ((X - self.offset)/self.scaling > 0)
+		X_norm = (X[I] - self.offset)/self.scaling
+		p[I] = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*np.sqrt(self.cov)*np.sqrt(2*np.pi))
+		if self.truncate is not None:
+			p /= 1 - self.truncate
 		return p
-- 
2.43.0


From a20d9293d395a15fdcd35a03cd99728d19529465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 010/115] fix: extent of a LinIneqDomain ignored its equality
 constraints

---
 psdr/domains/linineq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index e5e0072..6543a29 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -50,6 +50,9 @@ class LinIneqDomain(LinQuadDomain):
 		return self._isinside_bounds(X, tol = tol) & self._isinside_ineq(X, tol = tol) & self._isinside_eq(X, tol = tol)
 
 	def _extent(self, x, p):
+		# Directions leaving the equality constraints cannot be followed at all
+		if self.A_eq.shape[0] > 0 and not np.all(np.abs(self.A_eq.dot(p)) < self.tol):
+			return 0.
 		return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
 	
 	def _normalized_domain(self, **kwargs):
-- 
2.43.0


From 1a43101382fe3eadecb9ac22d2ea1bb3726f8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 011/115] fix: extent ignored active linear inequalities

---
 psdr/domains/euclidean.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 2dd70c3..c022a36 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1180,9 +1180,14 @@ class EuclideanDomain(Domain):
 	def _extent_ineq(self, x, p):
 		""" check the extent from the inequality constraints """
 		alpha = np.inf
+		slack = self.b - np.dot(self.A, x)
+		Ap = np.dot(self.A, p)
+		# If a constraint is active, we cannot move in a direction that violates it
+		if np.any(Ap[slack == 0] > 0):
+			return 0.
 		# positive extent
-		with np.errstate(divide = 'ignore'):
-			y = (self.b - np.dot(self.A, x)	)/np.dot(self.A, p)
+		with np.errstate(divide = 'ignore', invalid = 'ignore'):
+			y = slack/Ap
 		if np.sum(y>0) > 0:
 			alpha = min(alpha, np.min(y[y>0]))
 
-- 
2.43.0


From 76eeea93ae522dab8f75b3561de0470ef31dbf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 012/115] fix: extent from the boundary of a quadratic
 constraint towards its interior was zero

---
 psdr/domains/euclidean.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index c022a36..bb36247 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1205,8 +1205,10 @@ class EuclideanDomain(Domain):
 			c = Lxy.T.dot(Lxy) - rho**2
 			
 			roots = np.roots([a,b,c])
-			real_roots = roots[np.isreal(roots)]
-			pos_roots = real_roots[real_roots>=0]
-			if len(pos_roots) > 0:
-				alpha = min(alpha, min(pos_roots))
+			real_roots = np.real(roots[np.isreal(roots)])
+			# Starting inside the ellipsoid, we leave it at the largest root
+			if len(real_roots) > 0:
+				alpha = min(alpha, max(0., np.max(real_roots)))
+			elif len(roots) > 0:
+				alpha = 0.
 		return alpha
-- 
2.43.0


From 0bcc381377a2dbf892f2a4ead06408073a54e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 013/115] fix: extent of a convex hull applied its other
 constraints to the starting point

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index ebd737c..63e26f1 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -79,7 +79,7 @@ class _Extent:
 			self.domain._X_norm.T @ self.alpha == self.p_norm * self.beta + self.x_norm,
 			cp.sum(self.alpha) == 1
 		] 
-		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.x_norm) 
+		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.p_norm * self.beta + self.x_norm) 
 		
 		self.prob = cp.Problem(self.obj, self.constraints)
 
-- 
2.43.0


From ddcebf0bc077ebbb70f9a2c4b974d2c40ee30b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 014/115] fix: converting a convex hull to linear inequalities
 dropped its bounds

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 63e26f1..0e79465 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -195,7 +195,7 @@ class ConvexHullDomain(LinQuadDomain):
 		dom_hull = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **kwargs)
 		dom_hull.vertices = np.copy(vertices)
 		# Add back in non-hull constraints
-		dom = dom_hull.add_constraints(A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
+		dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
 		return dom
 
-- 
2.43.0


From 911e3fe085dcadbab2b7fd494b1e3c9629abe57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 015/115] fix: normalizing a convex hull dropped the hull

---
 psdr/domains/convexhull.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 0e79465..19cd387 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -258,6 +258,13 @@ class ConvexHullDomain(LinQuadDomain):
 		constraints += LinQuadDomain._build_constraints_norm(self, x_norm)
 		return constraints
 	
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+
+		return ConvexHullDomain(self._X_norm, A = self.A_norm, b = self.b_norm, lb = self.lb_norm, ub = self.ub_norm,
+			A_eq = self.A_eq_norm, b_eq = self.b_eq_norm, Ls = self.Ls_norm, ys = self.ys_norm, rhos = self.rhos_norm,
+			names = names_norm, tol = self.tol, **merge(self.kwargs, kwargs))
+
 	def _isinside(self, X, tol = TOL):
 
 		# Check that the points are in the convex hull
-- 
2.43.0


From 21fc979105e9983ee78c2e60e6e14ca9a614c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 016/115] fix: intersecting with a convex hull dropped the hull

---
 psdr/domains/linquad.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index f4c00bd..5e2b452 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -360,6 +360,13 @@ class LinQuadDomain(EuclideanDomain):
 			return BoxDomain(lb = lb, ub = ub, names = self.names)
 
 	def __and__(self, other):
+		from .convexhull import ConvexHullDomain
+		if isinstance(other, ConvexHullDomain):
+			if not isinstance(self, ConvexHullDomain):
+				return other & self
+			# Only one hull can be carried along, so write the other one as inequalities
+			other = other.to_linineq()
+
 		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
 			return self.add_constraints(lb = other.lb, ub = other.ub,
 				A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
-- 
2.43.0


From 318653f9fbe996796ec7edcfefb3577fb7c54169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 017/115] fix: tensor product domains did not report the
 quadratic constraints of their factors

---
 psdr/domains/tensor.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c22f574..e7347f5 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -160,6 +160,30 @@ class TensorProductDomain(EuclideanDomain):
 	def b_eq(self):
 		return np.concatenate([dom.b_eq for dom in self.domains])
 
+	@property
+	def Ls(self):
+		Ls = []
+		for dom, I in zip(self.domains, self._slices):
+			for L in dom.Ls:
+				L_tmp = np.zeros((L.shape[0], len(self)))
+				L_tmp[:,I] = L
+				Ls.append(L_tmp)
+		return Ls
+
+	@property
+	def ys(self):
+		ys = []
+		for dom, I in zip(self.domains, self._slices):
+			for y in dom.ys:
+				y_tmp = np.zeros(len(self))
+				y_tmp[I] = y
+				ys.append(y_tmp)
+		return ys
+
+	@property
+	def rhos(self):
+		return [rho for dom in self.domains for rho in dom.rhos]
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
-- 
2.43.0


From c119813a2a59d0d12137c0d068d7fb888f0e0f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 018/115] fix: adding constraints to a product with a convex
 hull dropped the hull

---
 psdr/domains/linquad.py | 2 ++
 psdr/domains/tensor.py  | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index 5e2b452..028016e 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -366,6 +366,8 @@ class LinQuadDomain(EuclideanDomain):
 				return other & self
 			# Only one hull can be carried along, so write the other one as inequalities
 			other = other.to_linineq()
+		elif isinstance(other, TensorProductDomain):
+			other = other._without_hulls()
 
 		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
 			return self.add_constraints(lb = other.lb, ub = other.ub,
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index e7347f5..1c6bd12 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -184,10 +184,16 @@ class TensorProductDomain(EuclideanDomain):
 	def rhos(self):
 		return [rho for dom in self.domains for rho in dom.rhos]
 
+	def _without_hulls(self):
+		r""" The same domain with convex hulls written as linear inequalities """
+		from .convexhull import ConvexHullDomain
+		return TensorProductDomain(domains = [dom.to_linineq() if isinstance(dom, ConvexHullDomain) else dom 
+			for dom in self.domains], **self.kwargs)
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
-			return LinQuadDomain.add_constraints(self, *args, **kwargs)
+			return LinQuadDomain.add_constraints(self._without_hulls(), *args, **kwargs)
 		else:
 			raise NotImplementedError
 
-- 
2.43.0


From 78380b228612a5143459d338996b67747b5eea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 019/115] fix: an unbounded domain is its own normalized domain

---
 psdr/domains/unbounded.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index caf069b..959da34 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -53,6 +53,9 @@ class UnboundedDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return X_norm
 
+	def _normalized_domain(self, **kwargs):
+		return self
+
 	def _isinside(self, X, tol = None):
 		if X.shape[1]== len(self):
 			return np.ones(X.shape[0],dtype = np.bool)
-- 
2.43.0


From 045f4aa852d2105fd375f415785c5330e55c44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 020/115] fix: unbounded domains returned the caller's array
 itself

---
 psdr/domains/unbounded.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 959da34..336dd21 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -42,16 +42,16 @@ class UnboundedDomain(EuclideanDomain):
 		return []
 
 	def _closest_point(self, x0, L = None, **kwargs):
-		return x0
+		return np.copy(x0)
 
 	def _extent(self, x, p):
 		return np.inf
 
 	def _normalize(self, X):
-		return X
+		return np.copy(X)
 
 	def _unnormalize(self, X_norm):
-		return X_norm
+		return np.copy(X_norm)
 
 	def _normalized_domain(self, **kwargs):
 		return self
-- 
2.43.0


From 1535bc7e0d8653f2dd29fe3e343253791744ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 021/115] fix: duu imported a domain class and called a method
 that do not exist

---
 psdr/duu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/duu.py b/psdr/duu.py
index 23c057d..4d5ac62 100644
--- a/psdr/duu.py
+++ b/psdr/duu.py
@@ -1,5 +1,5 @@
 import numpy as np
-from .domains import EmptyDomain
+from .exceptions import EmptyDomainException
 from sklearn.neighbors import KernelDensity
 from .pgf import PGF
 
@@ -53,9 +53,9 @@ class RidgeChanceConstraint(object):
 		interior_roots = []
 		for r in roots:
 			try:
-				dom = self.design_domain_norm.add_constraint(A_eq = self.pra_norm.U[:len(self.design_domain)].T, b_eq = np.array([r]))
+				dom = self.design_domain_norm.add_constraints(A_eq = self.pra_norm.U[:len(self.design_domain)].T, b_eq = np.array([r]))
 				interior_roots.append(r)
-			except EmptyDomain:
+			except EmptyDomainException:
 				pass
 		return interior_roots
 	
-- 
2.43.0


From 740dc5d81271dc7da681f90fa11b643a2b5adbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 022/115] fix: the X, fX and grads of a Lipschitz matrix were
 never stored

---
 psdr/lipschitz.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 4f8311e..c9ed35a 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -137,6 +137,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			grads = np.array(grads).reshape(-1,len(self))
 		else:
 			grads = np.zeros((0, len(self)))
+
+		# Keep the data the matrix was fit to
+		self._X = np.copy(X)
+		self._fX = np.copy(fX)
+		self._grads = np.copy(grads)
 	
 		# Scale the output units for numerical stability	
 		try:	
-- 
2.43.0


From 597888a5623391451ca82fb823f4049efb453bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 023/115] fix: prepared contour output used undefined
 coordinates

---
 psdr/pgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index b7914ef..d3a109d 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -66,7 +66,8 @@ def save_contour(fname, cs, fmt = 'matlab', simplify = 1e-3, **kwargs):
 			fout.write("%15.15e\t%15.15e\n" % (x,y))
 
 	def write_path_prepared(fout, x_vec, y_vec, z):
-		fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x0,y0,z))
+		for x, y in zip(x_vec, y_vec):
+			fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x,y,z))
 		fout.write("\t\t\t\n")
 
 	if fmt == 'matlab':
-- 
2.43.0


From 14e93a7391b94b56bda95d791249ada801f1d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 024/115] fix: unreachable return of undefined names in a
 Golinski gradient

---
 psdr/demos/golinski.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/psdr/demos/golinski.py b/psdr/demos/golinski.py
index 90d3e03..98cc282 100755
--- a/psdr/demos/golinski.py
+++ b/psdr/demos/golinski.py
@@ -314,7 +314,6 @@ def golinski_constraint25_grad(x):
 			0*x1,
 			1.1/x5,
 		]).T
-	return val, grad
 
 # Units of cm
 def build_golinski_design_domain():
-- 
2.43.0


From e06a88bfc2e1435704054a4c5aee12615a860982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 025/115] fix: the random domain of multif used undefined
 keyword arguments

---
 psdr/demos/multif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index d3e0016..56004ce 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -101,7 +101,7 @@ def build_multif_domain(truncate = 1e-7, **kwargs):
 def build_multif_design_domain(output = 'none', **kwargs):
 	return buildDesignDomain(output = output, **kwargs)
 
-def build_multif_random_domain(truncate = 1e-7):
+def build_multif_random_domain(truncate = 1e-7, **kwargs):
 	return buildRandomDomain(truncate = truncate, **kwargs)
 
 
-- 
2.43.0


From cc9ccf30f1a156aefa09d10de10fc20a7d9ea542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 026/115] fix: projection_sample did not import Delaunay

---
 psdr/sample/projection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 025393c..4796809 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -1,6 +1,7 @@
 from __future__ import print_function
 
 import numpy as np
+from scipy.spatial import Delaunay
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
 
-- 
2.43.0


From 93b124f58245f855550887a275f2571197492289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 027/115] fix: StretchedSampler could not be sampled: it
 rejected the verbose argument

---
 psdr/sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 5d48efe..ff13bc2 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -163,7 +163,7 @@ class StretchedSampler(Sampler):
 		self._funmap = funmap
 
 
-	def _sample(self, draw = 1):
+	def _sample(self, draw = 1, verbose = False):
 		for it in range(draw):
 			return self._sample_one()
 
-- 
2.43.0


From 87740d0bf355a497b235eb1855a7b8e76a000c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 028/115] fix: SequentialMaximinSampler used a function it did
 not import and evaluated a list

---
 psdr/sample/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index ff13bc2..37d1714 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -16,6 +16,7 @@ from ..geometry import sample_sphere, unique_points, sample_simplex
 from ..domains import LinIneqDomain, ConvexHullDomain
 
 from .initial import initial_sample
+from .seqmaximin import seq_maximin_sample
 
 __all__ = ['Sampler', 'SequentialMaximinSampler', 'StretchedSampler']
 
@@ -140,7 +141,7 @@ class SequentialMaximinSampler(Sampler):
 
 		# Now we evaluate the function at these new points
 		# (this takes advantage of potential vectorization of fun)
-		fXnew = self._fun.eval(Xnew)
+		fXnew = self._fun.eval(np.array(Xnew))
 		if self._fX is None:
 			self._fX = fXnew
 		else:
-- 
2.43.0


From 92146ecffba7814624c47d4c9f627c6f3ac4822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 029/115] fix: verbose sequential_lp reported values no step
 had set

---
 psdr/seqlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index 3ffce95..7ce1805 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -183,6 +183,8 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 		domain_constraints = domain._build_constraints(x + p)
 
 		stop = False
+		px = np.zeros(x.shape)
+		constraint_violation = 0.
 		for it2 in range(bt_maxiter):
 			active_constraints = nonlinear_constraints + domain_constraints + search_step_constraints
 
-- 
2.43.0


From 87f851bcfb518ee70dfb899a04ed736706008b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 030/115] fix: stretch_sample_domain replaced the samples by
 its first candidate

---
 psdr/sample/stretch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/stretch.py b/psdr/sample/stretch.py
index a2ad68f..de575be 100644
--- a/psdr/sample/stretch.py
+++ b/psdr/sample/stretch.py
@@ -46,10 +46,10 @@ def stretch_sample_domain(domain, X, Ls, verbose = False):
 		xd = []
 		for k, L in enumerate(Ls):
 			try:
-				X, d = _maximin_block_candidate(domain, X, L)
+				x, d = _maximin_block_candidate(domain, X, L)
 			except (SolverError, EmptyDomainException):
-				pass
-			xd.append( list([X, d, L, k]))
+				continue
+			xd.append( list([x, d, L, k]))
 		#xd = [list(_maximin_block_candidate(domain, X, L)) + [L, k] for k, L in enumerate(Ls)]
 		if len(xd) == 0:
 			break
-- 
2.43.0


From 6018b7a302d18e20375fb68fd9086f0747d07783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 031/115] fix: unknown covariance structures were accepted by
 GaussianProcess

---
 psdr/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0116d93..a6d22ce 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -128,6 +128,7 @@ class GaussianProcess(BaseFunction):
 	"""
 	def __init__(self, structure = 'const', degree = None, nugget = None, Lfixed = None,
 		n_init = 1):
+		assert structure in ['tril', 'diag', 'const', 'scalar_mult'], "Invalid structure specified"
 		self.structure = structure
 		
 		self.rank = None # currently disabled due to conditioning issues
-- 
2.43.0


From aec2add3d043c5a29a596c5011a123ef60e4c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 032/115] fix: sampling a point or the boundary of a quadratic
 or hull domain used a center these domains lack

---
 psdr/domains/euclidean.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index bb36247..1720426 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -824,6 +824,12 @@ class EuclideanDomain(Domain):
 		return Qeq
 
 
+	@property
+	def center(self):
+		r""" A point in the domain away from its boundary
+		"""
+		return self._corner_center()
+
 	def _corner_center(self):
 		# Otherwise we pick points on the boundary and then initialize
 		# at the center of the domain.
-- 
2.43.0


From f1eff2551c633dd783b879d1a9669547da75b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 033/115] fix: sweep overwrote the direction given by the
 caller

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 1720426..bae6ff7 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -426,7 +426,7 @@ class EuclideanDomain(Domain):
 		else:
 			# Orthogonalize search direction against equality constraints 
 			Qeq = self._A_eq_basis
-			p -= Qeq.dot(Qeq.T.dot(p))
+			p = p - Qeq.dot(Qeq.T.dot(p))
 
 			a1 = self.extent(x, p)
 			c1 = x + a1*p
-- 
2.43.0


From bcf289a4c2abfe083c6f5350b2ea32f24f3b00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 034/115] fix: minimax_cluster modified the solver options of
 the caller

---
 psdr/sample/minimax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 4e5955a..9521631 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -315,6 +315,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 		N0 = min(N*100, int(1e4))
 	N0 = int(N0)
 
+	solver_opts = dict(solver_opts)
 	if 'warm_start' not in solver_opts:
 		solver_opts['warm_start'] = True
 
-- 
2.43.0


From ba5ddd942de8b919b86c3dd4656e2509a7ea05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 035/115] fix: minimax_lloyd overwrote the initial design given
 by the caller

---
 psdr/sample/minimax_lloyd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/minimax_lloyd.py b/psdr/sample/minimax_lloyd.py
index a63f090..f3c178e 100644
--- a/psdr/sample/minimax_lloyd.py
+++ b/psdr/sample/minimax_lloyd.py
@@ -105,6 +105,7 @@ def minimax_lloyd(domain, M, L = None, maxiter = 100, Xhat = None, verbose = Tru
 
 
 	V = domain.sample(M0)
+	Xhat = np.array(Xhat, dtype = float)
 	Xhat_new = np.zeros_like(Xhat)
 
 	for it in range(maxiter):
-- 
2.43.0


From 0bad69e50b09dd5105c5d83ee0d60050bed18622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 036/115] fix: gauss_newton only tested the current gradient
 norm for convergence when verbose

---
 psdr/gn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index ca2da09..8e44c30 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -226,8 +226,8 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 		else:	
 			cond = s[0] / s[-1]
 		
+		normgrad = np.linalg.norm(grad)
 		if verbose >= 1:
-			normgrad = np.linalg.norm(grad)
 			print(
 				'    %3d  |  %1.4e  |  %8.2e  |  %8.2e  |  %8.2e  |  %8.2e' % (
 				it, normf, normdx, cond, alpha, normgrad))
-- 
2.43.0


From edaf627f7b92f8cecdba03375e7430504384c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 037/115] fix: a breakdown inside CVXPY was not reported as the
 documented SolverError

---
 psdr/exceptions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/psdr/exceptions.py b/psdr/exceptions.py
index 8f0aeb6..a0232f9 100644
--- a/psdr/exceptions.py
+++ b/psdr/exceptions.py
@@ -9,10 +9,8 @@ class UnboundedDomainException(Exception):
 	"""
 	pass
 
-class SolverError(Exception):
-	r""" A problem with the solver
-	"""
-	pass	
+# A problem with the solver; the same exception CVXPY raises when a solver breaks down
+from cvxpy.error import SolverError
 
 class UnderdeterminedException(Exception):
 	pass
-- 
2.43.0


From 0cb789ae186aefc9e2ba16d227892cabb699193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 038/115] fix: chebyshev_center did not report empty and
 unbounded domains

---
 psdr/domains/linineq.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index 6543a29..33c459a 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -8,6 +8,7 @@ from .domain import TOL
 from .linquad import LinQuadDomain
 
 from ..misc import merge
+from ..exceptions import SolverError, EmptyDomainException, UnboundedDomainException
 
 class LinIneqDomain(LinQuadDomain):
 	r"""A domain specified by a combination of linear equality and inequality constraints.
@@ -106,6 +107,12 @@ class LinIneqDomain(LinQuadDomain):
 
 		problem = cp.Problem(cp.Maximize(r), constraints)
 		problem.solve(**self.kwargs)
+		if problem.status in ['infeasible']:
+			raise EmptyDomainException
+		elif problem.status in ['unbounded']:
+			raise UnboundedDomainException
+		elif problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 		radius = float(r.value)
 		center = np.array(x.value).reshape(len(self))
 		
-- 
2.43.0


From 3252f75456f8fdc54c18b2f74e727683e70b71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 039/115] fix: linear_fit returned the outcome of a failed
 solve

---
 psdr/poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/poly.py b/psdr/poly.py
index b0f321f..dbd9e52 100644
--- a/psdr/poly.py
+++ b/psdr/poly.py
@@ -5,6 +5,7 @@
 from __future__ import print_function
 import numpy as np
 import cvxpy as cp
+from .exceptions import SolverError
 import scipy.linalg
 import cvxpy as cp
 from copy import copy
@@ -41,6 +42,8 @@ def linear_fit(A, b, norm = 2, bound = None):
 		# Now actually solve the problem
 		problem = cp.Problem(cp.Minimize(obj), constraint)
 		problem.solve(feastol = 1e-10, reltol = 1e-8, abstol = 1e-8, solver = cp.ECOS)
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 		return x.value
 
 
-- 
2.43.0


From 7bb90061311ee36c15ca978245ef413a8f791c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 040/115] fix: ridge coefficient fits returned the outcome of a
 failed solve

---
 psdr/polyridge.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index ea99544..813f2cb 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -15,7 +15,7 @@ from .ridge import RidgeFunction
 from .basis import *
 from .gn import gauss_newton 
 from .seqlp import sequential_lp
-from .exceptions import UnderdeterminedException
+from .exceptions import UnderdeterminedException, SolverError
 from .initialization import initialize_subspace
 from .poly import PolynomialFunction
 
@@ -120,6 +120,8 @@ def inf_norm_fit(A, b):
 		obj = cp.norm_inf(A @ x - b.flatten())
 		problem = cp.Problem(cp.Minimize(obj))
 		problem.solve(solver = 'ECOS')
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 		return x.value
 
 def one_norm_fit(A, b):
@@ -136,6 +138,8 @@ def one_norm_fit(A, b):
 		obj = cp.norm1(x.__rmatmul__(A) - b)
 		problem = cp.Problem(cp.Minimize(obj))
 		problem.solve(solver = 'ECOS')
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 		return x.value
 
 def two_norm_fit(A,b):
@@ -172,6 +176,8 @@ def bound_fit(A, b, norm = 2):
 		problem.solve(feastol = 1e-10, solver = cp.ECOS)
 		#problem.solve(eps = 1e-10, solver = cp.SCS)
 		#problem.solve(feastol = 1e-10, solver = cp.CVXOPT)
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 		# TODO: The solution doesn't obey the constraints for 1 and inf norm, but does for 2-norm.
 		return x.value
 
-- 
2.43.0


From a603e39991dd2aa6979f342feb853939767172c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 041/115] fix: the shadow envelope used the outcome of a failed
 solve

---
 psdr/subspace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 425b2b5..6cba6d2 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -21,6 +21,7 @@ import cvxopt
 from .pgf import PGF
 from .domains.domain import DEFAULT_CVXPY_KWARGS
 from .misc import merge
+from .exceptions import SolverError
 
 __all__ = ['SubspaceBasedDimensionReduction',
 	'ActiveSubspace', 
@@ -201,6 +202,8 @@ class SubspaceBasedDimensionReduction(object):
 		#ub.value = np.array(ub0).flatten()
 		prob = cp.Problem(cp.Minimize(cp.sum(ub)), [A*ub >= fX.flatten()])
 		prob.solve(**solver_kwargs)
+		if prob.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % prob.status)
 		ub = ub.value
 		
 		lb = cp.Variable(len(yy))
@@ -208,6 +211,8 @@ class SubspaceBasedDimensionReduction(object):
 		#lb.value = np.array(lb0).flatten()
 		prob = cp.Problem(cp.Maximize(cp.sum(lb)), [A*lb <= fX.flatten()])
 		prob.solve(**solver_kwargs)
+		if prob.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % prob.status)
 		lb = lb.value
 
 		if ax is not None:
-- 
2.43.0


From 32ef5f4ae838040cd5286af5ab7a1648d001103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 042/115] fix: minimax cluster centers and coverings used the
 outcome of a failed solve

---
 psdr/sample/minimax.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 9521631..fc8ffb2 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -9,6 +9,7 @@ from functools import lru_cache
 from iterprinter import IterationPrinter
 
 from ..domains.domain import DEFAULT_CVXPY_KWARGS
+from ..exceptions import SolverError
 
 from .poisson import poisson_disk_sample
 from .sobol import sobol_sequence
@@ -99,6 +100,8 @@ def _cq_center_cvxpy(Y, L, q = 10, xhat = None, solver_opts = {'warm_start': Tru
 
 	prob = cp.Problem(cp.Minimize(obj), constraints)
 	prob.solve(**solver_opts)
+	if prob.status not in ['optimal', 'optimal_inaccurate']:
+		raise SolverError("CVXPY exited with status '%s'" % prob.status)
 	return np.array(xhat.value)
 
 
@@ -448,6 +451,8 @@ def minimax_covering_discrete(X, r, L = None, **kwargs):
 
 	prob = cp.Problem(cp.Minimize(cp.sum(I)), constraints)
 	prob.solve(**kwargs)
+	if prob.status not in ['optimal', 'optimal_inaccurate']:
+		raise SolverError("CVXPY exited with status '%s'" % prob.status)
 	# Convert to a boolean array
 	I = np.array(I.value > 0.5, dtype = np.bool)
 	return I
-- 
2.43.0


From 6234165f9dbe7cab17987d0c21c1a99e95d1a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 043/115] fix: minimax_lloyd placed nan points after a failed
 solve

---
 psdr/sample/minimax_lloyd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/sample/minimax_lloyd.py b/psdr/sample/minimax_lloyd.py
index f3c178e..c782e16 100644
--- a/psdr/sample/minimax_lloyd.py
+++ b/psdr/sample/minimax_lloyd.py
@@ -1,5 +1,6 @@
 import numpy as np
 import cvxpy as cp
+from ..exceptions import SolverError
 from iterprinter import IterationPrinter
 
 from ..geometry import voronoi_vertex, voronoi_vertex_sample, unique_points, cdist
@@ -124,6 +125,8 @@ def minimax_lloyd(domain, M, L = None, maxiter = 100, Xhat = None, verbose = Tru
 			obj = cp.mixed_norm( (L @ ( cp.reshape(x,(len(domain),1)) @ ones - V[I].T)).T, 2, np.inf)
 			prob = cp.Problem(cp.Minimize(obj), constraints)
 			prob.solve()
+			if prob.status not in ['optimal', 'optimal_inaccurate']:
+				raise SolverError("CVXPY exited with status '%s'" % prob.status)
 			Xhat_new[k] = x.value
 
 		
-- 
2.43.0


From 7972f51acb6ebeb380beda504842bec3eb478608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 044/115] fix: miniball returned the outcome of a failed solve

---
 psdr/geometry/miniball.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/geometry/miniball.py b/psdr/geometry/miniball.py
index fba92d9..4eed945 100644
--- a/psdr/geometry/miniball.py
+++ b/psdr/geometry/miniball.py
@@ -1,5 +1,6 @@
 import numpy as np
 import cvxpy as cp
+from ..exceptions import SolverError
 
 
 def miniball(X, L = None):
@@ -31,5 +32,7 @@ def miniball(X, L = None):
 	obj = cp.mixed_norm( (L @ ( cp.reshape(x,(m,1)) @ ones - X.T)).T, 2, np.inf)
 	prob = cp.Problem(cp.Minimize(obj))
 	prob.solve()
+	if prob.status not in ['optimal', 'optimal_inaccurate']:
+		raise SolverError("CVXPY exited with status '%s'" % prob.status)
 
 	return x.value, obj.value
-- 
2.43.0


From dace8fb76123293811b825866aaf0f4f4f0e637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 045/115] fix: the Lipschitz compatible data fit returned the
 outcome of a failed solve

---
 psdr/lipschitz_approx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz_approx.py b/psdr/lipschitz_approx.py
index f21f907..311614e 100644
--- a/psdr/lipschitz_approx.py
+++ b/psdr/lipschitz_approx.py
@@ -3,6 +3,7 @@ import cvxpy as cp
 from .lipschitz import LipschitzMatrix
 from .ridge import RidgeFunction
 from .misc import merge
+from .exceptions import SolverError
 from .sample import maximin_design_1d
 from .pgf import PGF
 
@@ -40,6 +41,8 @@ def lipschitz_approximation_compatible_data(L, X, fX, norm = 1, **kwargs):
 
 	prob = cp.Problem(cp.Minimize(obj), constraints)
 	prob.solve(**kwargs)
+	if prob.status not in ['optimal', 'optimal_inaccurate']:
+		raise SolverError("CVXPY exited with status '%s'" % prob.status)
 
 	return y.value	
 
-- 
2.43.0


From fe1eac5798e166aab1534bb9d6999b660a7a98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 046/115] fix: PartialLipschitz used the outcome of a failed
 solve

---
 psdr/lipschitz_partial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index d465cb9..47f7f0d 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -7,6 +7,7 @@ from .lipschitz import LipschitzMatrix
 
 from .domains import DEFAULT_CVXPY_KWARGS
 from .misc import merge
+from .exceptions import SolverError
 from .initialization import initialize_subspace
 
 class PartialLipschitzMatrix(LipschitzMatrix):
@@ -177,6 +178,8 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**self.solver_kwargs)
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 
 		J = np.array(J.value)
 		alpha = float(alpha.value)
-- 
2.43.0


From da1a4e0596679bca06b3dcaa0b64844953b9526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 047/115] fix: nonlinearity used the outcome of a failed solve

---
 psdr/nonlin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index 3bb026a..401874e 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -1,5 +1,6 @@
 import numpy as np
 import cvxpy as cp
+from .exceptions import SolverError
 from .lipschitz_utils import _vec_norm
 
 def measure_nonlinearity(X, fX, **kwargs):
@@ -52,6 +53,8 @@ def measure_nonlinearity(X, fX, **kwargs):
 	]
 	prob = cp.Problem(cp.Minimize(L), constraints)
 	prob.solve(**kwargs)
+	if prob.status not in ['optimal', 'optimal_inaccurate']:
+		raise SolverError("CVXPY exited with status '%s'" % prob.status)
 
 	return float(L.value/L0), a.value
 
-- 
2.43.0


From 1c0b1e2bda235c39417427b6293cef65863ac0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 048/115] fix: Lipschitz matrix fits used the outcome of a
 failed solve

---
 psdr/lipschitz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index c9ed35a..f9fe348 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -21,6 +21,7 @@ import time
 
 #from .domains import Domain	
 from .misc import merge
+from .exceptions import SolverError
 from .subspace import SubspaceBasedDimensionReduction
 from .coord import CoordinateBasedDimensionReduction
 from .sample import initial_sample, maximin_coffeehouse
@@ -231,8 +232,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 
 		problem = cp.Problem(cp.Minimize(cp.trace(H)), constraints)
 		problem.solve(**self.kwargs)
-		print("Inside Lipschitz")
-		print(np.array(H.value))	
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 		return np.array(H.value).reshape(len(self),len(self))
 				
 	
@@ -278,6 +279,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		
 		problem = cp.Problem(cp.Minimize(cp.sum(alpha)), constraints)
 		problem.solve(**self.kwargs)
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 
 		alpha = np.array(alpha.value)
 		H = np.sum([ alpha_i * Ei for alpha_i, Ei in zip(alpha, Es)], axis = 0)
-- 
2.43.0


From 27707c2eb74c81b83ff1526c59e6213e67f08f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 049/115] fix: minimax continued after a solve that was neither
 optimal nor plainly infeasible

---
 psdr/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/minimax.py b/psdr/minimax.py
index a124556..5e9b776 100644
--- a/psdr/minimax.py
+++ b/psdr/minimax.py
@@ -162,7 +162,7 @@ def minimax(f, x0, domain = None, trajectory = trajectory_linear,
 		except cp.error.SolverError:
 			break
 
-		if problem.status in ['infeasible', 'unbounded']:
+		if problem.status not in ['optimal', 'optimal_inaccurate']:
 			raise Exception(problem.status)
 	
 		px = px.value
-- 
2.43.0


From 833b7763c0f308b11b8e7a4e165ebadb2ec889b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 050/115] fix: the CVXOPT Lipschitz matrix fit did not check
 for a failed solve

---
 psdr/lipschitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index f9fe348..7c96ef4 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -355,6 +355,9 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 				cvxopt.solvers.options[name] = self.kwargs[name]
 
 		sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+		# 'unknown' is how CVXOPT reports stopping at reduced accuracy
+		if sol['status'] not in ['optimal', 'unknown']:
+			raise SolverError("CVXOPT exited with status '%s'" % sol['status'])
 		alpha = sol['x']
 		H = np.sum([ alpha_i * Ei for alpha_i, Ei in zip(alpha, Es)], axis = 0)
 		return H
-- 
2.43.0


From 91be9b5ea504f4e174ec77dca73ed4a99eb4d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 051/115] fix: voronoi_vertex did not check for a failed solve

---
 psdr/geometry/vertex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 2d747a1..e565df5 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -7,6 +7,7 @@ import numpy as np
 from scipy.spatial.distance import cdist, pdist
 import scipy.linalg
 from cvxopt import matrix, solvers
+from ..exceptions import SolverError
 solvers.options['show_progress'] = False
 
 from scipy.spatial import HalfspaceIntersection
@@ -98,6 +99,8 @@ def voronoi_vertex(domain, Xhat, L = None):
 			
 			# Solve the linear program with CVXOPT as scipy's linprog reports ill-conditioning 
 			sol = solvers.lp(matrix(cc), matrix(AA), matrix(bb))
+			if sol['status'] not in ['optimal', 'unknown']:
+				raise SolverError("CVXOPT exited with status '%s'" % sol['status'])
 			xhat2 = np.array(sol['x'][:-1]).flatten()
 			
 			try:
-- 
2.43.0


From d644353208e4d5bab32ce2ddb6db439761b82288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 052/115] fix: is_unbounded raised ValueError on
 one-dimensional domains

---
 psdr/domains/euclidean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index bae6ff7..879b02d 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -113,7 +113,10 @@ class EuclideanDomain(Domain):
 	@cached_property
 	def is_unbounded(self):
 		try:
-			U = ortho_group.rvs(len(self))
+			if len(self) > 1:
+				U = ortho_group.rvs(len(self))
+			else:
+				U = np.ones((1,1))
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-- 
2.43.0


From 35b4e09849b5766ec7d515f7e3479e9da188f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 053/115] fix: sampling an unbounded domain raised
 OverflowError instead of UnboundedDomainException

---
 psdr/domains/euclidean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 879b02d..ae519c0 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -904,6 +904,8 @@ class EuclideanDomain(Domain):
 
 			alpha_min = -self.extent(x0, -p)
 			alpha_max =  self.extent(x0,  p)
+			if not (np.isfinite(alpha_min) and np.isfinite(alpha_max)):
+				raise UnboundedDomainException
 			if alpha_max - alpha_min > 1e-7:
 				alpha = np.random.uniform(alpha_min, alpha_max)
 				# We call closest point just to make sure we stay inside numerically
-- 
2.43.0


From ca5cb165a78222e9914481343681c1642a6d6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 054/115] fix: gradient of a quadratic function whose matrix is
 not symmetric

---
 psdr/demos/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/polynomial.py b/psdr/demos/polynomial.py
index 3559d39..ec19715 100644
--- a/psdr/demos/polynomial.py
+++ b/psdr/demos/polynomial.py
@@ -80,4 +80,4 @@ class QuadraticFunction(Function):
 		return 	(X.dot(self.quad)*X).sum(axis = 1) + self.linear.dot(X.T) + self.constant
 
 	def _func_grad(self, X):
-		 return 2*X.dot(self.quad) + np.tile(self.linear, (len(X),1))
+		 return X.dot(self.quad + self.quad.T) + np.tile(self.linear, (len(X),1))
-- 
2.43.0


From 708c1edeb0aee9868ee4ac9c8f4857135cd75e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 055/115] fix: documented range of the OTL circuit resistances

---
 psdr/demos/otl_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/demos/otl_circuit.py b/psdr/demos/otl_circuit.py
index fca42c4..0a78e1a 100644
--- a/psdr/demos/otl_circuit.py
+++ b/psdr/demos/otl_circuit.py
@@ -22,10 +22,10 @@ class OTLCircuit(Function):
 	Variable                                Interpretation
 	====================================    ========================
 	:math:`R_{b1} \in [50, 150]`			resistance b1 (K-Ohms)
-	:math:`R_{b2} \in [25, 75]`				resistance b2 (K-Ohms)
+	:math:`R_{b2} \in [25, 70]`				resistance b2 (K-Ohms)
 	:math:`R_{f} \in [0.5, 3]`				resistance f (K-Ohms)
 	:math:`R_{c1} \in [1.2, 2.5]`			resistance c1 (K-Ohms)
-	:math:`R_{c1} \in [0.25, 1.2]`			resistance c2 (K-Ohms)
+	:math:`R_{c2} \in [0.25, 1.2]`			resistance c2 (K-Ohms)
 	:math:`\beta \in [50, 300]`				current gain (Amperes)
 	====================================    ========================
 
-- 
2.43.0


From bd2f49a32c939d0105d93718e4a25e8202f91833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 056/115] fix: finite-difference gradient evaluates both points
 with the same kwargs and handles several outputs

---
 psdr/function.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 84541f1..2e48c01 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -201,14 +201,14 @@ class Function(BaseFunction):
 			h = 1e-7
 			grads = []
 			for x in np.atleast_2d(X_norm):
-				fx = self.eval(x)
-				grad = np.zeros(x.shape)
+				fx = self.eval(x, **kwargs)
+				# one row per output
+				grad = np.zeros((len(fx), len(x)))
 				for i in range(len(x)):
 					ei = np.zeros(x.shape)
 					ei[i] = 1.
-					grad[i] = (self.eval(x + h*ei, **kwargs) - fx)/h
-				# This ensures the dimensions match expectation for 
-				grads.append(np.atleast_2d(grad))
+					grad[:,i] = (self.eval(x + h*ei, **kwargs) - fx)/h
+				grads.append(grad)
 			
 			return self._shape_grad(X_norm, grads)
 
-- 
2.43.0


From 30d1db465f1ee6b3340046b892845a7a1bf7c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 057/115] fix: vectorized gradients are ordered point by output
 by parameter

---
 psdr/function.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 2e48c01..49e151a 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -220,9 +220,8 @@ class Function(BaseFunction):
 			X = np.atleast_2d(X)
 			
 			if self.vectorized:
-				# TODO: I don't think this will get dimensions quite right
-				grads = np.array([ np.array(grad(X, **kwargs)) for grad in self._grads])
-				grads = np.transpose(grads, (1,0,2))
+				grads = [ np.array(grad(X, **kwargs)).reshape(len(X), -1, len(self.domain)) for grad in self._grads]
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = np.array([ np.vstack([grad(x, **kwargs) for grad in self._grads]) for x in X])
 		
@@ -238,8 +237,8 @@ class Function(BaseFunction):
 				grads = []
 				for fun in self._funs:
 					fXi, gradsi = fun(X, return_grad = True, **kwargs)
-					grads.append(gradsi)
-				grads = np.array([ np.atleast_2d(grad) for grad in grads])
+					grads.append(np.array(gradsi).reshape(len(X), -1, len(self.domain)))
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = []
 				for x in X:
-- 
2.43.0


From 1bd8febf02c15118e90c275d85f09f0f46010c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 058/115] fix: vectorized values returned alongside gradients
 have one row per point

---
 psdr/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 49e151a..7cb47b1 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -266,8 +266,8 @@ class Function(BaseFunction):
 			D = self.domain_app._unnormalize_der() 	
 			if self.vectorized:
 				ret = [fun(X, return_grad = True, **kwargs) for fun in self._funs]
-				fX = np.hstack([r[0] for r in ret])
-				grads = np.concatenate([r[1].reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
+				fX = np.hstack([np.array(r[0]).reshape(len(X), -1) for r in ret])
+				grads = np.concatenate([np.array(r[1]).reshape(len(X), -1, len(self.domain)) for r in ret], axis = 1)
 			else:
 				fX = []
 				grads = []
-- 
2.43.0


From 670023b64337230c2a041e58f67ecf0e28b004a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 059/115] fix: Function accepts lists when returning values and
 gradients together

---
 psdr/function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/function.py b/psdr/function.py
index 7cb47b1..178e70d 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -261,6 +261,7 @@ class Function(BaseFunction):
 
 		if self.return_grad:
 			# If the function can return both the value and gradient simultaneously
+			X_norm = np.atleast_1d(X_norm)
 			X = self.domain_app.unnormalize(X_norm)
 			X = np.atleast_2d(X)
 			D = self.domain_app._unnormalize_der() 	
-- 
2.43.0


From b2668066b8ac753ec6c5651e172afed371700b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 060/115] fix: BaseFunction passes keyword arguments to values
 and gradients

---
 psdr/function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 178e70d..4f6893b 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -21,17 +21,17 @@ class BaseFunction(object):
 
 	"""
 	def eval(self, X, **kwargs):
-		return self.__call__(X, return_grad = False)
+		return self.__call__(X, return_grad = False, **kwargs)
 
-	def grad(self, X):
-		return self.__call__(X, return_grad = True)[1]
+	def grad(self, X, **kwargs):
+		return self.__call__(X, return_grad = True, **kwargs)[1]
 
 	def hessian(self, X):
 		raise NotImplementedError
 
 	def __call__(self, X, return_grad = False, **kwargs):
 		if return_grad:
-			return self.eval(X, **kwargs), self.grad(X)
+			return self.eval(X, **kwargs), self.grad(X, **kwargs)
 		else:
 			return self.eval(X, **kwargs)
 
-- 
2.43.0


From 03c59e93d52a74f043a5c568433bccc7ed653976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 061/115] fix: asynchronous gradients are taken in the
 normalized coordinates

---
 psdr/function.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 4f6893b..2fbb4d8 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -166,12 +166,18 @@ class Function(BaseFunction):
 		X = self.domain_app.unnormalize(X_norm)
 		X = np.atleast_2d(X)
 
-		def subcall(funs_pickle, x, **kwargs_):
+		D = self.domain_app._unnormalize_der()
+
+		def subcall(funs_pickle, x, D, **kwargs_):
 			import cloudpickle
 			funs = [cloudpickle.loads(fun) for fun in funs_pickle]
-			return [fun(x, **kwargs_) for fun in funs]
+			ret = [fun(x, **kwargs_) for fun in funs]
+			if kwargs_.get('return_grad', False):
+				# Correct gradients to apply to the normalized domain
+				ret = [(fx, grad @ D.T) for fx, grad in ret]
+			return ret
 
-		results = [self.dask_client.submit(subcall, self._funs_pickle, x, **kwargs) for x in X]	
+		results = [self.dask_client.submit(subcall, self._funs_pickle, x, D, **kwargs) for x in X]	
 		if len(X_norm.shape) == 1:
 			return results[0]
 		else:
-- 
2.43.0


From 56406246a9eefad44c3b90c85e94f7c480261f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 062/115] fix: call_async only asks for gradients when they are
 requested

---
 psdr/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/function.py b/psdr/function.py
index 2fbb4d8..28426b2 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -307,7 +307,9 @@ class Function(BaseFunction):
 		and this function, call_async, which can optionally return gradients, like __call__.
 		"""
 		kwargs = merge(self.kwargs, kwargs)
-		return self.eval_async(X_norm, return_grad = return_grad, **kwargs)
+		if return_grad:
+			kwargs['return_grad'] = True
+		return self.eval_async(X_norm, **kwargs)
 	
 #	def __get__(self, i):
 #		"""Get a particular sub-function as another Function"""
-- 
2.43.0


From 58cb22ee5971a5cef9475afcefc31b0d50be65a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 063/115] fix: search directions of alternating ridge fits are
 orthogonal to the columns of U, not to blocks of its rows

---
 psdr/polyridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 813f2cb..38b214f 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -655,7 +655,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			N = len(self.basis)
 			n = self.subspace_dimension
 			U = U_c[:m*n].reshape(m,n)
-			constraints = [ pU_pc[k*m:(k+1)*m].__rmatmul__(U.T) == np.zeros(n) for k in range(n)]
+			constraints = [ pU_pc[k:m*n:n].__rmatmul__(U.T) == np.zeros(n) for k in range(n)]
 			return constraints
 
 		# setup lower/upper bound into SLP solver
-- 
2.43.0


From 0312a521a9daef643d832d6164cd1dd9d3d52f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 064/115] fix: Arnoldi bases accept single points and integer
 coordinates

---
 psdr/basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/basis.py b/psdr/basis.py
index 4661665..b7a6352 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -489,6 +489,8 @@ class ArnoldiPolynomialBasis(Basis):
 	def arnoldi_X(self, X):
 		r""" Generate a Vandermonde matrix corresponding to a different set of points
 		"""
+		# accept single points, and integers without truncating the result
+		X = 1.*np.array(X).reshape(-1, self.dim)
 		W = np.zeros((X.shape[0], len(self.indices)), dtype = X.dtype)
 
 		iteridx = enumerate(self.indices)
@@ -522,6 +524,7 @@ class ArnoldiPolynomialBasis(Basis):
 			X = self.X
 			V = self.Q
 		else:
+			X = np.array(X).reshape(-1, self.dim)
 			V = self.arnoldi_X(X)
 
 		M = X.shape[0]
-- 
2.43.0


From 35332334e8dbce2b012f2ed9b93bb0ba397173d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 065/115] fix: CoordinateBasedDimensionReduction.plot_score
 compares ax to 'auto' by value

---
 psdr/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/coord.py b/psdr/coord.py
index d0b62bd..2d69d14 100644
--- a/psdr/coord.py
+++ b/psdr/coord.py
@@ -23,7 +23,7 @@ class CoordinateBasedDimensionReduction(SubspaceBasedDimensionReduction):
 		return self._score
 
 	def plot_score(self, ax = 'auto', domain = None):
-		if ax is 'auto':
+		if isinstance(ax, str) and ax == 'auto':
 			fig, ax = plt.subplots(figsize = (6,6))	 
 		
 		if ax is not None:
-- 
2.43.0


From 9f65619cd8672bd35b3fc4da8d321784c198c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 066/115] fix: coordinate-based reduction reported the ordering
 of an earlier fit after refitting

---
 psdr/coord.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/psdr/coord.py b/psdr/coord.py
index 2d69d14..7b9eb95 100644
--- a/psdr/coord.py
+++ b/psdr/coord.py
@@ -39,11 +39,5 @@ class CoordinateBasedDimensionReduction(SubspaceBasedDimensionReduction):
 
 	@property
 	def	U(self):
-		try:
-			if self._U is None:
-				raise AttributeError
-		except AttributeError:
-			self._U = np.eye(len(self.score))[:,np.argsort(-self.score)] 
-		
-		return self._U
+		return np.eye(len(self.score))[:,np.argsort(-self.score)]
 
-- 
2.43.0


From 5d0a3e9c329545901f0309f05f571380fb8119d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 067/115] fix: orienting a subspace by gradients zeroed columns
 along which the mean slope vanishes

---
 psdr/subspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 6cba6d2..6f87b17 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -279,7 +279,10 @@ class SubspaceBasedDimensionReduction(object):
 		return U.dot(np.diag(np.sign(sgn)))	
 
 	def _fix_subspace_signs_grads(self, U, grads):
-		return U.dot(np.diag(np.sign(np.mean(grads.dot(U), axis = 0))))
+		sgn = np.sign(np.mean(grads.dot(U), axis = 0))
+		# If the sign is zero, keep the current orientation
+		sgn[sgn == 0] = 1
+		return U.dot(np.diag(sgn))
 
 	
 	def approximate_lipschitz(self, X = None, fX = None, grads = None,  dim = None):
-- 
2.43.0


From 46cf2211b9f6b849d0e27e8a04f5e93f6467711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 068/115] fix: LipschitzConstant compared unscaled samples to
 the scaled noise tolerance; a single sample raised ValueError

---
 psdr/lipschitz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 7c96ef4..fa03168 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -629,8 +629,10 @@ class LipschitzConstant(LipschitzMatrix):
 		LipschitzMatrix.__init__(self, **kwargs)
 
 	def _fit(self, X, fX, grads, epsilon, scale):
+		# epsilon has been scaled along with the data, so undo the scaling
+		epsilon = scale * epsilon
 		L = 0
-		if len(X) > 0:
+		if len(X) > 1:
 			L_samp = np.max([ (abs(fX[i] - fX[j]) - epsilon )/ np.linalg.norm(X[i] - X[j]) 
 				for i,j in combinations(range(len(X)), 2)])
 			L = max(L, L_samp)
-- 
2.43.0


From 6d053bbd59568a936f4acd826b2a5d2974d101ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 069/115] fix: uncertainty_domain ignored the noise tolerance
 included by uncertainty

---
 psdr/lipschitz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index fa03168..9cbc057 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -487,7 +487,9 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			x = minimax(upper_bound, x0, domain = domain, verbose = verbose, trust_region = False)
 			ubs.append(np.min(-upper_bound(x)))
 			#print(lbs[-1], ubs[-1])
-		return float(np.min(lbs)), float(np.max(ubs))
+		# Widen the interval by the noise as done in uncertainty
+		epsilon = 0. if self.epsilon is None else self.epsilon
+		return float(np.min(lbs)) - epsilon, float(np.max(ubs)) + epsilon
 
 #		# Attempts at making a parallel interface
 #		else:
-- 
2.43.0


From 1ea721dbfeaa6729bdf88a15dca286bf8b679792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 070/115] fix: DiagonalLipschitzMatrix raised TypeError with
 method 'param' or 'cvxpy'

---
 psdr/lipschitz.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 9cbc057..de6450a 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -209,9 +209,14 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		"""
 		return self._L
 
-	def _build_lipschitz_matrix_cvxpy(self, X, fX, grads, epsilon):
-		# Constrain H to symmetric positive semidefinite (PSD)
-		H = cp.Variable( (len(self), len(self)), PSD = True)
+	def _build_lipschitz_matrix_cvxpy(self, X, fX, grads, epsilon, structure = 'full'):
+		if structure == 'full':
+			# Constrain H to symmetric positive semidefinite (PSD)
+			H = cp.Variable( (len(self), len(self)), PSD = True)
+		elif structure == 'diag':
+			H = cp.diag(cp.Variable(len(self), nonneg = True))
+		else:
+			raise NotImplementedError
 		
 		constraints = []		
 
@@ -237,9 +242,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		return np.array(H.value).reshape(len(self),len(self))
 				
 	
-	def _build_lipschitz_matrix_param(self, X, fX, grads, epsilon):
+	def _build_lipschitz_matrix_param(self, X, fX, grads, epsilon, structure = 'full'):
 		r""" Use an explicit parameterization
 		"""
+		if structure not in ['full', 'diag']:
+			raise NotImplementedError
 
 		# Build the basis
 		Es = []
@@ -247,6 +254,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		for i in range(len(self)):
 			ei = I[:,i]
 			Es.append(np.outer(ei,ei))
+			if structure == 'diag':
+				continue
 			for j in range(i+1,len(self)):
 				ej = I[:,j]
 				Es.append(0.5*np.outer(ei+ej,ei+ej))
-- 
2.43.0


From 8dcb6e101b0ca72fbbdc8bcdb29779458b43d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 071/115] fix: PartialLipschitzMatrix constrained pairs whose
 difference is below the noise tolerance

---
 psdr/lipschitz_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 47f7f0d..a1b4b45 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -162,7 +162,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		for i in range(len(X)):
 			for j in range(i+1, len(X)):
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
 				rhs = cp.quad_form(UTy, J) + alpha*( y.dot(y) - UTy.dot(UTy))
@@ -206,7 +206,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			for j in range(i+1, len(X)):
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2 
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2 
 				# y.T @ U.T @ J @  U @ y + alpha* y.T @ (I - U @ U.T) @ y
 				lhs -= UTy.dot(J.dot(UTy)) + alpha*(y.dot(y) - UTy.dot(UTy)) # 0th order term
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
-- 
2.43.0


From 6ecacfdfe51e68367805928d51035fdb757128f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 072/115] fix: PartialLipschitzMatrix search direction
 linearised the trailing block with the leading one

---
 psdr/lipschitz_partial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index a1b4b45..5a21a0c 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -212,7 +212,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
 				rhs = (2*Up.T.__rmatmul__(J.dot(UTy))).__matmul__(y) + cp.quad_form(UTy, Jp) # 1st order term
 				#rhs = 2*Up.T.__matmul__(y).__rmatmul__(J.dot(UTy)) + cp.quad_form(UTy, Jp)
-				rhs += -2*alpha*(Up.T.__matmul__(y)).__rmatmul__(J.dot(UTy).T) + alphap*(y.dot(y) - UTy.dot(UTy))
+				rhs += -2*alpha*(Up.T.__matmul__(y)).__rmatmul__(UTy.T) + alphap*(y.dot(y) - UTy.dot(UTy))
 				constraints.append(lhs <= rhs)
 
 		Pperp = np.eye(m) - U.dot(U.T) 
-- 
2.43.0


From 5be14242fe2e64b555b8fb416d0be82ad01f7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 073/115] fix: PartialLipschitzMatrix.L was not a number when
 rounding made an eigenvalue negative

---
 psdr/lipschitz_partial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 5a21a0c..fcc40a6 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -119,7 +119,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 		m, r = self.U.shape
 		Q, _ = np.linalg.qr(self.U, mode = 'complete')
 		JJdiag = np.hstack([np.diag(self.J), self.alpha*np.ones(m-r)])
-		return Q.dot(np.diag(np.sqrt(JJdiag))).dot(Q.T)
+		return Q.dot(np.diag(np.sqrt(np.maximum(JJdiag, 0)))).dot(Q.T)
 
 	@property
 	def J(self):
-- 
2.43.0


From d910be55d5b2d96b2f2c4e08ad14b54b33874bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 074/115] fix: OuterProductGradient passed the name 'xia'
 instead of the bandwidth it computed

---
 psdr/opg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 57d0f5d..5b57bb5 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -120,7 +120,7 @@ class OuterProductGradient(ActiveSubspace):
 			bandwidth = self.bandwidth
 
 		# Step 3: Estimate gradients
-		z_grads = local_linear_grads(Z, fX, perplexity = self.perplexity, bandwidth = self.bandwidth)
+		z_grads = local_linear_grads(Z, fX, perplexity = self.perplexity, bandwidth = bandwidth)
 
 		# Step 4: identify the active subspace
 		ActiveSubspace.fit(self, z_grads)
-- 
2.43.0


From 226a73cb19a5120caed4e48f153d3401b66252f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 075/115] fix: OuterProductGradient undid the standardisation
 with the wrong power of the standard deviation

---
 psdr/opg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 5b57bb5..522695d 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -127,8 +127,8 @@ class OuterProductGradient(ActiveSubspace):
 			
 		if self.standardize:
 			# Undo the coordiante change introduced by standardization 
-			Dinv2 = np.diag(std**(-0.5))
-			U = Dinv2.dot(self.U)
+			Dinv = np.diag(1./std)
+			U = Dinv.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
 			self._U = self._fix_subspace_signs_grads(self._U, z_grads)		
-- 
2.43.0


From 727bbffb07f64054d0e40b74d90a899e5b021bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 076/115] fix: orth must not zero a column when the input is
 rank deficient

---
 psdr/polyridge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 38b214f..5194822 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -103,7 +103,9 @@ class IllposedException(Exception):
 def orth(U):
 	""" Orthgonalize, but keep directions"""
 	U, R = np.linalg.qr(U, mode = 'reduced')
-	U = np.dot(U, np.diag(np.sign(np.diag(R)))) 
+	sgn = np.sign(np.diag(R))
+	sgn[sgn == 0] = 1
+	U = np.dot(U, np.diag(sgn)) 
 	return U
 
 def inf_norm_fit(A, b):
-- 
2.43.0


From d8d8dfd619c014c8b1a9fca539c11f63003a1af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 077/115] fix: polynomial ridge fit must not zero a direction
 along which the average slope vanishes

---
 psdr/polyridge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 5194822..7a34a70 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -444,7 +444,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
 			grads = self.profile.grad(Y)
-			self._U = U = U.dot(np.diag(np.sign(np.mean(grads, axis = 0))))
+			sgn = np.sign(np.mean(grads, axis = 0))
+			sgn[sgn == 0] = 1
+			self._U = U = U.dot(np.diag(sgn))
 		
 		# Step 3: final fit	
 		self.coef = self._fit_coef(X, fX, U)
-- 
2.43.0


From 5781641c148af7231f0a0b5f742ad8d786b0ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 078/115] fix: orient rotated ridge directions by the slope at
 the samples in the rotated coordinates

---
 psdr/polyridge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 7a34a70..e9ba3a9 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -437,6 +437,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			# We only need the short-form SVD
 			Ur = scipy.linalg.svd(grads.T, full_matrices = False)[0]
 			U = U @ Ur
+			Y = (U.T @ X.T).T
 		
 		self._U = U
 
-- 
2.43.0


From 9e71eba04ee80cd1b70d365a7dac2f4dd4b3c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 079/115] fix: polynomial ridge fit raises the package's
 UnderdeterminedException

---
 psdr/polyridge.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index e9ba3a9..cc67cd9 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -90,15 +90,6 @@ class PolynomialRidgeFunction(RidgeFunction):
 	
 
 
-################################################################################
-# Two types of custom errors raised by PolynomialRidgeApproximation
-################################################################################
-class UnderdeterminedException(Exception):
-	pass
-
-class IllposedException(Exception):
-	pass
-
 
 def orth(U):
 	""" Orthgonalize, but keep directions"""
-- 
2.43.0


From 1d2024b9d4d712e2efd2e0752bbb66c030f6f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 080/115] fix: local_linear returns one model per requested
 point

---
 psdr/local_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 3f12067..5115596 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -175,7 +175,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 	Y = np.hstack([np.ones((M, 1)), X])
 	
 	# Coefficients in linear models
-	A = np.zeros((M, m+1))
+	A = np.zeros((len(Xt), m+1))
 	for i, xi in enumerate(Xt):
 		d = cdist(X, xi.reshape(1,-1), 'sqeuclidean').flatten()
 		if perplexity:
-- 
2.43.0


From 9ce1533b0bd1abd4bf95ca02ca17617d20ce4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 081/115] fix: affine ridge fit with a lower (upper) bound fits
 from below (above)

---
 psdr/polyridge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index cc67cd9..07addf9 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -381,9 +381,10 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 				b = inf_norm_fit(XX, fX)
 		elif self.bound == 'lower':
 			# fX >= XX b
-			b = bound_fit(XX, fX, norm = self.norm)
+			b = bound_fit(-XX, -fX, norm = self.norm)
 		elif self.bound == 'upper':
-			b = bound_fit(-XX, -fX, norm = self.norm)	 	
+			# fX <= XX b
+			b = bound_fit(XX, fX, norm = self.norm)	 	
 
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
-- 
2.43.0


From 390fb7184c34e5812e3c60b1f4a7ea90a75ee8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 082/115] fix: affine ridge fit of constant data gives a unit
 direction rather than nan

---
 psdr/polyridge.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 07addf9..cb924c8 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -370,7 +370,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		XX = np.hstack([dom.normalize(X), np.ones((X.shape[0],1))])
 
 		# Normalize the output
-		fX = (fX - np.min(fX))/(np.max(fX) - np.min(fX))
+		fX = fX - np.min(fX)
+		if np.max(fX) > 0:
+			fX = fX/np.max(fX)
 
 		if self.bound is None:
 			if self.norm == 1:
@@ -390,7 +392,12 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		# Correct for transform 
 		U = dom._normalize_der().dot(U)
 		# Force to have unit norm
-		U /= np.linalg.norm(U)
+		norm_U = np.linalg.norm(U)
+		if norm_U > 0:
+			U /= norm_U
+		else:
+			# Constant data: every direction is as good
+			U = np.eye(len(U), 1)
 		return U	
 
 	def _fit_coef(self, X, fX, U):
-- 
2.43.0


From b8023282f542c81a86c2f6ba891cf4f25c201cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 083/115] fix: Xia's bandwidth depends on the dimension, not
 twice on the number of samples

---
 psdr/local_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 5115596..97342ee 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -167,7 +167,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		perplexity = None
 		if bandwidth == 'xia':
 			# Bandwidth from Xia 2007, [Li18, eq. 11.5] 
-			bandwidth = 2.34*M**(-1./(max(M, 3) +6))
+			bandwidth = 2.34*M**(-1./(max(m, 3) +6))
 
 
 	# Storage for the gradients
-- 
2.43.0


From cbc585c80246ce892f8656bbbdad2a271966e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 084/115] fix: quadrature_rule rejects an unknown method rather
 than returning None

---
 psdr/domains/euclidean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index ae519c0..d8b8608 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -716,6 +716,8 @@ class EuclideanDomain(Domain):
 
 		"""
 		from .normal import NormalDomain
+		assert method in ['auto', 'gauss', 'montecarlo'], "Invalid method specified"
+
 		if isinstance(self, NormalDomain):
 			if self.truncate is not None:
 				raise NotImplementedError
-- 
2.43.0


From 4a0a68bc8c5977522fa3c2b990ba6f3bca7e0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 085/115] fix: RidgeChanceConstraint rejects an unknown mode
 rather than treating it as 'lower'

---
 psdr/duu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/duu.py b/psdr/duu.py
index 4d5ac62..bd31b76 100644
--- a/psdr/duu.py
+++ b/psdr/duu.py
@@ -35,6 +35,7 @@ class RidgeChanceConstraint(object):
 
 	"""
 	def __init__(self, design_domain, random_domain, pra_norm, threshold, mode = 'upper', prob = 1e-2):
+		assert mode in ['upper', 'lower'], "Invalid mode specified"
 		self.design_domain = design_domain
 		self.random_domain = random_domain
 		self.design_domain_norm = design_domain.normalized_domain()
-- 
2.43.0


From 34bbe93f4fbc8474e6a7fcc4a5376174e6e961d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 086/115] fix: sample_random_ridge draws the requested number
 of samples

---
 psdr/duu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/duu.py b/psdr/duu.py
index bd31b76..4cd8555 100644
--- a/psdr/duu.py
+++ b/psdr/duu.py
@@ -64,7 +64,7 @@ class RidgeChanceConstraint(object):
 	def sample_random_ridge(self, Nsamp = int(1e4)):
 		U = self.pra_norm.U[-len(self.random_domain):]
 
-		Xrand = self.random_domain.sample(1e4)
+		Xrand = self.random_domain.sample(Nsamp)
 		Xrand_norm = self.random_domain.normalize(Xrand)
 
 		yrand = np.dot(U.T, Xrand_norm.T).T
-- 
2.43.0


From 3667a11b6a1dcd9c9fd951b625809423fbc7020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 087/115] fix: gauss_newton takes the gradient at the point it
 keeps when a step is rejected

---
 psdr/gn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index 8e44c30..a95b0e1 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -216,7 +216,8 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 
 		normdx = np.linalg.norm(dx)
 		F_eval = F(x)
-		grad = F_eval.T @ f_eval_new
+		# NB: if the step was rejected, f_eval remains the residual at x
+		grad = F_eval.T @ f_eval
 		
 
 		#########################################################################
-- 
2.43.0


From 018176156b00b2e3c4e1bc061e8c46d9b1df6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 088/115] fix: LogNormalDomain with a negative scaling contains
 its samples

---
 psdr/domains/lognormal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 3890364..5d73af3 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -57,6 +57,12 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			self._lb = self.offset*np.ones(1)
 			self._ub = np.inf*np.ones(1)
 
+		# A negative scaling reverses the orientation
+		if self.scaling < 0:
+			if self.truncate is None:
+				self._ub = -self._ub
+			self._lb, self._ub = self._ub, self._lb
+
 		self._init_names(names)
 
 	def __len__(self):
-- 
2.43.0


From 7fa22537453c1d32a3cb8a5f039267a01846bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 089/115] fix: minimax_cluster keeps the cluster centres inside
 the domain

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index fc8ffb2..2e01db2 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -377,7 +377,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 			break
 
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
-		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) for i in range(N)]
+		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts, domain = domain) for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
 		dx = np.max(Xhat_new - Xhat)	
 		Xhat = Xhat_new
-- 
2.43.0


From 1db8e9f1e90b3e352926336154956a14cf5b90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 090/115] fix: minimax_cluster measures movement in either
 direction

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 2e01db2..c36cc14 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -379,7 +379,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
 		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts, domain = domain) for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
-		dx = np.max(Xhat_new - Xhat)	
+		dx = np.max(np.abs(Xhat_new - Xhat))	
 		Xhat = Xhat_new
 
 		if dx < xtol:
-- 
2.43.0


From ba6f1aad201ed8a503b67880c43d174e1c0614d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 091/115] fix: minimax_cluster_pso combines whole points, so
 the result stays in the domain

---
 psdr/sample/minimax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index c36cc14..eef83a9 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -228,10 +228,10 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 			
 
 			# Construct random convex combination
-			A1 = a1*np.random.uniform(size = Xhat_new.shape)
-			A2 = a2*np.random.uniform(size = Xhat_new.shape)
-			A3 = a3*np.random.uniform(size = Xhat_new.shape)
-			A4 = a4*np.random.uniform(size = Xhat_new.shape)
+			A1 = a1*np.random.uniform(size = (N, 1))
+			A2 = a2*np.random.uniform(size = (N, 1))
+			A3 = a3*np.random.uniform(size = (N, 1))
+			A4 = a4*np.random.uniform(size = (N, 1))
 				
 
 			A_sum = A1 + A2 + A3 + A4
-- 
2.43.0


From e4f3fc8d32b9e73605c6fdabe48afef67be1b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 092/115] fix: minimax_cluster_pso aligns designs in the metric
 it was given

---
 psdr/sample/minimax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index eef83a9..e229105 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -241,9 +241,9 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 			A4 /= A_sum
 
 			Z = domain.sample(N)
-			Xhat_new = (A1 * _align_vector(Xhat, Xhat_new) + 
-				A2 * _align_vector(Xhat, Xhat_local) + 
-				A3 * _align_vector(Xhat, Xhat_global) + 
+			Xhat_new = (A1 * _align_vector(Xhat, Xhat_new, L) + 
+				A2 * _align_vector(Xhat, Xhat_local, L) + 
+				A3 * _align_vector(Xhat, Xhat_global, L) + 
 				A4 * Z
 				)
 
@@ -261,7 +261,7 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 				best_score_global = dist
 				Xhat_global = np.copy(Xhats[k])
 
-			diff_global = max([np.linalg.norm(Xhat_global - _align_vector(Xhat_global, Xhats[i]), 'fro') for i in range(n_particles)])
+			diff_global = max([np.linalg.norm(Xhat_global - _align_vector(Xhat_global, Xhats[i], L), 'fro') for i in range(n_particles)])
 			if verbose:
 				printer.print_iter(it = it, k = k, global_score = best_score_global, local_score = best_scores_local[k], diff_global = diff_global)
 		
-- 
2.43.0


From 001d2c08e99008dd9ee84508c786d77bd8205080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 093/115] fix: sobol_sequence accepts any number for the number
 of points

---
 psdr/sample/sobol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/sobol.py b/psdr/sample/sobol.py
index 2db99b4..8e87c9d 100644
--- a/psdr/sample/sobol.py
+++ b/psdr/sample/sobol.py
@@ -40,6 +40,7 @@ def sobol_sequence(domain, n):
 	assert len(domain.A_eq) == 0, "Currently equality constraints on the domain are not supported"
 	assert not isinstance(domain, RandomDomain), "Currently does not support random domains"
 
+	n = int(n)
 	skip = 1
 	Xsamp = np.zeros((0, len(domain)))
 	while True:
-- 
2.43.0


From 3392c12ecd6760a6bd956008887b575e06a91b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 094/115] fix: minimax_optimal_cover measures distances in the
 metric of the design

---
 psdr/sample/minimax.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index e229105..faf731e 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -114,6 +114,9 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 	if 'verbose' not in kwargs:
 		kwargs['verbose'] = False
 
+	if L is None:
+		L = np.eye(len(domain))
+
 	if X is None:
 		X = sobol_sequence(domain, 1e4)
 
@@ -121,10 +124,10 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 	def design(N):
 		return minimax_cluster(domain, N, L = L, X = X, **kwargs)
 	
-	Y = (L.T @ X.T).T
+	Y = (L @ X.T).T
 	def maximin_distance(N):
 		Xhat = design(N)
-		Yhat = (L.T @ Xhat.T).T
+		Yhat = (L @ Xhat.T).T
 		return np.max(np.min(cdist(Yhat, Y), axis = 0))
 		
 	domain_volume = domain.volume()
-- 
2.43.0


From e73229dbbbd49c6ae5b6a06c45aa2277a98eceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 095/115] fix: latin_hypercube_maximin returns a design of a
 single point

---
 psdr/sample/latin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/latin.py b/psdr/sample/latin.py
index ce5b445..02a1801 100644
--- a/psdr/sample/latin.py
+++ b/psdr/sample/latin.py
@@ -98,7 +98,8 @@ def _latin_hypercube_maximin_box(domain, N, maxiter = 1000):
 	
 	for it in range(maxiter):
 		# Generate new permutation of the permutations
-		i, j = np.random.permutation(N)[0:2]
+		idx = np.random.permutation(N)
+		i, j = idx[0], idx[min(1, N-1)]
 	
 		r = np.random.rand(len(domain))
 		I = r >= min(max(r), 0.5)
@@ -111,7 +112,7 @@ def _latin_hypercube_maximin_box(domain, N, maxiter = 1000):
 
 		score = _score_maximin(X)
 
-		if score > score_best:
+		if X_best is None or score > score_best:
 			perms_best = perms
 			X_best = X
 			score_best = score
-- 
2.43.0


From 2998451dca280b2933978f16f382751570fef610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 096/115] fix: maximin_block does not round an integer starting
 design

---
 psdr/sample/maximin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index 0408bf8..d1bcaf6 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -89,7 +89,7 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 	if X0 is None:
 		X = initial_sample(domain, L, Nsamp)
 	else:
-		X = np.array(X0)
+		X = np.array(X0, dtype = float)
 
 	if verbose:
 		printer = IterationPrinter(it = '4d', maximin = '16.8e', dx = '10.3e')
-- 
2.43.0


From 88cb6ad2a36826cf66385bf5f8a5790295512798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 097/115] fix: a Latin hypercube design exists on a domain away
 from the coordinate axes

---
 psdr/sample/projection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 4796809..b6f1794 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -61,10 +61,12 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			a1 = L.dot(c1).flatten()
 			c2 = domain.corner(-L.flatten())
 			a2 = L.dot(c2).flatten()
-			a1, a2 = min(a1, a2), max(a1, a2)
-			avec = np.linspace(a1, a2, Nsamp+1)
+			if a1 > a2:
+				c1, c2 = c2, c1
+			avec = np.linspace(0, 1, Nsamp+1)
 			avec = 0.5*(avec[1:] + avec[0:-1])
-			X = np.array([L.flatten()*a for a in avec])
+			# points along the segment between the extremes are inside the domain
+			X = np.array([(1-a)*c1 + a*c2 for a in avec])
 		else:
 			# We use maximin points in general as these generalize two and higher dimensional projections
 			X = maximin_block(domain, Nsamp, L)
-- 
2.43.0


From a2b6c99205489d63b5949d69cb2991aece6b74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 098/115] fix: projection_sample accepts projections of
 different dimension

---
 psdr/sample/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index b6f1794..6ed859f 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -127,7 +127,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	def subdomain_sample(idx):
 		# The point in the domain that is nearest to the target position
 		subdom = subdomain(idx)
-		A = np.vstack([Ls])
+		A = np.vstack(Ls)
 		b = np.hstack([y[i] for y, i in zip(ys, idx)])
 		return subdom.constrained_least_squares(A, b)
 			
-- 
2.43.0


From 2b9341fcb179f99e0ba5264c46701226de4bb150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 099/115] fix: projection_sample returns the first design when
 its points project together

---
 psdr/sample/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 6ed859f..d8c55b1 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -241,7 +241,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			min_dist = np.min(D, axis = 0)
 			score = tuple(np.sort(min_dist))	
 
-			if score > score_best:
+			if X_best is None or score > score_best:
 				X_best = X
 				score_best = score
 				perms_best = perms
-- 
2.43.0


From 48995f76927f9cc19764ffba18870950eea7b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 100/115] fix: projection_design keeps the cells of the best
 design

---
 psdr/sample/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index d8c55b1..e6d55ab 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -394,7 +394,7 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 				keep = np.argsort(-d_best)[0:n_keep]
 				assumptions = []
 				for j in keep:
-					assumptions += [encode(k, j, perms[k, j]) for k in range(N)]  
+					assumptions += [encode(k, j, perms_best[k, j]) for k in range(N)]  
 			
 			sat_iter.assume(assumptions)
 			try:
-- 
2.43.0


From 85c184ce0caa3d8084e6ca192b5e5d73df1506d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 101/115] fix: projection_sample can return a single point

---
 psdr/sample/projection.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index e6d55ab..55fface 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -80,12 +80,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			I = np.argsort(y.flatten())
 			neighbors = [ None for j in range(Nsamp)]
 			for j in range(Nsamp):
-				if j == 0:
-					neighbors[I[j]] = np.array([I[j+1]], dtype = np.int)
-				elif j == Nsamp - 1:
-					neighbors[I[j]] = np.array([I[j-1]], dtype = np.int)
-				else:
-					neighbors[I[j]] = np.array([ I[j-1], I[j+1] ], dtype = np.int)
+				neighbors[I[j]] = np.array([I[k] for k in (j-1, j+1) if 0 <= k < Nsamp], dtype = np.int)
 			
 		else:
 			delaunay = Delaunay(y)
@@ -96,8 +91,8 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		
 		# Now construct the inequality constraints for each point's Voronoi cell
 		for j, neigh in enumerate(neighbors):
-			A = []
-			b = []
+			A = [np.zeros((0, len(domain)))]
+			b = [np.zeros(0)]
 			for k in neigh:
 				p = 0.5*(X[j] + X[k]) 	# point on separating hyperplane
 				n = (X[k] - X[j]).reshape(-1,1) 		# normal vector to hyperplane
@@ -213,7 +208,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
 				X = np.vstack([consubdom.sample() for consubdom in consubdoms])
 				mask = np.ones(Nsamp, dtype = np.bool)
-				for it2 in range(100):
+				for it2 in range(100 if Nsamp > 1 else 0):
 					max_move = 0
 					for i in range(Nsamp):
 						# Remove the current iterate 
-- 
2.43.0


From f41220948d33e7c52660c5323bd6229ecac200d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 102/115] fix: maximin_block can return a single point

---
 psdr/sample/maximin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index d1bcaf6..0ba6bac 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -97,7 +97,8 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 
 	
 	mask = np.ones(Nsamp, dtype = np.bool)
-	for it in range(maxiter):
+	# a single point has no others to move away from
+	for it in range(maxiter if Nsamp > 1 else 0):
 		max_move = 0
 		for i in range(Nsamp):
 			# Remove the current iterate 
-- 
2.43.0


From 72883f82579ef78895cd8888161aacbec782a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 103/115] fix: external model runs that fail do not leave their
 scratch directory behind

---
 psdr/demos/multif.py   | 117 +++++++++++++++++++++--------------------
 psdr/demos/naca0012.py |  68 ++++++++++++------------
 psdr/demos/oas.py      |  52 +++++++++---------
 3 files changed, 121 insertions(+), 116 deletions(-)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index 56004ce..be282e9 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -152,67 +152,68 @@ def multif(x, level = 0, version = 'v25', su2_maxiter = None, workdir = None,
 	else:
 		workdir = os.path.abspath(workdir)
 		os.makedirs(workdir)
-		
-	# Copy the configuration file	
-	dir_path = os.path.dirname(os.path.realpath(__file__))
-	shutil.copyfile('%s/multif/general-3d.cfg.%s' % (dir_path, version,), workdir + '/general-3d.cfg')
+
+	try:
+		# Copy the configuration file	
+		dir_path = os.path.dirname(os.path.realpath(__file__))
+		shutil.copyfile('%s/multif/general-3d.cfg.%s' % (dir_path, version,), workdir + '/general-3d.cfg')
 	
-	# If provided a maximum number of SU2 iterations, set that value
-	if su2_maxiter is not None:
-		with open(workdir + '/general-3d.cfg', 'a') as config:
-			config.write("SU2_MAX_ITERATIONS=%d" % su2_maxiter)
+		# If provided a maximum number of SU2 iterations, set that value
+		if su2_maxiter is not None:
+			with open(workdir + '/general-3d.cfg', 'a') as config:
+				config.write("SU2_MAX_ITERATIONS=%d" % su2_maxiter)
 
-	# Copy the input parameters 
-	np.savetxt(workdir + '/general-3d.in', x.reshape(-1,1), fmt = '%.15e')
+		# Copy the input parameters 
+		np.savetxt(workdir + '/general-3d.in', x.reshape(-1,1), fmt = '%.15e')
 	
-	# Now call multif
-	uid = os.getuid()
-	# We specify the user ID so we can later delete the results by the local user 
-	call = 'docker run -t --rm --mount type=bind,source="%s",target="/workdir" --workdir /workdir --user %d' % (workdir, uid)
-	call += ' jeffreyhokanson/multif:%s' % (version,)
-	call += " -f general-3d.cfg -l %d " % (level,)
-	if cores is not None:
-		# This seems to work on Linux
-		#raise NotImplementedError("Haven't figured out how to run docker in parallel")
-		call += ' -c %d ' % (cores,)
-
-	# In order to run from inside jupyter, we need to call using Popen
-	# following https://github.com/takluyver/rt2-workshop-jupyter/blob/e7fde6565e28adf31a0f9003094db70c3766bd6d/Subprocess%20output.ipynb
-	args = shlex.split(call)
-	with open(workdir + '/output.log', 'ab') as log:
-		p = Popen(args, stdout = PIPE, stderr = STDOUT)
-		while True:
-			# Read output from pipe
-			# TODO: this should buffer to end of line rather than fixed size
-			output = p.stdout.readline()
-			log.write(output)
-
-			if verbose:
-				print(output, end ='')
-
-			# Check for termination
-			if p.poll() is not None:
-				break
-		if p.returncode != 0:
-			print("exited with error code %d" % p.returncode)
-
-	#if verbose:		
-	#	return_code = subprocess.call(call, shell = True)
-	#else:
-	#	with open(workdir + '/output.log', 'a') as output:
-	#		return_code = subprocess.call(call, shell = True, stdout = output, stderr = output)
-
-	# Now read output
-	with open(workdir + '/results.out') as f:
-		output = []
-		for line in f:
-			value, name = line.split()
-			output.append(float(value))
-	fx = np.array(output)
-
-	# delete the output if we're not keeping it 
-	if not keep_data:
-		shutil.rmtree(workdir) 
+		# Now call multif
+		uid = os.getuid()
+		# We specify the user ID so we can later delete the results by the local user 
+		call = 'docker run -t --rm --mount type=bind,source="%s",target="/workdir" --workdir /workdir --user %d' % (workdir, uid)
+		call += ' jeffreyhokanson/multif:%s' % (version,)
+		call += " -f general-3d.cfg -l %d " % (level,)
+		if cores is not None:
+			# This seems to work on Linux
+			#raise NotImplementedError("Haven't figured out how to run docker in parallel")
+			call += ' -c %d ' % (cores,)
+
+		# In order to run from inside jupyter, we need to call using Popen
+		# following https://github.com/takluyver/rt2-workshop-jupyter/blob/e7fde6565e28adf31a0f9003094db70c3766bd6d/Subprocess%20output.ipynb
+		args = shlex.split(call)
+		with open(workdir + '/output.log', 'ab') as log:
+			p = Popen(args, stdout = PIPE, stderr = STDOUT)
+			while True:
+				# Read output from pipe
+				# TODO: this should buffer to end of line rather than fixed size
+				output = p.stdout.readline()
+				log.write(output)
+
+				if verbose:
+					print(output, end ='')
+
+				# Check for termination
+				if p.poll() is not None:
+					break
+			if p.returncode != 0:
+				print("exited with error code %d" % p.returncode)
+
+		#if verbose:		
+		#	return_code = subprocess.call(call, shell = True)
+		#else:
+		#	with open(workdir + '/output.log', 'a') as output:
+		#		return_code = subprocess.call(call, shell = True, stdout = output, stderr = output)
+
+		# Now read output
+		with open(workdir + '/results.out') as f:
+			output = []
+			for line in f:
+				value, name = line.split()
+				output.append(float(value))
+		fx = np.array(output)
+	finally:
+		# delete the output if we are not keeping it, even if the run failed
+		if not keep_data:
+			shutil.rmtree(workdir)
 
 	return fx
 
diff --git a/psdr/demos/naca0012.py b/psdr/demos/naca0012.py
index f35d21a..71fd709 100644
--- a/psdr/demos/naca0012.py
+++ b/psdr/demos/naca0012.py
@@ -68,40 +68,42 @@ def naca0012_func(x, version = 'v1', workdir = None, verbose = False,
 		workdir = os.path.abspath(workdir)
 		os.makedirs(workdir)
 
-	# Copy the inputs to a file
-	np.savetxt(workdir + '/my.input', x, fmt = '%.15e')
+	try:
+		# Copy the inputs to a file
+		np.savetxt(workdir + '/my.input', x, fmt = '%.15e')
 	
-	call = "docker run -t --rm --mount  type=bind,source='%s',target='/workdir' jeffreyhokanson/naca0012:%s /workdir/my.input" % (workdir, version)
-	call += " --nlower %d --nupper %d" % (n_lower, n_upper)
-	if return_grad:
-		call += " --adjoint discrete"
-	call += ' --maxiter %d' % maxiter
-	call += ' --nprocesses %d' % nprocesses
-	args = shlex.split(call)
-	with open(workdir + '/output.log', 'ab') as log:
-		p = Popen(args, stdout = PIPE, stderr = STDOUT)
-		while True:
-			# Read output from pipe
-			# TODO: this should buffer to end of line rather than fixed size
-			output = p.stdout.readline()
-			log.write(output)
-
-			if verbose:
-				print(output, end ='')
-
-			# Check for termination
-			if p.poll() is not None:
-				break
-		if p.returncode != 0:
-			print("exited with error code %d" % p.returncode)
-
-	fx = np.loadtxt(workdir + '/my.output')
-
-	if return_grad:
-		grad = np.loadtxt(workdir + '/my_grad.output')
-
-	if not keep_data:
-		shutil.rmtree(workdir) 
+		call = "docker run -t --rm --mount  type=bind,source='%s',target='/workdir' jeffreyhokanson/naca0012:%s /workdir/my.input" % (workdir, version)
+		call += " --nlower %d --nupper %d" % (n_lower, n_upper)
+		if return_grad:
+			call += " --adjoint discrete"
+		call += ' --maxiter %d' % maxiter
+		call += ' --nprocesses %d' % nprocesses
+		args = shlex.split(call)
+		with open(workdir + '/output.log', 'ab') as log:
+			p = Popen(args, stdout = PIPE, stderr = STDOUT)
+			while True:
+				# Read output from pipe
+				# TODO: this should buffer to end of line rather than fixed size
+				output = p.stdout.readline()
+				log.write(output)
+
+				if verbose:
+					print(output, end ='')
+
+				# Check for termination
+				if p.poll() is not None:
+					break
+			if p.returncode != 0:
+				print("exited with error code %d" % p.returncode)
+
+		fx = np.loadtxt(workdir + '/my.output')
+
+		if return_grad:
+			grad = np.loadtxt(workdir + '/my_grad.output')
+	finally:
+		# delete the output if we are not keeping it, even if the run failed
+		if not keep_data:
+			shutil.rmtree(workdir)
 	
 	if return_grad:
 		return fx, grad
diff --git a/psdr/demos/oas.py b/psdr/demos/oas.py
index f5c504b..aa3679b 100644
--- a/psdr/demos/oas.py
+++ b/psdr/demos/oas.py
@@ -71,31 +71,33 @@ def oas_func(x, version = 'v1', workdir = None, verbose = False, keep_data = Fal
 		workdir = os.path.abspath(workdir)
 		os.makedirs(workdir)
 
-	# Copy the inputs to a file
-	np.savetxt(workdir + '/my.input', x, fmt = '%.15e')
-	call = "docker run -t --rm --mount type=bind,source='%s',target='/workdir' jeffreyhokanson/oas:%s /workdir/my.input" % (workdir, version)
-	args = shlex.split(call)
-	with open(workdir + '/output.log', 'ab') as log:
-		p = Popen(args, stdout = PIPE, stderr = STDOUT)
-		while True:
-			# Read output from pipe
-			# TODO: this should buffer to end of line rather than fixed size
-			output = p.stdout.readline()
-			log.write(output)
-
-			if verbose:
-				print(output, end ='')
-
-			# Check for termination
-			if p.poll() is not None:
-				break
-		if p.returncode != 0:
-			print("exited with error code %d" % p.returncode)
-
-	Y = np.loadtxt(workdir + '/my.output')
-
-	if not keep_data:
-		shutil.rmtree(workdir) 
+	try:
+		# Copy the inputs to a file
+		np.savetxt(workdir + '/my.input', x, fmt = '%.15e')
+		call = "docker run -t --rm --mount type=bind,source='%s',target='/workdir' jeffreyhokanson/oas:%s /workdir/my.input" % (workdir, version)
+		args = shlex.split(call)
+		with open(workdir + '/output.log', 'ab') as log:
+			p = Popen(args, stdout = PIPE, stderr = STDOUT)
+			while True:
+				# Read output from pipe
+				# TODO: this should buffer to end of line rather than fixed size
+				output = p.stdout.readline()
+				log.write(output)
+
+				if verbose:
+					print(output, end ='')
+
+				# Check for termination
+				if p.poll() is not None:
+					break
+			if p.returncode != 0:
+				print("exited with error code %d" % p.returncode)
+
+		Y = np.loadtxt(workdir + '/my.output')
+	finally:
+		# delete the output if we are not keeping it, even if the run failed
+		if not keep_data:
+			shutil.rmtree(workdir)
 	return Y	
 	
 
-- 
2.43.0


From ce8ed661768c81d74ed1c4138b46707c6f058779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 104/115] fix: a refused request to keep a run does not create
 a scratch directory

---
 psdr/demos/multif.py   | 3 +--
 psdr/demos/naca0012.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index be282e9..284a81e 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -141,14 +141,13 @@ def multif(x, level = 0, version = 'v25', su2_maxiter = None, workdir = None,
 	from subprocess import Popen, PIPE, STDOUT
 
 	if workdir is None:
+		assert keep_data == False, "In order to keep the run, specify a path for a directory"
 		# Docker cannot access /var by default, so we move the temporary file to
 		# /tmp on MacOS
 		if platform.system() == 'Darwin':
 			workdir = tempfile.mkdtemp(dir = '/tmp')
 		else:
 			workdir = tempfile.mkdtemp()
-		
-		assert keep_data == False, "In order to keep the run, specify a path for a directory"
 	else:
 		workdir = os.path.abspath(workdir)
 		os.makedirs(workdir)
diff --git a/psdr/demos/naca0012.py b/psdr/demos/naca0012.py
index 71fd709..51d66fc 100644
--- a/psdr/demos/naca0012.py
+++ b/psdr/demos/naca0012.py
@@ -57,13 +57,13 @@ def naca0012_func(x, version = 'v1', workdir = None, verbose = False,
 	from subprocess import Popen, PIPE, STDOUT
 
 	if workdir is None:
+		assert keep_data == False, "In order to keep the run, specify a path for a directory"
 		# Docker cannot access /var by default, so we move the temporary file to
 		# /tmp on MacOS
 		if platform.system() == 'Darwin':
 			workdir = tempfile.mkdtemp(dir = '/tmp')
 		else:
 			workdir = tempfile.mkdtemp()
-		assert keep_data == False, "In order to keep the run, specify a path for a directory"
 	else:
 		workdir = os.path.abspath(workdir)
 		os.makedirs(workdir)
-- 
2.43.0


From b953469babc2f2d8eb80368714cf19d9e5803f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 105/115] fix: MULTIF passes its level, su2_maxiter and workdir
 to the solver

---
 psdr/demos/multif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index 284a81e..3ccfbae 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -88,6 +88,7 @@ class MULTIF(Function):
 		self.random_domain = self.random_domain_norm		
 
 		domain = self.design_domain_app * self.random_domain_app
+		kwargs.update({'level': level, 'su2_maxiter': su2_maxiter, 'workdir': workdir})
 		Function.__init__(self, multif, domain, vectorized = False, dask_client = dask_client, kwargs = kwargs )
 
 	def __str__(self):
-- 
2.43.0


From 76eb0bd733c2887decdb8b745a37eab559a22394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 106/115] fix: the extent from a point outside a bound by less
 than the tolerance is zero outward and unlimited by it inward

---
 psdr/domains/euclidean.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index d8b8608..7d013d5 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1170,20 +1170,20 @@ class EuclideanDomain(Domain):
 		
 		# If on the boundary, the direction needs to point inside the domain
 		# otherwise we cannot move
-		if np.any(p[self.lb == x] < 0):
+		if np.any(p[self.lb >= x] < 0):
 			return 0.
-		if np.any(p[self.ub == x] > 0):
+		if np.any(p[self.ub <= x] > 0):
 			return 0.	
 		
-		# To prevent divide-by-zero we ignore directions we are not moving in
-		I = np.nonzero(p)
-
+		# A bound limits only the directions moving towards it
 		# Check upper bounds
+		I = p > 0
 		y = (self.ub - x)[I]/p[I]
 		if np.any(y>0):
 			alpha = min(alpha, np.min(y[y>0]))	
 
 		# Check lower bounds
+		I = p < 0
 		y = (self.lb - x)[I]/p[I]
 		if np.any(y>0):
 			alpha = min(alpha, np.min(y[y>0]))
@@ -1200,7 +1200,7 @@ class EuclideanDomain(Domain):
 			return 0.
 		# positive extent
 		with np.errstate(divide = 'ignore', invalid = 'ignore'):
-			y = slack/Ap
+			y = (slack/Ap)[Ap > 0]
 		if np.sum(y>0) > 0:
 			alpha = min(alpha, np.min(y[y>0]))
 
-- 
2.43.0


From f564f2ba65e28c1575e86a29337ea555f266d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:47 +0000
Subject: [PATCH 107/115] fix: an infinite bound does not turn the normalized
 bounds of other coordinates into nan

---
 psdr/domains/euclidean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 7d013d5..5e5861b 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -967,14 +967,14 @@ class EuclideanDomain(Domain):
 	
 	@property
 	def lb_norm(self):
-		lb_norm = self.normalize(self.lb)
+		lb_norm = self.normalize(np.where(np.isfinite(self.lb), self.lb, 0.))
 		I = ~np.isfinite(self.lb)
 		lb_norm[I] = -np.inf
 		return lb_norm
 
 	@property
 	def ub_norm(self):
-		ub_norm = self.normalize(self.ub)
+		ub_norm = self.normalize(np.where(np.isfinite(self.ub), self.ub, 0.))
 		I = ~np.isfinite(self.ub)
 		ub_norm[I] = np.inf
 		return ub_norm
-- 
2.43.0


From ada248cbc150cdc3c28bc51b13636ba32bac7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:47 +0000
Subject: [PATCH 108/115] fix: a direction along the other coordinates is not
 limited by a point factor

---
 psdr/domains/point.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index b1cebcc..0968f51 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -38,6 +38,9 @@ class PointDomain(BoxDomain):
 		return np.copy(self._x)
 
 	def _extent(self, x, p, **kwargs):
+		# A direction with no component in these coordinates does not leave the point
+		if np.all(np.asarray(p) == 0):
+			return np.inf
 		return 0
 
 	def _isinside(self, X, tol = TOL):
-- 
2.43.0


From f2014a999c949566a2b58c91f30a928b5927dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:19 +0000
Subject: [PATCH 109/115] fix: constrained least squares centers the problem
 where the domain's own normalization does

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 5e5861b..908a4aa 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -356,7 +356,7 @@ class EuclideanDomain(Domain):
 		# Setup the problem in CVXPY	
 		x_norm = cp.Variable(len(self))
 		D = self._unnormalize_der() 
-		c = self._center()	
+		c = self.unnormalize(np.zeros(len(self)))	
 			
 		# \| A x - b\|_2 
 		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
-- 
2.43.0


From a1ae76e6b1bdb3c4151359ebb46b3a7be2f682a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:19 +0000
Subject: [PATCH 110/115] fix: the normalized constraints of a product are
 centered as its factors are

---
 psdr/domains/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index 1c6bd12..2c5b5ba 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -94,6 +94,10 @@ class TensorProductDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return np.hstack([dom.unnormalize(X_norm[:,I]) for dom, I in zip(self.domains, self._slices)])
 
+	def _center(self):
+		# Each factor decides where its own normalization is centered
+		return np.hstack([dom.unnormalize(np.zeros(len(dom))) for dom in self.domains])
+
 	def _unnormalize_der(self):
 		return np.diag(np.hstack([np.diag(dom._unnormalize_der()) for dom in self.domains]))
 
-- 
2.43.0


From 0a6fc1bf484bb491cce8cf6be1cb384924048319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:44 +0000
Subject: [PATCH 111/115] fix: PGF.add compares the length of the second column
 too

---
 psdr/pgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index d3a109d..ca0b89b 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -10,7 +10,7 @@ class PGF:
 		self.columns = []
 
 	def add(self, name, column):
-		if len(self.columns) > 1:
+		if len(self.columns) > 0:
 			assert len(self.columns[0]) == len(column)
 
 		self.columns.append(deepcopy(column))
-- 
2.43.0


From 293224646f7fa903fd9956a78dcd7878cf627c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:44 +0000
Subject: [PATCH 112/115] fix: shadow_plot of a ridge function uses its own
 samples when none are given

---
 psdr/ridge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 923c0fa..9068961 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -20,6 +20,10 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 
 		ax = SubspaceBasedDimensionReduction.shadow_plot(self, X = X, fX = fX, dim = dim, ax = ax, pgfname = pgfname)
 
+		if X is None:
+			X = self.X
+		X = np.atleast_2d(X)
+
 		# Draw the response surface
 		if dim == 1:
 			Y = np.dot(self.U.T, X.T).T
-- 
2.43.0


From 627494d1023cbe93e3d7a8fe40da9db1603d9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:44 +0000
Subject: [PATCH 113/115] fix: two-dimensional shadow_plot of a ridge function
 can be drawn without an axis

---
 psdr/ridge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 9068961..e03d2a6 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -61,10 +61,11 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 			XX = np.dot(self.U, UXX).T
 			YY = self.eval(XX).reshape(XX0.shape)
 			
-			ax.contour(xx0, xx1, YY, 
-				levels = np.linspace(np.min(fX), np.max(fX), 20), 
-				vmin = np.min(fX), vmax = np.max(fX),
-				linewidths = 0.5)
+			if ax is not None:
+				ax.contour(xx0, xx1, YY, 
+					levels = np.linspace(np.min(fX), np.max(fX), 20), 
+					vmin = np.min(fX), vmax = np.max(fX),
+					linewidths = 0.5)
 		
 
 		else: 
-- 
2.43.0


From d4c7e79651279ac4d3f77a4d5164e0355a432a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:44 +0000
Subject: [PATCH 114/115] fix: response data of a shadow plot goes beside a
 file named without an extension

---
 psdr/ridge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index e03d2a6..eacdce9 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -1,6 +1,7 @@
 """Ridge function approximation from function values"""
 # (c) 2017 Jeffrey M. Hokanson (jeffrey@hokanson.us)
 
+import os
 import numpy as np
 
 from .function import BaseFunction
@@ -38,7 +39,8 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 				ax.plot(xx, yy, 'r-')
 
 			if pgfname is not None:	
-				pgfname2 = pgfname[:pgfname.rfind('.')] + '_response' + pgfname[pgfname.rfind('.'):]
+				root, ext = os.path.splitext(pgfname)
+				pgfname2 = root + '_response' + ext
 				pgf = PGF()
 				pgf.add('x', xx)
 				pgf.add('fx', yy )
-- 
2.43.0


From ad5683cbf8875984215aac07e5e10f913ab4d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:15 +0000
Subject: [PATCH 115/115] fix: shadow_plot of a Lipschitz approximation spreads
 its points along the direction drawn

---
 psdr/lipschitz_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/lipschitz_approx.py b/psdr/lipschitz_approx.py
index 311614e..f5c13a5 100644
--- a/psdr/lipschitz_approx.py
+++ b/psdr/lipschitz_approx.py
@@ -90,7 +90,7 @@ class LipschitzApproximation(LipschitzMatrix, RidgeFunction):
 			assert U.shape[1] == 1, "Must be a one-dimensional ridge function"
 
 			# Plot the central estimate and uncertainty
-			X = maximin_design_1d(self.domain, nsamp, L = self.L) 
+			X = maximin_design_1d(self.domain, nsamp, L = U.T) 
 			
 			lb, ub = self.uncertainty(self._X, self._y, X)
 			c = 0.5*(lb+ub)
-- 
2.43.0

