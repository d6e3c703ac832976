From 9ef379ea083e158e79f864d7cebf73fb8687d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 01/53] fix: reduce SO(2)/O(2) subgroup child maps modulo the
 subgroup order

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..4624c74 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From 65b200cd39179b30b14d61fa893c43bfd94dd514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 02/53] fix: O(2) induced representations use removed numpy
 alias np.float

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 4624c74..f57885d 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From e73e6e9f91cc280df2b02bc68d7b555de75fea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:12 +0000
Subject: [PATCH 03/53] fix: restricting O(2) to SO(2)/O(2) does not depend on
 earlier maximum frequencies

---
 e2cnn/group/groups/o2group.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index f57885d..689f968 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -186,12 +186,12 @@ class O2(Group):
         
         if id not in self._subgroups:
             if id[0] is not None and id[1] == -1:
-                sg = O2(self._maximum_frequency)
+                sg = O2._generator(self._maximum_frequency)
                 parent_mapping = lambda e, axis=axis: (e[0], e[1] + e[0]*axis)
                 child_mapping = lambda e, axis=axis: (e[0], e[1] - e[0]*axis)
 
             elif id[0] is None and id[1] == -1:
-                sg = SO2(self._maximum_frequency)
+                sg = SO2._generator(self._maximum_frequency)
                 parent_mapping = lambda e, axis=axis: (0, e)
                 child_mapping = lambda e: None if e[0] != 0 else e[1]
                 
@@ -258,7 +258,7 @@ class O2(Group):
         if id[0] is not None and id[1] == -1:
             
             change_of_basis = np.eye(irr.size)
-            irreps.append(irr.name)
+            irreps.append(sg.irrep(irr.attributes["flip_frequency"], irr.attributes["frequency"]).name)
 
             if irr.size == 2:
                 f = irr.attributes["frequency"]
@@ -266,7 +266,7 @@ class O2(Group):
 
         elif id[0] is None and id[1] == -1:
             f = irr.attributes["frequency"]
-            irreps.append(f"irrep_{f}")
+            irreps.append(sg.irrep(f).name)
             change_of_basis = np.eye(irr.size)
             
         elif id[0] is not None and id[1] == 1:
-- 
2.43.0


From 7efadc4136c1011c6c6f92ba04af5f5d62debc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:54 +0000
Subject: [PATCH 04/53] fix: directsum with a change of basis advertised
 unsupported non-linearities

---
 e2cnn/group/representation.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..77904b5 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -456,14 +456,26 @@ def directsum(reprs: List[e2cnn.group.Representation],
         cob_inv[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
         p += r.size
 
+    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
+
     if change_of_basis is not None:
+        # keep only the non-linearities which the new basis still supports
+        orthogonal = np.allclose(change_of_basis @ change_of_basis.T, np.eye(size))
+        permutation = orthogonal and np.isclose(change_of_basis, 1.).sum() == size
+        if np.allclose(change_of_basis, np.eye(size)):
+            pass
+        elif permutation:
+            supported_nonlinearities &= {'pointwise', 'concatenated', 'norm', 'gated', 'gate', 'induced_gate'}
+        elif orthogonal:
+            supported_nonlinearities &= {'norm', 'gated'}
+        else:
+            supported_nonlinearities &= {'gated'}
+
         change_of_basis = change_of_basis @ cob
         change_of_basis_inv = sp.linalg.inv(change_of_basis)
     else:
         change_of_basis = cob
         change_of_basis_inv = cob_inv
-
-    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
     
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
-- 
2.43.0


From a6a34dfab97260509b1fdff84f27c9658f9888ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:10 +0000
Subject: [PATCH 05/53] fix: rotations by multiples of 90 degrees up to
 rounding were interpolated

---
 e2cnn/gspaces/r2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 126bfef..c359a50 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -6,11 +6,11 @@ from scipy.ndimage import rotate
 
 def rotate_array(x, angle):
     k = 2 * angle / np.pi
-    if k.is_integer():
+    if abs(k - round(k)) < 1e-9:
         # Rotations by 180 and 270 degrees seem to be not perfect using `ndimage.rotate` and can therefore
         # make some tests fail.
         # For this reason, we use `np.rot90` to perform rotations by multiples of 90 degrees without interpolation
-        return np.rot90(x, k, axes=(-2, -1))
+        return np.rot90(x, int(round(k)), axes=(-2, -1))
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
-- 
2.43.0


From 545dcb413ebfdf824ae2a311a50045c1f57d2ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:32 +0000
Subject: [PATCH 06/53] fix: bases with different reflection axes or
 discretizations compared equal

Equal bases share their sampled filters, so a layer could silently get the
filters of another reflection axis or of another discretization.
---
 e2cnn/diffops/basis.py        | 4 ++--
 e2cnn/diffops/irreps_basis.py | 6 +++---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..b755888 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -195,12 +195,12 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
     def __hash__(self):
-        return hash(self.max_power)
+        return hash((self.max_power, self.disc))
 
 
 class TensorBasis(DiffopBasis):
diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 19c434827ae4a339c5456443bff7f033461c80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 07/53] fix: basis memory ignored max_power, discretization and
 the representations' bases

Bases were looked up by the names of the representations only, so another
representation with the same name, Laplacian power or discretization got the
basis of an earlier request.
---
 e2cnn/gspaces/r2/general_r2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..f9f2bec 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -185,18 +185,20 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key['max_power'] = max_power
+        key['discretization'] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
-- 
2.43.0


From 572f52aed2bc3ed5cf07b007a9cc1616a69a34b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 08/53] fix: equal representations had different hashes,
 comparing sizes raised

The hash depended on the exact sum of the change of basis entries although
equality is up to rounding; comparing same-named representations of different
sizes raised a broadcasting error.
---
 e2cnn/group/representation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 77904b5..bcbce8a 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -331,15 +331,16 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
         return f"{self.group.name}|{self.name}:{self.size},{len(self.irreps)},{self.change_of_basis.sum()}"
     
     def __hash__(self):
-        return hash(repr(self))
+        # consistent with `__eq__`, which compares the change of basis only up to numerical errors
+        return hash((self.group.name, self.name, tuple(self.irreps)))
     
     # TODO when built from "directsum" we can "optimize" the representation by sorting the internal irreps
     #      and permuting the change of basis matrix's columns accordingly. Could be useful when one uses GNORM batchnorm
-- 
2.43.0


From 42eeec1541e8566b972976a2665a07d56e70aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 09/53] fix: symmetry spaces with different reflection axes
 compared equal

Equality ignored the axis of the reflections, so tensors and types of spaces
acting differently on the plane could be mixed; equal spaces could have
different hashes.
---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 4 ++--
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 7 ++++---
 e2cnn/gspaces/r2/utils.py           | 7 +++++++
 e2cnn/nn/field_type.py              | 2 +-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..d0a722e 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -6,7 +6,7 @@ from e2cnn import kernels
 from e2cnn import diffops
 
 from .general_r2 import GeneralOnR2
-from .utils import rotate_array
+from .utils import rotate_array, same_reflection_axis
 
 from e2cnn.group import Group
 from e2cnn.group import Representation
@@ -196,7 +196,7 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and same_reflection_axis(self.axis, other.axis)
         else:
             return False
 
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..dd3ec20 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -5,7 +5,7 @@ from e2cnn import kernels
 from e2cnn import diffops
 
 from .general_r2 import GeneralOnR2
-from .utils import rotate_array
+from .utils import rotate_array, same_reflection_axis
 
 from e2cnn.group import Representation
 from e2cnn.group import Group
@@ -295,9 +295,10 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and same_reflection_axis(self.axis, other.axis)
         else:
             return False
     
     def __hash__(self):
-        return hash(self.name)
+        # the name contains the (rounded) axis, which is compared modulo pi and up to numerical errors
+        return hash((FlipRot2dOnR2, self.fibergroup.name))
diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index c359a50..3a66478 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -14,3 +14,10 @@ def rotate_array(x, angle):
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
+
+def same_reflection_axis(axis1: float, axis2: float) -> bool:
+    """
+    Check if the two angles identify the same reflection axis, i.e. if they are equal modulo pi, up to numerical errors.
+    """
+    diff = (axis1 - axis2) / np.pi
+    return abs(diff - np.round(diff)) < 1e-6
diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..27aefe6 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -89,7 +89,7 @@ class FieldType:
         self._field_start = None
         self._field_end = None
 
-        self._hash = hash(self.gspace.name + ': {' + ', '.join([r.name for r in self.representations]) + '}')
+        self._hash = hash((self.gspace, tuple(r.name for r in self.representations)))
 
     @property
     def fibergroup(self) -> Group:
-- 
2.43.0


From 6f4869aa928d0d8843cccc3b7a8d03935638ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 10/53] fix: FieldType.restrict confused representations
 sharing a name

---
 e2cnn/nn/field_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index 27aefe6..e812c6b 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -266,10 +266,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = FieldType(subspace, fields)
-- 
2.43.0


From 3f77592257362378fd6b11821727e9026538f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:58 +0000
Subject: [PATCH 11/53] fix: layers with a single admissible basis element
 crashed

Recent PyTorch versions reject uint8 masks when assigning a single value.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..b92b9e6 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -57,11 +57,6 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # and filter out the basis elements discarded by the filter
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
-        # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
         mask = torch.tensor(mask)
 
         # normalize the basis
@@ -77,7 +72,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From 417a26800b360562b4b1e53558dbb8b030dde179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:35 +0000
Subject: [PATCH 12/53] fix: layers with equal bases shared their basis buffers

Converting one layer (.double(), .half()) or loading a state into it changed
the filters of every other layer built from the same basis.
---
 .../modules/r2_conv/basisexpansion_singleblock.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index b92b9e6..87652ca 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,7 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
 import torch
 import numpy as np
 
@@ -127,14 +128,17 @@ class SingleBlockBasisExpansion(BasisExpansion):
         if isinstance(other, SingleBlockBasisExpansion):
             return (
                     self.basis == other.basis and
-                    torch.allclose(self.sampled_basis, other.sampled_basis) and
-                    (self._mask == other._mask).all()
+                    torch.equal(self._mask, other._mask) and
+                    self.sampled_basis.shape == other.sampled_basis.shape and
+                    self.sampled_basis.dtype == other.sampled_basis.dtype and
+                    self.sampled_basis.device == other.sampled_basis.device and
+                    torch.allclose(self.sampled_basis, other.sampled_basis)
             )
         else:
             return False
 
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        return hash((self.basis, tuple(self._mask.tolist())))
 
 
 # dictionary storing references to already built basis tensors
@@ -174,7 +178,10 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # each layer gets its own buffers: converting or loading one layer must not affect the other ones
+        expansion = copy.copy(_stored_filters[key])
+        expansion._buffers = {name: buffer.clone() for name, buffer in expansion._buffers.items()}
+        return expansion
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From 2dcfad66a558e2f4f11eb9a73ad2b94118626343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 13/53] fix: finite-difference operators were sampled rotated
 by 90 degrees

The stencils had x along the rows while the grid has y (decreasing) along the
rows: derivatives were rotated by 90 degrees and differential-operator layers
were not equivariant to reflections.
---
 e2cnn/diffops/basis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index b755888..da8eba8 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -136,13 +136,18 @@ class DiffopBasis(Basis):
         for k, element in enumerate(coefficients):
             for i in range(self.shape[0]):
                 for j in range(self.shape[1]):
-                    basis[k, i, j] = discretize_homogeneous_polynomial(
+                    stencil = discretize_homogeneous_polynomial(
                         points,
                         element[i, j],
                         self.disc.smoothing,
                         phi=self.disc.phi,
                         method=self.disc.method,
                     )
+                    if self.disc.method == "fd":
+                        # FD stencils have x along the rows and y along the columns, while `points` has y
+                        # (decreasing) along the rows and x along the columns
+                        stencil = np.rot90(stencil.reshape(len(np.unique(points[0])), -1)).reshape(-1)
+                    basis[k, i, j] = stencil
 
         # Finally, we move the len_basis axis to the third position
         basis = basis.transpose(1, 2, 0, 3)
-- 
2.43.0


From e54c40d92b28c9a76ded9320856f4b46d88594b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 14/53] fix: R2ConvTransposed accepted an empty basis and
 crashed when used

R2Conv and R2Diffop reject it when they are built.
---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..f2ba97a 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -178,6 +178,13 @@ class R2ConvTransposed(EquivariantModule):
         else:
             raise ValueError('Basis Expansion algorithm "%s" not recognized' % basisexpansion)
         
+        if self.basisexpansion.dimension() == 0:
+            raise ValueError('''
+                The basis for the steerable filter is empty!
+                Tune the `frequencies_cutoff`, `kernel_size`, `rings`, `sigma` or `basis_filter` parameters to allow
+                for a larger basis.
+            ''')
+
         self.weights = Parameter(torch.zeros(self.basisexpansion.dimension()), requires_grad=True)
         self.register_buffer("filter", torch.zeros(in_type.size, out_type.size, kernel_size, kernel_size))
         
-- 
2.43.0


From 6e6df742d43dae4b9ac07d3a03107f5c4fc54908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 15/53] fix: bases limited by maximum_offset only contained
 duplicate elements

Negative frequencies were not skipped when no maximum frequency was given.
---
 e2cnn/kernels/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/kernels/utils.py b/e2cnn/kernels/utils.py
index 37c19a4..4fcb856 100644
--- a/e2cnn/kernels/utils.py
+++ b/e2cnn/kernels/utils.py
@@ -30,11 +30,14 @@ def offset_iterator(base_frequency, N, maximum_offset=None, maximum_frequency=No
             else:
                 return int(math.ceil(x))
             
-        if maximum_frequency is not None:
+        if minimum_frequency is not None:
             min_offset = (minimum_frequency - base_frequency) / N
-            max_offset = (maximum_frequency - base_frequency) / N
         else:
             min_offset = -10000
+        
+        if maximum_frequency is not None:
+            max_offset = (maximum_frequency - base_frequency) / N
+        else:
             max_offset = 10000
             
         if maximum_offset is not None:
-- 
2.43.0


From 10089d79347a842153343ead460758be3cb4a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:29 +0000
Subject: [PATCH 16/53] fix: GeometricTensor indexing did not follow Python's
 out of range rules

Slices over the fields reaching beyond the ends raised an IndexError instead of
being clipped, while negative integer indices out of range silently selected other
entries.
---
 e2cnn/nn/geometric_tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..dc03fbd 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -473,6 +473,10 @@ class GeometricTensor:
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
+                    if idx < 0:
+                        raise IndexError(
+                            f"index {expanded_idxs[i]} is out of bounds for dimension {i} with size {idx_max[i]}"
+                        )
                 expanded_idxs[i] = slice(idx, idx+1, 1)
         
         if len(expanded_idxs) == 1:
@@ -486,8 +490,8 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
+            # (`slice.indices()` resolves missing, negative and out of range bounds)
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
             channel_idxs = slice(
                 self.type.fields_start[start],
                 self.type.fields_end[stop-1],
-- 
2.43.0


From ecde460123f1beffc0d6be5870ca7be3dea59335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:49 +0000
Subject: [PATCH 17/53] fix: GeometricTensor.split modified the list of breaks
 passed by the caller

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index dc03fbd..316283a 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,7 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From 426f60742f3a73e085ad675cf5d7e79c7a574ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:33 +0000
Subject: [PATCH 18/53] fix: decomposing representations of groups with more
 than 10 elements lost a basis vector

---
 e2cnn/group/representation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index bcbce8a..8b3faeb 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1088,7 +1088,7 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
     """
     Compute _bases for the Kernel space of the matrix A.
 
-    If ``use_sparse`` is ``True``, :meth:`scipy.sparse.linalg.svds` is used;
+    If ``use_sparse`` is ``True``, the kernel is computed from the eigenvectors of the (smaller) Gram matrix of A;
     otherwise, :meth:`scipy.linalg.svd` is used.
 
     Moreover, if the input is a sparse matrix, ``use_sparse`` has to be set to ``True``.
@@ -1103,7 +1103,12 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 
     """
     if use_sparse:
-        u, s, vh = slinalg.svds(A, k=min(A.shape) - 1)
+        # sparse SVD solvers can not return all singular vectors, i.e. they would miss a part of the kernel
+        gram = A.T @ A
+        s, v = linalg.eigh(gram.toarray() if sparse.issparse(gram) else np.asarray(gram))
+        vh = v.T
+        # the squared singular values are only accurate relatively to the largest one
+        eps = eps * max(1., s.max())
     else:
         u, s, vh = linalg.svd(A)
     
-- 
2.43.0


From fb35baf536ce6f9c7268c21d3591f469447f734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:33 +0000
Subject: [PATCH 19/53] fix: VectorFieldNonLinearity failed with multiple
 fields of C_2

---
 e2cnn/nn/modules/nonlinearities/vectorfield.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/nonlinearities/vectorfield.py b/e2cnn/nn/modules/nonlinearities/vectorfield.py
index 41054b6..8b2f8ea 100644
--- a/e2cnn/nn/modules/nonlinearities/vectorfield.py
+++ b/e2cnn/nn/modules/nonlinearities/vectorfield.py
@@ -86,8 +86,12 @@ class VectorFieldNonLinearity(EquivariantModule):
         
         # to build the output vectors, take the cosine and the sine of the argmax angle
         # and multiply the 2-dimensional vector by the activation value
-        output[:, ::2, ...] = torch.cos(max_angles) * max_activations
-        output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
+        if self._rotations == 2:
+            # the frequency 1 irrep of C_2 is 1-dimensional: the sine is always zero
+            output[:] = torch.cos(max_angles) * max_activations
+        else:
+            output[:, ::2, ...] = torch.cos(max_angles) * max_activations
+            output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
         
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
-- 
2.43.0


From 4cad8f8d6331dbf20781d678a76bb5760956fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:43 +0000
Subject: [PATCH 20/53] fix: decomposing representations crashed when the
 solver started from a solution

The trust regions solver divided by zero (and left sys.stdout redirected); the polar factor of a
generic intertwiner is the orthogonal matrix which is needed.
---
 e2cnn/group/representation.py | 61 ++++-------------------------------
 1 file changed, 6 insertions(+), 55 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 8b3faeb..edf6bb3 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1010,19 +1010,6 @@ import scipy.sparse.linalg as slinalg
 from scipy.sparse import find
 
 
-try:
-    import pymanopt
-    from pymanopt.manifolds import Euclidean
-    from pymanopt.solvers import TrustRegions
-    
-except ImportError:
-    pymanopt = None
-    
-try:
-    import autograd.numpy as anp
-except ImportError:
-    anp = None
-
 
 def direct_sum_factory(irreps: List[e2cnn.group.IrreducibleRepresentation],
                        change_of_basis: np.ndarray,
@@ -1120,50 +1107,14 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 
 def find_orthogonal_matrix(basis: np.ndarray, shape):
     
-    if pymanopt is None:
-        raise ImportError("Missing optional 'pymanopt' dependency. Install 'pymanopt' to use this function")
-    
-    if anp is None:
-        raise ImportError("Missing optional 'autograd' dependency. Install 'autograd' to use this function")
-
-    manifold = Euclidean(basis.shape[1])
-    
-    def cost(X):
-        d = anp.dot(basis, X).reshape(shape, order='F')
-        return anp.sum(
-            anp.square(anp.dot(d, d.T) - anp.eye(*shape)) +
-            anp.square(anp.dot(d.T, d) - anp.eye(*shape))
-        )
-    
-    problem = pymanopt.Problem(manifold=manifold, cost=cost)
-    
-    # solver = TrustRegions(use_rand=True, miniter=10, mingradnorm=1e-10)
-    # solver = ParticleSwarm(populationsize=500, maxcostevals=10000, logverbosity=0)
-    # solver = ParticleSwarm(logverbosity=0)
-    
-    import os, sys
-    
-    old_stdout = sys.stdout
-    sys.stdout = open(os.devnull, 'w')
-    #
-    # Xopt = solver.solve(problem)
-    # c = cost(Xopt)
-    # print('PSO, Final Error:', c)
-    #
-    # x = Xopt
-    
-    solver = TrustRegions(mingradnorm=1e-10, logverbosity=0)
-    
-    Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
-    
-    c = cost(Xopt)
-    
-    sys.stdout = old_stdout  # sys.__stdout__
+    # A random combination of the basis is (almost surely) an invertible matrix which commutes with the two
+    # representations. As they are orthogonal, its polar factor is still in the span of the basis and is orthogonal
+    D = np.dot(basis, np.random.randn(basis.shape[1])).reshape(shape, order='F')
     
-    # print('TrustRegions, Final Error:', c)
-    # print('Weights:', Xopt)
+    U, _, Vh = linalg.svd(D)
+    D = U @ Vh
     
-    D = np.dot(basis, Xopt).reshape(shape, order='F')
+    c = np.sum(np.square(D @ D.T - np.eye(*shape)) + np.square(D.T @ D - np.eye(*shape)))
     
     return D, c
 
-- 
2.43.0


From c8caf5a8cfe3d8ef12e75f0e40d3f457b81ad310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:33 +0000
Subject: [PATCH 21/53] fix: reset_parameters of norm batch-norms failed with
 affine=False

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..4bb22d0 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 37ea6d06937c2554272d15654680694a1d9682e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:33 +0000
Subject: [PATCH 22/53] fix: FieldDropout with p=1 returned NaN instead of
 zeros

---
 e2cnn/nn/modules/dropout/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..1e8e979 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -32,11 +32,14 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
         
+        # if everything is dropped (p = 1), there is nothing to rescale
+        scale = 1. - p if p < 1. else 1.
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask / scale
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask / scale
     else:
         return input
 
-- 
2.43.0


From 25189c42a29a04600075728f734f74b8a2828440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:33 +0000
Subject: [PATCH 23/53] fix: in-place FieldDropout did not affect
 non-contiguous fields

---
 e2cnn/nn/modules/dropout/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 1e8e979..155c875 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -157,10 +157,13 @@ class FieldDropout(EquivariantModule):
                     output[:, indices[0]:indices[1], ...] = out.view(shape)
             else:
                 # otherwise we have to use indexing
+                # (indexing returns a copy, so also the in-place version needs to write the result back)
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                 if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                     output[:, indices, ...] = out.view(shape)
+                else:
+                    input[:, indices, ...] = out.view(shape)
             
         if self.inplace:
             output = input
-- 
2.43.0


From 2262a7a9d7204c2af6fad87b595bd7460419f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:07 +0000
Subject: [PATCH 24/53] fix: GNormBatchNorm failed on some feature map sizes
 when changing basis

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From aca78b354e2c368282c1069dc1963b1ad269783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:07 +0000
Subject: [PATCH 25/53] fix: GNormBatchNorm variance was inaccurate (even
 negative) for large means

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 1ad0dd5..7d2f80c 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -297,13 +297,14 @@ class GNormBatchNorm(EquivariantModule):
         # compute the mean of the trivial fields
         trivial_means = t[:, :, trivial_idxs, ...].view(b, c, l, x, y).sum(dim=(0, 3, 4), keepdim=False).detach() / N
         
-        # compute the mean of squares of all channels
-        vars = (t ** 2).view(b, c, s, x, y).sum(dim=(0, 3, 4), keepdim=False).detach() / N
-        
         # For the non-trivial fields the mean of the fields is 0, so we can compute the variance as the mean of the
         # norms squared.
-        # For trivial channels, we need to subtract the squared mean
-        vars[:, trivial_idxs] -= trivial_means**2
+        # For trivial channels, we need to subtract the mean (before squaring, otherwise the difference of two large
+        # and close numbers is not accurate)
+        centered = self._shift(t.detach(), -1 * trivial_means, name=name, out=None)
+        
+        # compute the mean of squares of all channels
+        vars = (centered ** 2).sum(dim=(0, 3, 4), keepdim=False) / N
         
         # aggregate the squared means of the channels which belong to the same irrep
         vars = torch.einsum("io,ci->co", (vars_aggregator, vars))
-- 
2.43.0


From 309cc70a23134f6fd550529d643c0a32ab198334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 26/53] fix: disentangled representations advertised induced
 non-linearities of split sub-fields

---
 e2cnn/group/representation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index edf6bb3..9a87e02 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -603,11 +603,21 @@ def disentangle(repr: Representation) -> Tuple[np.ndarray, List[Representation]]
         
         new_cob = repr.change_of_basis[np.ix_(row_indices, col_indices)]
         
+        # sub-fields which are split among different blocks do not support 'induced' non-linearities anymore
+        supported_nonlinearities = set()
+        for nonlinearity in repr.supported_nonlinearities:
+            if nonlinearity.startswith(('induced_norm_', 'induced_gated_')):
+                subfield_size = int(nonlinearity.split('_')[-1])
+                subfields = {row // subfield_size for row in row_indices}
+                if len(subfields) * subfield_size != total_size:
+                    continue
+            supported_nonlinearities.add(nonlinearity)
+        
         field_repr = Representation(repr.group,
                                       f"{repr.name}_{block}",
                                       [irreps[id].name for id in irreps_indices],
                                       new_cob,
-                                      repr.supported_nonlinearities)
+                                      supported_nonlinearities)
         representations.append(field_repr)
 
         next_position = current_position + len(row_indices)
-- 
2.43.0


From facc9158a6faf494316a526ed779e128be4c6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:30 +0000
Subject: [PATCH 27/53] fix: PointwiseAvgPool.evaluate_output_shape raised
 AttributeError and ignored the ceil_mode rule

---
 e2cnn/nn/modules/pooling/pointwise_avg.py | 14 +++++---------
 e2cnn/nn/modules/utils.py                 | 21 ++++++++++++++++++++-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..7cec20f 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -5,6 +5,7 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooling_output_size
 
 import torch.nn.functional as F
 import torch
@@ -102,15 +103,10 @@ class PointwiseAvgPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
-        
-        if self.ceil_mode:
-            ho = math.ceil(ho)
-            wo = math.ceil(wo)
-        else:
-            ho = math.floor(ho)
-            wo = math.floor(wo)
+        ho, wo = [
+            pooling_output_size(n, self.kernel_size[i], self.stride[i], self.padding[i], ceil_mode=self.ceil_mode)
+            for i, n in enumerate((hi, wi))
+        ]
 
         return b, self.out_type.size, ho, wo
 
diff --git a/e2cnn/nn/modules/utils.py b/e2cnn/nn/modules/utils.py
index e15c422..9f13c26 100644
--- a/e2cnn/nn/modules/utils.py
+++ b/e2cnn/nn/modules/utils.py
@@ -4,7 +4,7 @@ from typing import List, Dict, Tuple
 from collections import defaultdict
 
 
-__all__ = ["check_consecutive_numbers", "indexes_from_labels"]
+__all__ = ["check_consecutive_numbers", "indexes_from_labels", "pooling_output_size"]
 
 
 def check_consecutive_numbers(list: List[int]) -> bool:
@@ -23,6 +23,25 @@ def check_consecutive_numbers(list: List[int]) -> bool:
     return S == s
     
     
+def pooling_output_size(size: int, kernel_size: int, stride: int, padding: int, dilation: int = 1, ceil_mode: bool = False) -> int:
+    r"""
+    
+    Number of windows a pooling layer of PyTorch applies along one axis of the input.
+    
+    """
+    span = size + 2 * padding - dilation * (kernel_size - 1) - 1
+    
+    if ceil_mode:
+        out = -((-span) // stride) + 1
+        # the last window has to start inside the input or the left padding
+        if (out - 1) * stride >= size + padding:
+            out -= 1
+    else:
+        out = span // stride + 1
+    
+    return out
+
+
 def indexes_from_labels(in_type: FieldType, labels: List[str]) -> Dict[str, Tuple[bool, List[int], List[int]]]:
     r"""
     
-- 
2.43.0


From 855ae10cb406003ab54f9e3c2d74e318a68c3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:30 +0000
Subject: [PATCH 28/53] fix: PointwiseMaxPool.evaluate_output_shape counted
 windows lying in the padding in ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..7f24012 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -5,6 +5,7 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooling_output_size
 
 import torch.nn.functional as F
 import torch
@@ -113,15 +114,10 @@ class PointwiseMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
-        
-        if self.ceil_mode:
-            ho = math.ceil(ho)
-            wo = math.ceil(wo)
-        else:
-            ho = math.floor(ho)
-            wo = math.floor(wo)
+        ho, wo = [
+            pooling_output_size(n, self.kernel_size[i], self.stride[i], self.padding[i], self.dilation[i], ceil_mode=self.ceil_mode)
+            for i, n in enumerate((hi, wi))
+        ]
 
         return b, self.out_type.size, ho, wo
 
-- 
2.43.0


From e692269f20be6b4e165af70cfb130e3220ace6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:30 +0000
Subject: [PATCH 29/53] fix: NormMaxPool failed in ceil_mode

---
 e2cnn/nn/modules/pooling/norm_max.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..9e7d70a 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -8,6 +8,7 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooling_output_size
 
 import torch
 import torch.nn.functional as F
@@ -221,10 +222,10 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho, wo = [
+            pooling_output_size(n, self.kernel_size[i], self.stride[i], self.padding[i], self.dilation[i], ceil_mode=self.ceil_mode)
+            for i, n in enumerate((hi, wi))
+        ]
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From ecdac4a39a4d2b9107e205719ee3c3df318e3c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:30 +0000
Subject: [PATCH 30/53] fix: adaptive pooling evaluate_output_shape returned
 nested tuples

---
 e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py | 2 +-
 e2cnn/nn/modules/pooling/pointwise_adaptive_max.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..b12d034 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..f545229 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From d6c8983b6fd4f2bc223e55b49fcf02c5c3d781cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:58 +0000
Subject: [PATCH 31/53] fix: PointwiseMaxPoolAntialiased.evaluate_output_shape
 ignored the padding and rounding of the blurring step

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 7f24012..378ccb3 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -231,6 +231,24 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
 
+    def evaluate_output_shape(self, input_shape: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+        assert len(input_shape) == 4
+        assert input_shape[1] == self.in_type.size
+    
+        b, c, hi, wi = input_shape
+        
+        filter_size = self.filter.shape[-1]
+        
+        out_shape = []
+        for i, n in enumerate((hi, wi)):
+            # dense max-pooling
+            n = n + 2 * self.padding[i] - (self.kernel_size[i] - 1)
+            # strided convolution with the blurring filter
+            n = (n + 2 * self._pad[i] - filter_size) // self.stride[i] + 1
+            out_shape.append(n)
+
+        return (b, self.out_type.size) + tuple(out_shape)
+
     def export(self):
         r"""
         Export this module to a normal PyTorch :class:`torch.nn.MaxPool2d` module and set to "eval" mode.
-- 
2.43.0


From c8cc86746379341e73eb0eca1cf2aa9e1818404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:58 +0000
Subject: [PATCH 32/53] fix: exporting PointwiseMaxPool dropped ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 378ccb3..498aa74 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -134,7 +134,8 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation,
+                                  ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From 0797aefada1d181b813729e6cbe5c2ffedc64a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 33/53] fix: MultipleModule.evaluate_output_shape raised
 TypeError

---
 e2cnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From 3497eac9bc75a3866c7acfeb56f99b4c1944ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 34/53] fix: MergeModule.evaluate_output_shape returned a list
 instead of a tuple

---
 e2cnn/nn/modules/merge_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..5b3a6b7 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -123,7 +123,7 @@ class MergeModule(EquivariantModule):
             
             out_shape[1] += os[1]
         
-        return out_shape
+        return tuple(out_shape)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
         pass
\ No newline at end of file
-- 
2.43.0


From a645527e065eed9e077e8728d7a0f4ea4ed29a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 35/53] fix: MergeModule modified the caller's list of modules

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5b3a6b7..93ef497 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # do not modify the list passed by the user
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From b647cac3bae55fa27335ee3ddf14154b4ce33d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 36/53] fix: BranchingModule rejected the documented
 reshuffle=3

---
 e2cnn/nn/modules/branching_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/branching_module.py b/e2cnn/nn/modules/branching_module.py
index 339b13a..b230b21 100644
--- a/e2cnn/nn/modules/branching_module.py
+++ b/e2cnn/nn/modules/branching_module.py
@@ -63,7 +63,7 @@ class BranchingModule(EquivariantModule):
         
         assert isinstance(in_type.gspace, GeneralOnR2)
         
-        assert 0 <= reshuffle < 3
+        assert 0 <= reshuffle <= 3
         
         super(BranchingModule, self).__init__()
         
-- 
2.43.0


From b26b105911b05212de5a3b30fad6203d5f0b4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 37/53] fix: ReshuffleModule accepted lists repeating some
 fields as permutations

---
 e2cnn/nn/modules/reshuffle_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/reshuffle_module.py b/e2cnn/nn/modules/reshuffle_module.py
index 7aac8d6..7d022e5 100644
--- a/e2cnn/nn/modules/reshuffle_module.py
+++ b/e2cnn/nn/modules/reshuffle_module.py
@@ -38,7 +38,7 @@ class ReshuffleModule(EquivariantModule):
         super(ReshuffleModule, self).__init__()
         
         # check if it is actually a permutation of the fields
-        assert set(permutation) == set(range(0, len(in_type.representations)))
+        assert sorted(permutation) == list(range(0, len(in_type.representations)))
         
         self.space = in_type.gspace
         self.in_type = in_type
-- 
2.43.0


From 4693c8edc5693dd8984022377b110b29475a24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 38/53] fix: MergeModule failed when its first module takes
 multiple inputs

---
 e2cnn/nn/modules/merge_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 93ef497..7f5209a 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -55,7 +55,7 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        self.gspace = modules[0][0].out_type.gspace
         
         out_repr = []
         
-- 
2.43.0


From ad9e88488983454df0fb29682f77b645ccc72a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 39/53] fix: MultipleModule failed when a module was given a
 list with a single label

---
 e2cnn/nn/modules/multiple_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index 5cdb067..c197e12 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -92,8 +92,9 @@ class MultipleModule(EquivariantModule):
             if isinstance(l, str):
                 assert module.in_type == self.branching.out_type[l], f"Label {l}, branch class and module ({module}) class don't match:\n [{module.in_type}] \n [{self.branching.out_type[l]}]\n"
             else:
+                in_types = module.in_type if isinstance(module.in_type, tuple) else (module.in_type, )
                 for i, lb in enumerate(l):
-                    assert module.in_type[i] == self.branching.out_type[lb], f"Label {lb}, branch class and module ({module}) class [{i}] don't match: \n [{module.in_type[i]}] \n [{self.branching.out_type[lb]}]\n"
+                    assert in_types[i] == self.branching.out_type[lb], f"Label {lb}, branch class and module ({module}) class [{i}] don't match: \n [{in_types[i]}] \n [{self.branching.out_type[lb]}]\n"
         
         self.merging = MergeModule(modules)
         
-- 
2.43.0


From 1797156a7fea5d687f775236ac8237e67443cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 40/53] fix: R2ConvTransposed.evaluate_output_shape used the
 formula of the forward convolution

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index f2ba97a..7608e78 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -257,8 +257,8 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From d009c9aee0cb91d7c607da28d78d436d95ae3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 41/53] fix: R2Conv and R2Diffop evaluate_output_shape failed
 with a tuple padding

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 5 +++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..650f399 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,9 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..276ce3f 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,9 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From c8a0c1ec59fea8fcf40cf53b6e9fda792afaded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 42/53] fix: exporting R2ConvTransposed dropped output_padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 7608e78..663c324 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -376,6 +376,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From f0ab83bf1715b5d91eb1323f3ed6dde91e0b77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 43/53] fix: export rejected non-zero padding modes with torch
 2.0 to 2.4

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 650f399..3ea9e40 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -512,7 +512,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 276ce3f..b39e905 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -617,7 +617,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From 6774034e50f1c45dc513ca5c37a148eca0af8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 44/53] fix: exported convolutions and batch-norms shared their
 memory with the original

---
 e2cnn/nn/modules/batchnormalization/inner.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2convolution.py    | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/inner.py b/e2cnn/nn/modules/batchnormalization/inner.py
index 145d36d..3c95a80 100644
--- a/e2cnn/nn/modules/batchnormalization/inner.py
+++ b/e2cnn/nn/modules/batchnormalization/inner.py
@@ -200,7 +200,7 @@ class InnerBatchNorm(EquivariantModule):
             
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 3ea9e40..9169e23 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -540,9 +540,9 @@ class R2Conv(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index b39e905..96d63df 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -645,9 +645,9 @@ class R2Diffop(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
-- 
2.43.0


From d9cfefe962cbb133059e83db63c8e93809f49c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 45/53] fix: the filter of an exported
 PointwiseMaxPoolAntialiased was not part of its state

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 498aa74..a941ca5 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -269,7 +269,7 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
 class FixedConv2D(torch.nn.Module):
     def __init__(self, filter:torch.Tensor, stride, _pad):
         super(FixedConv2D, self).__init__()
-        self._filter = filter
+        self.register_buffer('_filter', filter.clone())
         self._stride = stride
         self._pad = _pad
 
-- 
2.43.0


From 8cb936d73d7c49fe77c6016941b5d9fb1dc875b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:20 +0000
Subject: [PATCH 46/53] fix: exporting R2Upsampling ignored the output size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From e1301bd4b1e6ae303120b3fbecce41736b58fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:20 +0000
Subject: [PATCH 47/53] fix: steerable layers could not be copied in evaluation
 mode

---
 e2cnn/nn/modules/equivariant_module.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/e2cnn/nn/modules/equivariant_module.py b/e2cnn/nn/modules/equivariant_module.py
index 6a433c0..2295059 100644
--- a/e2cnn/nn/modules/equivariant_module.py
+++ b/e2cnn/nn/modules/equivariant_module.py
@@ -76,6 +76,15 @@ class EquivariantModule(Module, ABC):
         """
         pass
     
+    def __getstate__(self):
+        # buffers derived from the parameters (e.g. the filters expanded in evaluation mode) are part of an autograd
+        # graph, which can neither be copied nor stored
+        state = self.__dict__.copy()
+        state["_buffers"] = type(self._buffers)(
+            (name, buffer if buffer is None else buffer.detach()) for name, buffer in self._buffers.items()
+        )
+        return state
+    
     def check_equivariance(self, atol: float = 1e-7, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
         r"""
         
-- 
2.43.0


From 92d8f29ad5afeea833c9a377675fa499e69513d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:51 +0000
Subject: [PATCH 48/53] fix: index buffers of basis expansions own their
 memory, so that state_dict can be loaded

With a single scalar input (or output) field and non-contiguous fields on the
other side, torch.meshgrid(...).reshape(-1) is a stride-0 view: load_state_dict
raised a RuntimeError when copying into it.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..ba58993 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,8 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0


From 1702154d2e609b44cbd9034ebdd2a1d14b52f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:37 +0000
Subject: [PATCH 49/53] fix: decomposing the same matrix representation twice
 gave different changes of basis

---
 e2cnn/group/representation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 9a87e02..bb4ebb9 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1118,8 +1118,9 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 def find_orthogonal_matrix(basis: np.ndarray, shape):
     
     # A random combination of the basis is (almost surely) an invertible matrix which commutes with the two
-    # representations. As they are orthogonal, its polar factor is still in the span of the basis and is orthogonal
-    D = np.dot(basis, np.random.randn(basis.shape[1])).reshape(shape, order='F')
+    # representations. As they are orthogonal, its polar factor is still in the span of the basis and is orthogonal.
+    # The combination is fixed, such that the same input always gives the same result
+    D = np.dot(basis, np.random.RandomState(0).randn(basis.shape[1])).reshape(shape, order='F')
     
     U, _, Vh = linalg.svd(D)
     D = U @ Vh
-- 
2.43.0


From 22e4817c1bb010b0345e57b137fc7233a25a785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 50/53] fix: NormPool and NormMaxPool accepted representations
 which do not preserve the norm

---
 e2cnn/nn/modules/invariantmaps/norm.py | 4 ++++
 e2cnn/nn/modules/pooling/norm_max.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/e2cnn/nn/modules/invariantmaps/norm.py b/e2cnn/nn/modules/invariantmaps/norm.py
index 92d1482..2906e63 100644
--- a/e2cnn/nn/modules/invariantmaps/norm.py
+++ b/e2cnn/nn/modules/invariantmaps/norm.py
@@ -30,6 +30,10 @@ class NormPool(EquivariantModule):
         """
         assert isinstance(in_type.gspace, GeneralOnR2)
         
+        for r in in_type.representations:
+            assert 'norm' in r.supported_nonlinearities, \
+                f"Error! Representation \"{r.name}\" does not support norm non-linearities, i.e. it does not preserve the norm"
+        
         super(NormPool, self).__init__()
 
         self.space = in_type.gspace
diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 9e7d70a..bde1d64 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -51,6 +51,10 @@ class NormMaxPool(EquivariantModule):
         
         assert isinstance(in_type.gspace, GeneralOnR2)
         
+        for r in in_type.representations:
+            assert 'norm' in r.supported_nonlinearities, \
+                f"Error! Representation \"{r.name}\" does not support norm non-linearities, i.e. it does not preserve the norm"
+        
         super(NormMaxPool, self).__init__()
 
         self.space = in_type.gspace
-- 
2.43.0


From c1ffd91a61ca94728b6eafcfc41ae0ebfd811d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:38 +0000
Subject: [PATCH 51/53] fix: convolutions mixed up different representations
 with the same name

---
 .../modules/r2_conv/basisexpansion_blocks.py  | 53 +++++++++----------
 e2cnn/nn/modules/utils.py                     | 28 +++++++++-
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index ba58993..625af96 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -66,11 +66,15 @@ class BlocksBasisExpansion(BasisExpansion):
         # we group the basis vectors by their input and output representations
         _block_expansion_modules = {}
         
+        # representations are identified by their names; different representations with the same name are told apart
+        self._in_names = utils.distinct_names(in_type)
+        self._out_names = utils.distinct_names(out_type)
+
         # iterate through all different pairs of input/output representationions
         # and, for each of them, build a basis
-        for i_repr in in_type._unique_representations:
-            for o_repr in out_type._unique_representations:
-                reprs_names = (i_repr.name, o_repr.name)
+        for i_name, i_repr in dict(zip(self._in_names, in_type.representations)).items():
+            for o_name, o_repr in dict(zip(self._out_names, out_type.representations)).items():
+                reprs_names = (i_name, o_name)
                 try:
                     basis = basis_generator(i_repr, o_repr, **kwargs)
                     
@@ -87,7 +91,7 @@ class BlocksBasisExpansion(BasisExpansion):
         if len(_block_expansion_modules) == 0:
             print('WARNING! The basis for the block expansion of the filter is empty!')
 
-        self._n_pairs = len(in_type._unique_representations) * len(out_type._unique_representations)
+        self._n_pairs = len(set(self._in_names)) * len(set(self._out_names))
 
         # the list of all pairs of input/output representations which don't have an empty basis
         self._representations_pairs = sorted(list(_block_expansion_modules.keys()))
@@ -96,12 +100,12 @@ class BlocksBasisExpansion(BasisExpansion):
         # - the number of its occurrences,
         # - the indices where it occurs and
         # - whether its occurrences are contiguous or not
-        self._in_count, _in_indices, _in_contiguous = _retrieve_indices(in_type)
-        self._out_count, _out_indices, _out_contiguous = _retrieve_indices(out_type)
+        self._in_count, _in_indices, _in_contiguous = _retrieve_indices(in_type, self._in_names)
+        self._out_count, _out_indices, _out_contiguous = _retrieve_indices(out_type, self._out_names)
         
         # compute the attributes and an id for each basis element (and, so, of each parameter)
         # attributes, basis_ids = _compute_attrs_and_ids(in_type, out_type, _block_expansion_modules)
-        basis_ids = _compute_attrs_and_ids(in_type, out_type, _block_expansion_modules)
+        basis_ids = _compute_attrs_and_ids(self._in_names, self._out_names, _block_expansion_modules)
         
         self._weights_ranges = {}
 
@@ -189,7 +193,7 @@ class BlocksBasisExpansion(BasisExpansion):
             in_irreps_count = 0
             for i, i_repr in enumerate(self._in_type.representations):
             
-                if reprs_names == (i_repr.name, o_repr.name):
+                if reprs_names == (self._in_names[i], self._out_names[o]):
                     
                     if block_count == block_idx:
 
@@ -206,7 +210,7 @@ class BlocksBasisExpansion(BasisExpansion):
                     
                         # build the ids of the basis vectors
                         # add names and indices of the input and output fields
-                        id = '({}-{},{}-{})'.format(i_repr.name, i, o_repr.name, o)
+                        id = '({}-{},{}-{})'.format(reprs_names[0], i, reprs_names[1], o)
                         # add the original id in the block submodule
                         id += "_" + attr["id"]
                     
@@ -230,13 +234,13 @@ class BlocksBasisExpansion(BasisExpansion):
         out_block_counts = defaultdict(list)
         for o, o_repr in enumerate(self._out_type.representations):
             out_irreps_counts.append(out_irreps_counts[-1] + len(o_repr.irreps))
-            out_block_counts[o_repr.name].append(o)
+            out_block_counts[self._out_names[o]].append(o)
             
         in_irreps_counts = [0]
         in_block_counts = defaultdict(list)
         for i, i_repr in enumerate(self._in_type.representations):
             in_irreps_counts.append(in_irreps_counts[-1] + len(i_repr.irreps))
-            in_block_counts[i_repr.name].append(i)
+            in_block_counts[self._in_names[i]].append(i)
 
         # iterate through the different group of blocks
         # i.e., through all input/output pairs
@@ -400,16 +404,16 @@ class BlocksBasisExpansion(BasisExpansion):
         return True
 
 
-def _retrieve_indices(type: FieldType):
+def _retrieve_indices(type: FieldType, names: List[str]):
     fiber_position = 0
     _indices = defaultdict(list)
     _count = defaultdict(int)
     _contiguous = {}
     
-    for repr in type.representations:
-        _indices[repr.name] += list(range(fiber_position, fiber_position + repr.size))
+    for name, repr in zip(names, type.representations):
+        _indices[name] += list(range(fiber_position, fiber_position + repr.size))
         fiber_position += repr.size
-        _count[repr.name] += 1
+        _count[name] += 1
     
     for name, indices in _indices.items():
         # _contiguous[o_name] = indices == list(range(indices[0], indices[0]+len(indices)))
@@ -419,20 +423,16 @@ def _retrieve_indices(type: FieldType):
     return _count, _indices, _contiguous
 
 
-def _compute_attrs_and_ids(in_type, out_type, block_submodules):
+def _compute_attrs_and_ids(in_names, out_names, block_submodules):
     
     basis_ids = defaultdict(lambda: [])
     
     # iterate over all blocks
     # each block is associated to an input/output representations pair
-    out_fiber_position = 0
-    out_irreps_count = 0
-    for o, o_repr in enumerate(out_type.representations):
-        in_fiber_position = 0
-        in_irreps_count = 0
-        for i, i_repr in enumerate(in_type.representations):
+    for o, o_name in enumerate(out_names):
+        for i, i_name in enumerate(in_names):
             
-            reprs_names = (i_repr.name, o_repr.name)
+            reprs_names = (i_name, o_name)
             
             # if a basis for the space of kernels between the current pair of representations exists
             if reprs_names in block_submodules:
@@ -443,7 +443,7 @@ def _compute_attrs_and_ids(in_type, out_type, block_submodules):
                 for attr in block_submodules[reprs_names].get_basis_info():
                     # build the ids of the basis vectors
                     # add names and indices of the input and output fields
-                    id = '({}-{},{}-{})'.format(i_repr.name, i, o_repr.name, o)
+                    id = '({}-{},{}-{})'.format(i_name, i, o_name, o)
                     # add the original id in the block submodule
                     id += "_" + attr["id"]
                     
@@ -452,10 +452,5 @@ def _compute_attrs_and_ids(in_type, out_type, block_submodules):
                 # append the ids of the basis vectors
                 basis_ids[reprs_names] += ids
             
-            in_fiber_position += i_repr.size
-            in_irreps_count += len(i_repr.irreps)
-        out_fiber_position += o_repr.size
-        out_irreps_count += len(o_repr.irreps)
-        
     # return attributes, basis_ids
     return basis_ids
diff --git a/e2cnn/nn/modules/utils.py b/e2cnn/nn/modules/utils.py
index 9f13c26..7b06da0 100644
--- a/e2cnn/nn/modules/utils.py
+++ b/e2cnn/nn/modules/utils.py
@@ -4,7 +4,7 @@ from typing import List, Dict, Tuple
 from collections import defaultdict
 
 
-__all__ = ["check_consecutive_numbers", "indexes_from_labels", "pooling_output_size"]
+__all__ = ["check_consecutive_numbers", "indexes_from_labels", "distinct_names", "pooling_output_size"]
 
 
 def check_consecutive_numbers(list: List[int]) -> bool:
@@ -42,6 +42,32 @@ def pooling_output_size(size: int, kernel_size: int, stride: int, padding: int,
     return out
 
 
+def distinct_names(type: FieldType) -> List[str]:
+    r"""
+    
+    Label each field of the input type with the name of its representation.
+    If different representations have the same name, a suffix is added to tell them apart.
+    
+    Args:
+        type (FieldType): the field type
+
+    Returns:
+        a list with a label for each field; two fields have the same label if and only if they have the same representation
+
+    """
+    labels = []
+    known = {}
+    
+    for r in type.representations:
+        label = r.name
+        while label in known and known[label] != r:
+            label += "'"
+        known[label] = r
+        labels.append(label)
+    
+    return labels
+
+
 def indexes_from_labels(in_type: FieldType, labels: List[str]) -> Dict[str, Tuple[bool, List[int], List[int]]]:
     r"""
     
-- 
2.43.0


From d0ca06a61334364440c7cf7d1fb42bd23d1a85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:51 +0000
Subject: [PATCH 52/53] fix: DisentangleModule mixed up different
 representations with the same name

---
 e2cnn/nn/modules/disentangle_module.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/e2cnn/nn/modules/disentangle_module.py b/e2cnn/nn/modules/disentangle_module.py
index a69688f..5d54025 100644
--- a/e2cnn/nn/modules/disentangle_module.py
+++ b/e2cnn/nn/modules/disentangle_module.py
@@ -6,7 +6,7 @@ import torch
 import numpy as np
 
 from .equivariant_module import EquivariantModule
-from .utils import indexes_from_labels
+from .utils import indexes_from_labels, distinct_names
 from e2cnn.gspaces import *
 from e2cnn.group import disentangle
 
@@ -47,22 +47,25 @@ class DisentangleModule(EquivariantModule):
         _change_of_basis_matrices = {}
         self._sizes = {}
         
-        for r in self.in_type._unique_representations:
-            self._sizes[r.name] = r.size
+        # different representations with the same name are told apart
+        names = distinct_names(self.in_type)
+        
+        for name, r in dict(zip(names, self.in_type.representations)).items():
+            self._sizes[name] = r.size
             cob, reprs = disentangle(r)
-            disentangled_representations[r.name] = reprs
-            _change_of_basis_matrices[r.name] = torch.FloatTensor(cob)
-            self.register_buffer('change_of_basis_{}'.format(r.name), _change_of_basis_matrices[r.name])
+            disentangled_representations[name] = reprs
+            _change_of_basis_matrices[name] = torch.FloatTensor(cob)
+            self.register_buffer('change_of_basis_{}'.format(name), _change_of_basis_matrices[name])
 
         out_reprs = []
         self._nfields = defaultdict(int)
-        for r in self.in_type.representations:
-            self._nfields[r.name] += 1
-            out_reprs += disentangled_representations[r.name]
+        for name in names:
+            self._nfields[name] += 1
+            out_reprs += disentangled_representations[name]
 
         self.out_type = FieldType(self.in_type.gspace, out_reprs)
 
-        grouped_indices = indexes_from_labels(self.in_type, [r.name for r in self.in_type.representations])
+        grouped_indices = indexes_from_labels(self.in_type, names)
         
         self._order = []
         self._contiguous = {}
-- 
2.43.0


From d46d7cfa36aa47eb9222e1b387bf5ed460d8a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:51 +0000
Subject: [PATCH 53/53] fix: GNormBatchNorm mixed up different representations
 with the same name

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 31 ++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 7d2f80c..a6efe3f 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -7,6 +7,7 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import distinct_names
 
 import torch
 from torch.nn import Parameter
@@ -68,21 +69,23 @@ class GNormBatchNorm(EquivariantModule):
         ntrivials = 0
         position = 0
         last_field = None
-        for i, r in enumerate(self.in_type.representations):
+        # different representations with the same name are told apart
+        names = distinct_names(self.in_type)
+        for name, r in zip(names, self.in_type.representations):
             
             for irr in r.irreps:
                 if self.in_type.fibergroup.irreps[irr].is_trivial():
                     ntrivials += 1
             
-            if r.name != last_field:
-                if not r.name in self._contiguous:
-                    self._contiguous[r.name] = True
+            if name != last_field:
+                if not name in self._contiguous:
+                    self._contiguous[name] = True
                 else:
-                    self._contiguous[r.name] = False
+                    self._contiguous[name] = False
 
-            last_field = r.name
-            _indices[r.name] += list(range(position, position + r.size))
-            self._nfields[r.name] += 1
+            last_field = name
+            _indices[name] += list(range(position, position + r.size))
+            self._nfields[name] += 1
             position += r.size
         
         for name, contiguous in self._contiguous.items():
@@ -107,7 +110,7 @@ class GNormBatchNorm(EquivariantModule):
         # store for each field type the sizes and the indices of all its irreps, grouped by their size
         self._irreps_sizes = {}
         
-        for r in self.in_type._unique_representations:
+        for name, r in dict(zip(names, self.in_type.representations)).items():
             p = 0
             irreps = defaultdict(lambda: [])
             trivials = []
@@ -125,8 +128,6 @@ class GNormBatchNorm(EquivariantModule):
             
             propagator = (aggregator > 0).clone().to(dtype=torch.float)
             
-            name = r.name
-            
             self._trivial_idxs[name] = torch.tensor(trivials, dtype=torch.long)
             self._irreps_sizes[name] = [(s, idxs) for s, idxs in irreps.items()]
             self._sizes.append((name, r.size))
@@ -138,14 +139,14 @@ class GNormBatchNorm(EquivariantModule):
             self.register_buffer(f'vars_aggregator_{name}', aggregator)
             self.register_buffer(f'vars_propagator_{name}', propagator)
         
-            running_var = torch.ones((self._nfields[r.name], len(r.irreps)), dtype=torch.float)
-            running_mean = torch.zeros((self._nfields[r.name], len(trivials)), dtype=torch.float)
+            running_var = torch.ones((self._nfields[name], len(r.irreps)), dtype=torch.float)
+            running_mean = torch.zeros((self._nfields[name], len(trivials)), dtype=torch.float)
             self.register_buffer(f'{name}_running_var', running_var)
             self.register_buffer(f'{name}_running_mean', running_mean)
             
             if self.affine:
-                weight = Parameter(torch.ones((self._nfields[r.name], len(r.irreps))), requires_grad=True)
-                bias = Parameter(torch.zeros((self._nfields[r.name], len(trivials))), requires_grad=True)
+                weight = Parameter(torch.ones((self._nfields[name], len(r.irreps))), requires_grad=True)
+                bias = Parameter(torch.zeros((self._nfields[name], len(trivials))), requires_grad=True)
                 self.register_parameter(f'{name}_weight', weight)
                 self.register_parameter(f'{name}_bias', bias)
             
-- 
2.43.0

