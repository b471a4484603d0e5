From 0aa04f4bb6b1189b402ddafac82c9a20d0c4a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 01/73] fix: distinct cache key for the inner 1-form incidence
 matrix of triangles

Quads and triangles of a mixed mesh shared one key, so the matrix of whichever was
asked for first was returned for the other.
---
 msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
index 8750393..f2f8aca 100644
--- a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
+++ b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
@@ -378,7 +378,7 @@ def _im221i_vtu5_(element, degree):
                 E[dn[i, j], sn[0][i, j + 1]] = -1   # y+
 
         E = csr_matrix(E)
-        cache_key = f"mq{p}"
+        cache_key = f"vtu5i{p}"
         _cache_vtu5_i_[p] = E, cache_key
 
     if 'm2n2k1_inner' not in element.dof_reverse_info:
-- 
2.43.0


From db71dacec4529851db22ceaf8a7f387da72ea664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 02/73] fix: never reuse the repr of a deleted object as a
 cache key

Module-level caches (gathering, incidence, mass and trilinear matrices, boundary-section
dofs, ...) are keyed by the default repr, i.e. by the address. Building another mesh in the
same process could therefore return the data of a deleted one. Give every Frozen instance a
serial number in its repr.
---
 tools/frozen.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tools/frozen.py b/tools/frozen.py
index 6cc581b..440b8ce 100644
--- a/tools/frozen.py
+++ b/tools/frozen.py
@@ -3,6 +3,9 @@ r"""
 """
 
 from abc import ABC
+from itertools import count
+
+_serial_numbers = count()
 
 
 class FrozenError(Exception):
@@ -12,6 +15,19 @@ class FrozenError(Exception):
 class Frozen(ABC):
     """Enable a class to freeze self such that no more new attribute can be defined."""
 
+    def __repr__(self):
+        """The default repr plus a serial number.
+
+        The repr of an instance is the key of many caches that outlive the instance. Addresses are
+        reused after an instance is deleted; serial numbers are not.
+        """
+        try:
+            serial = self.___SERIAL___
+        except AttributeError:
+            serial = next(_serial_numbers)
+            object.__setattr__(self, '___SERIAL___', serial)
+        return f"{super().__repr__()[:-1]}#{serial}>"
+
     def __setattr__(self, key, value):
         """"""
         if self.___frozen___ and key not in dir(self):
-- 
2.43.0


From d3629e5f36cdadb2a99805d4a99498afb09a8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 03/73] fix: import sibling modules through the phyem package

Function-level imports such as 'from src.config import ...' only worked when the current
directory was the repository root (and then loaded a second copy of the module); everywhere
else the calls raised ModuleNotFoundError.
---
 msehtt/adaptive/main.py                              |  2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py      |  6 +++---
 msehtt/static/form/export/main.py                    |  2 +-
 msehtt/tools/nonlinear_system/dynamic/main.py        |  2 +-
 msehtt/tools/nonlinear_system/static/main.py         |  2 +-
 msepy/form/main.py                                   |  6 +++---
 msepy/form/numeric/main.py                           |  2 +-
 msepy/form/visualize/matplot.py                      |  2 +-
 msepy/manifold/visualize/matplot.py                  |  2 +-
 msepy/mesh/boundary_section/main.py                  |  2 +-
 msepy/mesh/boundary_section/visualize/matplot.py     |  2 +-
 msepy/mesh/visualize/matplot.py                      |  2 +-
 msepy/space/degree.py                                |  2 +-
 msepy/space/gathering_matrix/Lambda.py               |  2 +-
 msepy/space/mass_matrix/Lambda.py                    |  2 +-
 msepy/space/reconstruct/Lambda.py                    |  2 +-
 msepy/space/reduce/Lambda.py                         |  2 +-
 msepy/space/trace_matrix/Lambda.py                   |  2 +-
 msepy/tools/linear_system/dynamic/_arr_par.py        |  6 +++---
 msepy/tools/linear_system/dynamic/main.py            |  2 +-
 msepy/tools/linear_system/static/local/main.py       |  2 +-
 msepy/tools/nonlinear_system/dynamic/main.py         |  6 +++---
 msepy/tools/nonlinear_system/static/customize.py     |  8 ++++----
 msepy/tools/nonlinear_system/static/local.py         |  2 +-
 msepy/tools/polynomials.py                           |  4 ++--
 src/algebra/array.py                                 |  2 +-
 src/algebra/linear_system.py                         | 12 ++++++------
 src/time_sequence.py                                 |  4 ++--
 src/wf/term/ap.py                                    |  4 ++--
 tools/functions/time_space/_2d/wrappers/scalar.py    |  8 ++++----
 tools/functions/time_space/_2d/wrappers/vector.py    |  8 ++++----
 .../serialRunners/INSTANCES/COMPONENTS/tir_drw.py    |  4 ++--
 .../serialRunners/INSTANCES/three_inputs_runner.py   | 10 +++++-----
 tools/miscellaneous/undirected_graph.py              |  2 +-
 34 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 8fb4f64..730103e 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -406,7 +406,7 @@ def info(*others_2b_printed):
         else:
             pass
     print(f"\n~) Existing time sequences --------- ")
-    from src.time_sequence import _global_abstract_time_sequence
+    from phyem.src.time_sequence import _global_abstract_time_sequence
     for ats_lin in _global_abstract_time_sequence:
         ats = _global_abstract_time_sequence[ats_lin]
         ats.info()
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index bd5cf77..6df07fc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -45,9 +45,9 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
     return data_dict
 
 
-from msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
-from msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
-from msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
+from phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
 
 
 def ___bi_vc_330_orthogonal_hexahedral___(element, degree, face, tvc):
diff --git a/msehtt/static/form/export/main.py b/msehtt/static/form/export/main.py
index a6e1733..f210b73 100644
--- a/msehtt/static/form/export/main.py
+++ b/msehtt/static/form/export/main.py
@@ -29,7 +29,7 @@ class MseHtt_Static_Form_Export(Frozen):
 
     def vtk(self, filename, ddf=1):
         r""""""
-        from tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
+        from phyem.tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
         ___ph_vtk_msehtt_static_copy___(filename, self._f[self._t], ddf=ddf)
 
     def tsf(self, filename, ddf=1):
diff --git a/msehtt/tools/nonlinear_system/dynamic/main.py b/msehtt/tools/nonlinear_system/dynamic/main.py
index fde2b62..b28d3d2 100644
--- a/msehtt/tools/nonlinear_system/dynamic/main.py
+++ b/msehtt/tools/nonlinear_system/dynamic/main.py
@@ -213,7 +213,7 @@ class MseHttDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
 
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
diff --git a/msehtt/tools/nonlinear_system/static/main.py b/msehtt/tools/nonlinear_system/static/main.py
index d330073..67fa7c3 100644
--- a/msehtt/tools/nonlinear_system/static/main.py
+++ b/msehtt/tools/nonlinear_system/static/main.py
@@ -330,7 +330,7 @@ class MseHttStaticNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}].')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/form/main.py b/msepy/form/main.py
index d1925d3..39b9c26 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -80,7 +80,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -106,7 +106,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -485,7 +485,7 @@ class MsePyRootForm(Frozen):
         inner_product_matrix = self.space.inner_product(
             self.degree, (other_form.space, other_form.degree)
         )
-        from msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
+        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
 
         inner_product_matrix = MsePyStaticLocalMatrix(
             inner_product_matrix,
diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 8ae6c05..f2b9706 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -305,7 +305,7 @@ class MsePyRootFormNumeric(Frozen):
             pass
         else:
             import pickle
-            from src.config import SIZE
+            from phyem.src.config import SIZE
             if SIZE == 1:
                 # we are only calling one thread, so just go ahead with it.
                 with open(saveto, 'wb') as output:
diff --git a/msepy/form/visualize/matplot.py b/msepy/form/visualize/matplot.py
index 85b8e3b..ed9a95a 100644
--- a/msepy/form/visualize/matplot.py
+++ b/msepy/form/visualize/matplot.py
@@ -358,7 +358,7 @@ class MsePyRootFormVisualizeMatplot(Frozen):
     ):
         """"""
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/manifold/visualize/matplot.py b/msepy/manifold/visualize/matplot.py
index c494b79..a8f77c5 100644
--- a/msepy/manifold/visualize/matplot.py
+++ b/msepy/manifold/visualize/matplot.py
@@ -144,7 +144,7 @@ class MsePyManifoldVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
         return fig
diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index e130b92..178abfa 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -87,7 +87,7 @@ class MsePyBoundarySectionMesh(Frozen):
         If the target is the gathering matrix, then we find all global dofs on the
         boundary section.
         """
-        from msepy.form.main import MsePyRootForm
+        from phyem.msepy.form.main import MsePyRootForm
         assert f.__class__ is MsePyRootForm, f"f must be a msepy root form."
         gathering_matrix = f.cochain.gathering_matrix
 
diff --git a/msepy/mesh/boundary_section/visualize/matplot.py b/msepy/mesh/boundary_section/visualize/matplot.py
index 9d55f95..9a5da5a 100644
--- a/msepy/mesh/boundary_section/visualize/matplot.py
+++ b/msepy/mesh/boundary_section/visualize/matplot.py
@@ -112,7 +112,7 @@ class Matplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshBoundarySection')
             else:
diff --git a/msepy/mesh/visualize/matplot.py b/msepy/mesh/visualize/matplot.py
index 55aec64..388edb9 100644
--- a/msepy/mesh/visualize/matplot.py
+++ b/msepy/mesh/visualize/matplot.py
@@ -186,7 +186,7 @@ class MsePyMeshVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/msepy/space/degree.py b/msepy/space/degree.py
index 613f627..b156e7c 100644
--- a/msepy/space/degree.py
+++ b/msepy/space/degree.py
@@ -160,7 +160,7 @@ class PySpaceDegree(Frozen):
     @property
     def gathering_matrix(self):
         """For msehy-py spaces, access gathering matrix here only for more recent generation mesh!"""
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh_class = self._space.mesh.__class__
         if mesh_class is MsePyMesh:
             return self._space.gathering_matrix(self._degree)
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 5fef6b1..a0bb713 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1340,7 +1340,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
     def _m2_n1_k1(self, p):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 0c088ef..425ba2b 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -338,7 +338,7 @@ class MsePyMassMatrixLambda(Frozen):
         quad_nodes, quad_weights = quad.quad
         xi_et, bfs = self._space.basis_functions[degree](quad_nodes)
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reconstruct/Lambda.py b/msepy/space/reconstruct/Lambda.py
index ab7776d..9194250 100644
--- a/msepy/space/reconstruct/Lambda.py
+++ b/msepy/space/reconstruct/Lambda.py
@@ -223,7 +223,7 @@ class MsePySpaceReconstructLambda(Frozen):
         nodes, bfs = self._space.basis_functions[degree](xi)
 
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reduce/Lambda.py b/msepy/space/reduce/Lambda.py
index 4eab720..2eb47c3 100644
--- a/msepy/space/reduce/Lambda.py
+++ b/msepy/space/reduce/Lambda.py
@@ -385,7 +385,7 @@ class MsePySpaceReduceLambda(Frozen):
             dtype=float
         )
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/trace_matrix/Lambda.py b/msepy/space/trace_matrix/Lambda.py
index 0525c40..d8372b6 100644
--- a/msepy/space/trace_matrix/Lambda.py
+++ b/msepy/space/trace_matrix/Lambda.py
@@ -46,7 +46,7 @@ class MsePyTraceMatrixLambda(Frozen):
 
     def _m2_n2_k1_outer(self, degree):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 51d7211..9792186 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -209,7 +209,7 @@ def Parse__trace_matrix(space_lin_repr, degree_str):
     degree = _str_degree_parser(degree_str)
     space = _find_space_through_pure_lin_repr(space_lin_repr)
     gm_space_1 = space.gathering_matrix(degree)
-    from src.spaces.operators import trace as space_trace
+    from phyem.src.spaces.operators import trace as space_trace
     trace_space = _find_space_through_pure_lin_repr(space_trace(space.abstract)._pure_lin_repr)
     gm_trace_0 = trace_space.gathering_matrix(degree)
     tM = space.trace_matrix(degree)
@@ -262,7 +262,7 @@ def Parse__pi_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.projection import MsePySpaceProjection
+    from phyem.msepy.space.addons.projection import MsePySpaceProjection
     pi = MsePySpaceProjection(from_space, to_space, from_d, to_d)
     return pi.matrix, None
 
@@ -273,7 +273,7 @@ def Parse__star_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.Hodge import MsePySpaceHodge
+    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
     H = MsePySpaceHodge(from_space, to_space, from_d, to_d)
     return H.matrix, None
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 971f4b2..69cf925 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -347,7 +347,7 @@ class MsePyDynamicLinearSystem(Frozen):
 
     def pr(self, figsize=(10, 4)):
         """pr"""
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         plt.rcParams.update({
             "text.usetex": True,
             "font.family": "DejaVu Sans",
diff --git a/msepy/tools/linear_system/static/local/main.py b/msepy/tools/linear_system/static/local/main.py
index 363ca40..8c1761d 100644
--- a/msepy/tools/linear_system/static/local/main.py
+++ b/msepy/tools/linear_system/static/local/main.py
@@ -274,7 +274,7 @@ class MsePyStaticLocalLinearSystem(Frozen):
             plt.text(0.05, 0.47, text, ha='left', va='top', size=15)
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
         plt.tight_layout()
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/dynamic/main.py b/msepy/tools/nonlinear_system/dynamic/main.py
index b804cbc..f9772de 100644
--- a/msepy/tools/nonlinear_system/dynamic/main.py
+++ b/msepy/tools/nonlinear_system/dynamic/main.py
@@ -146,7 +146,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         """the test forms."""
         if self._tfs is None:
             self._tfs = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_tfs = self._mp_nls._mp._wf.test_forms
             for atf in abstract_tfs:
@@ -163,7 +163,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
     def unknowns(self):
         if self._unknowns is None:
             self._unknowns = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_ufs = self._mp_nls._mp._wf.unknowns
             for auf in abstract_ufs:
@@ -250,7 +250,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/static/customize.py b/msepy/tools/nonlinear_system/static/customize.py
index bfe8b48..cf62d5b 100644
--- a/msepy/tools/nonlinear_system/static/customize.py
+++ b/msepy/tools/nonlinear_system/static/customize.py
@@ -150,8 +150,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
@@ -229,8 +229,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
diff --git a/msepy/tools/nonlinear_system/static/local.py b/msepy/tools/nonlinear_system/static/local.py
index 3847e3e..3382cea 100644
--- a/msepy/tools/nonlinear_system/static/local.py
+++ b/msepy/tools/nonlinear_system/static/local.py
@@ -285,7 +285,7 @@ class MsePyStaticLocalNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index b1d4129..184cace 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -297,7 +297,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
@@ -426,7 +426,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/src/algebra/array.py b/src/algebra/array.py
index 1569463..bcc2d41 100644
--- a/src/algebra/array.py
+++ b/src/algebra/array.py
@@ -182,7 +182,7 @@ class AbstractArray(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, text, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
     def __repr__(self):
diff --git a/src/algebra/linear_system.py b/src/algebra/linear_system.py
index 884d534..335d6e1 100644
--- a/src/algebra/linear_system.py
+++ b/src/algebra/linear_system.py
@@ -88,7 +88,7 @@ class BlockMatrix(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -100,7 +100,7 @@ class BlockMatrix(Frozen):
         plt.axis('off')
         plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
         plt.tight_layout()
-        from src.config import _setting
+        from phyem.src.config import _setting
         plt.show(block=_setting['block'])
         return fig
 
@@ -168,7 +168,7 @@ class BlockColVector(Frozen):
 
     def pr(self, figsize=(8, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -178,7 +178,7 @@ class BlockColVector(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
@@ -290,7 +290,7 @@ class LinearSystem(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """pr"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -300,7 +300,7 @@ class LinearSystem(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
diff --git a/src/time_sequence.py b/src/time_sequence.py
index f7c49b7..ebf3ef0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -331,7 +331,7 @@ class ConstantTimeSequence(TimeSequence):
 
     def pr(self, obj=None):
         """print this constant interval time sequence together with an object."""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -458,7 +458,7 @@ class ConstantTimeSequence(TimeSequence):
                 )
             # ----- save -----------------------------------------------------
             plt.tight_layout()
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='constantTimeSequence')
             else:
diff --git a/src/wf/term/ap.py b/src/wf/term/ap.py
index f31f4a5..47da4ec 100644
--- a/src/wf/term/ap.py
+++ b/src/wf/term/ap.py
@@ -1835,7 +1835,7 @@ class _SimplePatternAPParser(Frozen):
 
         mass_matrix = _VarPar_M(A.space, A.space, A.degree, A.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         pi_B_space = codifferential(A.space)
         pi_B_degree = A.degree
 
@@ -1873,7 +1873,7 @@ class _SimplePatternAPParser(Frozen):
 
         M = _VarPar_M(B.space, B.space, B.degree, B.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         star_A_space = codifferential(B.space)
         star_A_degree = A.degree  # This Hodge could be inaccurate.
 
diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 08587a8..3a21729 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -253,7 +253,7 @@ class T2dScalar(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -477,9 +477,9 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/functions/time_space/_2d/wrappers/vector.py b/tools/functions/time_space/_2d/wrappers/vector.py
index ba71e4e..2757384 100644
--- a/tools/functions/time_space/_2d/wrappers/vector.py
+++ b/tools/functions/time_space/_2d/wrappers/vector.py
@@ -269,7 +269,7 @@ class T2dVector(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -774,9 +774,9 @@ class T2dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
index 3e7cf8e..bc78417 100644
--- a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
+++ b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
@@ -8,8 +8,8 @@ Aerodynamics, AE
 TU Delft
 """
 import inspect
-from tools.miscellaneous.timer import MyTimer
-from tools.frozen import Frozen
+from phyem.tools.miscellaneous.timer import MyTimer
+from phyem.tools.frozen import Frozen
 
 class TIR_DRW(Frozen):
     """ """
diff --git a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
index e172260..00fb6f8 100644
--- a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
+++ b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
@@ -16,11 +16,11 @@ import numpy as np
 import pandas as pd
 import matplotlib.pyplot as plt
 from time import localtime, strftime, time
-from tools.decorators.all import accepts
-from tools.legacy.serialRunners._runner_ import Runner
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
-from src.config import SIZE
+from phyem.tools.decorators.all import accepts
+from phyem.tools.legacy.serialRunners._runner_ import Runner
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
+from phyem.src.config import SIZE
 assert SIZE == 1, "Runners can only be run in single thread."
 
 class TimeIteration:
diff --git a/tools/miscellaneous/undirected_graph.py b/tools/miscellaneous/undirected_graph.py
index b6aa9b9..d5c94d0 100644
--- a/tools/miscellaneous/undirected_graph.py
+++ b/tools/miscellaneous/undirected_graph.py
@@ -217,7 +217,7 @@ class CoordinatedUndirectedGraph(Frozen):
             if saveto is not None and saveto != '':
                 plt.savefig(saveto, bbox_inches='tight', pad_inches=pad_inches)
             else:
-                from src.config import _setting, _pr_cache
+                from phyem.src.config import _setting, _pr_cache
                 if _setting['pr_cache']:
                     _pr_cache(fig, filename='msehtt_elements')
                 else:
-- 
2.43.0


From 3868a62feccd6c6870309fb07a91efa413736b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 04/73] fix: number the boundary faces of 3d msepy 2-forms

The element map marks a domain boundary with -1, but the 2-form numbering looked for a str, so
boundary faces took the (zero) numbers of the last element and all collapsed into one dof.
---
 msepy/space/gathering_matrix/Lambda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index a0bb713..3d16470 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -60,7 +60,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for n in range(self._mesh.elements._num):  # currently, we are numbering nth element.
             # we first see the north side__________________________________________
             what_north = element_map[n][0]
-            if isinstance(what_north, str):
+            if what_north == -1:
                 # the north side of nth element is on domain boundary. So we just number it.
                 gn0[n, 0, :, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['N']).reshape(
@@ -86,7 +86,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += (p[0]-1)*p[1]*p[2]
             # next, we look at south side__________________________________________
             what_south = element_map[n][1]
-            if isinstance(what_south, str):
+            if what_south == -1:
                 # the south side of nth element is on domain boundary. So we just number it.
                 gn0[n, -1, :, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['S']).reshape(
@@ -108,7 +108,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # we then look at the west side________________________________________
             what_west = element_map[n][2]
-            if isinstance(what_west, str):
+            if what_west == -1:
                 # the west side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, 0, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['W']).reshape(
@@ -134,7 +134,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += p[0]*(p[1]-1)*p[2]
             # next, we look at east side___________________________________________
             what_east = element_map[n][3]
-            if isinstance(what_east, str):
+            if what_east == -1:
                 # the east side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, -1, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['E']).reshape(
@@ -155,7 +155,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 raise Exception()
             # we then look at the back side________________________________________
             what_back = element_map[n][4]
-            if isinstance(what_back, str):
+            if what_back == -1:
                 # the back side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, 0] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['B']).reshape(
@@ -182,7 +182,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # next, we look at front side__________________________________________
             what_front = element_map[n][5]
-            if isinstance(what_front, str):
+            if what_front == -1:
                 # the front side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, -1] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['F']).reshape(
-- 
2.43.0


From 907d17e6dcdd2ee4fcf75673c0bce62d9b0500ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 05/73] fix: use the element and local index of a
 representative dof location, not its rank

---
 msehtt/tools/gathering_matrix.py                    | 13 +++++++++++--
 .../tools/nonlinear_system/static/solve/Picard.py   | 13 ++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index ac3a580..49733cd 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -304,8 +304,17 @@ class MseHttGatheringMatrix(Frozen):
         And 1536 will be returned in all ranks. So, this method should be called at the same time
         in all ranks with the same inputs.
         """
-        e, i = self._gms[ith_composition].find_representative_location(locally_global_dof)
-        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, e, i)
+        gm = self._gms[ith_composition]
+        _, element = gm.find_representative_location(locally_global_dof)
+        local_dof = -1
+        for e, i in gm.find_rank_locations_of_global_dofs(locally_global_dof)[locally_global_dof]:
+            if e == element:
+                local_dof = i
+                break
+            else:
+                pass
+        # `local_dof` is only used in the rank where the `element` is.
+        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, element, local_dof)
 
     def find_global_numbering_of_ith_composition_local_dof(
             self, ith_composition, element_index, local_dof
diff --git a/msehtt/tools/nonlinear_system/static/solve/Picard.py b/msehtt/tools/nonlinear_system/static/solve/Picard.py
index 76a025a..221a65d 100644
--- a/msehtt/tools/nonlinear_system/static/solve/Picard.py
+++ b/msehtt/tools/nonlinear_system/static/solve/Picard.py
@@ -184,11 +184,14 @@ class MseHtt_NonlinearSystem_Picard(Frozen):
 
                     the_unknown = xi[ith_unknown]
                     the_gm = the_unknown._gm
-                    e, local_dof = the_gm.find_representative_location(global_dof)
-                    if e in the_unknown:
-                        initial_guess = the_unknown[e][global_dof]
-                    else:
-                        initial_guess = 0
+                    _, element = the_gm.find_representative_location(global_dof)
+                    initial_guess = 0
+                    for e, local_dof in the_gm.find_rank_locations_of_global_dofs(global_dof)[global_dof]:
+                        if e == element:
+                            initial_guess = the_unknown[e][local_dof]
+                            break
+                        else:
+                            pass
                     initial_guess = COMM.allreduce(initial_guess, op=MPI.SUM)
 
                     if insert_place == -1:
-- 
2.43.0


From fb0baef8fdf64c07b1d5010f9d6b41b452261908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 06/73] fix: comparing gathering matrices of different shapes
 is False instead of an error

---
 msehtt/tools/gathering_matrix.py | 2 +-
 msepy/tools/gathering_matrix.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index 49733cd..963d8e3 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -283,7 +283,7 @@ class MseHttGatheringMatrix(Frozen):
                             else:
                                 s_numbering = sgm[i]
                                 o_numbering = ogm[i]
-                                if np.all(s_numbering == o_numbering):
+                                if np.array_equal(s_numbering, o_numbering):
                                     pass
                                 else:
                                     # noinspection PyUnusedLocal
diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index a6e3e5e..9d3e134 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -245,7 +245,7 @@ class RegularGatheringMatrix(Frozen):
         else:
             sgm = self._gm
             ogm = other._gm
-            return np.all(sgm == ogm)
+            return np.array_equal(sgm, ogm)
 
     def _find_global_numbering(self, elements, local_dofs):
         """find the global numbering at positions indicated by `elements` and `local_dofs`
-- 
2.43.0


From cffc0b08a893ea0708bf3952fc2d77e170d2cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 07/73] fix: the newest time of an msehtt cochain follows when
 one instant is cleaned

---
 msehtt/static/form/cochain/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index 6ee4b92..f73d2a5 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -147,6 +147,11 @@ class MseHttCochain(Frozen):
                 else:
                     pass
 
+                if len(self._tcd) == 0:
+                    self._newest_t = None
+                else:
+                    self._newest_t = max(list(self._tcd.keys()))
+
         else:
             rf._base.cochain.clean(what=what, t=t)
 
-- 
2.43.0


From f4839265ac9e13dd125452ef572050fc998fc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 08/73] fix: cleaning an empty msepy cochain

---
 msepy/form/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 277c4ee..8fa8888 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -95,7 +95,7 @@ class MsePyRootFormCochain(Frozen):
             new_tcd = {}
             if what is None:  # clear all t except the newest t
                 newest_t = self._newest_t
-                if new_tcd is None:
+                if newest_t is None:
                     pass
                 else:
                     new_tcd[newest_t] = self._tcd[newest_t]
-- 
2.43.0


From 8f9defec9b8de4fa50e14fdf5baa1e24b579d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 09/73] fix: interpolate an msepy cochain in the segment which
 contains the time

---
 msepy/form/cochain/main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 8fa8888..a3c8fbf 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -177,18 +177,19 @@ class MsePyRootFormCochain(Frozen):
                     else:
                         segment_lb = None
                         segment_ub = None
-                        for i, segment_lb in enumerate(cochain_times):
-                            if t >= segment_lb:
+                        for i, segment_lb in enumerate(cochain_times[:-1]):
+                            if segment_lb <= t <= cochain_times[i+1]:
                                 segment_ub = cochain_times[i+1]
                                 break
                             else:
                                 pass
                         assert segment_lb is not None and segment_ub is not None, \
                             f"something is wrong."
-                        cochain_lb = self[segment_lb]
-                        cochain_ub = self[segment_ub]
+                        cochain_lb = self[segment_lb].local
+                        cochain_ub = self[segment_ub].local
                         ratio = (t - segment_lb) / (segment_ub - segment_lb)
-                        cochain_t = cochain_lb + ratio * (cochain_ub - cochain_lb)
+                        cochain_t = _CochainAtOneTime(self._f, t)
+                        cochain_t._receive(cochain_lb + ratio * (cochain_ub - cochain_lb))
                         return cochain_t
         else:
             return rf._base.cochain(t)
-- 
2.43.0


From 17adc88b8c3a8e31b5f8f9fc4230955dc8dda7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 10/73] fix: do not reuse the interpolation of an overwritten
 msehtt cochain

---
 msehtt/static/form/numeric/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/numeric/main.py b/msehtt/static/form/numeric/main.py
index 90c4691..698faa9 100644
--- a/msehtt/static/form/numeric/main.py
+++ b/msehtt/static/form/numeric/main.py
@@ -21,6 +21,7 @@ class MseHtt_Form_Numeric(Frozen):
         self._f = f
         self._tsp = None
         self._cache_key_ = ''
+        self._cache_cochain_ = None
         self._cache_itp_ = None
         self._export = None
         self._freeze()
@@ -144,10 +145,12 @@ class MseHtt_Form_Numeric(Frozen):
             pass
         else:
             key = f"{t}={ddf}={component_wise}"
-            if key == self._cache_key_:
+            cochain = self._f.cochain[t]._cochain
+            if key == self._cache_key_ and cochain is self._cache_cochain_:
                 return self._cache_itp_
             else:
                 self._cache_key_ = key
+                self._cache_cochain_ = cochain
 
         n = self._f.space.n
         total_num_elements = self._f.tpm.composition.num_global_elements
-- 
2.43.0


From b37554b0dd5d2b4f5e3efa9d8205052eeb72ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 11/73] fix: key the interpolation cache of msepy forms by the
 cochain itself and all parameters

---
 msepy/form/numeric/main.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index f2b9706..9f876c3 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -25,8 +25,8 @@ class MsePyRootFormNumeric(Frozen):
         self._dds = None
         self._sf = None
         self._interp_cache = {
-            'time': None,
-            'cochain_id': -1,
+            'key': None,
+            'cochain': None,
             'interp': None
         }
         self._freeze()
@@ -340,15 +340,10 @@ class MsePyRootFormNumeric(Frozen):
         else:
             time = t
 
-        if isinstance(self._interp_cache['time'], (float, int)):
-            cached_time = self._interp_cache['time']
-            cochain_id = self._interp_cache['cochain_id']   # check whether cochain at time t is changed.
-            current_cochain_id = id(self._f.cochain[time])
-            if cached_time == time and cochain_id == current_cochain_id:
-                return self._interp_cache['interp']
-
-            else:
-                pass
+        key = (time, density, factor)
+        cochain = self._f.cochain[time]   # keep the object to check whether cochain at time t is changed.
+        if self._interp_cache['key'] == key and self._interp_cache['cochain'] is cochain:
+            return self._interp_cache['interp']
         else:
             pass
 
@@ -414,8 +409,10 @@ class MsePyRootFormNumeric(Frozen):
         else:  # other dimensions
             raise NotImplementedError()
 
-        self._interp_cache['time'] = time
-        self._interp_cache['cochain_id'] = id(self._f.cochain[time])
+        # noinspection PyTypedDict
+        self._interp_cache['key'] = key
+        # noinspection PyTypedDict
+        self._interp_cache['cochain'] = cochain
         # noinspection PyTypedDict
         self._interp_cache['interp'] = _2b_return_
 
-- 
2.43.0


From 090fc14cc621ec1d7b959326c1e100ad484955cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 12/73] fix: component-wise L2 norms of 3d 1- and 2-forms are
 norms, not their squares

---
 msehtt/static/space/norm/Lambda/norm_m3n3k1.py | 4 ++--
 msehtt/static/space/norm/Lambda/norm_m3n3k2.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msehtt/static/space/norm/Lambda/norm_m3n3k1.py b/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
index 812a073..d3eaaed 100644
--- a/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
+++ b/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
@@ -47,7 +47,7 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     if norm_type == 'L2':
         for i in U:
             element = elements[i]
-            detJM = element.ct.Jacobian(*nodes)
+            detJM = element.ct.Jacobian(*np.meshgrid(*nodes, indexing='ij'))
             local_norm_U.append(
                 np.einsum('ijk, i, j, k ->', U[i]**2 * detJM, *weights, optimize='optimal')
             )
@@ -68,4 +68,4 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     global_norm_V = COMM.allreduce(local_norm_V, op=MPI.SUM)
     global_norm_W = COMM.allreduce(local_norm_W, op=MPI.SUM)
 
-    return global_norm_U, global_norm_V, global_norm_W
+    return global_norm_U ** 0.5, global_norm_V ** 0.5, global_norm_W ** 0.5
diff --git a/msehtt/static/space/norm/Lambda/norm_m3n3k2.py b/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
index 668754c..1d9c021 100644
--- a/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
+++ b/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
@@ -46,7 +46,7 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     if norm_type == 'L2':
         for i in U:
             element = elements[i]
-            detJM = element.ct.Jacobian(*nodes)
+            detJM = element.ct.Jacobian(*np.meshgrid(*nodes, indexing='ij'))
             local_norm_U.append(
                 np.einsum('ijk, i, j, k ->', U[i]**2 * detJM, *weights, optimize='optimal')
             )
@@ -67,4 +67,4 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     global_norm_V = COMM.allreduce(local_norm_V, op=MPI.SUM)
     global_norm_W = COMM.allreduce(local_norm_W, op=MPI.SUM)
 
-    return global_norm_U, global_norm_V, global_norm_W
+    return global_norm_U ** 0.5, global_norm_V ** 0.5, global_norm_W ** 0.5
-- 
2.43.0


From 686c35ebf065122db44cdb1a3e57775411e9c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 13/73] fix: evaluate the Jacobian on the tensor grid in the L2
 inner product of msehtt 1-forms

---
 .../static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
index 7c7d6a2..f7936e0 100644
--- a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
+++ b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
@@ -62,6 +62,7 @@ def ___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(
     U2, V2 = rc2
 
     IPE = list()
+    xi_et = np.meshgrid(quad_nodes, quad_nodes, indexing='ij')
 
     for e in rank_elements:
         u1 = U1[e]
@@ -70,7 +71,7 @@ def ___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(
         v2 = V2[e]
 
         element = elements[e]
-        detJM = element.ct.Jacobian(quad_nodes, quad_nodes)
+        detJM = element.ct.Jacobian(*xi_et)
 
         if inner_type == 'L2':
             ipe = np.einsum(
-- 
2.43.0


From 90ad50fc54e27cb518a54181c969a1f68efa7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 14/73] fix: integrate 3d scalars over three axes in mass()

---
 msehtt/static/space/mass/Lambda/mass_m3n3k0.py | 2 +-
 msehtt/static/space/mass/Lambda/mass_m3n3k3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
index 21a708f..0b76daa 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
@@ -40,7 +40,7 @@ def _mass330_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
index 7016b4a..042d64a 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
@@ -40,7 +40,7 @@ def _mass333_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
-- 
2.43.0


From 542256dfaf92fe24a0fdd58ceaff4e2f4498d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 15/73] fix: do not share metric data between cells of
 different shape or size

---
 .../elements/types/orthogonal_hexahedron.py      | 12 ++++++------
 .../great/elements/types/orthogonal_rectangle.py |  6 +++---
 .../mesh/great/elements/types/vtu_5_triangle.py  |  8 ++++----
 .../mesh/great/elements/types/vtu_9_quad.py      | 16 +++++-----------
 4 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index b307315..5709ed6 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -48,9 +48,9 @@ class MseHttGreatMeshOrthogonalHexahedronElement(MseHttGreatMeshBaseElement):
         """"""
         origin_x, origin_y, origin_z = parameters['origin']
         delta_x, delta_y, delta_z = parameters['delta']
-        self._metric_signature = (f"OR:x%.5f" % round(delta_x, 5) +
-                                  "y%.5f" % round(delta_y, 5) +
-                                  "y%.5f" % round(delta_z, 5))
+        self._metric_signature = ("OR:x%.7e" % delta_x +
+                                  "y%.7e" % delta_y +
+                                  "z%.7e" % delta_z)
         super().__init__()
         self._index = element_index
         self._parameters = parameters
@@ -356,9 +356,9 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y, ratio_z):
     """"""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
-    ratio_z = round(ratio_z, 8)
+    ratio_x = float("%.12e" % ratio_x)
+    ratio_y = float("%.12e" % ratio_y)
+    ratio_z = float("%.12e" % ratio_z)
     key = (ratio_x, ratio_y, ratio_z)
     if key in _cache_ct_helper_pool_:
         pass
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index ca11849..07f3a7b 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -47,7 +47,7 @@ class MseHttGreatMeshOrthogonalRectangleElement(MseHttGreatMeshBaseElement):
         r""""""
         origin_x, origin_y = parameters['origin']
         delta_x, delta_y = parameters['delta']
-        self._metric_signature = f"OR:x%.5f" % round(delta_x, 5) + "y%.5f" % round(delta_y, 5)
+        self._metric_signature = "OR:x%.7e" % delta_x + "y%.7e" % delta_y
         self._polygon = None
 
         super().__init__()
@@ -325,8 +325,8 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y):
     r""""""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
+    ratio_x = float("%.12e" % ratio_x)
+    ratio_y = float("%.12e" % ratio_y)
     key = (ratio_x, ratio_y)
     if key in _cache_ct_helper_pool_:
         pass
diff --git a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
index f29aec2..62db613 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
@@ -39,10 +39,10 @@ class Vtu5Triangle(MseHttGreatMeshBaseElement):
         a, b, _ = angles_of_triangle(*parameters)
         c = angle(parameters[0], parameters[1])
         d = distance(parameters[0], parameters[1])
-        self._metric_signature = (f"5:a%.3f" % round(a, 3) +
-                                  "b%.3f" % round(b, 3) +
-                                  "c%.3f" % round(c, 3) +
-                                  "d%.6f" % round(d, 6))
+        self._metric_signature = ("5:a%.7f" % a +
+                                  "b%.7f" % b +
+                                  "c%.7f" % c +
+                                  "d%.7e" % d)
 
         super().__init__()
         self._index = element_index
diff --git a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
index c35723d..f5f78e5 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
@@ -63,18 +63,12 @@ class Vtu9Quad(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         r""""""
-        a0, b, c0 = angles_of_triangle(parameters[0], parameters[1], parameters[2])   # in degree
-        a1, c1, _ = angles_of_triangle(parameters[0], parameters[2], parameters[3])   # in degree
-        a = a0 + a1
-        c = c0 + c1
-
-        d = angle(parameters[0], parameters[2])
+        # The angles and one diagonal do not determine a quad. So use the size and the relative vertex positions.
         dist = distance(parameters[0], parameters[2])
-        self._metric_signature = (f"9:a%.2f" % round(a, 2) +
-                                  "b%.2f" % round(b, 2) +
-                                  "c%.2f" % round(c, 2) +
-                                  "d%.3f" % round(d, 3) +
-                                  "dis%.5f" % round(dist, 5))
+        x0, y0 = parameters[0]
+        self._metric_signature = "9:dis%.7e" % dist
+        for x, y in parameters[1:]:
+            self._metric_signature += ":%.8f,%.8f" % ((x - x0) / dist, (y - y0) / dist)
         self._polygon = None
 
         super().__init__()
-- 
2.43.0


From d41e68839d011e200a68070a1e993801ed14cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 16/73] fix: accept a time index that rounding puts just below
 an integer

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index ebf3ef0..470d917 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -302,7 +302,7 @@ class ConstantTimeSequence(TimeSequence):
         """
         assert isinstance(k, (int, float)), f"specific time sequence must use number for time instant."
         time = self.t_0 + k * self._dt
-        remainder = round(k % 1, 8)
+        remainder = round(k % 1, 8) % 1  # just below an integer, it rounds to 1, which is 0.
         if time < self.t_0 - self._dt:  # leave a dt as lower margin
             raise TimeInstantError(
                 f"t[{k}] = {time} is lower than t0: {self.t_0} - dt: {self._dt}.")
-- 
2.43.0


From 520528614ea4f2a8b7cda434fbcacbb47a365168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 17/73] fix: substitute the variables of an abstract time
 instant as whole operands

---
 src/time_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index 470d917..c289e52 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -551,7 +551,8 @@ class AbstractTimeInstant(Frozen):
         time_instance_str = self._k
         for key in kwargs:
             assert key in self._kwarg_keys, f"key={key} is not found for ati: {self}."
-            time_instance_str = time_instance_str.replace(key, str(kwargs[key]))
+        # substitute all variables at once and as whole operands: a value may be negative or contain a letter (1e-05).
+        time_instance_str = ''.join(['(' + str(kwargs[_]) + ')' if _ in kwargs else _ for _ in time_instance_str])
         time = eval(time_instance_str)
         assert isinstance(time, (int, float)), f"format wrong, 'eval' does not return a number."
         assert self.time_sequence._object is not None, \
-- 
2.43.0


From 21e0dc99240929b521cdac930e30e3fbd4d80da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 18/73] fix: do not record a time step whose length the step
 function did not deliver

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index c289e52..1a1bbbb 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -212,9 +212,9 @@ class FunctionTimeSequence(TimeSequence):
         if k > self._step_sequence[-1]:
             # looking for a time step ahead. We first make a new time instant ahead.
             _new_time_step = round(self._step_sequence[-1] + self._step_interval, 8)
-            self._step_sequence.append(_new_time_step)
             dt = self._func()
             assert dt > 0, f"time interval must be larger than 0. Now it is {dt}."
+            self._step_sequence.append(_new_time_step)  # only after the time of it is known
             self._time_sequence.append(self._time_sequence[-1] + dt)
         else:
             pass
-- 
2.43.0


From 543c75d656968a89127eeee533eff3168a160a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 19/73] fix: add real scalars by their value, not by their
 symbol

---
 src/form/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/form/parameters.py b/src/form/parameters.py
index 6b99b05..a38578b 100644
--- a/src/form/parameters.py
+++ b/src/form/parameters.py
@@ -161,7 +161,7 @@ class ConstantScalar0Form(Frozen):
         """self + other"""
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = float(self._pure_lin_repr) + other
                 if int(number) == number:
                     number = int(number)
                 else:
@@ -175,7 +175,7 @@ class ConstantScalar0Form(Frozen):
 
         elif other.__class__.__name__ == self.__class__.__name__:
             if other.is_real():
-                number = float(other._sym_repr)
+                number = float(other._pure_lin_repr)
                 return self + number
             else:
                 op_lin_repr = _global_operator_lin_repr_setting['plus']
@@ -190,7 +190,7 @@ class ConstantScalar0Form(Frozen):
         """other + self """
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = float(self._pure_lin_repr) + other
                 if int(number) == number:
                     number = int(number)
                 else:
-- 
2.43.0


From 1b063cc3f5db68322d285d512901fe52af56e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 20/73] fix: key cached arrays by their exact values

---
 tools/miscellaneous/ndarray_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index 53b39e6..cbeabbb 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -89,7 +89,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                         t_o_f = False
                         break
 
-                    if not np.allclose(ca, ia):
+                    if not np.array_equal(ca, ia):  # `allclose` would answer with results of other points
                         t_o_f = False
                         break
 
@@ -105,7 +105,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
 
         cache_arrays = keys[key]
         assert (len(cache_arrays) == len(arrays) and
-                all([np.allclose(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
+                all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
         _, __ = 1, values[key]
@@ -173,6 +173,6 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
     else:
         current_key = 0
 
-    keys[current_key] = arrays
+    keys[current_key] = [ar.copy() for ar in arrays]  # the caller may reuse its arrays
     values[current_key] = results
     check_strings[current_key] = check_str
-- 
2.43.0


From 386a0710bc623f32ae2121123dd963334dce7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 21/73] fix: distinguish close node distributions when caching
 basis functions

---
 msepy/tools/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index 184cace..aad1bf0 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -69,7 +69,7 @@ class _OneDimPolynomial(Frozen):
             if node in (-1, 1):
                 str_nodes_key.append(str(node))
             else:
-                str_nodes_key.append("%.5f" % node)
+                str_nodes_key.append(repr(float(node)))  # a rounded key would mix different node distributions
         self._str_nodes_key = '|'.join(str_nodes_key)
         self._p_ = np.size(self.nodes) - 1
         self._isKronecker_ = True
-- 
2.43.0


From 76047f1df63be25881df936d816a4d8146a57bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 22/73] fix: let quadrature() take lists, as it says

---
 tools/quadrature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/quadrature.py b/tools/quadrature.py
index fd0eab8..2efa3a6 100644
--- a/tools/quadrature.py
+++ b/tools/quadrature.py
@@ -19,7 +19,8 @@ _cache_quad_ = {}
 
 def quadrature(p, category):
     """"""
-    key = (p, category)
+    key = (tuple(p) if isinstance(p, list) else p,
+           tuple(category) if isinstance(category, list) else category)  # lists cannot be keys
     if key in _cache_quad_:
         return _cache_quad_[key]
     else:
-- 
2.43.0


From cddfd56a93549441c33ac1245930a3bea23fe8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 23/73] fix: let convection_by accept the vector classes and
 use the right z-derivative

---
 tools/functions/time_space/_2d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/vector.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 3a21729..ef108d3 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -372,7 +372,7 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t2dVector", f"I need a t2dVector."
+        assert u.__class__.__name__ == "T2dVector", f"I need a T2dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/scalar.py b/tools/functions/time_space/_3d/wrappers/scalar.py
index d310ca2..64f8afa 100644
--- a/tools/functions/time_space/_3d/wrappers/scalar.py
+++ b/tools/functions/time_space/_3d/wrappers/scalar.py
@@ -233,7 +233,7 @@ class T3dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 7c0d528..e34bcf4 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -408,7 +408,7 @@ class T3dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._du_dx is None:
             v0px = self._NPD0_('x')
@@ -435,7 +435,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             v1py = self._dv_dy
 
-        if self._dv_dz:
+        if self._dv_dz is None:
             v1pz = self._NPD1_('z')
         else:
             v1pz = self._dv_dz
-- 
2.43.0


From 2160e2d6fcbcc53c230b5cdba41d4f677b86be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 24/73] fix: evaluate 3d vectors at z when linked or checked on
 a mesh

---
 tools/functions/time_space/_3d/wrappers/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index e34bcf4..adeec3a 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -162,7 +162,7 @@ class T3dVector(TimeSpaceFunctionBase):
         if self._v0v1v2_linked_object is None:
             return self._v0_(t, x, y, z), self._v1_(t, x, y, z), self._v2_(t, x, y, z)
         else:
-            return self._v0v1v2_linked_object(t, x, y)
+            return self._v0v1v2_linked_object(t, x, y, z)
 
     def __getitem__(self, t):
         """return functions evaluated at time `t`."""
@@ -237,7 +237,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             # 4.1) do dt, dx, dy checking ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             for i in X:
-                x, y, z = X[i], Y[i], X[i]
+                x, y, z = X[i], Y[i], Z[i]
                 t = self._find_random_testing_time_instance_()
                 npd_u = NumericalPartialDerivativeTxyz(self._v0_, t, x, y, z)
                 npd_v = NumericalPartialDerivativeTxyz(self._v1_, t, x, y, z)
-- 
2.43.0


From 05ffec4526e76ab8f00a4969c6178160f0e9963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 25/73] fix: genpiecewise with a default piece under numpy 2

---
 tools/gen_piece_wise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gen_piece_wise.py b/tools/gen_piece_wise.py
index 167b796..38689a8 100644
--- a/tools/gen_piece_wise.py
+++ b/tools/gen_piece_wise.py
@@ -112,7 +112,7 @@ def genpiecewise(xi, condlist, funclist, fillvalue=0, args=(), **kw):
 
     if not isinstance(xi, (list, tuple)):
         xi = (xi,)
-    condlist = np.broadcast_arrays(*condlist)
+    condlist = list(np.broadcast_arrays(*condlist))
     # noinspection PyTypeChecker
     if len(condlist) == len(funclist) - 1:
         # noinspection PyUnresolvedReferences
-- 
2.43.0


From 43f368bd4bb0dea0fdedd1aec365822b1a5585ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 26/73] fix: iterator cache keys of different float inputs are
 different

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index d43ed83..23ddee1 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -336,7 +336,7 @@ class Iterator(Frozen):
                 if i % 1 == 0:
                     i = int(i)
                 else:
-                    i = "%.5f" % i
+                    i = repr(float(i))  # different inputs must have different keys.
                 return i
             else:
                 raise NotImplementedError()
-- 
2.43.0


From 4ef8de0801b1e1c7cfad8cb0e848f6ddc5d43391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 27/73] fix: an interrupted write of the iterator cache does
 not destroy the cache

---
 tools/iterator/main.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 23ddee1..668038c 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -243,10 +243,7 @@ class Iterator(Frozen):
                     'cache count': 0,
                 }
 
-                with open(cache_filename, 'wb') as output:
-                    # noinspection PyTypeChecker
-                    pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
-                output.close()
+                self._write_cache(cache_dict)
 
             # We check the cache file
             self._check_cache(self._cache_filename_)
@@ -279,6 +276,16 @@ class Iterator(Frozen):
         else:
             raise NotImplementedError()
 
+    def _write_cache(self, cache_dict):
+        r"""Write the cache file such that, wherever we are interrupted, either the old or the new file is there."""
+        temporary = self._cache_filename_ + '.tmp'
+        with open(temporary, 'wb') as output:
+            # noinspection PyTypeChecker
+            pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
+            output.flush()
+            os.fsync(output.fileno())
+        os.replace(temporary, self._cache_filename_)
+
     def _check_cache(self, cache_filename):
         r"""Check whether the cache file is of the correct format.
 
@@ -651,10 +658,7 @@ class Iterator(Frozen):
                             'log': log,
                             'cache_count': cache_count
                         }
-                        with open(self._cache_filename_, 'wb') as cf:
-                            # noinspection PyTypeChecker
-                            pickle.dump(cache_dict, cf, pickle.HIGHEST_PROTOCOL)
-                        cf.close()
+                        self._write_cache(cache_dict)
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
-- 
2.43.0


From 4f56573d71c23f6579a9bf20f1eb9eaf233b7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 28/73] fix: the cache count of the iterator survives a restart

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 668038c..b5a885f 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -656,7 +656,7 @@ class Iterator(Frozen):
                             'RES': cache_res,
                             'cache data': obj_coding_data,
                             'log': log,
-                            'cache_count': cache_count
+                            'cache count': cache_count,
                         }
                         self._write_cache(cache_dict)
                         # noinspection PyUnboundLocalVariable
-- 
2.43.0


From c9a84590544048e0b693aa4ab3db972de5fa30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 29/73] fix: the iterator restores its objects exactly when it
 takes results from the cache

---
 tools/iterator/main.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index b5a885f..44f8884 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -509,6 +509,7 @@ class Iterator(Frozen):
         else:
             pass
         caching = False
+        any_cached = False  # if any outputs of this run are taken from the cache.
 
         # -------- do the iterations ---------------------------------------------------------------
         for inputs in zip(*ranges):
@@ -526,6 +527,7 @@ class Iterator(Frozen):
                 if keep_checking:
                     # noinspection PyUnboundLocalVariable
                     if self._check_input_cache(computed_inputs, Ik):
+                        any_cached = True
                         if RANK == MASTER_RANK:
                             if pbar:
                                 pass
@@ -546,8 +548,11 @@ class Iterator(Frozen):
                     else:
                         keep_checking = False
                         caching = True
-                        # noinspection PyUnboundLocalVariable
-                        self._decoding_objs_(cache_data)
+                        if any_cached:
+                            # noinspection PyUnboundLocalVariable
+                            self._decoding_objs_(cache_data)
+                        else:  # the objects are at the right state already.
+                            pass
                         outputs = self._solver_(*inputs)
                         del cache_data
                         if RANK != MASTER_RANK:
@@ -691,6 +696,11 @@ class Iterator(Frozen):
                 raise NotImplementedError(f"cannot understand exit_code={self.exit_code}!")
 
         # --- after iteration ------------------------------------------------------------------------
+        if any_cached and keep_checking:  # all outputs are from the cache, so the objects have not been updated yet.
+            self._decoding_objs_(cache_data)
+        else:
+            pass
+
         if RANK == MASTER_RANK:
             if pbar:
                 progress_bar.close()
-- 
2.43.0


From 8c780a386aece2998d34458f91aea0320be6afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 30/73] fix: results of earlier runs of an iterator are
 recorded along with the objects

---
 tools/iterator/main.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 44f8884..a757153 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -85,6 +85,7 @@ class Iterator(Frozen):
             self._cache_time_ = time()
             self.___cache_time___ = None
             self.___first_cache_time___ = None
+            self.___previous_res___ = {}  # the results computed in previous runs.
         else:
             pass
         self.___cache_num___ = None
@@ -560,6 +561,13 @@ class Iterator(Frozen):
                         else:
                             # noinspection PyUnboundLocalVariable
                             computing_times += 1
+                            # new cache data will be after the previous runs, so their results go with it.
+                            for key in self.___previous_res___:
+                                if key not in cache_res:
+                                    cache_res[key] = self.___previous_res___[key]
+                                    self._update_computed_inputs(computed_inputs, key)
+                                else:
+                                    pass
                 else:
                     outputs = self._solver_(*inputs)
                     if RANK == MASTER_RANK:
@@ -700,6 +708,10 @@ class Iterator(Frozen):
             self._decoding_objs_(cache_data)
         else:
             pass
+        if caching and RANK == MASTER_RANK:
+            self.___previous_res___ = cache_res
+        else:
+            pass
 
         if RANK == MASTER_RANK:
             if pbar:
-- 
2.43.0


From 7f8b414985e2ded9d16643af8818837eb423acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 31/73] fix: spaces of unknown or abbreviated orientation are
 not taken for the inner ones

---
 src/spaces/continuous/Lambda.py          | 4 +++-
 src/spaces/continuous/bundle.py          | 5 ++++-
 src/spaces/continuous/bundle_diagonal.py | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spaces/continuous/Lambda.py b/src/spaces/continuous/Lambda.py
index b2a906c..3085e35 100644
--- a/src/spaces/continuous/Lambda.py
+++ b/src/spaces/continuous/Lambda.py
@@ -23,8 +23,10 @@ class ScalarValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and 0 <= k <= mesh.ndim, f" k={k} illegal on {mesh}."
         self._k = k
         Lambda = r"\Lambda"
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = rf"\widetilde{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+        elif self.orientation == 'unknown':
+            self._sym_repr = rf"\overline{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
         else:
             self._sym_repr = rf"{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
         self._freeze()
diff --git a/src/spaces/continuous/bundle.py b/src/spaces/continuous/bundle.py
index 919d435..0aadcdf 100644
--- a/src/spaces/continuous/bundle.py
+++ b/src/spaces/continuous/bundle.py
@@ -12,9 +12,12 @@ class BundleValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and 0 <= k <= mesh.ndim, f" k={k} illegal on {mesh}."
         self._k = k
 
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = r"\widetilde{\mathcal{B}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
+        elif self.orientation == 'unknown':
+            self._sym_repr = r"\overline{\mathcal{B}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+
         else:
             self._sym_repr = r"\mathcal{B}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
diff --git a/src/spaces/continuous/bundle_diagonal.py b/src/spaces/continuous/bundle_diagonal.py
index ab891e2..799cfd0 100644
--- a/src/spaces/continuous/bundle_diagonal.py
+++ b/src/spaces/continuous/bundle_diagonal.py
@@ -12,9 +12,12 @@ class DiagonalBundleValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and k in (0, mesh.ndim), f" k={k} illegal on {mesh}."
         self._k = k
 
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = r"\widetilde{\mathcal{S}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
+        elif self.orientation == 'unknown':
+            self._sym_repr = r"\overline{\mathcal{S}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+
         else:
             self._sym_repr = r"\mathcal{S}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
-- 
2.43.0


From 325ac98ab5798e54fadb2e6f4dc76c9a00f9c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 32/73] fix: sums are grouped when they are subtracted, scaled
 or divided

---
 src/config.py          | 23 +++++++++++++++++++++++
 src/form/main.py       | 20 ++++++++++++++++----
 src/form/parameters.py | 12 +++++++++++-
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/config.py b/src/config.py
index 82a42f5..237d1ae 100644
--- a/src/config.py
+++ b/src/config.py
@@ -416,6 +416,29 @@ _global_operator_lin_repr_setting = {  # coded operators
 _non_root_lin_sep = [r'\{', r'\}']
 
 
+def _is_sum(lin_repr):
+    r"""Whether `lin_repr` is, at its top level (not inside a group), a sum or a difference."""
+    start, end = _non_root_lin_sep
+    depth = 0
+    top_level = ''
+    i = 0
+    while i < len(lin_repr):
+        if lin_repr.startswith(start, i):
+            depth += 1
+            i += len(start)
+        elif lin_repr.startswith(end, i):
+            depth -= 1
+            i += len(end)
+        else:
+            if depth == 0:
+                top_level += lin_repr[i]
+            else:
+                pass
+            i += 1
+    return (_global_operator_lin_repr_setting['plus'] in top_level or
+            _global_operator_lin_repr_setting['minus'] in top_level)
+
+
 _global_operator_sym_repr_setting = {  # coded operators
     'plus': r"+",
     'minus': r"-",
diff --git a/src/form/main.py b/src/form/main.py
index a37c94e..f60d049 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -131,6 +131,7 @@ from phyem.src.form.parameters import constant_scalar
 from phyem.src.config import _global_operator_lin_repr_setting
 from phyem.src.config import _global_operator_sym_repr_setting
 from phyem.src.config import _form_evaluate_at_repr_setting
+from phyem.src.config import _non_root_lin_sep, _is_sum
 from phyem.src.spaces.main import _default_space_degree_repr
 from phyem.src.spaces.main import _degree_str_maker
 
@@ -597,6 +598,12 @@ class Form(Frozen):
             operator_lin = _global_operator_lin_repr_setting['minus']
             operator_sym = _global_operator_sym_repr_setting['minus']
 
+            if _is_sum(other_lr):  # a - (b + c) is not a - b + c.
+                other_lr = _non_root_lin_sep[0] + other_lr + _non_root_lin_sep[1]
+                other_sr = r'\left(' + other_sr + r'\right)'
+            else:
+                pass
+
             lin_repr = self_lr + operator_lin + other_lr
             sym_repr = self_sr + operator_sym + other_sr
 
@@ -626,8 +633,12 @@ class Form(Frozen):
             sr = self._sym_repr
             cs = other
             if self.is_root():
-                lr = cs._lin_repr + operator_lin + lr
-                sr = cs._sym_repr + sr
+                if _is_sum(cs._lin_repr):
+                    lr = r'\{' + cs._lin_repr + r'\}' + operator_lin + lr
+                    sr = r'\left(' + cs._sym_repr + r'\right)' + sr
+                else:
+                    lr = cs._lin_repr + operator_lin + lr
+                    sr = cs._sym_repr + sr
             else:
                 if cs.is_root():
                     lr = cs._lin_repr + operator_lin + r'\{' + lr + r'\}'
@@ -662,10 +673,11 @@ class Form(Frozen):
             lr = self._lin_repr
             sr = self._sym_repr
             cs = other
+            cs_lr = cs._lin_repr if cs.is_root() else r'\{' + cs._lin_repr + r'\}'
             if self.is_root():
-                lr = lr + operator_lin + cs._lin_repr
+                lr = lr + operator_lin + cs_lr
             else:
-                lr = r'\{' + lr + r'\}' + operator_lin + cs._lin_repr
+                lr = r'\{' + lr + r'\}' + operator_lin + cs_lr
             sr = operator_sym[0] + sr + operator_sym[1] + cs._sym_repr + operator_sym[2]
             f = Form(
                 self.space,         # space
diff --git a/src/form/parameters.py b/src/form/parameters.py
index a38578b..f00bdc1 100644
--- a/src/form/parameters.py
+++ b/src/form/parameters.py
@@ -7,6 +7,7 @@ from phyem.src.config import _parse_lin_repr
 from phyem.src.config import _check_sym_repr
 from phyem.src.config import _global_operator_lin_repr_setting
 from phyem.src.config import _global_operator_sym_repr_setting
+from phyem.src.config import _non_root_lin_sep, _is_sum
 
 _global_root_constant_scalars = dict()   # only cache root scalar parameters
 
@@ -216,7 +217,16 @@ class ConstantScalar0Form(Frozen):
                 op_lin_repr = _global_operator_lin_repr_setting['division']
                 op_sym_repr = _global_operator_sym_repr_setting['division']
                 sym_repr = op_sym_repr[0] + self._sym_repr + op_sym_repr[1] + other._sym_repr + op_sym_repr[2]
-                lin_repr = self._lin_repr + op_lin_repr + other._lin_repr
+                self_lr, other_lr = self._lin_repr, other._lin_repr
+                if _is_sum(self_lr):  # (a + b) / c is not a + b / c.
+                    self_lr = _non_root_lin_sep[0] + self_lr + _non_root_lin_sep[1]
+                else:
+                    pass
+                if other.is_root():
+                    pass
+                else:                 # a / (b / c) is not a / b / c.
+                    other_lr = _non_root_lin_sep[0] + other_lr + _non_root_lin_sep[1]
+                lin_repr = self_lr + op_lin_repr + other_lr
                 return ConstantScalar0Form(sym_repr, lin_repr, False, False)
 
         else:
-- 
2.43.0


From 9036a0fa4a2b54c6cbb0eadc19f0ecfb07311376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 33/73] fix: replacing a form in a form groups what is put in
 and leaves partial matches alone

---
 src/form/main.py | 119 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 35 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index f60d049..1562daf 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -738,6 +738,48 @@ class Form(Frozen):
         """self @ other"""
         return self._evaluate_at(other)
 
+    def _places_of(self, f):
+        """The appearances of `f`, as an operand, in me.
+
+        Keys are the numbers of the appearances of its linguistic representation, values are what is at the
+        left and at the right.
+        """
+        begin, end = _non_root_lin_sep
+        plus = _global_operator_lin_repr_setting['plus']
+        minus = _global_operator_lin_repr_setting['minus']
+        places = dict()
+        pieces = self._lin_repr.split(f._lin_repr)
+        for i in range(len(pieces) - 1):
+            left, right = pieces[i], pieces[i + 1]
+            at_left, at_right = 'other', 'other'
+            if left.endswith(begin) or (i == 0 and left == ''):
+                at_left = 'nothing'
+            elif left.endswith(plus):
+                at_left = 'plus'
+            elif left.endswith(minus):
+                at_left = 'minus'
+            else:
+                pass
+            if right.startswith(end) or (i == len(pieces) - 2 and right == ''):
+                at_right = 'nothing'
+            elif right.startswith(plus) or right.startswith(minus):
+                at_right = 'sum'
+            else:
+                pass
+            if f.is_root() or not self._must_group(f._lin_repr, at_left, at_right):
+                places[i] = (at_left, at_right)
+            else:  # the representation of f appears, but only a part of it is an operand there.
+                pass
+        return places
+
+    @staticmethod
+    def _must_group(lin_repr, at_left, at_right):
+        """Whether a non-root form must be grouped when put between `at_left` and `at_right`."""
+        if at_left == 'other' or at_right == 'other':
+            return True
+        else:
+            return at_left == 'minus' and _is_sum(lin_repr)
+
     def replace(self, f, by, which='all'):
         """replace `which` `f` by `by`."""
         assert by.space == f.space, f"spaces do not match."
@@ -747,54 +789,61 @@ class Form(Frozen):
             return by
 
         else:
+            places = self._places_of(f)
+
             if which == 'all':
-                lin_repr = self._lin_repr.replace(f._lin_repr, by._lin_repr)
-                sym_repr = self._sym_repr.replace(f._sym_repr, by._sym_repr)
+                which = range(len(places))
 
             elif isinstance(which, (list, tuple)) and all([isinstance(_, int) and _ >= 0 for _ in which]):
                 # use 1, or [0,1] to indicate which targets to be replaced.
-                lin_list = self._lin_repr.split(f._lin_repr)
-                sym_list = self._sym_repr.split(f._sym_repr)
-                assert len(lin_list) == len(sym_list), f'must be!'
-
-                if len(lin_list) == 1:  # no replace target found!
+                if len(places) == 0:  # no replace target found!
                     raise Exception('found no target to replace.')
                 else:
                     pass
-                amount_places = len(lin_list) - 1
-                to_join_lin = ['' for _ in range(amount_places)]
-                to_join_sym = ['' for _ in range(amount_places)]
                 for i in which:
-                    assert i < amount_places, (f"cannot deal with `which={which}` for form replace, "
-                                               f"not that many targets.)")
-                    to_join_lin[i] = by._lin_repr
-                    to_join_sym[i] = by._sym_repr
-
-                for i, s in enumerate(to_join_lin):
-                    if s == '':
-                        to_join_lin[i] = f._lin_repr
-                    else:
-                        pass
+                    assert i < len(places), (f"cannot deal with `which={which}` for form replace, "
+                                             f"not that many targets.)")
 
-                for i, s in enumerate(to_join_sym):
-                    if s == '':
-                        to_join_sym[i] = f._sym_repr
-                    else:
-                        pass
+            else:
+                raise NotImplementedError(f"cannot deal with `which={which}` for form replace.)")
 
-                final_lin_repr = ''
-                final_sym_repr = ''
-                for i in range(amount_places):
-                    final_lin_repr += lin_list[i] + to_join_lin[i]
-                    final_sym_repr += sym_list[i] + to_join_sym[i]
-                final_lin_repr += lin_list[-1]
-                final_sym_repr += sym_list[-1]
+            if len(places) == 0:  # f is not a part of this form.
+                return self
+            else:
+                pass
 
-                sym_repr = final_sym_repr
-                lin_repr = final_lin_repr
+            lin_list = self._lin_repr.split(f._lin_repr)
+            sym_list = self._sym_repr.split(f._sym_repr)
+
+            lin_repr = lin_list[0]
+            sym_repr = sym_list[0]
+            one_by_one = len(lin_list) == len(sym_list)
+            k = -1
+            for i in range(len(lin_list) - 1):
+                by_lr, by_sr = f._lin_repr, f._sym_repr
+                if i in places:
+                    k += 1
+                    if k in which:
+                        by_lr, by_sr = by._lin_repr, by._sym_repr
+                        if not by.is_root() and self._must_group(by_lr, *places[i]):
+                            by_lr = _non_root_lin_sep[0] + by_lr + _non_root_lin_sep[1]
+                            by_sr = r'\left(' + by_sr + r'\right)'
+                        else:
+                            pass
+                    else:
+                        pass
+                else:
+                    pass
+                lin_repr += by_lr + lin_list[i + 1]
+                if one_by_one:
+                    sym_repr += by_sr + sym_list[i + 1]
+                else:
+                    pass
 
+            if not one_by_one:
+                sym_repr = self._sym_repr.replace(f._sym_repr, by._sym_repr)
             else:
-                raise NotImplementedError(f"cannot deal with `which={which}` for form replace.)")
+                pass
 
             return Form(
                 self.space,
-- 
2.43.0


From 83b2ff9c453d22d0d1f9542c0096a7060761f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 34/73] fix: splitting a term keeps its factor when no factors
 are given

---
 src/wf/term/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wf/term/main.py b/src/wf/term/main.py
index acd7282..2c093ab 100644
--- a/src/wf/term/main.py
+++ b/src/wf/term/main.py
@@ -286,7 +286,7 @@ class _WeakFormulationTerm(Frozen):
             assert len(into) >= 1, f"number of split objects must be equal to or larger than 1."
             assert len(into) == len(signs), f"objects and signs length dis-match."
             if factors is None:
-                factors = [1 for _ in range(len(into))]
+                factors = [self._factor for _ in range(len(into))]
             else:
                 if not isinstance(factors, (list, tuple)):
                     factors = [factors, ]
-- 
2.43.0


From 9df20f39ed9fad07694b0bd7f5d4b2938f3d7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 35/73] fix: several signs in front of a term of an equation
 multiply

---
 src/config.py  | 24 ++++++++++++++++++++++++
 src/pde.py     | 47 +++++++++++++++++------------------------------
 src/wf/main.py | 36 ++++++++++++------------------------
 3 files changed, 53 insertions(+), 54 deletions(-)

diff --git a/src/config.py b/src/config.py
index 237d1ae..f1abf09 100644
--- a/src/config.py
+++ b/src/config.py
@@ -439,6 +439,30 @@ def _is_sum(lin_repr):
             _global_operator_lin_repr_setting['minus'] in top_level)
 
 
+def _parse_one_side_of_equation(side):
+    r"""Parse one side (a str without spaces) of an equation into a list of the (name, sign) of its terms.
+
+    Signs in front of a term multiply: '--a' is '+a' and '+-a' is '-a'.
+    """
+    terms = list()
+    signs, name = '', ''
+    for char in side:
+        if char in '+-':
+            if name != '':
+                terms.append((name, signs))
+                signs, name = '', ''
+            else:
+                pass
+            signs += char
+        else:
+            name += char
+    if name != '':
+        terms.append((name, signs))
+    else:
+        assert signs == '', f"'{side}' ends with a sign."
+    return [(name, '-' if signs.count('-') % 2 == 1 else '+') for name, signs in terms]
+
+
 _global_operator_sym_repr_setting = {  # coded operators
     'plus': r"+",
     'minus': r"-",
diff --git a/src/pde.py b/src/pde.py
index da71e30..38e5739 100644
--- a/src/pde.py
+++ b/src/pde.py
@@ -169,6 +169,7 @@ from phyem.src.config import _global_lin_repr_setting, _non_root_lin_sep
 from phyem.src.form.main import Form, _global_root_forms_lin_dict
 from phyem.src.config import _global_operator_lin_repr_setting
 from phyem.src.config import _pde_test_form_lin_repr
+from phyem.src.config import _parse_one_side_of_equation
 
 from phyem.src.wf.term.main import inner
 from phyem.src.wf.main import WeakFormulation
@@ -268,7 +269,6 @@ class PartialDifferentialEquations(Frozen):
         for i, equation in enumerate(expression):
 
             equation = equation.replace(' ', '')  # remove all spaces
-            equation = equation.replace('-', '+-')  # let all terms be connected by +
 
             indi_dict[i] = ([], [])  # for left terms and right terms of ith equation
             sign_dict[i] = ([], [])  # for left terms and right terms of ith equation
@@ -277,38 +277,25 @@ class PartialDifferentialEquations(Frozen):
 
             k = 0
             for j, lor in enumerate(equation.split('=')):
-                local_terms = lor.split('+')
-
-                for loc_term in local_terms:
-                    if loc_term == '' or loc_term == '-':  # found empty terms, just ignore.
+                for indi, sign in _parse_one_side_of_equation(lor):
+                    if indi == '0':
                         pass
                     else:
-                        if loc_term == '0':
-                            pass
+                        assert indi in interpreter, f"found term {indi} not interpreted."
+                        term = interpreter[indi]
+
+                        indi_dict[i][j].append(indi)
+                        sign_dict[i][j].append(sign)
+                        term_dict[i][j].append(term)
+                        if j == 0:
+                            index = str(i) + '-' + str(k)
+                        elif j == 1:
+                            index = str(i) + '-' + str(k)
                         else:
-                            if loc_term[0] == '-':
-                                assert loc_term[1:] in interpreter, f"found term {loc_term[1:]} not interpreted."
-                                indi = loc_term[1:]
-                                sign = '-'
-                                term = interpreter[loc_term[1:]]
-                            else:
-                                assert loc_term in interpreter, f"found term {loc_term} not interpreted"
-                                indi = loc_term
-                                sign = '+'
-                                term = interpreter[loc_term]
-
-                            indi_dict[i][j].append(indi)
-                            sign_dict[i][j].append(sign)
-                            term_dict[i][j].append(term)
-                            if j == 0:
-                                index = str(i) + '-' + str(k)
-                            elif j == 1:
-                                index = str(i) + '-' + str(k)
-                            else:
-                                raise Exception()
-                            k += 1
-                            indexing[index] = (indi, sign, term)
-                            ind_dict[i][j].append(index)
+                            raise Exception()
+                        k += 1
+                        indexing[index] = (indi, sign, term)
+                        ind_dict[i][j].append(index)
 
         self._indi_dict = indi_dict   # a not very import attribute. Only for print representations.
         self._sign_dict = sign_dict
diff --git a/src/wf/main.py b/src/wf/main.py
index 7407aab..5ffa6bb 100644
--- a/src/wf/main.py
+++ b/src/wf/main.py
@@ -296,7 +296,7 @@ from phyem.src.bc import BoundaryCondition
 from phyem.src.wf.derive import WfDerive
 from phyem.src.wf.ap.main import AlgebraicProxy
 from phyem.src.wf.mp.main import MatrixProxy
-from phyem.src.config import _pde_test_form_lin_repr
+from phyem.src.config import _pde_test_form_lin_repr, _parse_one_side_of_equation
 from phyem.src.config import _form_evaluate_at_repr_setting
 
 
@@ -392,7 +392,6 @@ class WeakFormulation(Frozen):
         for i, equation in enumerate(expression):
 
             equation = equation.replace(' ', '')  # remove all spaces
-            equation = equation.replace('-', '+-')  # let all terms be connected by +
 
             term_dict[i] = ([], [])  # for left terms and right terms of ith equation
             sign_dict[i] = ([], [])  # for left terms and right terms of ith equation
@@ -400,30 +399,19 @@ class WeakFormulation(Frozen):
 
             k = 0
             for j, lor in enumerate(equation.split('=')):
-                local_terms = lor.split('+')
-
-                for loc_term in local_terms:
-                    if loc_term == '' or loc_term == '-':  # found empty terms, just ignore.
+                for name, sign in _parse_one_side_of_equation(lor):
+                    if name == '0':
                         pass
                     else:
-                        if loc_term == '0':
-                            pass
-                        else:
-                            if loc_term[0] == '-':
-                                assert loc_term[1:] in interpreter, f"found term {loc_term[1:]} not interpreted."
-                                sign = '-'
-                                term = interpreter[loc_term[1:]]
-                            else:
-                                assert loc_term in interpreter, f"found term {loc_term} not interpreted"
-                                sign = '+'
-                                term = interpreter[loc_term]
-
-                            sign_dict[i][j].append(sign)
-                            term_dict[i][j].append(term)
-                            index = str(i) + '-' + str(k)
-                            k += 1
-                            indexing[index] = (sign, term)
-                            ind_dict[i][j].append(index)
+                        assert name in interpreter, f"found term {name} not interpreted."
+                        term = interpreter[name]
+
+                        sign_dict[i][j].append(sign)
+                        term_dict[i][j].append(term)
+                        index = str(i) + '-' + str(k)
+                        k += 1
+                        indexing[index] = (sign, term)
+                        ind_dict[i][j].append(index)
 
         self._test_forms = test_forms
         self._term_dict = term_dict
-- 
2.43.0


From 631ff4bb07c1620e8c37eb5102a2613e67bcd7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 36/73] fix: test a sum with a scaled summand as the sum, not
 as the scaled sum

---
 src/pde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pde.py b/src/pde.py
index 38e5739..c90bcb1 100644
--- a/src/pde.py
+++ b/src/pde.py
@@ -169,7 +169,7 @@ from phyem.src.config import _global_lin_repr_setting, _non_root_lin_sep
 from phyem.src.form.main import Form, _global_root_forms_lin_dict
 from phyem.src.config import _global_operator_lin_repr_setting
 from phyem.src.config import _pde_test_form_lin_repr
-from phyem.src.config import _parse_one_side_of_equation
+from phyem.src.config import _parse_one_side_of_equation, _is_sum
 
 from phyem.src.wf.term.main import inner
 from phyem.src.wf.main import WeakFormulation
@@ -889,7 +889,7 @@ class PartialDifferentialEquations(Frozen):
                         multiply_lin = _global_operator_lin_repr_setting['multiply']
 
                         # check if we have multiplication in this pde term.
-                        if multiply_lin in term._lin_repr:
+                        if multiply_lin in term._lin_repr and not _is_sum(term._lin_repr):
 
                             if term._lin_repr.count(multiply_lin) == 1:
 
-- 
2.43.0


From 48f5290c80f95bacccecfd38b70bc138b2f7ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 37/73] fix: matrices made from a customized local matrix do
 not share the data of its elements

---
 msehtt/tools/matrix/static/local.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index a45ca09..189b6b2 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -113,6 +113,16 @@ class MseHttStaticLocalMatrix(Frozen):
         else:
             return str((self._gm_row.num_local_dofs(i), self._gm_col.num_local_dofs(i)))
 
+    def _operand_cache_key(self, i):
+        r"""The cache key for the data, customizations included, of element #i.
+
+        Objects made from this matrix must use this one. A customized element shares its data with no other element.
+        """
+        if i in self.customize:
+            return 'unique'
+        else:
+            return self._cache_key(i)
+
     def _parse_signature(self, signature, cache_key):
         r""""""
         if signature is None:
@@ -257,7 +267,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = '-' + self._signature
 
         return self.__class__(
-            data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+            data_caller, self._gm_row, self._gm_col, cache_key=self._operand_cache_key,
             signature=signature
         )
 
@@ -274,7 +284,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = 'inv' + self._signature
 
         return self.__class__(
-            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._operand_cache_key,
             special_indicator=f'inverse matrix of {self.__repr__()}',
             signature=signature
         )
@@ -291,7 +301,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = self._signature + '^T '
 
         return self.__class__(
-            data_caller, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            data_caller, self._gm_col, self._gm_row, cache_key=self._operand_cache_key,
             signature=signature
         )
 
@@ -308,7 +318,7 @@ class MseHttStaticLocalMatrix(Frozen):
                 signature = '%.8f*' % other + self._signature
 
             return self.__class__(
-                data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+                data_caller, self._gm_row, self._gm_col, cache_key=self._operand_cache_key,
                 signature=signature
             )
 
@@ -323,8 +333,8 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] + other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
-                key2 = other._cache_key(i)
+                key1 = self._operand_cache_key(i)
+                key2 = other._operand_cache_key(i)
                 if key1 == 'unique' or key2 == 'unique':
                     return 'unique'
                 else:
@@ -358,11 +368,11 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] @ other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
+                key1 = self._operand_cache_key(i)
                 if key1 == 'unique':
                     return 'unique'
                 else:
-                    key2 = other._cache_key(i)
+                    key2 = other._operand_cache_key(i)
                     if key2 == 'unique':
                         return 'unique'
                     else:
-- 
2.43.0


From d886f9b259173e914c3ff137265cdd22cc8831c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 38/73] fix: assembling with a threshold does not change the
 local matrices

---
 msehtt/tools/matrix/static/local.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 189b6b2..d9f9247 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -744,6 +744,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
+                data = data.copy()  # `Mi` itself, which may be cached, must not be changed.
                 data[np.abs(data) < threshold] = 0.
 
             nums: list = list(diff(indptr))
@@ -884,6 +885,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
+                data = data.copy()  # `Mi` itself, which may be cached, must not be changed.
                 data[np.abs(data) < threshold] = 0.
 
             nums: list = list(diff(indptr))
-- 
2.43.0


From 431168cff75aacdc9325291f6f4766575cd8ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 39/73] fix: customizing a msepy vector does not change the
 cochain it comes from

---
 msepy/tools/vector/static/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 5fa9756..5e29b63 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -286,11 +286,11 @@ class MsePyStaticLocalVectorCustomize(Frozen):
         dof = list(elements_local_rows.keys())[0]
         elements, local_rows = elements_local_rows[dof]
         element, local_row = elements[0], local_rows[0]
-        data = self._v[element]
+        data = self._v[element].copy()  # the data of the vector itself must not be changed.
         data[local_row] = value
         self._customizations[element] = data
         for element, local_row in zip(elements[1:], local_rows[1:]):
-            data = self._v[element]
+            data = self._v[element].copy()
             data[local_row] = 0
             self._customizations[element] = data
 
@@ -320,7 +320,7 @@ class MsePyStaticLocalVectorCustomize(Frozen):
 
         involved_data = dict()
         for element in involved_elements:
-            involved_data[element] = self._v[element]
+            involved_data[element] = self._v[element].copy()  # the data of the vector itself must not be changed.
 
         for dof in dof_cochain_dict:
             cochain = dof_cochain_dict[dof]
-- 
2.43.0


From d6eedeb642e14882dac23fc33c6c27abd0ba7903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 40/73] fix: form.matrix.incidence of msepy raised
 AttributeError

---
 msepy/form/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/matrix.py b/msepy/form/matrix.py
index 4208b31..aa2f22b 100644
--- a/msepy/form/matrix.py
+++ b/msepy/form/matrix.py
@@ -15,7 +15,7 @@ class MsePyRootFormMatrix(Frozen):
 
     @property
     def incidence(self):
-        return self._f.cobounday.incidence_matrix  # no cache, make new copy every time.
+        return self._f.coboundary.incidence_matrix  # no cache, make new copy every time.
 
     @property
     def mass(self):
-- 
2.43.0


From 5c6a2446713dc67901b4d3fbd3ecf43d9bf57ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 41/73] fix: discretizing a time derivative keeps the factor of
 the term

---
 src/ode/discretize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/discretize.py b/src/ode/discretize.py
index f77ff45..3607cc6 100644
--- a/src/ode/discretize.py
+++ b/src/ode/discretize.py
@@ -69,7 +69,7 @@ class OrdinaryDifferentialEquationDiscretize(Frozen):
                 bf0_ke = bf0 @ dt.end
                 bf1 = ptm._f1
                 term0 = (bf0_ke - bf0_ks) / dt
-                diff_term = (ptm.__class__(term0, bf1), '+')
+                diff_term = (ptm.__class__(term0, bf1, factor=ptm._factor), '+')
                 self._eq_terms[index] = [diff_term, ]
             else:
                 raise NotImplementedError(pattern)
-- 
2.43.0


From 9720dace13870975cce0e16e76abcd677341e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 42/73] fix: an essential boundary condition of one unknown no
 longer changes the other blocks that use the same mass matrix

---
 msehtt/tools/matrix/dynamic.py      |  3 ++-
 msehtt/tools/matrix/static/local.py | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/msehtt/tools/matrix/dynamic.py b/msehtt/tools/matrix/dynamic.py
index b93c35c..233db11 100644
--- a/msehtt/tools/matrix/dynamic.py
+++ b/msehtt/tools/matrix/dynamic.py
@@ -29,7 +29,8 @@ class MseHttDynamicLocalMatrix(Frozen):
     def __call__(self, *args, **kwargs):
         """Gives a static local matrix by evaluating the dynamic local matrix with `*args, **kwargs`."""
         if self._dtype == 'static':
-            static = self._static_data
+            # always a new copy; customizing it must not affect other places where the same matrix is used.
+            static = self._static_data.copy()
         elif self._dtype == 'list':
             # noinspection PyUnresolvedReferences
             mat = self._list_data[0](*args, **kwargs)
diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index d9f9247..60d425a 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -257,6 +257,16 @@ class MseHttStaticLocalMatrix(Frozen):
         for i in self._gm_row:
             yield i
 
+    def copy(self):
+        r"""A matrix of the same data (customizations included). Customizing the copy does not affect self."""
+        def data_caller(e):
+            return self[e]
+
+        return self.__class__(
+            data_caller, self._gm_row, self._gm_col, cache_key=self._operand_cache_key,
+            special_indicator=self.___special_indicator___, signature=self._signature
+        )
+
     def __neg__(self):
         r""""""
         def data_caller(e):
-- 
2.43.0


From 85e2ac8a2c012723b2ab1254b6bc279f1e63bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 43/73] fix: a negative element index of
 set_local_dof_ij_of_unknown_k_to_value counts from the last element

---
 msepy/tools/linear_system/static/local/customize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/local/customize.py b/msepy/tools/linear_system/static/local/customize.py
index 133121a..3ad1c60 100644
--- a/msepy/tools/linear_system/static/local/customize.py
+++ b/msepy/tools/linear_system/static/local/customize.py
@@ -71,7 +71,7 @@ class MsePyStaticLinearSystemCustomize(Frozen):
         num_elements, k_num_local_dofs = k_gm.shape
 
         if i < 0:
-            _i = i + k_num_local_dofs
+            _i = i + num_elements
         else:
             _i = i
 
-- 
2.43.0


From d0032bb68a649e9d2568f325831e2c9fcf9e749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 44/73] fix: gmres and lgmres do not overwrite the first guess
 given to them

---
 msehtt/tools/linear_system/static/global_/solve.py          | 4 +++-
 msehtt/tools/linear_system/static/global_/solvers/mpi_py.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solve.py b/msehtt/tools/linear_system/static/global_/solve.py
index 616abdd..a426b96 100644
--- a/msehtt/tools/linear_system/static/global_/solve.py
+++ b/msehtt/tools/linear_system/static/global_/solve.py
@@ -121,7 +121,9 @@ class MseHttLinearSystemSolve(Frozen):
         sft = ___local_setting___['safe first try']
         if sft > 0:
             essential_dofs, essential_values = self.A.___find_essential_dof_coefficients___(self.b)
-            x0._V[essential_dofs] = essential_values
+            V = x0.V.copy()  # do not change the vector provided by the user.
+            V[essential_dofs] = essential_values
+            x0 = MseHttGlobalVectorGathered(V, gm=x0._gm)
             ___local_setting___['safe first try'] = sft - 1
 
         assert x0.__class__ is MseHttGlobalVectorGathered, f"x0 type wrong."
diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index ce503e1..b9d929c 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -75,7 +75,7 @@ def gmres(
     if isinstance(x0, (int, float)) and x0 == 0:
         x0 = np.zeros(A.shape[1])
     else:
-        x0 = x0.V               # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
+        x0 = x0.V.copy()        # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
 
     shape0, shape1 = A.shape
     assert f.shape[0] == x0.shape[0] == shape0 == shape1, "Ax=f shape dis-match."
@@ -275,7 +275,7 @@ def lgmres(
     if isinstance(x0, (int, float)) and x0 == 0:
         x0 = np.zeros(A.shape[1])
     else:
-        x0 = x0.V               # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
+        x0 = x0.V.copy()        # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
 
     shape0, shape1 = A.shape
     assert f.shape[0] == x0.shape[0] == shape0 == shape1, "Ax=f shape dis-match."
-- 
2.43.0


From 20bc62e0c50a9cdcac7efe73ab3e37a81f71307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 45/73] fix: gmres and lgmres with a restart of one

---
 msehtt/tools/linear_system/static/global_/solvers/mpi_py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index b9d929c..3a3b08b 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -183,7 +183,7 @@ def gmres(
                 if j < restart - 1:
                     v_jp1 = hat_v_jp1 / Hm[j+1, j]
                 else:
-                    del v_jp1
+                    pass
 
             else:
                 if j == 0:
@@ -418,7 +418,7 @@ def lgmres(
                 if j < restart - 1:
                     v_jp1 = hat_v_jp1 / Hm[j + 1, j]
                 else:
-                    del v_jp1
+                    pass
 
             else:
                 if j == 0:
-- 
2.43.0


From d8a303c82dde7788123e7b5e47625f9c443e660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 46/73] fix: an iterative solver stopped before its first
 iteration does not report convergence

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 9076858..50daf3b 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -386,7 +386,7 @@ def _check_stop_criterion_(BETA, atol, ITER, maxiter):
             JUDGE_explanation = 'reach absolute tol'
 
         elif judge_2:  # reach maxiter
-            info = ITER
+            info = max(ITER, 1)   # 0 stands for convergence, also when no iteration is allowed.
             JUDGE = 2
             JUDGE_explanation = 'reach maxiter'
 
-- 
2.43.0


From 48d22686eca7cba7215ea05de750b20aa873a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 47/73] fix: lgmres of msepy without a preconditioner raised
 TypeError

---
 msepy/tools/linear_system/static/assembled/solvers/_scipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/assembled/solvers/_scipy.py b/msepy/tools/linear_system/static/assembled/solvers/_scipy.py
index ec48dc7..a38f395 100644
--- a/msepy/tools/linear_system/static/assembled/solvers/_scipy.py
+++ b/msepy/tools/linear_system/static/assembled/solvers/_scipy.py
@@ -161,7 +161,7 @@ class _PackageScipy(Frozen):
         }
         return x, message, info
 
-    def lgmres(self, A, b, x0, preconditioner=False, **kwargs):
+    def lgmres(self, A, b, x0, preconditioner=None, **kwargs):
         """"""
         t_start = time()
 
-- 
2.43.0


From ba96b48ecfc59d66ac3c453a145a35362345e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 48/73] fix: linear terms of unknowns on the right hand side
 are moved to the left hand side of a system

---
 src/wf/mp/main.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/wf/mp/main.py b/src/wf/mp/main.py
index b006b45..83b0553 100644
--- a/src/wf/mp/main.py
+++ b/src/wf/mp/main.py
@@ -509,29 +509,17 @@ class MatrixProxy(Frozen):
         """"""
         assert self._lbv._is_empty(), f"Format is illegal, must be like Ax=b, do '.pr()' to check!"
         assert len(self._l_mvs) == 1, f"Format is illegal, must be like Ax=b, do '.pr()' to check!"
-        A, x = self._l_mvs[0]
+        lM, x = self._l_mvs[0]
+        A = BlockMatrix(lM._shape)
+        for i, j in lM:
+            for mij, sij in zip(*lM(i, j)):
+                A._add(i, j, mij, sij)
         b = BlockColVector(self._rbv._shape)
-        for Mv in self._r_mvs:
-            M, v = Mv
-            for i in range(M._shape[0]):
-                for j in range(M._shape[1]):
-                    vj, sj = v(j)
-                    Mij, Sij = M(i, j)
-
-                    assert len(vj) == len(sj) == 1, f"Format is illegal, must be like Ax=b, do pr() to check!"
-
-                    vj, sj = vj[0], sj[0]
-
-                    for mij, sij in zip(Mij, Sij):
-
-                        if sj == sij:
-                            sign = '+'
-                        else:
-                            sign = '-'
-
-                        mij_at_vj = mij @ vj
-
-                        b._add(i, mij_at_vj, sign)
+        for M, v in self._r_mvs:
+            # terms of the unknowns on the right hand side; move them to the left hand side.
+            for i, j in M:
+                for mij, sij in zip(*M(i, j)):
+                    A._add(i, j, mij, '-' if sij == '+' else '+')
 
         for i in range(self._rbv._shape):
             bi, si = self._rbv(i)
-- 
2.43.0


From bbf4d679bdf6f2679dd71fc52de4cb4e35c54d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 49/73] fix: (A x B, C x D) terms are found for the cross
 product

---
 src/wf/term/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wf/term/pattern.py b/src/wf/term/pattern.py
index e054c77..8cb4b67 100644
--- a/src/wf/term/pattern.py
+++ b/src/wf/term/pattern.py
@@ -910,6 +910,7 @@ def _inner_simpler_pattern_examiner_scalar_valued_forms(factor, f0, f1, extra_in
                 pass
 
         # --- (A x B, C x D) type terms ----------------------------------------------------------------------
+        cross_product_lin = _global_operator_lin_repr_setting['cross_product']
         existing0 = cross_product_lin in f0._lin_repr
         amount0 = f0._lin_repr.count(cross_product_lin)
         existing1 = cross_product_lin in f1._lin_repr
-- 
2.43.0


From 1462755e23632c48555be21acc4c8617feb8d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 50/73] fix: the zero initial guess of the msepy Newton-Raphson
 solver is an array of floats

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 50daf3b..9a06bf8 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -37,7 +37,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 gm = f.cochain.gathering_matrix
                 if newest_time is None:  # no newest cochain at all.
                     # then use 0-cochain
-                    local_cochain = np.zeros_like(gm._gm)
+                    local_cochain = np.zeros(gm._gm.shape)
 
                 else:
                     local_cochain = f.cochain[newest_time].local
-- 
2.43.0


From b35c384dc300fa0028c9e231eccfd20dafd82f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 51/73] fix: the msepy Newton-Raphson solver does not write
 boundary values into the cochain of its initial guess

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 9a06bf8..ace4171 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -40,7 +40,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                     local_cochain = np.zeros(gm._gm.shape)
 
                 else:
-                    local_cochain = f.cochain[newest_time].local
+                    local_cochain = np.array(f.cochain[newest_time].local)  # a copy; customizations write into it.
 
                 cochain.append(local_cochain)
 
-- 
2.43.0


From a79029f88dc9e900c2f42736967123f95a80986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 52/73] fix: each essential boundary condition of a msepy
 nonlinear system fixes its own dofs

---
 .../nonlinear_system/static/solve/Newton_Raphson.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index ace4171..9938906 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -122,7 +122,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
         xi = x0
 
         # --- some caches ----------------------------
-        _global_dofs_cache = None
+        _global_dofs_cache = dict()
 
         # -- start the Newton iterations ----------------------------
         while 1:
@@ -221,7 +221,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
             ls = MsePyStaticLocalLinearSystem(LHS, x, f)
 
             # adopt customizations: important ------------------------------------------ 2
-            for customization in self._nls.customize._customizations:
+            for ith, customization in enumerate(self._nls.customize._customizations):
                 method_name = customization[0]
                 method_para = customization[1]
 
@@ -236,13 +236,13 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
 
                 elif method_name == 'set_no_evaluation_for_overall_local_dofs':
 
-                    if _global_dofs_cache is None:
+                    if ith not in _global_dofs_cache:
                         elements, overall_local_dofs = method_para
                         gm = A._gm0_row
                         global_dofs = gm._find_global_numbering(elements, overall_local_dofs)
-                        _global_dofs_cache = global_dofs
+                        _global_dofs_cache[ith] = global_dofs
                     else:
-                        global_dofs = _global_dofs_cache
+                        global_dofs = _global_dofs_cache[ith]
 
                     A.customize.identify_diagonal(global_dofs)
                     f.customize.set_values(global_dofs, 0)
-- 
2.43.0


From 78e6bbdeea8e804c4216f919ebaa745f384464f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 53/73] fix: the msepy Newton-Raphson solver stops when the
 norm, not its square, is below the tolerance

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 9938906..7532c4f 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -270,11 +270,11 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
             for f in self._nls.unknowns:
                 dx.append(f.cochain.local)
 
-            beta = sum(  # this beta is larger than the real vector norm of dx which can be computed after assembling.
+            beta = sum(  # this beta is not less than the real vector norm of dx which can be computed after assembling.
                 [
                     np.sum(_**2) for _ in dx
                 ]
-            )
+            ) ** 0.5
 
             BETA.append(beta)
             JUDGE, stop_iteration, convergence_info, JUDGE_explanation = _check_stop_criterion_(
-- 
2.43.0


From bb997eb8bce0c5285dee214c7324798b36461920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 54/73] fix: the mass matrix of a deleted space is not taken
 for that of a new space of msehtt

---
 msehtt/static/implementation_array_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index fe86a1a..25ec93e 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -184,7 +184,7 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     degree0 = _str_degree_parser(str_degree0)
     degree1 = _str_degree_parser(str_degree1)
     space = _find_space_through_pure_lin_repr(space)
-    key = (id(space), str_degree0, str_degree1)
+    key = (space.__repr__(), str_degree0, str_degree1)  # not id(space), it is reused after a space is deleted.
     if key in _setting_['_cache_M_']:
         return _setting_['_cache_M_'][key]
     else:
-- 
2.43.0


From a45e2450b1d166789a18267857be18889d564b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 55/73] fix: boundary integrals of 0-forms (and 3d 1-forms) add
 up over the faces of a corner cell

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py               | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py               | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py               | 2 +-
 .../with_vc_over_boundary_section/Lambda.py                   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
index 9bc8340..25461ea 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
@@ -50,7 +50,7 @@ def bi_vc__m2n2k0_outer(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -146,7 +146,7 @@ def bi_vc__m2n2k0_inner(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index 6df07fc..094cc02 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -40,7 +40,7 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
index e19fa76..b4e77da 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
@@ -43,7 +43,7 @@ def bi_vc__m3n3k1(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index 3044be7..e31fa7f 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -123,7 +123,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -196,7 +196,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
-- 
2.43.0


From 08b67cf3e733addc8ff4e45fd18fa2c0061b41fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 56/73] fix: a point at the end of a closed curve is on it
 despite round-off

---
 tools/miscellaneous/geometries/m2n2.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 0abe94d..9c39c2e 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -908,9 +908,21 @@ def whether_point_on_curve(point, curve):
 
     x, y = point.x, point.y
 
+    if curve._x_interval._type == 'closed':
+        # a point which is at an end of the curve up to round-off error is on it.
+        lb, ub = curve._x_interval._lb, curve._x_interval._ub
+        if lb - 1e-9 <= x <= ub + 1e-9:
+            x = min(max(x, lb), ub)
+        else:
+            pass
+    else:
+        pass
+
     if x in curve._x_interval:
         t = curve.t_from_x(x)
-        Y = curve.y_from_t(t)
+        # t is found numerically; round-off error can put it slightly out of the interval.
+        t = min(max(t, curve._interval._lb), curve._interval._ub)
+        Y = curve._yt(t)
         if np.isclose(y, Y):
             return True
         else:
-- 
2.43.0


From 8bd045e26df80d40b88ebcf091ea6d3b8a731fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 57/73] fix: boundary objects of msepy 3d forms are single
 objects, not rows

---
 msepy/mesh/boundary_section/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index 178abfa..c5957ed 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 from phyem.msepy.mesh.boundary_section.faces import MsePyBoundarySectionFaces
 from phyem.msepy.mesh.boundary_section.coordinate_transformation import MsePyBoundarySectionMeshCooTrans
@@ -117,7 +119,7 @@ class MsePyBoundarySectionMesh(Frozen):
                         face = faces[k]
                         m, n, element = face._m, face._n, face._element
                         local_dofs = f._find_local_dofs_on(m, n)
-                        find.extend(gathering_matrix[element, local_dofs])
+                        find.extend(np.ravel(gathering_matrix[element, local_dofs], order='F'))  # 2d in 3d-space
                     self._gm_cache_find_[key] = find
 
             else:
@@ -126,7 +128,7 @@ class MsePyBoundarySectionMesh(Frozen):
                     face = faces[k]
                     m, n, element = face._m, face._n, face._element
                     local_dofs = f._find_local_dofs_on(m, n)
-                    find.extend(target[element, local_dofs])
+                    find.extend(np.ravel(target[element, local_dofs], order='F'))
 
             returns.append(find)
 
-- 
2.43.0


From eb4a58a1b055795e7f68f2ce8bfe4a7141142688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 58/73] fix: msepy 3d 1-forms: dofs on a face are those of the
 parallel components

---
 msepy/space/find/local_dofs.py | 40 ++++++++++++----------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index b2da771..907019e 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 
 
@@ -214,40 +216,26 @@ class _MsePySpaceFindLocalDofs(Frozen):
         return face_local_numbering
 
     def _Lambda_m3_n3_k1(self, m, n, degree):
-        """"""
+        """The dofs of the two components parallel to the face."""
         local_numbering_dx, local_numbering_dy, local_numbering_dz = self._space.local_numbering(degree)
 
-        if m == 0:
-            local_numbering = local_numbering_dx
-            if n == 0:
-                face_local_numbering = local_numbering[0, :, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[-1, :, :]
-            else:
-                raise Exception()
+        if n == 0:
+            side = 0
+        elif n == 1:
+            side = -1
+        else:
+            raise Exception()
 
+        if m == 0:
+            face_local_numbering = (local_numbering_dy[side, :, :], local_numbering_dz[side, :, :])
         elif m == 1:
-            local_numbering = local_numbering_dy
-            if n == 0:
-                face_local_numbering = local_numbering[:, 0, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, -1, :]
-            else:
-                raise Exception()
-
+            face_local_numbering = (local_numbering_dz[:, side, :], local_numbering_dx[:, side, :])
         elif m == 2:
-            local_numbering = local_numbering_dz
-            if n == 0:
-                face_local_numbering = local_numbering[:, :, 0]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, :, -1]
-            else:
-                raise Exception()
-
+            face_local_numbering = (local_numbering_dx[:, :, side], local_numbering_dy[:, :, side])
         else:
             raise Exception()
 
-        return face_local_numbering
+        return np.concatenate([_.ravel('F') for _ in face_local_numbering])
 
     def _Lambda_m3_n3_k2(self, m, n, degree):
         """"""
-- 
2.43.0


From 2486180fbf9225c6b408f55215292eb6912b5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 59/73] fix: cochains keep their own coefficients

The dictionary of arrays (msehtt) or the array (msepy) given to a form was
stored by reference, so changing it afterwards, or setting one instant with the
coefficients of another one, silently changed the stored cochain.
---
 msehtt/static/form/cochain/instant.py | 3 ++-
 msepy/form/cochain/time_instant.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/form/cochain/instant.py b/msehtt/static/form/cochain/instant.py
index 24eca71..fdd0834 100644
--- a/msehtt/static/form/cochain/instant.py
+++ b/msehtt/static/form/cochain/instant.py
@@ -46,7 +46,8 @@ class MseHttTimeInstantCochain(Frozen):
                 else:
                     pass
             self._ctype = 'dict'
-            self._cochain = cochain
+            # we own the coefficients; the given arrays may be changed by the caller afterwards.
+            self._cochain = {e: np.array(cochain[e]) for e in cochain}
 
         elif callable(cochain):
             self._ctype = 'realtime'
diff --git a/msepy/form/cochain/time_instant.py b/msepy/form/cochain/time_instant.py
index fc27498..138f1cd 100644
--- a/msepy/form/cochain/time_instant.py
+++ b/msepy/form/cochain/time_instant.py
@@ -33,7 +33,7 @@ class _CochainAtOneTime(Frozen):
             gm = self._f.cochain.gathering_matrix
             assert np.shape(cochain) == gm.shape, \
                 f"local cochain shape = {np.shape(cochain)} wrong, should be {gm.shape}."
-            self._local_cochain = cochain
+            self._local_cochain = cochain.copy()  # the given array may be changed by the caller afterwards.
             self._type = 'ndarray'
         elif callable(cochain):
             self._local_cochain_caller = cochain
-- 
2.43.0


From cf15360886ef4f53cdf13fa8c9e8fea4d71e2105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 60/73] fix: crazy domain of msepy keeps its own bounds

The lists given as bounds were stored by reference, so changing them after the
configuration changed the mapping of the domain.
---
 msepy/manifold/predefined/crazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/manifold/predefined/crazy.py b/msepy/manifold/predefined/crazy.py
index b895436..6eec5c6 100644
--- a/msepy/manifold/predefined/crazy.py
+++ b/msepy/manifold/predefined/crazy.py
@@ -204,7 +204,7 @@ class _MesPyRegionCrazyMapping(Frozen):
         if not (0 <= c <= 0.3):
             warnings.warn(f"c={c} is not good. Ideally, c in [0, 0.3].", CrazyMeshCurvatureWarning)
 
-        self._bounds = bounds
+        self._bounds = [list(bs) for bs in bounds]  # ours; the given lists may be changed afterwards.
         self._c = c
         self._esd = esd
         self._freeze()
-- 
2.43.0


From bfe4e60f3209cc0f2b465e4ff2db0abc031a30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 61/73] fix: natural boundary conditions of one form on several
 sections are all applied

---
 msehtt/static/implementation_array_parser.py  | 68 ++++++++++---------
 msepy/tools/linear_system/dynamic/_arr_par.py | 22 +++---
 2 files changed, 51 insertions(+), 39 deletions(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index 25ec93e..a2d906a 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -297,8 +297,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             base_form = found_root_form
             self._ati = None
 
-        found_natural_bc = None
-        found_boundary_section_sym_repr = None
+        found_natural_bcs = {}  # keys: the boundary section sym_repr. The form can be imposed over several sections.
         for boundary_section in dls.bc:
             bcs = dls.bc[boundary_section]
             for bc in bcs:
@@ -310,34 +309,33 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
                     if self._ati is None:  # provided_root_form is the base (general) form
                         if base_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_natural_bcs[boundary_section] = bc
                             break
                         else:
                             pass
                     else:  # provided_root_form is an abstract form
                         if found_root_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_natural_bcs[boundary_section] = bc
                             break
                         else:
                             pass
                 else:
                     pass
 
-        assert found_natural_bc is not None, f"we must have found a dls natural bc!"
-        assert found_boundary_section_sym_repr is not None, f"We must have found an abstract manifold sym repr."
+        assert len(found_natural_bcs) > 0, f"we must have found a dls natural bc!"
 
-        self._dls_natural_bc = found_natural_bc
+        self._dls_natural_bcs = found_natural_bcs
 
-        self._partial_mesh_boundary_section = None
+        self._partial_mesh_boundary_sections = {}
         partial_meshes = _base_meshes()
-        for partial_mesh_sym_repr in partial_meshes:
-            msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
-            if msehtt_partial_mesh.abstract.manifold._sym_repr == found_boundary_section_sym_repr:
-                self._partial_mesh_boundary_section = msehtt_partial_mesh
-                break
-        assert self._partial_mesh_boundary_section is not None, f"we must have found a msehtt partial boundary section"
+        for section_sym_repr in found_natural_bcs:
+            for partial_mesh_sym_repr in partial_meshes:
+                msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
+                if msehtt_partial_mesh.abstract.manifold._sym_repr == section_sym_repr:
+                    self._partial_mesh_boundary_sections[section_sym_repr] = msehtt_partial_mesh
+                    break
+            assert section_sym_repr in self._partial_mesh_boundary_sections, \
+                f"we must have found a msehtt partial boundary section"
 
         rf0 = None
         msehtt_forms = _base_forms()
@@ -369,6 +367,23 @@ class _TrStarRf0DualPairingTrS1(Frozen):
         """"""
         t = self._time_caller(*args, **kwargs)
 
+        data = {}
+        for section_sym_repr in self._dls_natural_bcs:
+            section_data = self._section_data(t, section_sym_repr)
+            for e in section_data:
+                if e in data:  # an element may have faces on several sections.
+                    data[e] = data[e] + section_data[e]
+                else:
+                    data[e] = section_data[e]
+
+        # -- make the static local vector representing the natural bc at this particular time ``t`` ------------
+        full_vector = MseHttStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
+        return full_vector
+
+    def _section_data(self, t, section_sym_repr):
+        """The contribution of the natural bc over one boundary section."""
+        partial_mesh_boundary_section = self._partial_mesh_boundary_sections[section_sym_repr]
+
         # find from all configurations the correct one for this natural BC ----------------------------------
         configurations = self._dls.config._configurations
         the_configuration = None
@@ -376,7 +391,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             _type = config['type']
             if _type == 'natural bc':
                 place = config['place']
-                if place is self._partial_mesh_boundary_section:
+                if place is partial_mesh_boundary_section:
                     config_root_form = config['root_form']
                     if self._rf0 is config_root_form:  # note that self._rf0 must be a base-form already
                         the_configuration = config
@@ -387,31 +402,22 @@ class _TrStarRf0DualPairingTrS1(Frozen):
                     pass
             else:
                 pass
-        assert the_configuration is not None, f'BC: {self._dls_natural_bc} is not configured!'
+        assert the_configuration is not None, \
+            f'BC: {self._dls_natural_bcs[section_sym_repr]} is not configured!'
 
         category = the_configuration['category']
         # ----- study the configuration to choose a correct way to use it --------------------------------------
         if category == 1:  # natural bc 1
             # in this case, we provide one function in args as the exact boundary bc function rf0,
             # not trace-star-rf0
-            exact_function = the_configuration['condition']
-        else:
-            raise NotImplementedError()
-
-        # ------ use the configuration to produce the correct vector data used for a static local vector ------
-        if category == 1:
-            data = self._rf1.bi.with_vc_over_boundary_section(
+            return self._rf1.bi.with_vc_over_boundary_section(
                 t,
-                exact_function,    # the vc
-                self._partial_mesh_boundary_section  # over this msehtt partial mesh boundary section.
+                the_configuration['condition'],    # the vc
+                partial_mesh_boundary_section  # over this msehtt partial mesh boundary section.
             )
         else:
             raise NotImplementedError(f"not implemented for natural bc of category = {category}.")
 
-        # -- make the static local vector representing the natural bc at this particular time ``t`` ------------
-        full_vector = MseHttStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
-        return full_vector
-
 
 # - (A x B, C) ------------------------------------------------------------------------------------
 
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 9792186..d5fbff0 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -341,7 +341,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             base_form = found_root_form
             self._ati = None
 
-        found_natural_bc = None
+        found_natural_bcs = []  # the form can be imposed over several boundary sections.
         for boundary_section in dls.bc:
             bcs = dls.bc[boundary_section]
             for bc in bcs:
@@ -354,22 +354,22 @@ class _TrStarRf0DualPairingTrS1(Frozen):
                     if self._ati is None:  # provided_root_form is the base (general) form
                         if base_form._pure_lin_repr == provided_root_form._pure_lin_repr:
 
-                            found_natural_bc = bc
+                            found_natural_bcs.append(bc)
                             break
 
                     else:  # provided_root_form is the abstract form
 
                         if found_root_form._pure_lin_repr == provided_root_form._pure_lin_repr:
 
-                            found_natural_bc = bc
+                            found_natural_bcs.append(bc)
                             break
 
                 else:
                     pass
 
-        assert found_natural_bc is not None, f"we must have found a dls natural bc!"
+        assert len(found_natural_bcs) > 0, f"we must have found a dls natural bc!"
 
-        self._dls_natural_bc = found_natural_bc
+        self._dls_natural_bcs = found_natural_bcs
         msepy_base_form = None
         msepy_forms = base['forms']
         for _pure_lin_repr in msepy_forms:
@@ -402,7 +402,14 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
         # now we need to make changes in _2d_data to incorporate the corresponding natural boundary condition
 
-        nbc = self._dls_natural_bc
+        data = 0
+        for nbc in self._dls_natural_bcs:
+            data = data + self._section_data(t, nbc)
+        full_vector = MsePyStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
+        return full_vector
+
+    def _section_data(self, t, nbc):
+        """The contribution of one natural bc (over one boundary section)."""
         # we now try to find the msepy mesh this natural bc is defined on.
         meshes = base['meshes']  # find mesh here! because only when we call it, the meshes are config-ed.
         found_msepy_mesh = None
@@ -434,8 +441,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
         assert data.shape == (self._mesh.elements._num, self._num_local_dofs), f"array data shape wrong!"
         nbc._num_application += 1
-        full_vector = MsePyStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
-        return full_vector
+        return data
 
 
 # --- (A .V B, C) ---------------------------------------------------------------------------------
-- 
2.43.0


From 4ccbfc3516d5c09148b3c678010f36892c512d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 62/73] fix: essential boundary conditions of msepy forms in 3d

---
 msepy/tools/linear_system/dynamic/bc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/dynamic/bc.py b/msepy/tools/linear_system/dynamic/bc.py
index 7a85834..b50b458 100644
--- a/msepy/tools/linear_system/dynamic/bc.py
+++ b/msepy/tools/linear_system/dynamic/bc.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 from phyem.msepy.manifold.main import MsePyManifold
 
@@ -354,7 +356,7 @@ class MsePyDLSEssentialBoundaryCondition(MsePyDLSBoundaryCondition):
                 face._element
             )
             _1_local_dofs.append(
-                face.find_corresponding_local_dofs_of(found_msepy_bf0)
+                np.ravel(face.find_corresponding_local_dofs_of(found_msepy_bf0), order='F')  # 2d in 3d-space
             )
 
         # below, we try to find the coefficients to be used. This is the most important part.
-- 
2.43.0


From 5f0fb2a964d05ebddbf3bc952183bf7e7ffb86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 63/73] fix: sign of the natural boundary integral of inner
 1-forms in 2d

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py               | 4 ++--
 .../with_vc_over_boundary_section/Lambda.py                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
index 2177b4b..2edbf12 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
@@ -234,7 +234,7 @@ def ___bi_vc_221i_msepy_quadrilateral___(element, degree, face, tvc):
     onv = face.ct.outward_unit_normal_vector(nodes)
     nx, ny = onv
     trStar_vc = tvc(*xy)[0]
-    trace_1f = vx * ny - vy * nx  # <~ | trace-inner-f>;
+    trace_1f = vy * nx - vx * ny  # <~ | trace-inner-f>; the tangential component (counter-clockwise)
     JM = face.ct.Jacobian_matrix(nodes)
     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
     face_boundary_integration_vec = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
@@ -280,7 +280,7 @@ def ___bi_vc_221i_quad_9___(element, degree, face, tvc):
     onv = face.ct.outward_unit_normal_vector(nodes)
     nx, ny = onv
     trStar_vc = tvc(*xy)[0]
-    trace_1f = vx * ny - vy * nx  # <~ | trace-inner-f>;
+    trace_1f = vy * nx - vx * ny  # <~ | trace-inner-f>; the tangential component (counter-clockwise)
     JM = face.ct.Jacobian_matrix(nodes)
     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
     face_boundary_integration_vec = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index e31fa7f..3308bcc 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -332,7 +332,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
             # below, we evaluate vc on the boundary
             trStar_vc = vc(t, *xy)[0]
             # this vector calculus object (a scalar) is for all regions; # <trStar_vc | ~>
-            trace_1f = vx * ny - vy * nx  # <~ | trace-inner-1-f>
+            trace_1f = vy * nx - vx * ny  # <~ | trace-inner-1-f>, the tangential component (counter-clockwise)
 
             if face.is_orthogonal():
                 length = face.length
-- 
2.43.0


From af2c93e683e2e5e6170fef8a9fe77410e2c1fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 64/73] fix: reading a form checks the space and degree of the
 saved one

---
 msehtt/static/form/main.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index feb688e..ca9624c 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -397,6 +397,7 @@ class MseHttForm(Frozen):
             form_para_dict = {
                 'key': 'msehtt-static-form',
                 'name': self.name,
+                'space': self._saving_space_info(),
                 'cochain': cochain,
                 'element signature dict': Element_Signature_Dict
             }
@@ -407,6 +408,16 @@ class MseHttForm(Frozen):
         else:
             pass
 
+    def _saving_space_info(self):
+        r"""The finite dimensional space of the form. Only a form of the same one can receive the saved cochain."""
+        space = self.space.abstract
+        degree = self.degree
+        if isinstance(degree, int):
+            degree = tuple([degree for _ in range(space.n)])
+        else:
+            pass
+        return space.indicator, space.m, space.n, space.k, space.orientation, str(degree)
+
     def read(self, filename):
         r"""Read to my cochain from a file whose key is equal to 'msehtt-static-form'.
 
@@ -426,6 +437,12 @@ class MseHttForm(Frozen):
                     obj = pickle.load(inputs)
                 inputs.close()
                 assert obj['key'] == 'msehtt-static-form'
+                if 'space' in obj:  # files of old versions do not have this info.
+                    assert obj['space'] == self._saving_space_info(), \
+                        f"cochain in the file is for a form of {obj['space']}, it cannot be read to a form of " \
+                        f"{self._saving_space_info()}."
+                else:
+                    pass
                 local_cochain = {}
                 cochain = obj['cochain']
                 Element_Signature_Dict = obj['element signature dict']
-- 
2.43.0


From 175d60f93d00d172b3059148a8411dafd7d69f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 65/73] fix: signatures of small elements

---
 msehtt/static/form/main.py                    | 13 ++++++------
 .../static/mesh/great/elements/types/base.py  | 20 +++++++++++++++++--
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index ca9624c..06aeed5 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -416,7 +416,7 @@ class MseHttForm(Frozen):
             degree = tuple([degree for _ in range(space.n)])
         else:
             pass
-        return space.indicator, space.m, space.n, space.k, space.orientation, str(degree)
+        return space.indicator, space.m, space.n, getattr(space, 'k', None), space.orientation, str(degree)
 
     def read(self, filename):
         r"""Read to my cochain from a file whose key is equal to 'msehtt-static-form'.
@@ -426,11 +426,6 @@ class MseHttForm(Frozen):
 
         """
 
-        element_signature_dict = {}
-        for e in self.tpm.composition:
-            element = self.tpm.composition[e]
-            element_signature_dict[e] = element.signature
-
         for rank in range(SIZE):
             if RANK == rank:
                 with open(filename, 'rb') as inputs:
@@ -450,7 +445,11 @@ class MseHttForm(Frozen):
                     total_t_cochain = cochain[t]
                     local_t_cochain = {}
                     for e in self.cochain.gathering_matrix:
-                        element_signature = element_signature_dict[e]
+                        element = self.tpm.composition[e]
+                        if 'space' in obj:
+                            element_signature = element.signature
+                        else:
+                            element_signature = element._make_signature()
                         assert element_signature in Element_Signature_Dict, \
                             f"Miss cochain for element indexed {e}: {self.tpm.composition[e]}"
                         index_in_file = Element_Signature_Dict[element_signature]
diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 6c0c45b..7f3ba38 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -149,17 +149,33 @@ class MseHttGreatMeshBaseElement(Frozen):
         elements to make sure we are reading the correct data into the correct elements because sometimes elements
         may be numbered differently.
         """
+        return self._make_signature(10)
+
+    def _make_signature(self, digits=None):
+        r"""``digits`` decimals of the coordinates are used. None: those of files made by old versions; small elements
+        cannot be distinguished then.
+        """
         if self.m() == self.n() == 2:  # 2d element in 2d space
+            if digits is None:
+                digits = 4
+            else:
+                pass
             X, Y = self.ct.mapping(___xi2___, ___et2___)
             signature = list()
             for x, y in zip(X, Y):
-                signature.append("({:.4f},{:.4f})".format(round(x, 4), round(y, 4)))
+                signature.append(f"({round(x, digits):.{digits}f},{round(y, digits):.{digits}f})")
             signature = ''.join(signature)
         elif self.m() == self.n() == 3:  # 3d element in 3d space
+            if digits is None:
+                digits = 3
+            else:
+                pass
             X, Y, Z = self.ct.mapping(___xi3___, ___et3___, ___sg3___)
             signature = list()
             for x, y, z in zip(X, Y, Z):
-                signature.append("({:.3f},{:.3f},{:.3f})".format(round(x, 3), round(y, 3), round(z, 3)))
+                signature.append(
+                    f"({round(x, digits):.{digits}f},{round(y, digits):.{digits}f},{round(z, digits):.{digits}f})"
+                )
             signature = ''.join(signature)
         else:
             raise NotImplementedError((self.m(), self.n()))
-- 
2.43.0


From 0077ce224ce883dbedb442648a844b40f638eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 66/73] fix: groups of region wise data keep their names when
 they are saved

---
 tools/dds/region_wise_structured_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/dds/region_wise_structured_group.py b/tools/dds/region_wise_structured_group.py
index b211f23..44d6541 100644
--- a/tools/dds/region_wise_structured_group.py
+++ b/tools/dds/region_wise_structured_group.py
@@ -95,6 +95,7 @@ class DDS_RegionWiseStructured_Group(Frozen):
             'key': 'dds-rws-grouped',
             'coo_dict_list': self._coo_dict_list,
             'val_dict_list_group': self._val_dict_list_group,
+            'names': self._value_names,
         }
         with open(filename, 'wb') as output:
             pickle.dump(data_dict, output, pickle.HIGHEST_PROTOCOL)
@@ -110,6 +111,10 @@ class DDS_RegionWiseStructured_Group(Frozen):
         assert data['key'] == 'dds-rws-grouped', f'I am reading a wrong file.'
         coo_dict_list = data['coo_dict_list']
         val_dict_list_group = data['val_dict_list_group']
+        if 'names' in data:  # files of old versions do not have the names.
+            val_dict_list_group = {name: val for name, val in zip(data['names'], val_dict_list_group)}
+        else:
+            pass
         return DDS_RegionWiseStructured_Group(coo_dict_list, val_dict_list_group)
 
     # -- properties --------------------------------------------------------------------------
-- 
2.43.0


From 551d0917f779ba2eee25ef0b3e73420ce4211c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 67/73] fix: numbering of refined meshes whose cells look at a
 face from different directions

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 3dc6cac..b9e9f81 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -506,6 +506,18 @@ def _find_refined_able_pairs_m2n2_(base_mesh, element_indices):
     return refined_able_pairs, elements_facing_boundary
 
 
+def _indicator_on_face_(start, end, position):
+    r"""The indicator of a vortex at `position` (in [-1, 1]) of the face from vortex `start` to vortex `end`.
+
+    The two elements of a face may look at it from different directions.
+    """
+    if end < start:
+        start, end, position = end, start, -position
+    else:
+        pass
+    return start, end, position
+
+
 def _make_element_map_m2n2_(base_mesh, element_indices):
     r""""""
     _, _, element_map_dict = base_mesh
@@ -529,21 +541,13 @@ def _make_element_map_m2n2_(base_mesh, element_indices):
                 elif x == 1 and y == 1:  # this vortex is the South-East corner of the quad element
                     node_indicator = element_nodes[2]
                 elif x == -1:  # on north edge
-                    face_nodes = [element_nodes[0], element_nodes[3]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _indicator_on_face_(element_nodes[0], element_nodes[3], y)
                 elif x == 1:  # on South edge
-                    face_nodes = [element_nodes[1], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _indicator_on_face_(element_nodes[1], element_nodes[2], y)
                 elif y == -1:  # on West edge
-                    face_nodes = [element_nodes[0], element_nodes[1]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _indicator_on_face_(element_nodes[0], element_nodes[1], x)
                 elif y == 1:  # on East edge
-                    face_nodes = [element_nodes[3], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _indicator_on_face_(element_nodes[3], element_nodes[2], x)
                 else:
                     node_indicator = (e[0], x, y)
 
-- 
2.43.0


From ff929ba789e4fb0e7ffef6e84dd8c3abc0d0d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 68/73] fix: renewing with method 1 reports whether the mesh is
 the same

---
 msehtt/adaptive/form/renew/method_1_global_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msehtt/adaptive/form/renew/method_1_global_interpolation.py b/msehtt/adaptive/form/renew/method_1_global_interpolation.py
index a45db51..25bda09 100644
--- a/msehtt/adaptive/form/renew/method_1_global_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_1_global_interpolation.py
@@ -68,6 +68,9 @@ class MseHtt_FormCochainRenew_Method1_GlobalInterpolation(Frozen):
         else:
             pass
 
+        from phyem.msehtt.adaptive.form.renew.method_3_local_interpolation import compare_two_meshes
+        return {'all same': compare_two_meshes(self._ff.tpm.composition, self._tf.tpm.composition)[2]}
+
     # noinspection PyUnboundLocalVariable
     def ___renew_a_cochain___(self, t, NODES):
         r""""""
-- 
2.43.0


From 2dd181583033f89aadb50bdc9346a7488b2b7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 69/73] fix: renewing finds the base cells of meshes that are
 not split

---
 msehtt/adaptive/form/renew/method_3_local_interpolation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index 3676bdd..f445564 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -374,6 +374,13 @@ def compare_two_meshes(elements0, elements1):
 
 def ___find_base_element_index___(e):
     r""""""
+    if isinstance(e, str):
+        pass
+    elif isinstance(e, tuple):  # a triangle of a refined mesh
+        return int(e[0])
+    else:
+        return int(e)  # a base element
+
     if e[0] == '(':
         s_ind = e.split(')')[0][1:].split(',')[0]
     else:
-- 
2.43.0


From b5f0f7e40d83040b11007de957cfcf48c4d36545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 70/73] fix: refining all cells of an msehtt mesh more than
 once

---
 msehtt/static/mesh/great/config/msepy_trf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/mesh/great/config/msepy_trf.py b/msehtt/static/mesh/great/config/msepy_trf.py
index 3f91423..723691a 100644
--- a/msehtt/static/mesh/great/config/msepy_trf.py
+++ b/msehtt/static/mesh/great/config/msepy_trf.py
@@ -10,7 +10,7 @@ from phyem.msehtt.static.mesh.great.config.msepy_ import MseHttMsePyConfig
 # noinspection PyUnusedLocal
 def ___default_trf_1___(x, *args, **kwargs):
     r""""""
-    return np.ones_like(x)
+    return 0 * x + 1.0  # a number when `x` is a number
 
 
 class MseHttMsePy_Trf_Config(Frozen):
-- 
2.43.0


From 7f4144e9969aefb522b1dc9c0f0659b2088eb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 71/73] fix: reading the cochains of a form in parallel does
 not deadlock

---
 msehtt/static/form/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index 06aeed5..4b8926c 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -426,6 +426,8 @@ class MseHttForm(Frozen):
 
         """
 
+        gm = self.cochain.gathering_matrix  # all ranks make it together, not one by one.
+
         for rank in range(SIZE):
             if RANK == rank:
                 with open(filename, 'rb') as inputs:
@@ -444,7 +446,7 @@ class MseHttForm(Frozen):
                 for t in cochain:
                     total_t_cochain = cochain[t]
                     local_t_cochain = {}
-                    for e in self.cochain.gathering_matrix:
+                    for e in gm:
                         element = self.tpm.composition[e]
                         if 'space' in obj:
                             element_signature = element.signature
-- 
2.43.0


From 90d7e3131cc607b6ca0f9241d49a42f22f3fb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 72/73] fix: the L2-norm of region-wise data uses the number of
 points of each direction

---
 tools/dds/region_wise_structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dds/region_wise_structured.py b/tools/dds/region_wise_structured.py
index f05286f..67c0de2 100644
--- a/tools/dds/region_wise_structured.py
+++ b/tools/dds/region_wise_structured.py
@@ -191,10 +191,10 @@ class DDSRegionWiseStructured(Frozen):
                 component_integral = 0
                 for region_key in val_dict:
                     h = list()
-                    for coo_dict in self._coo_dict_list:
+                    for i, coo_dict in enumerate(self._coo_dict_list):
                         coo = coo_dict[region_key]
                         MAX, MIn = np.max(coo), np.min(coo)
-                        shape = coo.shape[0]
+                        shape = coo.shape[i]
                         dh = (MAX - MIn) / shape
                         h.append(dh)
                     volume = np.prod(h)
-- 
2.43.0


From a6604c13c465a9341bdb2e1f6fa9260133c0d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 73/73] fix: the stream function of region-wise data connects
 regions whose corners are zero up to rounding

---
 tools/dds/region_wise_structured.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tools/dds/region_wise_structured.py b/tools/dds/region_wise_structured.py
index 67c0de2..e537970 100644
--- a/tools/dds/region_wise_structured.py
+++ b/tools/dds/region_wise_structured.py
@@ -703,7 +703,7 @@ class DDSRegionWiseStructured(Frozen):
                 s_c00, s_sf = starting_coo_and_sf
                 if self.classification == '2d vector':
                     # noinspection PyTypeChecker
-                    corner_pool['%.7f-%.7f' % (s_c00[0], s_c00[1])] = s_sf
+                    corner_pool[_corner_key_(s_c00[0], s_c00[1])] = s_sf
                 else:
                     raise Exception()
                 empty_corner_pool = False
@@ -780,19 +780,19 @@ class DDSRegionWiseStructured(Frozen):
     @staticmethod
     def _renew_starting_point_2d_(corner_pool, x, y):
         """"""
-        xm_ym = '%.7f-%.7f' % (x[0, 0], y[0, 0])
+        xm_ym = _corner_key_(x[0, 0], y[0, 0])
         if xm_ym in corner_pool:
             return (0, 0), corner_pool[xm_ym]
 
-        xp_ym = '%.7f-%.7f' % (x[-1, 0], y[-1, 0])
+        xp_ym = _corner_key_(x[-1, 0], y[-1, 0])
         if xp_ym in corner_pool:
             return (-1, 0), corner_pool[xp_ym]
 
-        xm_yp = '%.7f-%.7f' % (x[0, -1], y[0, -1])
+        xm_yp = _corner_key_(x[0, -1], y[0, -1])
         if xm_yp in corner_pool:
             return (0, -1), corner_pool[xm_yp]
 
-        xp_yp = '%.7f-%.7f' % (x[-1, -1], y[-1, -1])
+        xp_yp = _corner_key_(x[-1, -1], y[-1, -1])
         if xp_yp in corner_pool:
             return (-1, -1), corner_pool[xp_yp]
 
@@ -802,10 +802,10 @@ class DDSRegionWiseStructured(Frozen):
     def _find_corner_xy_sf_(x, y, sf):
         """"""
         corner_sf_pool = {
-            '%.7f-%.7f' % (x[0, 0], y[0, 0]): sf[0, 0],
-            '%.7f-%.7f' % (x[-1, 0], y[-1, 0]): sf[-1, 0],
-            '%.7f-%.7f' % (x[0, -1], y[0, -1]): sf[0, -1],
-            '%.7f-%.7f' % (x[-1, -1], y[-1, -1]): sf[-1, -1]
+            _corner_key_(x[0, 0], y[0, 0]): sf[0, 0],
+            _corner_key_(x[-1, 0], y[-1, 0]): sf[-1, 0],
+            _corner_key_(x[0, -1], y[0, -1]): sf[0, -1],
+            _corner_key_(x[-1, -1], y[-1, -1]): sf[-1, -1]
         }
         return corner_sf_pool
 
@@ -1027,6 +1027,11 @@ class DDSRegionWiseStructured(Frozen):
 
 # ================================================================================================================
 
+def _corner_key_(x, y):
+    """The same key for coordinates that are equal up to rounding (also for those around zero)."""
+    return '%.7f-%.7f' % (round(x, 7) + 0., round(y, 7) + 0.)
+
+
 def _find_shape(list_of_dict):
     """"""
     d = list()
-- 
2.43.0

