From 4d3dfa4c04cfe78f151fe61693a35c709396e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 01/43] fix: default tensor symmetry only relates indices of
 the same kind

The default symmetrised e.g. the spinor index of an exotic fermion with its
isospin index, so simplify() put indices of one kind in the slots of another
and judged couplings of identical exotic fermions wrongly.
---
 neutrinomass/tensormethod/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a6b5fef..40f4682 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -603,10 +603,13 @@ class IndexedField(tensor.Tensor, Field):
         index_types = [i.tensor_index_type for i in tensor_indices]
 
         if symmetry is None:
-            n_gauge_indices = (
-                len(indices) if GENERATION not in index_types else len(indices) - 1
-            )
-            symmetry = [[1] * n_gauge_indices] if indices else []
+            # only indices of the same kind are symmetrised
+            kinds = [(i.index_type, i.is_up) for i in tensor_indices]
+            symmetry = [
+                [1] * len(list(group))
+                for kind, group in groupby(kinds)
+                if kind[0] != "Generation"
+            ]
 
         if isinstance(label, tensor.TensorHead):
             tensor_head = label
-- 
2.43.0


From 1fa2898d1d5956a95b352317c7f97d329fa6270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 02/43] fix: exotic fermions anticommute in the tensors built
 for them

__init__ records comm=FERMI, but the tensor head was made in __new__ with the
commuting default, so the antisymmetric couplings of two identical exotic
fermions were rejected as vanishing and the vanishing ones kept.
---
 neutrinomass/completions/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 04b4c37..503f936 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -24,8 +24,11 @@ from neutrinomass.tensormethod.lagrangian import Lagrangian
 class FieldType(IndexedField):
     """Base class for exotic fields."""
 
+    # commutation symmetry of the underlying tensor, overridden by fermions
+    COMM = BOSE
+
     def __new__(cls, *args, **kwargs):
-        return super(FieldType, cls).__new__(cls, *args, **kwargs)
+        return super(FieldType, cls).__new__(cls, *args, **{**kwargs, "comm": cls.COMM})
 
     def lower_su2(self, skip=[]):
         undotted, dotted, _, isospin, _ = self.indices_by_type.values()
@@ -188,6 +191,8 @@ class RealScalar(FieldType):
 
 
 class MajoranaFermion(FieldType):
+    COMM = FERMI
+
     def __init__(
         self, label, indices, charges=None, latex=None, is_conj=False, **kwargs
     ):
@@ -252,6 +257,8 @@ class VectorLikeDiracFermion(FieldType):
 
     """
 
+    COMM = FERMI
+
     def __init__(
         self,
         label,
-- 
2.43.0


From f6a8a614d5f1c6b9799b17b14c9a9e68b2a03bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 03/43] fix: Dirac partner of a conjugated fermion keeps its
 dagger last
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The label ψ†~ was read back as the field ψ†† and not ψ~†, so the partner of
the conjugate and the conjugate of the partner were different fields.
---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 503f936..5112b30 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -339,7 +339,9 @@ class VectorLikeDiracFermion(FieldType):
         is_unbarred = self.is_unbarred
         symb = "~"  # indicate bar with circumflex
         if is_unbarred:
-            label = self.label + symb
+            # keep the dagger of a conjugated field at the end of the label
+            dagger = "†" if self.is_conj else ""
+            label = self.label.replace("†", "") + symb + dagger
         else:
             label = self.label.replace(symb, "")
 
-- 
2.43.0


From 2bed698cbe548a30f8ec904883a0cd2d2f5ab8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 04/43] fix: fields stripped of their derivatives are the
 original fields

They lost their statistics and generations in derivative_combinations and kept
the derivative bookkeeping in strip_derivs, so they compared unequal to the SM
fields and the U(1) analysis of every derivative-operator completion raised a
KeyError.
---
 neutrinomass/completions/completions.py | 4 +++-
 neutrinomass/tensormethod/core.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d97eec2..532c61d 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1182,7 +1182,9 @@ def operator_strip_derivs(op: Operator) -> List[Operator]:
                 assert field.derivs == 1
                 n_derivs += 1
                 data = field.stripped
-                new_field = Field(**data, is_conj=field.is_conj)
+                new_field = Field(
+                    **data, is_conj=field.is_conj, comm=field.comm, nf=field.nf
+                )
                 indices = field.gauge_indices
                 new_fields.append((new_field, " ".join(str(i) for i in indices)))
                 # new_fields.append((new_field, indices))
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 40f4682..0d4d892 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -872,7 +872,7 @@ class IndexedField(tensor.Tensor, Field):
             "nf": self.nf,
             "derivs": 0,
             "charges": {k: v for k, v in self.charges.items()},
-            "stripped": self.stripped,
+            "stripped": None,
         }
 
         kwargs = {**self.stripped, **other}
-- 
2.43.0


From 77a1acbde2053c4aba2c0b6e734b142a60270bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 05/43] fix: different exotics in one completion get different
 symbols
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The symbol was looked up by the fields contracted alone, so e.g. the isosinglet
and the isotriplet in L H were both called ψ in the same diagram.
---
 neutrinomass/completions/completions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 532c61d..ebc651f 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -507,7 +507,9 @@ def exotic_field_and_term(
         symbols_to_use = symbols["boson"]
 
     fs = sorted([f.field for f in fields], key=lambda x: x.label_with_dagger)
-    fs = tuple(fs)
+    # the same fields may be contracted in different ways in one diagram, so the
+    # exotic's quantum numbers are needed as well to identify it
+    fs = (*fs, get_dynkin(exotic_indices))
     if fs in field_dict.keys():
         symbol = field_dict[fs]
     else:
-- 
2.43.0


From 2abb02a4e0b5655e9360b856a0e0d8143484dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 06/43] fix: reject completions whose last coupling vanishes
 identically

Every other vertex was checked. The message for the derivative case also used
an undefined name.
---
 neutrinomass/completions/completions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index ebc651f..43019f0 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -911,7 +911,12 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
             return proc_term
 
         if proc_term.safe_simplify() == 0:
-            return f"Vanishing coupling at {maybe_term} after derivative processing."
+            return f"Vanishing coupling at {prod} after derivative processing."
+
+    # make sure the last coupling doesn't vanish, only possible if fields double up
+    labels = [f.label for f in proc_term.fields]
+    if len(set(labels)) < len(labels) and proc_term.safe_simplify() == 0:
+        return f"Vanishing coupling at {proc_term}"
 
     # make sure the term is a singlet
     check_singlet(proc_term)
-- 
2.43.0


From de650e59546fa404e594ead4550f63559d406fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 07/43] fix: colour_singlets returns only singlets for three
 (anti)triplets

Next to the epsilon contraction it also returned the operator with its colour
indices left open, once for each permutation of them.
---
 neutrinomass/tensormethod/contract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index 7ef3183..e0a63bc 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -52,8 +52,10 @@ def colour_singlets(operators: List[Operator], overcomplete=False):
 
         if len(ups) == 3 and not downs:
             result.append(op * eps(" ".join(str(-i) for i in ups)))
+            continue
         elif len(downs) == 3 and not ups:
             result.append(op * eps(" ".join(str(-i) for i in downs)))
+            continue
         elif len(downs) == 3 and len(ups) == 3:
             result.append(
                 op
-- 
2.43.0


From 92c6d944b6544e91f058bbb2b79f2e5d2d5e0254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 08/43] fix: completions() dispatches on its argument

It read an undefined name, so every call raised a NameError.
---
 neutrinomass/completions/completions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 43019f0..c1e7dee 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1281,11 +1281,11 @@ def deriv_operator_completions(
     return comps
 
 
-def completions(*args, **kwargs):
+def completions(operator: EffectiveOperator, *args, **kwargs):
     """General dispatch function for completions"""
     if "D" in operator.name:
-        return deriv_operator_completions(*args, **kwargs)
-    return operator_completions(*args, **kwargs)
+        return deriv_operator_completions(operator, *args, **kwargs)
+    return operator_completions(operator, *args, **kwargs)
 
 
 def collect_models(comps):
-- 
2.43.0


From 53c7b714c7d65c8f199464ad9e9942d562be4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 09/43] fix: collect_completions keeps all completions with one
 field content

groupby only groups neighbours; a later group replaced an earlier one with the
same fields.
---
 neutrinomass/completions/completions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index c1e7dee..6504686 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1114,7 +1114,8 @@ def collect_completions(
         g_list = list(g)
         # slow_remove_equivalent_completions(g_list)
         k = tuple(sorted(set(k)))
-        out[k] = g_list
+        # completions with the same content need not be next to each other
+        out[k] = out.get(k, []) + g_list
 
     return out
 
-- 
2.43.0


From ae5d0f03b180f7a4f0880aab978de317a87f40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 10/43] fix: closure rules conserve electric charge

Two rules had hp for c(hp), so a closure could change the total charge by two
units and others were missed.
---
 neutrinomass/database/closures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index de1be9f..834af54 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -116,9 +116,9 @@ RULES = {
     Op(hp, d, RST): Op(Const(yu), c(ub), Const(loop), RST),
     Op(hp, ub, RST): Op(Const(yu), c(d), Const(loop), RST),
     Op(c(hp), c(ub), RST): Op(Const(yu), d, Const(loop), RST),
-    Op(hp, u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
+    Op(c(hp), u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
     # make hp
-    Op(c(eb), nu, RST): Op(Const(ye), hp, nu, nu, RST),
+    Op(c(eb), nu, RST): Op(Const(ye), c(hp), nu, nu, RST),
     # vev
     Op(h0, RST): Op(Const(v), RST),
     Op(c(h0), RST): Op(Const(v), RST),
-- 
2.43.0


From 1952c2be17a9bf18c2c5424a14f918e42f04dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 11/43] fix: ModelDatabase.force keeps the models of every
 operator

It kept only those of the last one.
---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5d2239c..d62aaae 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -287,8 +287,7 @@ class ModelDatabase:
             return
 
         self.is_forced = True
-        for k, v in self.data.items():
-            self.data = {k: [m.force() for m in v]}
+        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From 722503058188249ea5547efcba3a7f6d3f058207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 12/43] fix: a database read from files knows that it isn't
 ordered

filter() raised an AttributeError and did not order it first.
---
 neutrinomass/database/database.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index d62aaae..569bef7 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -171,6 +171,7 @@ class ModelDatabase:
             mvdb_data = [dict(read_completions(f)) for f in filenames]
             mv_dict = {k: v for d in mvdb_data for k, v in d.items()}
             self.data = mv_dict
+            self.is_ordered = False
 
         else:
             self.path = None
-- 
2.43.0


From e464734e030d4c8cb7f9eaf75abcac5151ab92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 13/43] fix: read all models of an operator spread over several
 files

Only those of the last file read were kept.
---
 neutrinomass/database/database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 569bef7..d0a72dd 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -169,7 +169,11 @@ class ModelDatabase:
             # print("Initialising database...")
             filenames = glob(os.path.join(self.path, "*.dat"))
             mvdb_data = [dict(read_completions(f)) for f in filenames]
-            mv_dict = {k: v for d in mvdb_data for k, v in d.items()}
+            mv_dict = {}
+            for d in mvdb_data:
+                for k, v in d.items():
+                    mv_dict[k] = mv_dict.get(k, []) + v
+
             self.data = mv_dict
             self.is_ordered = False
 
-- 
2.43.0


From 1dbeb722de8bb2e4a9cb5943542ac8bfec489c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 14/43] fix: related_models of a model with a single field

It raised a ValueError since the model itself is not among the candidates.
---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index d0a72dd..d712931 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -144,8 +144,7 @@ class ModelDataFrame(pd.DataFrame):
             prod = reduce(operator.mul, group)
             indices += list(self[self["democratic_num"] == prod].index)
 
-        indices.remove(index)
-        return self.loc[indices]
+        return self.loc[[i for i in indices if i != index]]
 
 
 class ModelDatabase:
-- 
2.43.0


From 1857a0ec70ef70f5f0acc9a27f7c1c5c616665ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 15/43] fix: json export of completions

The graph carries field labels and not fields, and newer networkx calls its
links edges, so every call raised.
---
 neutrinomass/database/json_serialiser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/json_serialiser.py b/neutrinomass/database/json_serialiser.py
index 454383a..e908679 100644
--- a/neutrinomass/database/json_serialiser.py
+++ b/neutrinomass/database/json_serialiser.py
@@ -89,8 +89,11 @@ def export_partition(expr):
 
 def export_graph(g: nx.Graph):
     data = nx.readwrite.json_graph.node_link_data(g)
-    for link in data["links"]:
-        link["particle"] = export_tensor(link["particle"])
+    # key depends on the networkx version
+    for link in data["links"] if "links" in data else data["edges"]:
+        # the graphs of completions carry the labels of the fields
+        if not isinstance(link["particle"], str):
+            link["particle"] = export_tensor(link["particle"])
 
     return data
 
-- 
2.43.0


From 3f3bfaeb1d7c708cfaaf1876d41ca3f9055c6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 16/43] fix: exported completions keep track of barred fermions
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The flag was passed to IndexedField, which drops it, so the Dirac partner of a
barred fermion read back was ψ~~.
---
 neutrinomass/database/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index a8caf6b..c72d1dc 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -30,10 +30,11 @@ def export_tensor(tensor):
         is_unbarred = None
         if hasattr(tensor, "is_unbarred"):
             is_unbarred = tensor.is_unbarred
-        kwargs += (f"is_unbarred={is_unbarred}",)
 
         kwargs_str = ", ".join(kwargs)
-        indexed_field = f"ExoticField(IndexedField({kwargs_str}))"
+        indexed_field = (
+            f"ExoticField(IndexedField({kwargs_str}), is_unbarred={is_unbarred})"
+        )
         return indexed_field
 
     if isinstance(tensor, Field):
-- 
2.43.0


From c288e63994a277f121fd257ad08c3b4e7b2700fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 17/43] fix: conjugating a field with derivatives conjugates
 the field below them
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

strip_derivs on the conjugate of DL gave L† with the Lorentz irrep of L.
---
 neutrinomass/tensormethod/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 0d4d892..fb88724 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -513,9 +513,22 @@ class Field:
             latex=self.latex,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=self.conj_stripped,
         )
 
+    @property
+    def conj_stripped(self):
+        """Information about the field without its derivatives, conjugated."""
+        if self.stripped is None:
+            return None
+
+        d = self.stripped["dynkin"]
+        return {
+            **self.stripped,
+            "dynkin": d[1] + d[0] + d[3] + d[2] + d[4:],
+            "charges": {k: -v for k, v in self.stripped["charges"].items()},
+        }
+
     def walked(self) -> Prod:
         if not self.history:
             return self
@@ -737,7 +750,7 @@ class IndexedField(tensor.Tensor, Field):
             comm=self.comm,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=self.conj_stripped,
         )
 
     @property
-- 
2.43.0


From 3b2bfab80743e4966b6d82186e050b3a718c5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 18/43] fix: the full Lagrangian lists each mass term once

---
 neutrinomass/tensormethod/lagrangian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index b7ea95f..a686536 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -161,9 +161,8 @@ class Lagrangian:
         return len(self.u1_symmetries())
 
     def generate_full(self):
-        interaction_terms = generate_uv_terms(self.fields)
-        exotic_mass_terms = [f.mass_term for f in self.fields]
-        return Lagrangian(self.exotics, interaction_terms + exotic_mass_terms)
+        # mass terms are added in the terms property
+        return Lagrangian(self.exotics, generate_uv_terms(self.fields))
 
 
 def term_to_row(term, exotics, exotic_indices):
-- 
2.43.0


From 3a79c5bb98da0ea526e5f0b5836418fcfcefa2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 19/43] fix: an operator with index-free fields can simplify to
 zero

---
 neutrinomass/tensormethod/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index fb88724..a420da1 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1075,7 +1075,11 @@ class Operator(tensor.TensMul):
                 return self
 
             indexed_op = reduce(lambda x, y: x * y, indexed)
-            return reduce(lambda x, y: x * y, unindexed, indexed_op.simplify())
+            simple = indexed_op.simplify()
+            if simple == 0:
+                return 0
+
+            return reduce(lambda x, y: x * y, unindexed, simple)
 
     def is_equivalent_to(self, other: "Operator"):
         """Returns true if operators equal up to numerical constant or free index
-- 
2.43.0


From 0667a864feba706eb5fae3a9e73f57f5c7cbe39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 20/43] fix: operators equal up to a sign or with index-free
 fields are cleaned

---
 neutrinomass/tensormethod/contract.py | 7 ++++---
 neutrinomass/tensormethod/core.py     | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index e0a63bc..ce2273d 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -373,12 +373,13 @@ def clean_operators(operators):
     """Delete duplicates (ignoring relabellings) and remove vanishing operators."""
     seen, out = set(), []
     for op in operators:
-        op_tens_mul = op.simplify(fill=True)
+        op_tens_mul = op.safe_simplify(fill=True)
         if not op_tens_mul:
             continue
-        if not op_tens_mul in seen:
+        # operators differing by a sign are the same operator
+        if not op_tens_mul.nocoeff in seen:
             out.append(op)
-            seen.add(op_tens_mul)
+            seen.add(op_tens_mul.nocoeff)
 
     return out
 
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a420da1..70d9707 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1058,9 +1058,9 @@ class Operator(tensor.TensMul):
 
         return simple.canon_bp()
 
-    def safe_simplify(self):
+    def safe_simplify(self, fill=False):
         try:
-            return self.simplify()
+            return self.simplify(fill=fill)
         except IndexError:
             # deal with no index case (sometimes throws an error)
             # collect fields with indices and only use canon_bp on those
@@ -1075,7 +1075,7 @@ class Operator(tensor.TensMul):
                 return self
 
             indexed_op = reduce(lambda x, y: x * y, indexed)
-            simple = indexed_op.simplify()
+            simple = indexed_op.simplify(fill=fill)
             if simple == 0:
                 return 0
 
-- 
2.43.0


From e4fd16e5db1ebfee49865970d2ea3a5031a9d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 21/43] fix: stripping derivatives keeps the flavour index

Without it two different flavours of one field looked identical, couplings that
are antisymmetric in flavour were taken to vanish and completions of derivative
operators (D4a, D4b, D7a, D13a) were lost.
---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 70d9707..186ffa8 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -904,8 +904,8 @@ class IndexedField(tensor.Tensor, Field):
             return self
 
         field = self.strip_derivs()
-        undotted, dotted, colour, isospin, _ = self.indices_by_type.values()
-        indices = " ".join(str(i) for i in colour + isospin)
+        undotted, dotted, colour, isospin, gen = self.indices_by_type.values()
+        indices = " ".join(str(i) for i in colour + isospin + gen)
         lorentz = undotted + dotted
         if field.is_fermion and self.derivs % 2 == 0:
             lorentz = lorentz[0]
-- 
2.43.0


From e6f4ff5b5330fda405d38659631f01d4459a09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 22/43] fix: completions of operators with three identical
 isosinglets
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

indexed_fields_with_counters relabelled the third field twice and raised
ValueError (e.g. for db db db L H†).
---
 neutrinomass/completions/completions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 6504686..ab57cf2 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -184,6 +184,10 @@ def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
     labelled_counts = {k: [[f, i] for i, f in enumerate(v)] for k, v in counts.items()}
     for k, v in labelled_counts.items():
         for (f1, i1), (f2, i2) in combinations(v, 2):
+            if [f2, i2] not in labelled_counts[k]:
+                # already interchangeable with an earlier field
+                continue
+
             if not f1.indices_by_type["Isospin"]:
                 # fields are interchangeable, replace
                 f2_idx = labelled_counts[k].index([f2, i2])
-- 
2.43.0


From a6b64fbad832b8ed15736d59ba7bce38ff42093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 23/43] fix: npoint_fieldstrings leaves the SM fields alone

---
 neutrinomass/tensormethod/lagrangian.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index a686536..852ac83 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -5,6 +5,7 @@ finding.
 
 """
 
+from copy import copy
 from itertools import combinations_with_replacement
 from alive_progress import alive_bar
 from sympy import Matrix
@@ -34,13 +35,20 @@ def make_coupling(symbol: str, indices: str, sym=None):
     return tensorhead(symbol, [Index(i) for i in indices_list], sym)
 
 
+def with_charge(field: Field, name: str, value) -> Field:
+    """Returns a copy of `field` that carries the additional charge `name`."""
+    out = copy(field)
+    out.charges = {**field.charges, name: value}
+    return out
+
+
 def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None):
-    L.charges["l"] = 1
-    eb.charges["l"] = -1
-    Q.charges["l"] = 0
-    ub.charges["l"] = 0
-    db.charges["l"] = 0
-    H.charges["l"] = 0
+    # lepton number of the SM fields, tracked on copies of them
+    lepton_number = {L: 1, eb: -1, Q: 0, ub: 0, db: 0, H: 0}
+    fields = tuple(
+        with_charge(f, "l", lepton_number[f]) if f in lepton_number else f
+        for f in fields
+    )
 
     conjs = tuple([f.conj for f in fields])
     if derivs:
@@ -64,9 +72,6 @@ def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None
                 terms += [singlets[0]]
             bar()
 
-    # for f in [L, eb, Q, ub, db, H]:
-    #     del f.charges["l"]
-
     return terms
 
 
-- 
2.43.0


From 25889f44840b0f77d02a71474ea9cfd09b06c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 24/43] fix: deep copies of operators, fields and completions

---
 neutrinomass/completions/core.py  |  3 +++
 neutrinomass/tensormethod/core.py | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 5112b30..22bdaaf 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -82,6 +82,8 @@ class FieldType(IndexedField):
             is_conj=self.is_conj,
             symmetry=deepcopy(self.symmetry, memo),
             comm=self.comm,
+            # only meaningful for VectorLikeDiracFermion
+            is_unbarred=getattr(self, "is_unbarred", None),
         )
 
 
@@ -433,6 +435,7 @@ class Completion:
             graph=deepcopy(self.graph, memo),
             exotics=deepcopy(self.exotics, memo),
             terms=deepcopy(self.terms, memo),
+            topology=self.topology,
         )
 
     @property
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 186ffa8..a655f43 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -99,6 +99,10 @@ class Index(tensor.TensorIndex):
             self.label = label.label
         self.label = str(label)  # the label that was passed in
 
+    def __deepcopy__(self, memo):
+        # immutable, and sympy's default would lose track of lowered indices
+        return self
+
     def __neg__(self):
         is_up = self.is_up
         new_label = "-" + self.label if is_up else self.label[1:]
@@ -841,6 +845,9 @@ class IndexedField(tensor.Tensor, Field):
 
         return self._dict == other._dict
 
+    def __deepcopy__(self, memo):
+        return self.__class__(**deepcopy(self._dict, memo))
+
     def __lt__(self, other):
         """An arbitrary way to order indexed fields."""
         comp_func = lambda x: f"{x.label}{x.dynkin}{x.indices}{x.charges}{x.is_conj}"
@@ -1199,7 +1206,13 @@ class Operator(tensor.TensMul):
         return f"${self.latex()}$"
 
     def __deepcopy__(self, memo):
-        return self.__class__(tensors=deepcopy(self.tensors, memo))
+        # invariant tensors are immutable
+        return self.__class__(
+            *[
+                deepcopy(t, memo) if isinstance(t, IndexedField) else t
+                for t in self.tensors
+            ]
+        )
 
     @property
     def mass_dim(self):
-- 
2.43.0


From 69e46c611e1894fd93117acdfdc469732bf5fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 25/43] fix: a conjugated real scalar stays conjugated

---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 22bdaaf..5c5c3a9 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -567,7 +567,9 @@ def cons_completion_field(indexed_field: IndexedField, is_unbarred=None) -> Fiel
 
     if indexed_field.is_scalar:
         if indexed_field.is_real_sm_irrep:
-            return RealScalar(label, indices, charges=charges, latex=latex)
+            return RealScalar(
+                label, indices, charges=charges, latex=latex, is_conj=is_conj
+            )
 
         return ComplexScalar(
             label, indices, charges=charges, latex=latex, is_conj=is_conj
-- 
2.43.0


From 1c821121cdde4b84ea096d1a7b6bbe2b1916b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 26/43] fix: simplify products of index-free fields and
 invariant tensors

---
 neutrinomass/tensormethod/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a655f43..feb0910 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1081,8 +1081,11 @@ class Operator(tensor.TensMul):
             if not indexed:
                 return self
 
-            indexed_op = reduce(lambda x, y: x * y, indexed)
-            simple = indexed_op.simplify(fill=fill)
+            if len(indexed) == 1:
+                simple = indexed[0]
+            else:
+                simple = Operator(*indexed).simplify(fill=fill)
+
             if simple == 0:
                 return 0
 
-- 
2.43.0


From 5e652df8dd675e3103205611cbe7bfa0f2c8e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 27/43] fix: parse operators whose index names are prefixes of
 each other

parse_operator replaced index names inside other names (i1 in i12), which
raised IndexError or SyntaxError for such operators.
---
 neutrinomass/database/closures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index 834af54..c944cc4 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -221,8 +221,8 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
     eval_str = ""
     indices = [("_i", "_j"), ("_k", "_l"), ("_m", "_n"), ("_p", "_q")]
     for (i, j), (a, b) in zip(epsilons, indices):
-        field_string = field_string.replace(str(-i), a)
-        field_string = field_string.replace(str(-j), b)
+        field_string = field_string.replace(f"[{-i}]", f"[{a}]")
+        field_string = field_string.replace(f"[{-j}]", f"[{b}]")
         field_string += f"*eps[{a}][{b}]"
 
     loop_ranges = [1, 1, 1, 1, 1, 1, 1, 1]
-- 
2.43.0


From 08abca6826b4adfa9c4336a06fc8de004ba31a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 28/43] fix: signs of the Hilbert series

---
 neutrinomass/tensormethod/hs.py | 224 ++++++++++++++++----------------
 1 file changed, 112 insertions(+), 112 deletions(-)

diff --git a/neutrinomass/tensormethod/hs.py b/neutrinomass/tensormethod/hs.py
index 93cf638..8f671ce 100644
--- a/neutrinomass/tensormethod/hs.py
+++ b/neutrinomass/tensormethod/hs.py
@@ -107,57 +107,57 @@ H6 = (
     db(X) * dbd(X) * eb(X) * ebd(X),
     eb(X) ** 2 * ebd(X) ** 2,
     H(X) ** 3 * Hd(X) ** 3,
-    -eb(X) * H(X) * Hd(X) ** 2 * L(X),
+    eb(X) * H(X) * Hd(X) ** 2 * L(X),
     ebd(X) * H(X) ** 2 * Hd(X) * Ld(X),
     db(X) * dbd(X) * L(X) * Ld(X),
     eb(X) * ebd(X) * L(X) * Ld(X),
-    -L(X) ** 2 * Ld(X) ** 2,
+    L(X) ** 2 * Ld(X) ** 2,
     db(X) * H(X) * Hd(X) ** 2 * Q(X),
     db(X) * ebd(X) * Ld(X) * Q(X),
     L(X) * Q(X) ** 3,
     dbd(X) * H(X) ** 2 * Hd(X) * Qd(X),
-    -dbd(X) * eb(X) * L(X) * Qd(X),
+    dbd(X) * eb(X) * L(X) * Qd(X),
     2 * db(X) * dbd(X) * Q(X) * Qd(X),
     eb(X) * ebd(X) * Q(X) * Qd(X),
     2 * L(X) * Ld(X) * Q(X) * Qd(X),
-    -2 * Q(X) ** 2 * Qd(X) ** 2,
+    2 * Q(X) ** 2 * Qd(X) ** 2,
     Ld(X) * Qd(X) ** 3,
     3 * D * db(X) * dbd(X) * H(X) * Hd(X),
     3 * D * eb(X) * ebd(X) * H(X) * Hd(X),
-    -6 * D * H(X) * Hd(X) * L(X) * Ld(X),
+    6 * D * H(X) * Hd(X) * L(X) * Ld(X),
     6 * D * H(X) * Hd(X) * Q(X) * Qd(X),
     4 * D ** 2 * H(X) ** 2 * Hd(X) ** 2,
     4 * D ** 2 * eb(X) * Hd(X) * L(X),
-    -4 * D ** 2 * ebd(X) * H(X) * Ld(X),
+    4 * D ** 2 * ebd(X) * H(X) * Ld(X),
     4 * D ** 2 * db(X) * Hd(X) * Q(X),
     4 * D ** 2 * dbd(X) * H(X) * Qd(X),
     D ** 3 * db(X) * dbd(X),
-    -D ** 3 * eb(X) * ebd(X),
+    D ** 3 * eb(X) * ebd(X),
     D ** 3 * L(X) * Ld(X),
     D ** 3 * Q(X) * Qd(X),
     D ** 4 * H(X) * Hd(X),
     H(X) ** 2 * Hd(X) * Q(X) * ub(X),
-    -2 * eb(X) * L(X) * Q(X) * ub(X),
+    2 * eb(X) * L(X) * Q(X) * ub(X),
     2 * db(X) * Q(X) ** 2 * ub(X),
     db(X) * Ld(X) * Qd(X) * ub(X),
     eb(X) * Qd(X) ** 2 * ub(X),
-    -D * dbd(X) * H(X) ** 2 * ub(X),
+    D * dbd(X) * H(X) ** 2 * ub(X),
     4 * D ** 2 * H(X) * Q(X) * ub(X),
     db(X) * eb(X) * ub(X) ** 2,
     dbd(X) * L(X) * Q(X) * ubd(X),
-    -ebd(X) * Q(X) ** 2 * ubd(X),
+    ebd(X) * Q(X) ** 2 * ubd(X),
     H(X) * Hd(X) ** 2 * Qd(X) * ubd(X),
     2 * ebd(X) * Ld(X) * Qd(X) * ubd(X),
     2 * dbd(X) * Qd(X) ** 2 * ubd(X),
-    -D * db(X) * Hd(X) ** 2 * ubd(X),
+    D * db(X) * Hd(X) ** 2 * ubd(X),
     4 * D ** 2 * Hd(X) * Qd(X) * ubd(X),
     2 * db(X) * dbd(X) * ub(X) * ubd(X),
     eb(X) * ebd(X) * ub(X) * ubd(X),
-    -L(X) * Ld(X) * ub(X) * ubd(X),
+    L(X) * Ld(X) * ub(X) * ubd(X),
     2 * Q(X) * Qd(X) * ub(X) * ubd(X),
     3 * D * H(X) * Hd(X) * ub(X) * ubd(X),
     D ** 3 * ub(X) * ubd(X),
-    -dbd(X) * ebd(X) * ubd(X) ** 2,
+    dbd(X) * ebd(X) * ubd(X) ** 2,
     ub(X) ** 2 * ubd(X) ** 2,
 )
 
@@ -166,16 +166,16 @@ H7_LNV = (
     + Nf * D ** 2 * H(X) ** 2 * L(X) ** 2
     + Nf ** 2 * D ** 2 * H(X) ** 2 * L(X) ** 2
     - (Nf * B(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
     + (Nf ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
-    + -(Nf ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
+    + (Nf ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
     + (2 * Nf ** 4 * eb(X) * H(X) * L(X) ** 3) / 3
     + 2 * Nf ** 4 * db(X) * H(X) * L(X) ** 2 * Q(X)
-    + -Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
+    + Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
     + (Nf ** 3 * D * db(X) * L(X) ** 2 * ubd(X)) / 2
     + (Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X)) / 2
-    + -Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
+    + Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + Nf ** 2 * H(X) ** 2 * L(X) ** 2 * W(X)
 )
 
@@ -183,123 +183,123 @@ H9_LNV = (
     (Nf * D ** 2 * ebd(X) ** 2 * H(X) ** 4) / 2
     + (Nf ** 2 * D ** 2 * ebd(X) ** 2 * H(X) ** 4) / 2
     + 3 * Nf ** 2 * D ** 3 * ebd(X) * H(X) ** 3 * L(X)
-    + -Nf ** 2 * D * B(X) * ebd(X) * H(X) ** 3 * L(X)
+    + Nf ** 2 * D * B(X) * ebd(X) * H(X) ** 3 * L(X)
     + Nf ** 2 * D * Bb(X) * ebd(X) * H(X) ** 3 * L(X)
     + Nf ** 2 * D * ebd(X) * H(X) ** 4 * Hd(X) * L(X)
-    + -(3 * Nf * D ** 4 * H(X) ** 2 * L(X) ** 2) / 2
+    + (3 * Nf * D ** 4 * H(X) ** 2 * L(X) ** 2) / 2
     + (3 * Nf ** 2 * D ** 4 * H(X) ** 2 * L(X) ** 2) / 2
     - (Nf * D ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(7 * Nf ** 2 * D ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (7 * Nf ** 2 * D ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * B(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * B(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    - -Nf * D ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2
+    - Nf * D ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2
     + 2 * Nf ** 2 * D ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2
     + (Nf * Bb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    + -(Nf ** 2 * Bb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
+    + (Nf ** 2 * Bb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     - (Nf ** 3 * D * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(5 * Nf ** 4 * D * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (5 * Nf ** 4 * D * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2) / 2
     - (Nf ** 3 * D * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(5 * Nf ** 4 * D * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (5 * Nf ** 4 * D * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * G(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * G(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    + -(Nf * Gb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
+    + (Nf * Gb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * Gb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * D ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
-    + -(11 * Nf ** 2 * D ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
+    + (11 * Nf ** 2 * D ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
     - (Nf * B(X) * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
-    + -(Nf ** 2 * B(X) * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
+    + (Nf ** 2 * B(X) * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
     + (Nf * H(X) ** 4 * Hd(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * H(X) ** 4 * Hd(X) ** 2 * L(X) ** 2) / 2
-    - -(Nf ** 2 * D ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
+    - (Nf ** 2 * D ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
     + (10 * Nf ** 4 * D ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
     + Nf ** 4 * B(X) * eb(X) * H(X) * L(X) ** 3
-    + -Nf ** 4 * eb(X) * H(X) ** 2 * Hd(X) * L(X) ** 3
+    + Nf ** 4 * eb(X) * H(X) ** 2 * Hd(X) * L(X) ** 3
     + (13 * Nf ** 3 * eb(X) ** 2 * L(X) ** 4) / 24
     + (7 * Nf ** 4 * eb(X) ** 2 * L(X) ** 4) / 24
-    - -(Nf ** 5 * eb(X) ** 2 * L(X) ** 4) / 24
+    - (Nf ** 5 * eb(X) ** 2 * L(X) ** 4) / 24
     + (5 * Nf ** 6 * eb(X) ** 2 * L(X) ** 4) / 24
     + (Nf ** 3 * ebd(X) * H(X) ** 3 * L(X) ** 2 * Ld(X)) / 2
-    + -(Nf ** 4 * ebd(X) * H(X) ** 3 * L(X) ** 2 * Ld(X)) / 2
+    + (Nf ** 4 * ebd(X) * H(X) ** 3 * L(X) ** 2 * Ld(X)) / 2
     + (Nf ** 2 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 3
     - (Nf ** 3 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 2
-    + -(13 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 6
+    + (13 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 6
     + 5 * Nf ** 4 * D * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X)
-    + -10 * Nf ** 4 * D ** 2 * db(X) * H(X) * L(X) ** 2 * Q(X)
+    + 10 * Nf ** 4 * D ** 2 * db(X) * H(X) * L(X) ** 2 * Q(X)
     + 3 * Nf ** 4 * B(X) * db(X) * H(X) * L(X) ** 2 * Q(X)
     + 3 * Nf ** 4 * db(X) * G(X) * H(X) * L(X) ** 2 * Q(X)
-    + -3 * Nf ** 4 * db(X) * H(X) ** 2 * Hd(X) * L(X) ** 2 * Q(X)
+    + 3 * Nf ** 4 * db(X) * H(X) ** 2 * Hd(X) * L(X) ** 2 * Q(X)
     + (Nf ** 4 * db(X) * eb(X) * L(X) ** 3 * Q(X)) / 3
-    + -(5 * Nf ** 6 * db(X) * eb(X) * L(X) ** 3 * Q(X)) / 3
+    + (5 * Nf ** 6 * db(X) * eb(X) * L(X) ** 3 * Q(X)) / 3
     + (3 * Nf ** 3 * db(X) ** 2 * L(X) ** 2 * Q(X) ** 2) / 2
-    + -(5 * Nf ** 6 * db(X) ** 2 * L(X) ** 2 * Q(X) ** 2) / 2
+    + (5 * Nf ** 6 * db(X) ** 2 * L(X) ** 2 * Q(X) ** 2) / 2
     + (Nf ** 3 * dbd(X) * H(X) ** 3 * L(X) ** 2 * Qd(X)) / 2
-    + -(Nf ** 4 * dbd(X) * H(X) ** 3 * L(X) ** 2 * Qd(X)) / 2
+    + (Nf ** 4 * dbd(X) * H(X) ** 3 * L(X) ** 2 * Qd(X)) / 2
     + Nf ** 4 * ebd(X) * H(X) ** 3 * L(X) * Q(X) * Qd(X)
-    - -(Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)) / 2
+    - (Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)) / 2
     + (13 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)) / 2
-    + -Nf ** 4 * H(X) ** 3 * L(X) ** 2 * Q(X) * ub(X)
+    + Nf ** 4 * H(X) ** 3 * L(X) ** 2 * Q(X) * ub(X)
     + Nf ** 4 * D * db(X) * ebd(X) ** 2 * H(X) ** 2 * ubd(X)
-    + -7 * Nf ** 4 * D ** 2 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
+    + 7 * Nf ** 4 * D ** 2 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
     + Nf ** 4 * B(X) * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
-    + -Nf ** 4 * Bb(X) * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
+    + Nf ** 4 * Bb(X) * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
     + Nf ** 4 * db(X) * ebd(X) * G(X) * H(X) * L(X) * ubd(X)
-    + -Nf ** 4 * db(X) * ebd(X) * Gb(X) * H(X) * L(X) * ubd(X)
+    + Nf ** 4 * db(X) * ebd(X) * Gb(X) * H(X) * L(X) * ubd(X)
     + Nf ** 4 * db(X) * ebd(X) * H(X) ** 2 * Hd(X) * L(X) * ubd(X)
-    + -Nf ** 4 * D ** 3 * db(X) * L(X) ** 2 * ubd(X)
+    + Nf ** 4 * D ** 3 * db(X) * L(X) ** 2 * ubd(X)
     + 2 * Nf ** 4 * D * B(X) * db(X) * L(X) ** 2 * ubd(X)
     + (Nf ** 3 * D * Bb(X) * db(X) * L(X) ** 2 * ubd(X)) / 2
-    + -(3 * Nf ** 4 * D * Bb(X) * db(X) * L(X) ** 2 * ubd(X)) / 2
+    + (3 * Nf ** 4 * D * Bb(X) * db(X) * L(X) ** 2 * ubd(X)) / 2
     + Nf ** 6 * db(X) ** 2 * dbd(X) * L(X) ** 2 * ubd(X)
-    + -Nf ** 6 * db(X) * eb(X) * ebd(X) * L(X) ** 2 * ubd(X)
+    + Nf ** 6 * db(X) * eb(X) * ebd(X) * L(X) ** 2 * ubd(X)
     + 2 * Nf ** 4 * D * db(X) * G(X) * L(X) ** 2 * ubd(X)
-    + -(Nf ** 3 * D * db(X) * Gb(X) * L(X) ** 2 * ubd(X)) / 2
+    + (Nf ** 3 * D * db(X) * Gb(X) * L(X) ** 2 * ubd(X)) / 2
     + (3 * Nf ** 4 * D * db(X) * Gb(X) * L(X) ** 2 * ubd(X)) / 2
-    + -5 * Nf ** 4 * D * db(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
+    + 5 * Nf ** 4 * D * db(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
     + (Nf ** 4 * db(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
-    + -(2 * Nf ** 6 * db(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
+    + (2 * Nf ** 6 * db(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
     + 2 * Nf ** 6 * db(X) ** 2 * ebd(X) * L(X) * Q(X) * ubd(X)
-    + -5 * Nf ** 4 * D * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
+    + 5 * Nf ** 4 * D * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
     + 7 * Nf ** 4 * D ** 2 * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
-    + -Nf ** 4 * B(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
+    + Nf ** 4 * B(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + Nf ** 4 * Bb(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + Nf ** 4 * G(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
-    + -Nf ** 4 * Gb(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
+    + Nf ** 4 * Gb(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + (Nf ** 3 * H(X) ** 2 * Hd(X) * L(X) ** 2 * Qd(X) * ubd(X)) / 2
-    + -(3 * Nf ** 4 * H(X) ** 2 * Hd(X) * L(X) ** 2 * Qd(X) * ubd(X)) / 2
+    + (3 * Nf ** 4 * H(X) ** 2 * Hd(X) * L(X) ** 2 * Qd(X) * ubd(X)) / 2
     + (Nf ** 4 * eb(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
-    + -(2 * Nf ** 6 * eb(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
+    + (2 * Nf ** 6 * eb(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
     + 4 * Nf ** 6 * db(X) * L(X) ** 2 * Q(X) * Qd(X) * ubd(X)
-    - -(Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)) / 2
+    - (Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)) / 2
     + (5 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)) / 2
-    + -(Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * ubd(X) ** 2) / 2
     + (Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * ubd(X) ** 2) / 2
-    + -2 * Nf ** 6 * db(X) * ebd(X) * L(X) * Qd(X) * ubd(X) ** 2
+    + 2 * Nf ** 6 * db(X) * ebd(X) * L(X) * Qd(X) * ubd(X) ** 2
     + Nf ** 3 * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2
     + Nf ** 6 * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2
-    + -Nf ** 6 * db(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
+    + Nf ** 6 * db(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
     + 2 * Nf ** 2 * D * ebd(X) * H(X) ** 3 * L(X) * W(X)
     + 5 * Nf ** 2 * D ** 2 * H(X) ** 2 * L(X) ** 2 * W(X)
-    + -2 * Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2 * W(X)
+    + 2 * Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2 * W(X)
     - (Nf * H(X) ** 3 * Hd(X) * L(X) ** 2 * W(X)) / 2
     + (3 * Nf ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2 * W(X)) / 2
-    - -(Nf ** 3 * eb(X) * H(X) * L(X) ** 3 * W(X)) / 2
+    - (Nf ** 3 * eb(X) * H(X) * L(X) ** 3 * W(X)) / 2
     + (3 * Nf ** 4 * eb(X) * H(X) * L(X) ** 3 * W(X)) / 2
     - (Nf ** 3 * db(X) * H(X) * L(X) ** 2 * Q(X) * W(X)) / 2
-    + -(9 * Nf ** 4 * db(X) * H(X) * L(X) ** 2 * Q(X) * W(X)) / 2
+    + (9 * Nf ** 4 * db(X) * H(X) * L(X) ** 2 * Q(X) * W(X)) / 2
     + Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X) * W(X)
-    + -2 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * W(X)
+    + 2 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * W(X)
     - (Nf ** 3 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * W(X)) / 2
-    + -(3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * W(X)) / 2
+    + (3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * W(X)) / 2
     + Nf * H(X) ** 2 * L(X) ** 2 * W(X) ** 2
     + 2 * Nf ** 2 * H(X) ** 2 * L(X) ** 2 * W(X) ** 2
-    + -2 * Nf ** 2 * D * ebd(X) * H(X) ** 3 * L(X) * Wb(X)
+    + 2 * Nf ** 2 * D * ebd(X) * H(X) ** 3 * L(X) * Wb(X)
     + 3 * Nf ** 2 * D ** 2 * H(X) ** 2 * L(X) ** 2 * Wb(X)
     + Nf ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2 * Wb(X)
-    + -Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X) * Wb(X)
+    + Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X) * Wb(X)
     - (Nf ** 3 * D * db(X) * L(X) ** 2 * ubd(X) * Wb(X)) / 2
-    + -(3 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * Wb(X)) / 2
+    + (3 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * Wb(X)) / 2
     + (Nf ** 3 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * Wb(X)) / 2
-    + -(3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * Wb(X)) / 2
+    + (3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * Wb(X)) / 2
     + Nf * H(X) ** 2 * L(X) ** 2 * Wb(X) ** 2
     + Nf ** 2 * H(X) ** 2 * L(X) ** 2 * Wb(X) ** 2
 )
@@ -308,98 +308,98 @@ H9_LNV = (
 H11_LNV = (
     (Nf ** 3 * db(X) ** 2 * dbd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 6 * db(X) ** 2 * dbd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    + -Nf ** 6 * db(X) * dbd(X) * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2
+    + Nf ** 6 * db(X) * dbd(X) * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2
     + (Nf ** 3 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
-    + -(Nf ** 4 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
+    + (Nf ** 4 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
     + (Nf ** 5 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
-    + -(Nf ** 6 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
+    + (Nf ** 6 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
     + (Nf * H(X) ** 5 * Hd(X) ** 3 * L(X) ** 2) / 2
-    + -(Nf ** 2 * H(X) ** 5 * Hd(X) ** 3 * L(X) ** 2) / 2
+    + (Nf ** 2 * H(X) ** 5 * Hd(X) ** 3 * L(X) ** 2) / 2
     + Nf ** 4 * eb(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 3
     + (Nf ** 2 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 8
-    + -(11 * Nf ** 3 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
+    + (11 * Nf ** 3 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
     + (17 * Nf ** 4 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
-    - -(11 * Nf ** 5 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
+    - (11 * Nf ** 5 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
     + (25 * Nf ** 6 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
-    + -(Nf ** 3 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Ld(X)) / 2
+    + (Nf ** 3 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Ld(X)) / 2
     + (Nf ** 4 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Ld(X)) / 2
-    + -Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 3 * Ld(X)
+    + Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 3 * Ld(X)
     + Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 3 * Ld(X)
-    + -(3 * Nf ** 3 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
+    + (3 * Nf ** 3 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
     + (Nf ** 4 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
     + (Nf ** 5 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
-    + -(3 * Nf ** 6 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
+    + (3 * Nf ** 6 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
     + 2 * Nf ** 6 * db(X) ** 2 * dbd(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X)
-    + -Nf ** 5 * db(X) * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Q(X)
+    + Nf ** 5 * db(X) * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Q(X)
     + Nf ** 6 * db(X) * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Q(X)
-    + -3 * Nf ** 4 * db(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Q(X)
+    + 3 * Nf ** 4 * db(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Q(X)
     + (Nf ** 4 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 3
-    - -(Nf ** 5 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 2
+    - (Nf ** 5 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 2
     + (25 * Nf ** 6 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 6
-    + -3 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Q(X)
+    + 3 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Q(X)
     + (Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
-    + -(Nf ** 4 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
+    + (Nf ** 4 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
     + (Nf ** 5 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
-    + -(Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
+    + (Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
     + (3 * Nf ** 3 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
-    + -(Nf ** 4 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
+    + (Nf ** 4 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
     - (Nf ** 5 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
-    + -(25 * Nf ** 6 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
+    + (25 * Nf ** 6 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
     + (Nf ** 3 * dbd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Qd(X)) / 2
-    + -(Nf ** 4 * dbd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Qd(X)) / 2
+    + (Nf ** 4 * dbd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Qd(X)) / 2
     + Nf ** 6 * dbd(X) * eb(X) * H(X) ** 2 * L(X) ** 3 * Qd(X)
-    + -Nf ** 4 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) * Q(X) * Qd(X)
+    + Nf ** 4 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) * Q(X) * Qd(X)
     + 6 * Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)
-    + -3 * Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)
+    + 3 * Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)
     + 3 * Nf ** 6 * H(X) ** 2 * L(X) ** 3 * Ld(X) * Q(X) * Qd(X)
-    + -6 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X) ** 2 * Qd(X)
+    + 6 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X) ** 2 * Qd(X)
     + (3 * Nf ** 3 * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * Qd(X) ** 2) / 2
-    + -(9 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * Qd(X) ** 2) / 2
+    + (9 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * Qd(X) ** 2) / 2
     + Nf ** 4 * H(X) ** 4 * Hd(X) * L(X) ** 2 * Q(X) * ub(X)
-    - -(Nf ** 5 * eb(X) * H(X) ** 2 * L(X) ** 3 * Q(X) * ub(X)) / 2
+    - (Nf ** 5 * eb(X) * H(X) ** 2 * L(X) ** 3 * Q(X) * ub(X)) / 2
     + (5 * Nf ** 6 * eb(X) * H(X) ** 2 * L(X) ** 3 * Q(X) * ub(X)) / 2
-    - -(Nf ** 5 * db(X) * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * ub(X)) / 2
+    - (Nf ** 5 * db(X) * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * ub(X)) / 2
     + (15 * Nf ** 6 * db(X) * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * ub(X)) / 2
-    + -Nf ** 4 * db(X) * ebd(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) * ubd(X)
+    + Nf ** 4 * db(X) * ebd(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) * ubd(X)
     + 2 * Nf ** 6 * db(X) ** 2 * dbd(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
-    + -2 * Nf ** 6 * db(X) * eb(X) * ebd(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
+    + 2 * Nf ** 6 * db(X) * eb(X) * ebd(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
     + Nf ** 6 * db(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Ld(X) * ubd(X)
-    + -(Nf ** 4 * db(X) * H(X) * Hd(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
+    + (Nf ** 4 * db(X) * H(X) * Hd(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
     + (5 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
-    + -4 * Nf ** 6 * db(X) ** 2 * ebd(X) * H(X) * Hd(X) * L(X) * Q(X) * ubd(X)
+    + 4 * Nf ** 6 * db(X) ** 2 * ebd(X) * H(X) * Hd(X) * L(X) * Q(X) * ubd(X)
     + 4 * Nf ** 6 * db(X) * dbd(X) * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
-    + -Nf ** 6 * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
+    + Nf ** 6 * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
     + (Nf ** 3 * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Qd(X) * ubd(X)) / 2
-    + -(3 * Nf ** 4 * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Qd(X) * ubd(X)) / 2
+    + (3 * Nf ** 4 * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Qd(X) * ubd(X)) / 2
     + (Nf ** 4 * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
-    + -(5 * Nf ** 6 * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
+    + (5 * Nf ** 6 * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
     + Nf ** 5 * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Qd(X) * ubd(X)
-    + -3 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Qd(X) * ubd(X)
+    + 3 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Qd(X) * ubd(X)
     + 2 * Nf ** 6 * db(X) * ebd(X) ** 2 * H(X) ** 2 * Q(X) * Qd(X) * ubd(X)
-    + -10 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * Q(X) * Qd(X) * ubd(X)
+    + 10 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * Q(X) * Qd(X) * ubd(X)
     + Nf ** 5 * dbd(X) * H(X) ** 2 * L(X) ** 2 * Qd(X) ** 2 * ubd(X)
-    + -3 * Nf ** 6 * dbd(X) * H(X) ** 2 * L(X) ** 2 * Qd(X) ** 2 * ubd(X)
+    + 3 * Nf ** 6 * dbd(X) * H(X) ** 2 * L(X) ** 2 * Qd(X) ** 2 * ubd(X)
     + 6 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) * Q(X) * Qd(X) ** 2 * ubd(X)
-    + -2 * Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)
+    + 2 * Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)
     + Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)
-    + -Nf ** 6 * H(X) ** 2 * L(X) ** 3 * Ld(X) * ub(X) * ubd(X)
+    + Nf ** 6 * H(X) ** 2 * L(X) ** 3 * Ld(X) * ub(X) * ubd(X)
     + 4 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X) * ub(X) * ubd(X)
-    + -6 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X) * ub(X) * ubd(X)
+    + 6 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X) * ub(X) * ubd(X)
     + (Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * H(X) * Hd(X) * ubd(X) ** 2) / 2
-    + -(Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) * Hd(X) * ubd(X) ** 2) / 2
+    + (Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) * Hd(X) * ubd(X) ** 2) / 2
     + (Nf ** 3 * db(X) ** 2 * Hd(X) ** 2 * L(X) ** 2 * ubd(X) ** 2) / 2
-    + -(Nf ** 6 * db(X) ** 2 * Hd(X) ** 2 * L(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 6 * db(X) ** 2 * Hd(X) ** 2 * L(X) ** 2 * ubd(X) ** 2) / 2
     + 4 * Nf ** 6 * db(X) * ebd(X) * H(X) * Hd(X) * L(X) * Qd(X) * ubd(X) ** 2
-    + -(3 * Nf ** 3 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
+    + (3 * Nf ** 3 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
     + (Nf ** 4 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
-    - -(Nf ** 5 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
+    - (Nf ** 5 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
     + (5 * Nf ** 6 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
-    + -(Nf ** 3 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 3 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
     + (Nf ** 4 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
-    + -(Nf ** 5 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 5 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
     + (5 * Nf ** 6 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
-    + -2 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
+    + 2 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
     + 2 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ub(X) * ubd(X) ** 2
-    + -(Nf ** 3 * H(X) ** 2 * L(X) ** 2 * ub(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 3 * H(X) ** 2 * L(X) ** 2 * ub(X) ** 2 * ubd(X) ** 2) / 2
     + (Nf ** 6 * H(X) ** 2 * L(X) ** 2 * ub(X) ** 2 * ubd(X) ** 2) / 2
 )
-- 
2.43.0


From 4105ca945c16c03633d4cf448e1268cdb2a0a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 29/43] fix: longest_deriv_invariants keeps the longest list of
 invariants

---
 neutrinomass/tensormethod/deriv_operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/deriv_operators.py b/neutrinomass/tensormethod/deriv_operators.py
index e250ea6..6a973f5 100644
--- a/neutrinomass/tensormethod/deriv_operators.py
+++ b/neutrinomass/tensormethod/deriv_operators.py
@@ -96,8 +96,9 @@ def keep_longest_invariants(fieldstrings: List[Field]) -> List[Operator]:
     longest = None
     for fieldstring in fieldstrings:
         invs = invariants(*fieldstring)
-        if len(invs) > longest_len:
+        if len(invs) >= longest_len:
             longest = invs
+            longest_len = len(invs)
 
     if longest is None:
         return []
-- 
2.43.0


From a5dd4a24fb2dab69194886ee8871bf9634a74e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 30/43] fix: filling free indices can't clash with contracted
 ones

---
 neutrinomass/tensormethod/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index feb0910..d7b597e 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1110,6 +1110,15 @@ class Operator(tensor.TensMul):
                 store[Index.get_index_labels()[index_type]] += 1
                 replacements.append((i, new_index))
 
+        # contracted indices can't keep the name of one of the new free indices
+        free_indices = [old for old, _ in replacements]
+        names = {str(new).lstrip("-") for _, new in replacements}
+        upper = {i for t in self.tensors for i in t.indices if i.is_up}
+        for i in sorted(upper, key=str):
+            if str(i) in names and i not in free_indices:
+                fresh = Index.fresh(str(i)[0])
+                replacements += [(i, fresh), (-i, -fresh)]
+
         tensors = [t.fun_eval(*replacements) for t in self.tensors]
         prod = normalise_operator_input(*tensors)
         return Operator(*prod)
-- 
2.43.0


From 1c751c0e59d0ddf05dec33ea68287bb3d9fa46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 31/43] fix: completions equal up to relabelling of exotics are
 equivalent

---
 neutrinomass/completions/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index fa1f298..b0802c3 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -47,7 +47,8 @@ def factors(n):
 
 
 def multiple_replace(mapping: dict, text: str) -> str:
-    regex = re.compile("|".join(map(re.escape, mapping.keys())))
+    # only replace whole words, e.g. neither the "s" in "Eps" nor the "f" in "f0"
+    regex = re.compile(r"(?<!\w)(?:%s)(?!\w)" % "|".join(map(re.escape, mapping.keys())))
     return regex.sub(lambda mo: mapping[mo.group(0)], text)
 
 
-- 
2.43.0


From 737d5fb6613e9e98627a0338f8b26ef46cfa362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 32/43] fix: products that vanish under exchange of two
 identical fields

canon_bp misses that a product is minus itself when index types without a metric
(colour) are among the contractions, so identically vanishing couplings survived.
---
 neutrinomass/tensormethod/core.py | 39 +++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index d7b597e..61a91d7 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -3,7 +3,7 @@
 
 from collections import defaultdict
 from copy import copy, deepcopy
-from itertools import groupby
+from itertools import combinations, groupby
 from string import ascii_lowercase
 from typing import Iterable
 from typing import List
@@ -926,6 +926,40 @@ class IndexedField(tensor.Tensor, Field):
         return field(indices)
 
 
+def vanishes_by_exchange(product):
+    """Returns True if exchanging two identical fields shows that the product
+    vanishes.
+
+    With index types without a metric among the contractions (colour), canon_bp
+    can miss that a product is minus itself.
+
+    """
+    if not isinstance(product, tensor.TensMul):
+        return False
+
+    free = set(product.get_free_indices())
+    closed = [
+        (position, arg)
+        for position, arg in enumerate(product.args)
+        if isinstance(arg, tensor.Tensor)
+        and arg.get_indices()
+        and not free.intersection(arg.get_indices())
+    ]
+    for (i, a), (j, b) in combinations(closed, 2):
+        if a.component != b.component:
+            continue
+
+        args = list(product.args)
+        args[i] = a.component(*b.get_indices())
+        args[j] = b.component(*a.get_indices())
+        # exchanging anticommuting fields costs a sign
+        sign = -1 if a.component.commutes_with(a.component) == 1 else 1
+        if tensor.TensMul(*args).canon_bp() in (0, -sign * product):
+            return True
+
+    return False
+
+
 class Operator(tensor.TensMul):
     def __new__(cls, *args, **kwargs):
         return super(Operator, cls).__new__(cls, *args, **kwargs)
@@ -1063,7 +1097,8 @@ class Operator(tensor.TensMul):
                 else:
                     simple = simple.contract_metric(tensor_index_type.metric)
 
-        return simple.canon_bp()
+        simple = simple.canon_bp()
+        return 0 if vanishes_by_exchange(simple) else simple
 
     def safe_simplify(self, fill=False):
         try:
-- 
2.43.0


From 2969f53046772ac0cf25d2ada1454790111a70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 33/43] fix: the CKM phase is 1.20 radians, not degrees

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index a6c7faa..d7643b5 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -122,7 +122,7 @@ PMNS = UnitaryMatrix()
 THETA12_CKM = np.deg2rad(13.04)
 THETA13_CKM = np.deg2rad(0.201)
 THETA23_CKM = np.deg2rad(2.38)
-DELTA_CP_CKM = np.deg2rad(1.20)
+DELTA_CP_CKM = 1.20  # radians
 
 CKM = UnitaryMatrix(
     c12=np.cos(THETA12_CKM),
-- 
2.43.0


From 0b3cc2156818200aa73b0b84b0b7273f995a488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 34/43] fix: hermitian conjugate of a symbolic unitary matrix

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index d7643b5..7086b64 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -101,7 +101,7 @@ class UnitaryMatrix(object):
         return self.val.T
 
     def get_dagger(self):
-        return self.val.getH()
+        return self.val.H
 
 
 # Measured squared neutrino mass differences
-- 
2.43.0


From 9d0569f867794d9339b40c1bc3df2101073460a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 35/43] fix: undefined name in fixedpoint

---
 neutrinomass/completions/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index b0802c3..3af25b8 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -32,7 +32,7 @@ def foldr(func, xs, acc=None):
 def fixedpoint(f, x):
     """Applies f o f o f ... f(x) until output is unchanged."""
     app = f(x)
-    while application != x:
+    while app != x:
         return fixedpoint(f, app)
     return x
 
-- 
2.43.0


From 4aac511ddde5048e57540c268ee090a94c5fa6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 36/43] fix: undefined name in multiset_equality

---
 neutrinomass/completions/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index 3af25b8..727b7be 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import re
+from collections import Counter
 from typing import List, Callable, TypeVar
 from copy import deepcopy
 
-- 
2.43.0


From d6281fc2220caa0ec627e37f6d8e703b9fcc7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 37/43] fix: patterns containing an empty string

---
 neutrinomass/utils/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/utils/match.py b/neutrinomass/utils/match.py
index 5edaa8c..0ecf48b 100644
--- a/neutrinomass/utils/match.py
+++ b/neutrinomass/utils/match.py
@@ -18,7 +18,7 @@ def _match_on_collection(pattern, data, frame):
 
 
 def is_pattern_var(symbol):
-    return isinstance(symbol, str) and symbol[0] == "?"
+    return isinstance(symbol, str) and symbol[:1] == "?"
 
 
 # TODO write matching tests
-- 
2.43.0


From a7816601529d2e10575a052a7c72251c72448c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 38/43] fix: rows of the operator table that show a different
 operator

---
 neutrinomass/database/operators.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/database/operators.py b/neutrinomass/database/operators.py
index 49e4de2..aed0610 100644
--- a/neutrinomass/database/operators.py
+++ b/neutrinomass/database/operators.py
@@ -172,7 +172,7 @@ def print_paper_table():
     ] = r"$\mathcal{O}_{3a} \cdot \tilde{Q}^i \bar{d}^\dagger H^j \cdot \epsilon_{ij}$"
     operator_latex[
         "27d"
-    ] = r"$\mathcal{O}_{3b} \cdot \tilde{Q}^i \bar{d}^\dagger H^j \cdot \epsilon_{ij}$"
+    ] = r"$L^{i} L^{j} Q^{k} \tilde{Q}^{l} \bar{d} \bar{d}^{\dagger} H^{m} H^{n}  \cdot  \epsilon_{i l} \epsilon_{j m} \epsilon_{k n}$"
     operator_latex[
         "28a"
     ] = r"$L^{i} L^{j} Q^{k} \tilde{Q}^{l} \bar{u}^{\dagger} \bar{d} H^{m} \tilde{H}^{n}  \cdot  \epsilon_{i l} \epsilon_{j n} \epsilon_{k m}$"
@@ -245,8 +245,8 @@ def print_paper_table():
     operator_latex[
         "32d"
     ] = r"$\mathcal{O}_{4b} \cdot \tilde{Q}^i \bar{u}^\dagger \tilde{H}^j \cdot \epsilon_{ij}$"
-    operator_latex["32e"] = r"$\mathcal{O}_{12a} \cdot H^i \tilde{H}^j$"
-    operator_latex["32f"] = r"$\mathcal{O}_{12b} \cdot H^i \tilde{H}^j$"
+    operator_latex["32e"] = r"$\mathcal{O}_{12a} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
+    operator_latex["32f"] = r"$\mathcal{O}_{12b} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
     operator_latex[
         "33"
     ] = r"$\mathcal{O}_1 \cdot \bar{e} \bar{e} \bar{e}^{\dagger} \bar{e}^{\dagger}$"
@@ -456,7 +456,7 @@ def print_paper_table():
     ] = r"$\mathcal{O}_{19} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
     operator_latex[
         "59c"
-    ] = r"$\mathcal{O}_{8} \cdot Q^i \bar{d} \tilde{H}^j \cdot \epsilon_{ij}$"
+    ] = r"$L^{i} \bar{e}^{\dagger} Q^{j} \bar{u}^{\dagger} \bar{d} \bar{d} H^{k} \tilde{H}^{l}  \cdot  \epsilon_{i l} \epsilon_{j k}$"
     operator_latex[
         "60a"
     ] = r"$L^{i} \bar{e}^{\dagger} \tilde{Q}^{j} \bar{u}^{\dagger} \bar{u}^{\dagger} \bar{d} H^{k} \tilde{H}^{l}  \cdot  \epsilon_{i l} \epsilon_{j k}$"
@@ -687,6 +687,9 @@ def print_paper_table():
     operator_latex[
         "D13b"
     ] = r"$(DL)^{i} L^{j} \tilde{Q}^{k} (D{\bar{u}^{\dagger}}) H^{l}  \cdot  \epsilon_{i k} \epsilon_{j l}$"
+    operator_latex[
+        "D13c"
+    ] = r"$(DL)^{i} L^{j} \tilde{Q}^{k} (D{\bar{u}^{\dagger}}) H^{l}  \cdot  \epsilon_{i l} \epsilon_{j k}$"
     operator_latex[
         "D14a"
     ] = r"$L^{i} {\bar{e}^{\dagger}} Q^{j} \bar{d} (DH)^{k} H^{l}  \cdot  \epsilon_{i k} \epsilon_{j l}$"
@@ -698,7 +701,7 @@ def print_paper_table():
     ] = r"$L^{i} {\bar{e}^{\dagger}} Q^{j} \bar{d} (DH)^{k} H^{l}  \cdot  \epsilon_{i j} \epsilon_{k l}$"
     operator_latex[
         "D15"
-    ] = r"$(DL)^{i} {\bar{e}^{\dagger}} (D \bar{u}^{\dagger}) \bar{d} H^{j}  \cdot  \epsilon_{i j}$"
+    ] = r"$L^{i} (D{\bar{e}^{\dagger}}) (D{\bar{u}^{\dagger}}) \bar{d} H^{j}  \cdot  \epsilon_{i j}$"
     operator_latex[
         "D16a"
     ] = r"$L^{i} {\bar{e}^{\dagger}} \tilde{Q}^{j} {\bar{u}^{\dagger}} (DH)^{k} H^{l}  \cdot  \epsilon_{i k} \epsilon_{j l}$"
-- 
2.43.0


From 6d6f47bf3e08a105e82ffbe95c566819bb535205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 39/43] fix: the operator table showed the previous estimate
 for operators outside the catalogue

---
 neutrinomass/database/operators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/database/operators.py b/neutrinomass/database/operators.py
index aed0610..dd379fc 100644
--- a/neutrinomass/database/operators.py
+++ b/neutrinomass/database/operators.py
@@ -766,12 +766,10 @@ def print_paper_table():
 
     for label, latex in operator_latex.items():
 
-        if label in EFF_OPERATORS:
-            op = EFF_OPERATORS[label]
-        elif label in DERIV_EFF_OPERATORS:
-            op = DERIV_EFF_OPERATORS[label]
+        op = EFF_OPERATORS.get(label) or DERIV_EFF_OPERATORS.get(label)
 
-        loops, scale = table_data(op)
+        # no estimate for operators that are not in the catalogue
+        loops, scale = table_data(op) if op is not None else ("", "")
 
         if label not in op_labels:
             models, filtered = "", ""
-- 
2.43.0


From 800bde8787eca42359a07f5fb8e8678a5b042ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 40/43] fix: LaTeX of a conjugated derivative

---
 neutrinomass/tensormethod/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 61a91d7..55217cf 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -572,6 +572,15 @@ class Field:
         )
 
     def get_latex(self):
+        # the latex attribute of a derivative is not conjugated with the field
+        if self.derivs != 0 and self.stripped and self.stripped.get("latex"):
+            base = self.stripped["latex"]
+            if self.is_conj and self.isospin_irrep != (0,):
+                base = rf"\tilde{{{base}}}"
+            elif self.is_conj:
+                base = "{" + base + r"^{\dagger}}"
+            return "(" + self.derivs * "D" + base + ")"
+
         if self.is_conj:
             # add twidle for doublets so that their SU2 indices are always raised
             if self.isospin_irrep != (0,):
-- 
2.43.0


From 336aa3ef3e6501bb0bc684ad362dc363733fcd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 41/43] fix: LaTeX of operators with contracted indices that
 are ignored

---
 neutrinomass/tensormethod/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 55217cf..488df4e 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1229,6 +1229,10 @@ class Operator(tensor.TensMul):
 
         latex_epsilons = []
         for epsilon in self.epsilons:
+            # skip tensors of index types you don't care about
+            if Index.get_index_labels()[epsilon.indices[0].index_type] not in style:
+                continue
+
             symb = r"\epsilon"
             # tread deltas differently
             if str(epsilon)[0] == "K":
-- 
2.43.0


From abba59e96d085515db3340f84542ce3f851e6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 42/43] fix: LaTeX of operators with field names of several
 letters

---
 neutrinomass/tensormethod/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 488df4e..025e575 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1191,11 +1191,11 @@ class Operator(tensor.TensMul):
     def latex(self, ignore=None):
         # ordering of fields within the oeprator and style of indices
         field_ordering = ["L", "e", "Q", "u", "d", "H", "B", "W", "G"]
+        # extract first non D in field name e.g. H for DDH
+        first_non_deriv = lambda f: str(f).lstrip("D")[:1]
         for field in self.indexed_fields:
-            f, fc = field, field.conj
-            if hasattr(f, "label") and not f.label in field_ordering:
-                field_ordering.append(f.label.replace("~", ""))
-                field_ordering.append(fc.label.replace("~", ""))
+            if first_non_deriv(field) not in field_ordering:
+                field_ordering.append(first_non_deriv(field))
 
         # indices i, j, ... q used for isospin
         isospin_indices = list(ascii_lowercase[8:])
@@ -1214,8 +1214,6 @@ class Operator(tensor.TensMul):
             for char in ignore:
                 style.pop(char)
 
-        # extract first non D in field name e.g. H for DDH
-        first_non_deriv = lambda f: str(f).split("D")[-1][0]
         order_func = lambda f: field_ordering.index(first_non_deriv(f))
         sorted_fields = sorted(self.indexed_fields, key=order_func)
 
-- 
2.43.0


From edca99f450c2c51f1ff909ea14ebaaa23a0a3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 43/43] fix: LaTeX of operators with directly contracted colour
 indices

---
 neutrinomass/tensormethod/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 025e575..8a7f7e7 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -882,7 +882,11 @@ class IndexedField(tensor.Tensor, Field):
             type_ = Index.get_index_labels()[index.index_type]
             # condition that style wants to be printed
             if type_ in style:
-                index_string = style[type_].pop(0)
+                # directly contracted indices share their name
+                if -index in index_dict:
+                    index_string = index_dict[-index]
+                else:
+                    index_string = style[type_].pop(0)
                 index_dict[index] = index_string
                 indices.append(index_string)
 
-- 
2.43.0

