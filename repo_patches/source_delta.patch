From cca95dbf9cfeedd15de59ad2469276111e29bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 01/19] fix: use torch.linalg LU routines and bool masks in the
 LCP solver

Tensor.btrifact/btrisolve are gone from PyTorch and uint8 masks are no longer
accepted, so no LCP could be factored or solved with a current PyTorch.
---
 lcp_physics/lcp/solvers/pdipm.py | 57 +++++++++++++++-----------------
 lcp_physics/lcp/util.py          |  4 +--
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..ed37f22 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -13,19 +13,16 @@ shown_btrifact_warning = False
 
 # @profile
 def btrifact_hack(x):
-    global shown_btrifact_warning
-    try:
-        return x.btrifact(pivot=not x.is_cuda)
-    except TypeError:
-        if not shown_btrifact_warning:
-            print("""----------
-lcp warning: Pivoting will always happen and will significantly
-slow down your code. Please use the master branch of PyTorch
-to get a version that disables pivoting on the GPU.
-----------
-""")
-            shown_btrifact_warning = True
-        return x.btrifact()
+    return torch.linalg.lu_factor(x)
+
+
+def btrisolve(b, LU, pivots):
+    """Solves the batch of systems factored by btrifact_hack. As in the
+    Tensor.btrisolve of earlier PyTorch releases, b can be a batch of vectors.
+    """
+    if b.ndimension() == 2:
+        return torch.linalg.lu_solve(LU, pivots, b.unsqueeze(2)).squeeze(2)
+    return torch.linalg.lu_solve(LU, pivots, b)
 
 
 INACC_ERR = """
@@ -265,8 +262,8 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)  # H-1 AT
-    invH_g_ = g_.btrisolve(*H_LU)  # H-1 g
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)  # H-1 AT
+    invH_g_ = btrisolve(g_, *H_LU)  # H-1 g
 
     S_ = torch.bmm(A_, invH_A_)  # A H-1 AT
     # A H-1 AT + C_tilde
@@ -275,11 +272,11 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
     # [(H-1 g)T AT]T - h = A H-1 g - h
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
     # w = (A H-1 AT + C_tilde)-1 (A H-1 g - h) <= Av - eps I w = h
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     # Shouldn't it be just g (no minus)?
     # (Doesn't seem to make a difference, though...)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()  # -g - AT w
-    v_ = t_.btrisolve(*H_LU)  # v = H-1 (-g - AT w)
+    v_ = btrisolve(t_, *H_LU)  # v = H-1 (-g - AT w)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -304,15 +301,15 @@ def factor_solve_kkt(Q_tilde, D_tilde, A_, C_tilde, rx, rs, rz, ry, ns):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)
-    invH_g_ = g_.btrisolve(*H_LU)
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)
+    invH_g_ = btrisolve(g_, *H_LU)
 
     S_ = torch.bmm(A_, invH_A_) + C_tilde
     S_LU = btrifact_hack(S_)
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()
-    v_ = t_.btrisolve(*H_LU)
+    v_ = btrisolve(t_, *H_LU)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -330,7 +327,7 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
 
     nineq, nz, neq, nBatch = get_sizes(G, A)
 
-    invQ_rx = rx.btrisolve(*Q_LU)  # Q-1 rx
+    invQ_rx = btrisolve(rx, *Q_LU)  # Q-1 rx
     if neq > 0:
         # A Q-1 rx - ry
         # G Q-1 rx + rs / d - rz
@@ -339,14 +336,14 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
     else:
         h = invQ_rx.unsqueeze(1).bmm(G.transpose(1, 2)).squeeze(1) + rs / d - rz
 
-    w = -(h.btrisolve(*S_LU))  # S-1 h =
+    w = -btrisolve(h, *S_LU)  # S-1 h =
 
     g1 = -rx - w[:, neq:].unsqueeze(1).bmm(G).squeeze(1)  # -rx - GT w = -rx -GT S-1 h
     if neq > 0:
         g1 -= w[:, :neq].unsqueeze(1).bmm(A).squeeze(1)  # - AT w = -AT S-1 h
     g2 = -rs - w[:, neq:]
 
-    dx = g1.btrisolve(*Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
+    dx = btrisolve(g1, *Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
     ds = g2 / d  # g2 / d = (-rs - w) / d
     dz = w[:, neq:]
     dy = w[:, :neq] if neq > 0 else None
@@ -375,12 +372,12 @@ a non-zero diagonal.
     # See the 'Block LU factorization' part of our website
     # for more details.
 
-    G_invQ_GT = torch.bmm(G, G.transpose(1, 2).btrisolve(*Q_LU)) + F
+    G_invQ_GT = torch.bmm(G, btrisolve(G.transpose(1, 2), *Q_LU)) + F
     R = G_invQ_GT.clone()
     S_LU_pivots = torch.IntTensor(range(1, 1 + neq + nineq)).unsqueeze(0) \
         .repeat(nBatch, 1).type_as(Q).int()
     if neq > 0:
-        invQ_AT = A.transpose(1, 2).btrisolve(*Q_LU)
+        invQ_AT = btrisolve(A.transpose(1, 2), *Q_LU)
         A_invQ_AT = torch.bmm(A, invQ_AT)
         G_invQ_AT = torch.bmm(G, invQ_AT)
 
@@ -389,10 +386,10 @@ a non-zero diagonal.
         P_A_invQ_AT = P_A_invQ_AT.type_as(A_invQ_AT)
 
         S_LU_11 = LU_A_invQ_AT[0]
-        U_A_invQ_AT_inv = (P_A_invQ_AT.bmm(L_A_invQ_AT)
-                           ).btrisolve(*LU_A_invQ_AT)
+        U_A_invQ_AT_inv = btrisolve(P_A_invQ_AT.bmm(L_A_invQ_AT),
+                                    *LU_A_invQ_AT)
         S_LU_21 = G_invQ_AT.bmm(U_A_invQ_AT_inv)
-        T = G_invQ_AT.transpose(1, 2).btrisolve(*LU_A_invQ_AT)
+        T = btrisolve(G_invQ_AT.transpose(1, 2), *LU_A_invQ_AT)
         S_LU_12 = U_A_invQ_AT.bmm(T)
         S_LU_22 = Q.new_zeros(nBatch, nineq, nineq)
         S_LU_data = torch.cat((torch.cat((S_LU_11, S_LU_12), 2),
@@ -420,7 +417,7 @@ def factor_kkt(S_LU, R, d):
     if factor_kkt_eye is None or factor_kkt_eye.size() != d.size():
         # print('Updating batchedEye size.')
         factor_kkt_eye = torch.eye(nineq).repeat(
-            nBatch, 1, 1).type_as(R).byte()
+            nBatch, 1, 1).type_as(R).bool()
     # T = R.clone()
     # T[factor_kkt_eye] += (1. / d).view(-1)
     # more efficient version of these two lines in pytorch versions > 0.3.1
diff --git a/lcp_physics/lcp/util.py b/lcp_physics/lcp/util.py
index d7beaaf..6a07533 100644
--- a/lcp_physics/lcp/util.py
+++ b/lcp_physics/lcp/util.py
@@ -41,7 +41,7 @@ def get_sizes(G, A=None):
 def bdiag(d):
     nBatch, sz = d.size()
     D = torch.zeros(nBatch, sz, sz).type_as(d)
-    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).byte()
+    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).bool()
     D[I] = d.squeeze()
     return D
 
@@ -72,7 +72,7 @@ def efficient_btriunpack(LU_data, LU_pivots, unpack_data=True, unpack_pivots=Tru
     nBatch, sz = LU_data.shape[:-1]
 
     if unpack_data:
-        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.uint8).triu_().expand_as(LU_data)
+        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.bool).triu_().expand_as(LU_data)
         zero = torch.tensor(0.).type_as(LU_data)
         U = torch.where(I_U, LU_data, zero)
         L = torch.where(I_U, zero, LU_data)
-- 
2.43.0


From b94f75649105a3efc14c6b2e80fe646cf80c1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 02/19] fix: run LCPFunction through a static autograd Function

PyTorch refuses Functions with non-static forward/backward methods, so every
world with a contact raised a RuntimeError on its first contact solve.
---
 lcp_physics/lcp/lcp.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..3d4816c 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -1,23 +1,48 @@
 import torch
 from torch.autograd import Function
+from torch.autograd.function import once_differentiable
 
 from .solvers import pdipm
 from .util import bger, extract_batch_size
 
 
-class LCPFunction(Function):
+class _LCPApply(Function):
+    """Autograd node of an LCPFunction. PyTorch only supports static forward and
+       backward methods, so the solver that does the work is passed along.
+    """
+    @staticmethod
+    def forward(ctx, solver, *args):
+        zhats = solver.forward(*args)
+        ctx.solver = solver
+        ctx.save_for_backward(zhats, *args)
+        return zhats
+
+    @staticmethod
+    @once_differentiable
+    def backward(ctx, dl_dzhat):
+        solver = ctx.solver
+        solver.saved_tensors = ctx.saved_tensors
+        try:
+            return (None,) + solver.backward(dl_dzhat)
+        finally:
+            del solver.saved_tensors
+
+
+class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
     def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
                  max_iter=10):
-        super().__init__()
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
         self.max_iter = max_iter
         self.Q_LU = self.S_LU = self.R = None
 
+    def __call__(self, *args):
+        return _LCPApply.apply(self, *args)
+
     # @profile
     def forward(self, Q, p, G, h, A, b, F):
         _, nineq, nz = G.size()
@@ -31,7 +56,6 @@ class LCPFunction(Function):
             eps=self.eps, max_iter=self.max_iter, verbose=self.verbose,
             not_improved_lim=self.not_improved_lim)
 
-        self.save_for_backward(zhats, Q, p, G, h, A, b, F)
         return zhats
 
     def backward(self, dl_dzhat):
-- 
2.43.0


From a0810ca4e4a481e5cc1984dbdde9047a1a6a7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 03/19] fix: solve the transposed KKT system in
 LCPFunction.backward

For a problem whose F is not symmetric (any contact with friction) the gradients
were those of the problem with F transposed.
---
 lcp_physics/lcp/lcp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 3d4816c..a8bf217 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -67,6 +67,8 @@ class LCPFunction:
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
         d = self.lams / self.slacks
 
+        # The adjoint system is the transpose of the KKT system. Only F is not symmetric.
+        self.Q_LU, self.S_LU, self.R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
         pdipm.factor_kkt(self.S_LU, self.R, d)
         dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
-- 
2.43.0


From 65b358cacd91ad40472ea3e412e735a52ba22217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 04/19] fix: clip hull contacts to the reference edge, not to
 its length about the centroid

The incident edge was clipped to half the reference edge's length on either side of
the hull's centroid. For a hull whose edge is not centred on its centroid that put
contact points beyond the edge, and let hulls interpenetrate without any contact.
---
 lcp_physics/physics/contacts.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..2d3f5c1 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -155,8 +155,9 @@ class DiffContactHandler(ContactHandler):
                 return
             if contact2[0].item() > contact1[0].item():
                 normal = -contact2[3]
-                half_edge_norm = contact2[5] / 2
                 ref_edge_idx = contact2[6]
+                ref_verts = [b2.verts[ref_edge_idx],
+                             b2.verts[(ref_edge_idx + 1) % len(b2.verts)]]
                 incident_vertex_idx = contact2[4]
                 incident_edge_idx = self.get_incident_edge(normal, b1, incident_vertex_idx)
                 incident_verts = [b1.verts[incident_edge_idx],
@@ -164,11 +165,11 @@ class DiffContactHandler(ContactHandler):
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_verts[1]))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_verts[0]))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -178,8 +179,9 @@ class DiffContactHandler(ContactHandler):
                         pts.append((normal, pt2, pt1, -dist))
             else:
                 normal = -contact1[3]
-                half_edge_norm = contact1[5] / 2
                 ref_edge_idx = contact1[6]
+                ref_verts = [b1.verts[ref_edge_idx],
+                             b1.verts[(ref_edge_idx + 1) % len(b1.verts)]]
                 incident_vertex_idx = contact1[4]
                 incident_edge_idx = self.get_incident_edge(normal, b2, incident_vertex_idx)
                 incident_verts = [b2.verts[incident_edge_idx],
@@ -187,11 +189,11 @@ class DiffContactHandler(ContactHandler):
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_verts[1]))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_verts[0]))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From f22f76b2d4764d4fa58b2cb835898386bbba8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 05/19] fix: contact normal of a circle whose center is on a
 hull's edge or on the GJK simplex

The search ends on a point or segment when it contains the center, so the normal was
0/0 (and the depth the circle's radius when that segment was inside the hull). The
separating axis branch handles these cases.
---
 lcp_physics/physics/contacts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 2d3f5c1..d195b94 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -103,7 +103,8 @@ class DiffContactHandler(ContactHandler):
                     break
                 simplex = [simplex[idx] for idx in ids_used]  # remove unused points
                 simplex.append(support)
-            if len(ids_used) < 3:
+            # closest point gives no direction if it is the circle's center
+            if len(ids_used) < 3 and torch.norm(closest - test_point).item() > 1e-10:
                 best_pt2 = closest
                 closest = closest + b2.pos
                 best_pt1 = closest - b1.pos
-- 
2.43.0


From 757499e1733b3837f6ceab6435ccc08ee400cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 06/19] fix: a zero search direction component does not limit
 the LCP solver's step

-v / 0 is -inf, which took the whole step to -inf and left the solver with the best
iterate it had seen so far, however inaccurate. qpth has dv >= 0 too.
---
 lcp_physics/lcp/solvers/pdipm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index ed37f22..9e21400 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -178,7 +178,7 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
 
 def get_step(v, dv):
     a = -v / dv
-    a[dv > 0] = max(1.0, a.max())
+    a[dv >= 0] = max(1.0, a.max())
     step = a.min(1)[0].squeeze()
     return step
 
-- 
2.43.0


From eed84882a9df5f96fddc518151da124b3af63bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 07/19] fix: restore a joint's second angle when a step is
 retried with a smaller dt

Only rot1 was reset, so every rejected trial was left in rot2.
---
 lcp_physics/physics/world.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 39da5ad..2b5d638 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -104,6 +104,8 @@ class World:
                 self.set_p(start_p.clone())
                 for j, c in zip(self.joints, start_rot_joints):
                     j[0].rot1 = c[0].clone()
+                    if c[1] is not None:
+                        j[0].rot2 = c[1].clone()
                     j[0].update_pos()
 
         if self.post_stab:
-- 
2.43.0


From 8a33db827f736cc15faed5b9a8ae7aeba3c4acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 08/19] fix: do not let the LCP solver give up after three
 iterations without progress

The interior point iterates often get worse for a few steps before they
converge. Giving up after three of them returned velocities that violate
the contact laws by more than ten percent in about one of a thousand
well-posed updates, whatever max_iter.
---
 lcp_physics/lcp/lcp.py           | 2 +-
 lcp_physics/lcp/solvers/pdipm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index a8bf217..523ba65 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -32,7 +32,7 @@ class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
-    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
+    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=10,
                  max_iter=10):
         self.eps = eps
         self.verbose = verbose
diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 9e21400..bf5c5f4 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -44,7 +44,7 @@ https://github.com/locuslab/qpth/issues/6
 
 # @profile
 def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
-            eps=1e-12, verbose=-1, not_improved_lim=3,
+            eps=1e-12, verbose=-1, not_improved_lim=10,
             max_iter=20):
     """
     Q_LU, S_LU, R = pre_factor_kkt(Q, G, A)
-- 
2.43.0


From a7a1437e46edaf9eeaa495bc93d275cf8fe9b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 09/19] fix: give the LCP solver enough iterations to converge

With at most ten, about one in a hundred velocity updates with contacts
is off by more than 1e-4, some by more than a percent. The solver stops
by itself when it has converged.
---
 lcp_physics/lcp/lcp.py         | 2 +-
 lcp_physics/physics/engines.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 523ba65..614ce63 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -33,7 +33,7 @@ class LCPFunction:
        implemented in pdipm.
     """
     def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=10,
-                 max_iter=10):
+                 max_iter=20):
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
diff --git a/lcp_physics/physics/engines.py b/lcp_physics/physics/engines.py
index b720e47..2282ede 100644
--- a/lcp_physics/physics/engines.py
+++ b/lcp_physics/physics/engines.py
@@ -17,7 +17,7 @@ class Engine:
 class PdipmEngine(Engine):
     """Engine that uses the primal dual interior point method LCP solver.
     """
-    def __init__(self, max_iter=10):
+    def __init__(self, max_iter=20):
         self.lcp_solver = LCPFunction
         self.cached_inverse = None
         self.max_iter = max_iter
-- 
2.43.0


From 44599bfc7c731820813bae20841ed1f8a9f9177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 10/19] fix: start the LCP solver from slacks that are not zero
 up to rounding

A slack that ought to be zero at the starting point can come out as 1e-17. It was
taken for positive, so that the first factorization failed and None was returned.
---
 lcp_physics/lcp/solvers/pdipm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index bf5c5f4..c49288c 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -62,13 +62,13 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
     # Make all of the slack variables >= 1.
     M = torch.min(s, 1)[0]
     M = M.view(M.size(0), 1).repeat(1, nineq)
-    I = M <= 0
+    I = M <= eps  # rounding can leave a zero slightly positive
     s[I] -= M[I] - 1
 
     # Make all of the inequality dual variables >= 1.
     M = torch.min(z, 1)[0]
     M = M.view(M.size(0), 1).repeat(1, nineq)
-    I = M <= 0
+    I = M <= eps
     z[I] -= M[I] - 1
 
     best = {'resids': None, 'x': None, 'z': None, 's': None, 'y': None}
-- 
2.43.0


From ae3ddb1fcfb011cfb9189160d148d700d172bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 11/19] fix: backward failed where slacks are tiny and
 constraints redundant

With slacks of 1e-17 the factorization of the adjoint system meets a zero pivot if
there are redundant constraints, as friction at several contacts of a body is.
---
 lcp_physics/lcp/lcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 614ce63..9c0b3d6 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -65,7 +65,9 @@ class LCPFunction:
         neq, nineq, nz = self.neq, self.nineq, self.nz
 
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
-        d = self.lams / self.slacks
+        # Multipliers and slacks are known up to eps only, and a tiny slack makes
+        # the system singular if constraints are redundant.
+        d = torch.clamp(self.lams, min=self.eps) / torch.clamp(self.slacks, min=self.eps)
 
         # The adjoint system is the transpose of the KKT system. Only F is not symmetric.
         self.Q_LU, self.S_LU, self.R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
-- 
2.43.0


From 58ab3254c031f7694e3323774d89bb981d9ee42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 12/19] fix: the vertices of a hull lost their gradient in a
 rotation by zero

A hull that does not rotate in a step kept its vertices as they were, so that they
did not depend on its angular velocity or initial orientation when differentiated.
---
 lcp_physics/physics/bodies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..cc66542 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -201,7 +201,8 @@ class Hull(Body):
 
     def set_p(self, new_p, update_geom_rotation=False):
         rot = new_p[0] - self.p[0]
-        if rot.item() != 0:
+        # a zero rotation may still have a gradient
+        if rot.item() != 0 or rot.requires_grad:
             self.rotate_verts(rot)
         super().set_p(new_p, update_geom_rotation=update_geom_rotation)
 
-- 
2.43.0


From 48ff48feae03de905b962497c6233a61945ba338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 13/19] fix: a ball one pixel to the left of the paddle was
 taken for the paddle

---
 experiments/breakout/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/breakout/encoder.py b/experiments/breakout/encoder.py
index 7d98920..ec6117a 100644
--- a/experiments/breakout/encoder.py
+++ b/experiments/breakout/encoder.py
@@ -66,9 +66,9 @@ def extract_params(frame):
     # print('========')
     paddle_x = np.argmax(frame[PADDLE_TOP_LINE, :, 0])
     # print(paddle_x)
-    if frame[PADDLE_TOP_LINE, paddle_x + BALL_WIDHT + 1, 0] != PADDLE_COLOR[0]:
+    if frame[PADDLE_TOP_LINE, paddle_x + BALL_WIDHT, 0] != PADDLE_COLOR[0]:
         # print('Mod to')
-        paddle_x = np.argmax(frame[PADDLE_TOP_LINE, paddle_x + BALL_WIDHT + 1:, 0]) + paddle_x + BALL_WIDHT + 1
+        paddle_x = np.argmax(frame[PADDLE_TOP_LINE, paddle_x + BALL_WIDHT:, 0]) + paddle_x + BALL_WIDHT
     paddle_top_left = np.array([PADDLE_TOP_LINE, paddle_x])
     # print(paddle_top_left)
 
-- 
2.43.0


From 65ffe3f3d1416526afcd0c69891c41be244a1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 14/19] fix: the ball was taken for a block in the topmost row
 of blocks

---
 experiments/breakout/encoder.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/experiments/breakout/encoder.py b/experiments/breakout/encoder.py
index ec6117a..48ca1df 100644
--- a/experiments/breakout/encoder.py
+++ b/experiments/breakout/encoder.py
@@ -92,13 +92,17 @@ def extract_params(frame):
     blocks_corners = []
     for i, color in enumerate(BLOCK_COLORS):
         top_line = BLOCKS_TOP_LEFT[Y] + i * BLOCK_HEIGHT
-        left = np.argmax(frame[top_line, :, 0] == color[0])
+        line = frame[top_line, :, 0] == color[0]
+        left = np.argmax(line)
         while left > 0:
-            right = np.argmin(frame[top_line, left:, 0] == color[0]) + left
-            pos = [np.array([top_line, left]), np.array([top_line + BLOCK_HEIGHT, right])]
-            blocks_corners.append(pos)
-            remove_rect(frame, pos[0], pos[1] - [1, 1])
-            left = np.argmax(frame[top_line, :, 0] == color[0])
+            right = np.argmin(line[left:]) + left
+            # what is no wider than the ball is the ball in a gap between blocks
+            if right - left > BALL_WIDHT:
+                pos = [np.array([top_line, left]), np.array([top_line + BLOCK_HEIGHT, right])]
+                blocks_corners.append(pos)
+                remove_rect(frame, pos[0], pos[1] - [1, 1])
+            line[left:right] = False
+            left = np.argmax(line)
 
     # remove red stopper
     remove_rect(frame, [STOPPER_LINE, SCREEN_WIDTH - STOPPER_WIDTH],
-- 
2.43.0


From 83cbfc91f948350733ac06b963fb887db29d7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 15/19] fix: hulls corner to corner had a contact off the
 hulls, depending on their orientation

---
 lcp_physics/physics/contacts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index d195b94..8ccb526 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -171,6 +171,8 @@ class DiffContactHandler(ContactHandler):
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
                                                           clip_plane.dot(ref_verts[0]))
+                if len(clipped_verts) < 2:
+                    return
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -195,6 +197,8 @@ class DiffContactHandler(ContactHandler):
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
                                                           clip_plane.dot(ref_verts[0]))
+                if len(clipped_verts) < 2:
+                    return
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From ada0454e5909a6f6cee726ed2159f604d16c6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 16/19] fix: grad_demo failed in its first iteration, indexing
 a scalar

---
 demos/grad_demo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demos/grad_demo.py b/demos/grad_demo.py
index 4d94fd0..0cf4b77 100644
--- a/demos/grad_demo.py
+++ b/demos/grad_demo.py
@@ -57,12 +57,12 @@ def grad_demo(screen):
         # temp.clamp_(1e-7, 1)
         learning_rate *= 0.9
         # next_fric_coeff = Variable(temp, requires_grad=True)
-        print(i, '/', max_iter, dist.data[0])
+        print(i, '/', max_iter, dist.item())
         print(grad)
         # print(next_fric_coeff)
         print(learned_force(0.05))
         print('=======')
-        if abs((last_dist - dist).data[0]) < 1e-5:
+        if abs((last_dist - dist).item()) < 1e-5:
             break
         last_dist = dist
         dist_hist.append(dist)
@@ -75,7 +75,7 @@ def grad_demo(screen):
     # rec = Recorder(DT, screen)
     run_world(world, run_time=TIME, screen=screen, recorder=rec)
     dist = (target.pos - c.pos).norm()
-    print(dist.data[0])
+    print(dist.item())
 
     # import pickle
     # with open('control_balls_dist_hist.pkl', 'w') as f:
-- 
2.43.0


From 699404a7dba4938ef25c17c954d400b6f416e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 17/19] fix: grad_demo reported the outcome before the last
 update

---
 demos/grad_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/grad_demo.py b/demos/grad_demo.py
index 0cf4b77..d308264 100644
--- a/demos/grad_demo.py
+++ b/demos/grad_demo.py
@@ -67,7 +67,7 @@ def grad_demo(screen):
         last_dist = dist
         dist_hist.append(dist)
 
-    world = make_world(learned_force)[0]
+    world, c, target = make_world(learned_force)
     # c.fric_coeff = next_fric_coeff
     # world.load_state(initial_state)
     # world.reset_engine()
-- 
2.43.0


From 9e0b9560b05af47b7990ccdcdba9becdaee4b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 18/19] fix: gradients of an LCPFunction called again were
 those of the later call

---
 lcp_physics/lcp/lcp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 9c0b3d6..9b49eb3 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 import torch
 from torch.autograd import Function
 from torch.autograd.function import once_differentiable
@@ -13,7 +15,8 @@ class _LCPApply(Function):
     @staticmethod
     def forward(ctx, solver, *args):
         zhats = solver.forward(*args)
-        ctx.solver = solver
+        # The solution kept in the solver is overwritten if it is called again.
+        ctx.solver = copy(solver)
         ctx.save_for_backward(zhats, *args)
         return zhats
 
-- 
2.43.0


From b6fc977f77c2e35bc502fbfb54b75ccbcb7b428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 19/19] fix: external forces failed on bodies in single
 precision

---
 lcp_physics/physics/forces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/forces.py b/lcp_physics/physics/forces.py
index 3ea7097..80e3530 100644
--- a/lcp_physics/physics/forces.py
+++ b/lcp_physics/physics/forces.py
@@ -39,7 +39,7 @@ class ExternalForce:
 
     def __init__(self, force_func=down_force, multiplier=100.):
         self.multiplier = multiplier
-        self.force = lambda t: force_func(t) * self.multiplier
+        self.force = lambda t: self._match(force_func(t)) * self.multiplier
         self.body = None
 
     def set_body(self, body):
@@ -47,6 +47,9 @@ class ExternalForce:
         # match body's tensor type and device
         self.multiplier = get_tensor(self.multiplier, base_tensor=body._base_tensor)
 
+    def _match(self, f):
+        return f if self.body is None else f.to(self.body._base_tensor)
+
 
 class Gravity(ExternalForce):
     """Gravity force object, constantly returns a downwards pointing force of
-- 
2.43.0

