From 641df3c28d732bf406b65c7784508d1bfb8871f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 01/29] fix: use builtin int, float and range instead of names
 removed from numpy and Python 3

---
 pyparticleest/filter.py              | 16 ++++++++--------
 pyparticleest/paramest/interfaces.py |  8 ++++----
 pyparticleest/paramest/paramest.py   | 10 +++++-----
 pyparticleest/smoother.py            |  4 ++--
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From 61cf2e380fc5a0e55416e5ab9bff2c192cfe7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 02/29] fix: scalar nonlinear-Gaussian densities use the
 variance, not the standard deviation

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From acdf09ce25c009fa3c7366a719aa5813d9845530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 03/29] fix: initial particles of nonlinear-Gaussian models get
 the requested covariance

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From 8711fe17d80ee3ae1865098ad352b257f79f99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 04/29] fix: LTV smoothing uses the dynamics of the step being
 smoothed

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 64d4961c06bab3474b59bcd03b8bdbfb16163c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 05/29] fix: mixed linear/nonlinear models with several
 nonlinear states or correlated noise

---
 pyparticleest/models/mlnlg.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..a606af0 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
@@ -264,8 +264,8 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
-            Qcond.append(Qz[i])
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
@@ -1193,7 +1193,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         LHlen = lz
 
-        xinl = next_part[:, :lxi]
+        xinl = next_part[:, :lxi].reshape((M, lxi, 1))
         OHnl = next_part[:, OHind:OHind + OHlen].reshape((M, lz, lz))
         LHnl = next_part[:, LHind:LHind + LHlen].reshape((M, lz, 1))
 
@@ -1201,8 +1201,10 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        # Dynamics conditioned on the next nonlinear state, the process noises
+        # are not necessarily independent
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles=particles, xi_next=xinl,
+                                               u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
-- 
2.43.0


From d202e35ba4b178ad6030d8c9b46621bfd98ef24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 06/29] fix: allow mixed linear/nonlinear models without
 initial covariance for z

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index a606af0..43c6ccc 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1044,12 +1044,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From 1cddd2b20b0b84b7be808eb1efbbe5df6d980867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 07/29] fix: marginalized smoothing gains no information from
 missing measurements

---
 pyparticleest/models/mlnlg.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 43c6ccc..417c4e1 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1331,8 +1331,6 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
-
         res[:, :lxi] = part[:, :lxi]
 
         if (future_trajs is not None):
@@ -1340,13 +1338,16 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, OHind:OHind + OHlen] = Omega[j].ravel()
                 res[j, LHind:] = Lambda[j].ravel()
 
-        for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
-                tmp = numpy.linalg.solve(Rz[j], Cz[j])
-                res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
-                                             hz[j])).ravel()
+        if (yt is not None and yt[cur_ind] is not None):
+            (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
+            for j in range(M):
+                if (Cz is not None and Cz[j] is not None):
+                    tmp = numpy.linalg.solve(Rz[j], Cz[j])
+                    diff = numpy.asarray(y).reshape((-1, 1))
+                    if (hz[j] is not None):
+                        diff = diff - hz[j]
+                    res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
+                    res[j, LHind:] += (tmp.T.dot(diff)).ravel()
 
         return res
 
-- 
2.43.0


From 3dcf10697b69dbcfd64c2bcfdf52a3e1a4e94b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 08/29] fix: hierarchical smoothing uses each particle's own
 linear state and the right density bound

---
 pyparticleest/models/hierarchial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From 932d0253e62a69152753fea830f095892977c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 09/29] fix: use the current measurement, not the last storage
 slot, with preallocated storage

---
 pyparticleest/filter.py      | 3 ++-
 pyparticleest/models/rbpf.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..5b83606 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -455,7 +455,8 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1],
+                                          t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
diff --git a/pyparticleest/models/rbpf.py b/pyparticleest/models/rbpf.py
index 81c6612..f1b3a0a 100644
--- a/pyparticleest/models/rbpf.py
+++ b/pyparticleest/models/rbpf.py
@@ -418,8 +418,9 @@ class RBPSBase(RBPFBase, interfaces.FFBSiRS):
             xin = st.traj[i + 1].pa.part[:, :self.lxi].reshape((M, self.lxi, 1))
             self.cond_predict(particles, xin, u=st.u[i], t=st.t[i])
 
-        if (st.y[-1] is not None):
-            self.measure(particles, y=st.y[-1], t=st.t[-1])
+        # The storage for the measurements may be longer than the trajectory
+        if (st.y[T - 1] is not None):
+            self.measure(particles, y=st.y[T - 1], t=st.t[T - 1])
 
         straj[-1] = TrajectoryStep(ParticleApproximation(particles),
                                    st.traj[-1].ancestors)
-- 
2.43.0


From 21215ef290d7d2428f3f5b56f27706533dd45a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 10/29] fix: a missing measurement is skipped by every filter

---
 pyparticleest/filter.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5b83606..b186993 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -87,7 +87,7 @@ class ParticleFilter(object):
                          uvec=uvec, yvec=yvec,
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
@@ -239,8 +239,11 @@ class SIR(object):
         nw = self.model.logp_xnext(particles=pa.part, next_part=pnext,
                                    u=uvec[cur_ind], t=tvec[cur_ind])
 
-        yw = self.model.measure(particles=pnext, y=yvec[cur_ind + 1],
-                                     t=tvec[cur_ind + 1])
+        if (yvec[cur_ind + 1] is not None):
+            yw = self.model.measure(particles=pnext, y=yvec[cur_ind + 1],
+                                    t=tvec[cur_ind + 1])
+        else:
+            yw = 0.0
 
         new_weights = yw + nw - qw
 
@@ -383,8 +386,11 @@ class CSIRAS(SIR):
         nw = self.model.logp_xnext(particles=pa.part, next_part=pnext,
                                    u=uvec[cur_ind], t=tvec[cur_ind])
 
-        yw = self.model.measure(particles=pnext, y=yvec[cur_ind + 1],
-                                     t=tvec[cur_ind + 1])
+        if (yvec[cur_ind + 1] is not None):
+            yw = self.model.measure(particles=pnext, y=yvec[cur_ind + 1],
+                                    t=tvec[cur_ind + 1])
+        else:
+            yw = 0.0
 
 
         pa.w = yw + nw - qw
@@ -677,8 +683,9 @@ class AuxiliaryParticleFilter(ParticleFilter):
         pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
 
         resampled = False
+        has_meas = (yvec is not None and yvec[cur_ind + 1] is not None)
 
-        if (yvec is not None and yvec[cur_ind + 1] is not None):
+        if (has_meas):
             # TODO Generalize to non-Markovian
             l1w = self.model.eval_1st_stage_weights(pa.part, uvec[cur_ind],
                                                     yvec[cur_ind + 1],
@@ -689,7 +696,8 @@ class AuxiliaryParticleFilter(ParticleFilter):
         if (self.res and pa.calc_Neff() < self.res * pa.num):
             ancestors = pa.resample(self.model, pa.num)
             resampled = True
-            l1w = l1w[ancestors]
+            if (has_meas):
+                l1w = l1w[ancestors]
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
@@ -698,7 +706,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
 
-        if (yvec is not None):
+        if (has_meas):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
@@ -983,10 +991,11 @@ class ParticleTrajectory(object):
             self.yvec[self.ind] = y
             self.tvec[self.ind] = self.ind
 
-            self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
-                            pa=self.traj[-1].pa, uvec=self.uvec,
-                            yvec=self.yvec, tvec=self.tvec,
-                            cur_ind=self.ind, inplace=True)
+            if (y is not None):
+                self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+                                pa=self.traj[-1].pa, uvec=self.uvec,
+                                yvec=self.yvec, tvec=self.tvec,
+                                cur_ind=self.ind, inplace=True)
 
     def __len__(self):
         return len(self.traj)
-- 
2.43.0


From 45cd5b7ac7ba468d6a60d4f05db6be2c5794cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 11/29] fix: a failed measurement or time update leaves the
 trajectory unchanged

---
 pyparticleest/filter.py | 78 +++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index b186993..a41787b 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -910,38 +910,50 @@ class ParticleTrajectory(object):
         """
 
         if (len(self.traj) == 0):
-            self.ind = 0
             particles = self.pf.create_initial_estimate(self.N)
             pa = ParticleApproximation(particles=particles)
             self.traj.append(TrajectoryStep(pa, ancestors=numpy.arange(self.N)))
-
-        if (self.ind + 1 >= self.T):
-            ushape = numpy.asarray(self.uvec.shape)
-            ushape[0] = self.ind + 1
-            self.uvec.resize(ushape)
-            yshape = numpy.asarray(self.yvec.shape)
-            yshape[0] = self.ind + 2
-            self.yvec.resize(yshape)
-            tshape = numpy.asarray(self.tvec.shape)
-            tshape[0] = self.ind + 2
-            self.tvec.resize(tshape)
-            self.T = self.ind + 2
+            self.ind = 0
 
         ind = self.ind
+        if (ind + 1 >= self.T):
+            self._reserve(ind + 1, ind + 2)
+
         self.uvec[ind] = u
         self.yvec[ind + 1] = y
         self.tvec[ind + 1] = ind + 1
-        self.ind += 1
 
         (pa_nxt, resampled, ancestors) = self.pf.forward(traj=self.traj,
                                                          yvec=self.yvec,
                                                          uvec=self.uvec,
                                                          tvec=self.tvec,
                                                          cur_ind=ind)
+        # Nothing recorded earlier is changed until the step has succeeded
         self.traj.append(TrajectoryStep(pa_nxt, ancestors=ancestors))
+        self.ind = ind + 1
 
         return resampled
 
+    def _reserve(self, ulen, ylen):
+        """
+        Make room for more data. The data is moved to new arrays since the old
+        ones could still be referenced from elsewhere
+
+        Args:
+         - ulen (int): number of inputs to make room for
+         - ylen (int): number of measurements and timestamps to make room for
+        """
+        def grow(vec, length):
+            new = numpy.zeros((length,) + vec.shape[1:], dtype=vec.dtype)
+            num = min(length, len(vec))
+            new[:num] = vec[:num]
+            return new
+
+        self.uvec = grow(self.uvec, ulen)
+        self.yvec = grow(self.yvec, ylen)
+        self.tvec = grow(self.tvec, ylen)
+        self.T = ylen
+
     def measure(self, y):
         """
         Update estimate using new measurement
@@ -954,21 +966,12 @@ class ParticleTrajectory(object):
         """
 
         if (self.ind + 1 >= self.T):
-            ushape = numpy.asarray(self.uvec.shape)
-            ushape[0] = self.ind + 2
-            self.uvec.resize(ushape)
-            yshape = numpy.asarray(self.yvec.shape)
-            yshape[0] = self.ind + 2
-            self.yvec.resize(yshape)
-            tshape = numpy.asarray(self.tvec.shape)
-            tshape[0] = self.ind + 2
-            self.tvec.resize(tshape)
-            self.T = self.ind + 2
+            self._reserve(self.ind + 2, self.ind + 2)
 
         if (self.using_pfy):
-            self.ind += 1
-            self.yvec[self.ind] = y
-            self.tvec[self.ind] = self.ind
+            ind = self.ind + 1
+            self.yvec[ind] = y
+            self.tvec[ind] = ind
 
             ancestors = numpy.arange(self.N, dtype=int)
             pa = self.pf.measure(traj=self.traj,
@@ -977,25 +980,32 @@ class ParticleTrajectory(object):
                                  uvec=self.uvec,
                                  yvec=self.yvec,
                                  tvec=self.tvec,
-                                 cur_ind=self.ind,
+                                 cur_ind=ind,
                                  inplace=False)
             self.traj.append(TrajectoryStep(pa, ancestors=ancestors))
+            self.ind = ind
         else:
             if (len(self.traj) == 0):
-                self.ind = 0
                 particles = self.pf.create_initial_estimate(self.N)
                 pa = ParticleApproximation(particles=particles)
                 ancestors = numpy.arange(self.N, dtype=int)
                 self.traj.append(TrajectoryStep(pa, ancestors=ancestors))
+                self.ind = 0
 
-            self.yvec[self.ind] = y
+            # Keep what has been recorded so far unless the update succeeds
+            yvec = numpy.copy(self.yvec)
+            yvec[self.ind] = y
             self.tvec[self.ind] = self.ind
 
             if (y is not None):
-                self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
-                                pa=self.traj[-1].pa, uvec=self.uvec,
-                                yvec=self.yvec, tvec=self.tvec,
-                                cur_ind=self.ind, inplace=True)
+                self.traj[-1].pa = self.pf.measure(traj=self.traj,
+                                                   ancestors=self.traj[-1].ancestors,
+                                                   pa=self.traj[-1].pa,
+                                                   uvec=self.uvec,
+                                                   yvec=yvec, tvec=self.tvec,
+                                                   cur_ind=self.ind,
+                                                   inplace=False)
+            self.yvec = yvec
 
     def __len__(self):
         return len(self.traj)
-- 
2.43.0


From 6970ab11947fe290591f2f4de741e08c4321c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 12/29] fix: conditional SIR filter starts from the reference
 and keeps its weights finite

---
 pyparticleest/filter.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index a41787b..db1ba70 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -334,6 +334,21 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        """
+        Create initial particle estimate
+
+        Args:
+         - N (int): Number of particles
+
+        Returns:
+        (array-like): Sampled particles
+
+        """
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
@@ -395,7 +410,12 @@ class CSIRAS(SIR):
 
         pa.w = yw + nw - qw
 
-        pa.part[:] = pnext
+        # Keep the weights from going to -Inf
+        m = numpy.max(pa.w)
+        pa.w_offset += m
+        pa.w -= m
+
+        pa.part = pnext
         resampled = True
 
         return (pa, resampled, ancestors)
-- 
2.43.0


From 8b785a065a4a7f3919310c0081c1a8dbb34a67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 13/29] fix: resampling never selects a leading particle of
 zero weight

---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index db1ba70..7bd42ca 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -19,7 +19,8 @@ def sample(w, n):
 
     wc = numpy.cumsum(w)
     wc /= wc[-1] # Normalize
-    u = (range(n) + numpy.random.rand(1)) / n
+    # Use the interval (0, 1], otherwise u=0 could select an index with zero weight
+    u = (range(n) + (1.0 - numpy.random.rand(1))) / n
     return numpy.searchsorted(wc, u)
 
 
-- 
2.43.0


From 39581787e056863070a503bad069702fd8dedbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 14/29] fix: unused first stage weights do not affect the
 auxiliary filter

---
 pyparticleest/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 7bd42ca..2187099 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -721,6 +721,11 @@ class AuxiliaryParticleFilter(ParticleFilter):
                 l1w = l1w[ancestors]
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
+            if (has_meas):
+                # The first stage weights were not used, removing them after
+                # the measurement update is not possible if they are -Inf
+                pa.w = numpy.copy(traj[-1].pa.w)
+                l1w = 0.0
 
         pa = self.update(traj=traj, ancestors=ancestors,
                          uvec=uvec, yvec=yvec,
-- 
2.43.0


From fb292c63f92d362eda21672dca0aa4c50349ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 15/29] fix: Metropolis-Hastings smoothers handle single steps,
 missing last measurements and several trajectories

---
 pyparticleest/smoother.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..ca5c331 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -468,13 +468,16 @@ class SmoothTrajectory(object):
                 ptraj = pt[:t]
             else:
                 ptraj = None
+                if (T == 1):
+                    # There are no ancestors to choose between
+                    anc = find
+                panc = anc
 
             for _ in range(R):
 
                 if (t > 0):
-                    # Propose new ancestors
-                    panc = pf.sample(tmp, M)
-
+                    # Propose new ancestors, independent of the trajectory index
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
                 (pnew, acc) = mc_step(model=self.model,
                                       part=pnew,
@@ -489,7 +492,8 @@ class SmoothTrajectory(object):
                                       cur_ind=t,
                                       reduced=reduced)
 
-                anc[acc] = panc[acc]
+                if (t > 0):
+                    anc[acc] = panc[acc]
 
             fpart = self.model.sample_smooth(part=pnew,
                                              ptraj=ptraj,
@@ -526,7 +530,11 @@ class SmoothTrajectory(object):
         pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
-        pt = self.traj[:T - 1]
+        if (T > 1):
+            pt = self.traj[:T - 1]
+        else:
+            # There is nothing before the only step
+            pt = None
         (part, _acc) = mc_step(model=self.model,
                               part=self.traj[-1].pa.part,
                               ptraj=pt,
@@ -580,6 +588,9 @@ class SmoothTrajectory(object):
             straj[i] = TrajectoryStep(ParticleApproximation(tmp), pind)
 
 
+        if (T == 1):
+            return straj
+
         ft = straj[1:]
 
         (part, _acc) = mc_step(model=self.model,
@@ -672,7 +683,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
                               tvec=tt[:cur_ind],
                               ancestors=pind_prop, noise=noise)
         else:
-            xprop = model.create_initial_estimate(len(future_trajs[0].pa.part))
+            xprop = model.create_initial_estimate(len(part))
 
         # Drawing from p(x_{t+1}|x_t), so these will be identical
         logp_prev_prop = 0.0
@@ -767,11 +778,12 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
         logp_next_curr = 0.0
 
 
-    # Calc ratio
-    ratio = ((logp_prev_prop - logp_prev_curr) +
-             (logp_y_prop - logp_y_curr) +
-             (logp_next_prop - logp_next_curr) +
-             (logp_q_curr - logp_q_prop))
+    # Calc ratio, all terms could be scalars if there is no measurement
+    ratio = numpy.zeros((len(part),))
+    ratio += ((logp_prev_prop - logp_prev_curr) +
+              (logp_y_prop - logp_y_curr) +
+              (logp_next_prop - logp_next_curr) +
+              (logp_q_curr - logp_q_prop))
 
     test = numpy.log(numpy.random.uniform(size=len(ratio)))
     acc = test < ratio
-- 
2.43.0


From 11e7a67b3c38cc79e1c2ae87a726a53b0009e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 16/29] fix: numeric M-step works for models storing parameters
 as a column

---
 pyparticleest/paramest/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..fb35e0d 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -287,7 +287,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From 286f3e602d9f3384a70e31f088701f7e3cc68b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 17/29] fix: analytic gradients of the expected log-likelihood
 match its value

---
 pyparticleest/models/ltv.py            | 12 ++++++------
 pyparticleest/models/mlnlg.py          |  9 ++++-----
 pyparticleest/paramest/gradienttest.py |  2 +-
 pyparticleest/paramest/interfaces.py   | 10 +++++-----
 4 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..1a4d3ea 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -328,7 +328,7 @@ class LTV(FFBSi, ParticleFiltering):
 
     def eval_logp_x0_val_grad(self, particles, t):
         """
-        Evaluate gradient of sum log p(x_0)
+        Evaluate value and gradient of the average of log p(x_0)
 
         Args:
          - particles  (array-like): Model specific representation
@@ -353,7 +353,7 @@ class LTV(FFBSi, ParticleFiltering):
                 lpz0 += -0.5 * (ld + numpy.trace(tmp))
                 for j in range(len(self.params)):
                     lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[j], l1, l1_grad[j])
-        return (lpz0, lpz0_grad)
+        return (numpy.sum(lpz0) / N, lpz0_grad / N)
 
 
 
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 417c4e1..78e1ccf 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -386,9 +386,9 @@ class MixedNLGaussianSampled(RBPSBase):
             A = numpy.repeat(numpy.vstack((Axi[0], Az[0]))[numpy.newaxis], N, 0)
             A_identical = True
         else:
-            A = list()
+            A = numpy.empty((N, self.lxi + self.kf.lz, self.kf.lz))
             for i in range(N):
-                A.append(numpy.vstack((Axi[i], Az[i])))
+                A[i] = numpy.vstack((Axi[i], Az[i]))
 
         if (fxi_identical and fz_identical):
             f = N * (numpy.vstack((fxi[0], fz[0])),)
@@ -779,7 +779,7 @@ class MixedNLGaussianSampled(RBPSBase):
                 dl1 = -tmp - tmp.T
                 lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[i][j], l1, dl1)
 
-        return ((lpxi0 + lpz0) / N,
+        return ((numpy.sum(lpxi0) + lpz0) / N,
                 (lpxi0_grad + lpz0_grad) / N)
 
 
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
@@ -1023,7 +1022,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..dc58479 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index fb35e0d..63336dc 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -147,8 +147,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
                                                         straj.t[t])
-                logp_y += val
-                logp_y_grad += grad
+                logp_y += numpy.sum(val)
+                logp_y_grad += numpy.ravel(grad)
         return (logp_y / M, logp_y_grad / M)
 
     def eval_logp_xnext_val_grad_fulltraj(self, straj, ut, tt):
@@ -162,8 +162,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         sest[t + 1],
                                                         straj.u[t],
                                                         straj.t[t])
-            logp_xnext += val
-            logp_xnext_grad += grad
+            logp_xnext += numpy.sum(val)
+            logp_xnext_grad += numpy.ravel(grad)
 
         return (logp_xnext / M, logp_xnext_grad / M)
 
@@ -282,7 +282,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From 5503889ff05e52f2ba8f6e64fa10068d0e010e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 18/29] fix: SAEM and PSAEM pair weights with trajectory arrays
 and leave the caller's options alone

---
 pyparticleest/paramest/paramest.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..0a04a40 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
@@ -218,6 +218,12 @@ class ParamEstimationPSAEM(Simulator):
         """
 
         params_local = numpy.copy(param0)
+        # The reference trajectory is replaced in each iteration, leave the
+        # options passed by the caller unchanged
+        if (filter_options is None):
+            filter_options = dict()
+        else:
+            filter_options = dict(filter_options)
         alltrajs = None
         weights = None
 
@@ -245,6 +251,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
@@ -327,6 +335,12 @@ class ParamEstimationPSAEM2(Simulator):
         """
 
         params_local = numpy.copy(param0)
+        # The reference trajectory is replaced in each iteration, leave the
+        # options passed by the caller unchanged
+        if (filter_options is None):
+            filter_options = dict()
+        else:
+            filter_options = dict(filter_options)
         alltrajs = None
         weights = numpy.empty((max_iter * num_part,))
 
-- 
2.43.0


From 9e6a9fc84260ebff36036236c0e10ed289d81a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 19/29] fix: PSAEM stops after max_iter iterations, reference
 trajectories may come from several

---
 pyparticleest/paramest/paramest.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 0a04a40..0eb17cd 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,8 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         weights = None
 
         def default_callback(params, Q, cur_iter):
-            if (cur_iter >= max_iter):
-                return True
+            return False
 
         if (callback is None):
             callback = default_callback
@@ -290,10 +289,9 @@ class ParamEstimationPSAEM(Simulator):
 
             params_local = self.model.maximize_weighted(self.straj, alltrajs, weights)
 
-            if (callback is not None):
-                rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
-                if (rval):
-                    break
+            rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
+            if (rval or i >= max_iter):
+                break
         return (params_local, -numpy.Inf)
 
 class ParamEstimationPSAEM2(Simulator):
-- 
2.43.0


From d42f0fe82b252af642a4bc22147de198aee62077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 20/29] fix: measurement-proposing conditional filter accepts a
 set of trajectories as reference

---
 pyparticleest/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 2187099..386a35f 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -794,7 +794,7 @@ class CPFYAS(CPFAS):
         resampled = True
 
         partn = self.model.propose_from_y(self.N, y=yvec[cur_ind + 1], t=tvec[cur_ind + 1])
-        partn[-1] = self.ctraj[cur_ind + 1].pa.part
+        partn[-1] = self.ctraj[cur_ind + 1].pa.part[0]
 
         find = numpy.asarray(range(self.N))
 
@@ -833,7 +833,7 @@ class CPFYAS(CPFAS):
 
         assert(not inplace)
         part = self.model.propose_from_y(self.N, y=yvec[cur_ind], t=tvec[cur_ind])
-        part[-1] = self.ctraj[cur_ind].pa.part
+        part[-1] = self.ctraj[cur_ind].pa.part[0]
         pa = ParticleApproximation(part)
         return pa
 
-- 
2.43.0


From 3680582f36fc50e381f1b944d447e62cd9caeafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 21/29] fix: conditional filters leave the posterior unchanged
 for any number of particles

---
 pyparticleest/filter.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 386a35f..154affb 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -23,6 +23,22 @@ def sample(w, n):
     u = (range(n) + (1.0 - numpy.random.rand(1))) / n
     return numpy.searchsorted(wc, u)
 
+def sample_independent(w, n):
+    """
+    Return n random indices, where the probability if index
+    is given by w[i]. In contrast to 'sample' all indices are
+    drawn independently of each other, which is needed for the conditional
+    filters to leave the posterior distribution unchanged.
+
+    Args:
+    - w (array_like): probability weights
+    - n (int):  number of indices to sample
+    """
+
+    wc = numpy.cumsum(w)
+    wc /= wc[-1] # Normalize
+    return numpy.searchsorted(wc, 1.0 - numpy.random.rand(n))
+
 
 class ParticleFilter(object):
     """
@@ -371,7 +387,7 @@ class CSIRAS(SIR):
         ancestors = numpy.empty((N,), dtype=int)
         tmp = numpy.exp(traj[-1].pa.w)
         tmp /= numpy.sum(tmp)
-        ancestors[:-1] = sample(tmp, N - 1)
+        ancestors[:-1] = sample_independent(tmp, N - 1)
 
         #select ancestor for conditional trajectory
         pind = numpy.asarray(range(N), dtype=int)
@@ -585,7 +601,7 @@ class CPF(ParticleFilter):
         ancestors = numpy.empty((N,), dtype=int)
         tmp = numpy.exp(traj[-1].pa.w)
         tmp /= numpy.sum(tmp)
-        ancestors[:-1] = sample(tmp, N - 1)
+        ancestors[:-1] = sample_independent(tmp, N - 1)
 
         ancestors[-1] = N - 1 #condind
 
@@ -638,7 +654,7 @@ class CPFAS(CPF):
         ancestors = numpy.empty((N,), dtype=int)
         tmp = numpy.exp(traj[-1].pa.w)
         tmp /= numpy.sum(tmp)
-        ancestors[:-1] = sample(tmp, N - 1)
+        ancestors[:-1] = sample_independent(tmp, N - 1)
 
         #select ancestor for conditional trajectory
         pind = numpy.asarray(range(N), dtype=int)
@@ -770,7 +786,7 @@ class CPFYAS(CPFAS):
         ancestors = numpy.empty((self.N,), dtype=int)
         tmp = numpy.exp(traj[cur_ind].pa.w)
         tmp /= numpy.sum(tmp)
-        ancestors[:-1] = sample(tmp, self.N - 1)
+        ancestors[:-1] = sample_independent(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
         pind = numpy.arange(self.N, dtype=int)
-- 
2.43.0


From 5df457e9184a90062cf4162b439d6820f3fad08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 22/29] fix: instrumented models behave as the encapsulated
 model and statistics can be printed

---
 pyparticleest/utils/intrument.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..0d6ed97 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -61,12 +61,21 @@ class Instrumenter(object):
         self.model = model
         self.oc = OpCount()
 
+    def __getattr__(self, name):
+        # Only called for attributes not found by the normal means
+        if (name.startswith('__') or name == 'model' or name == 'oc'):
+            raise AttributeError(name)
+        if (name.startswith('cnt_')):
+            return getattr(self.oc, name)
+        # Forward everything that isn't counted to the encapsulated model
+        return getattr(self.model, name)
+
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
         print("cnt_sample: %d" % self.cnt_sample)
         print("cnt_update: %d" % self.cnt_update)
         print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
+        print("cnt_pdfxn: %d" % (self.cnt_pdfxn + self.cnt_pdfxn_full))
         print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
         print("cnt_propsmooth: %d" % self.cnt_propsmooth)
         print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
@@ -75,6 +84,7 @@ class Instrumenter(object):
     def print_total_ops(self):
         print("total ops: %d" % (self.cnt_sample + self.cnt_update +
                                  self.cnt_measure + self.cnt_pdfxn +
+                                 self.cnt_pdfxn_full +
                                  self.cnt_pdfxnmax + self.cnt_propsmooth +
                                  self.cnt_pdfsmooth))
 
@@ -97,6 +107,11 @@ class Instrumenter(object):
         self.oc.cnt_measure += len(particles)
         return self.model.measure_full(particles, traj, uvec, yvec, tvec, ancestors)
 
+    def measure(self, particles, y, t):
+        """ Return the log-pdf value of the measurement """
+        self.oc.cnt_measure += len(particles)
+        return self.model.measure(particles, y, t)
+
     def copy_ind(self, particles, new_ind=None):
         return self.model.copy_ind(particles, new_ind)
 
@@ -148,10 +163,14 @@ class Instrumenter(object):
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
     def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
+        if (hasattr(self.model, 'pre_mhips_pass')):
+            return self.model.pre_mhips_pass(st)
+        return st.traj
 
     def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
+        if (hasattr(self.model, 'post_smoothing')):
+            return self.model.post_smoothing(st)
+        return st.traj
 
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
-- 
2.43.0


From 182f2328140ad34f7a769c70415e47754837e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 23/29] fix: marginalized smoother integrates the linear state
 with the right sign

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 78e1ccf..6a8b27f 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1216,7 +1216,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From 6c4aba0e239fa64a6f361bb556e2a03eddcccc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 24/29] fix: default gradient of the initial linear state has
 one entry per parameter

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 6a8b27f..c6e6ab3 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1112,8 +1112,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From 6b064361117be3ab6071231a729c40c58c56aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 25/29] fix: derivatives given as integers or lists work with
 the compiled helpers

---
 pyparticleest/models/mlnlg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index c6e6ab3..00beb1e 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -808,9 +808,12 @@ class MixedNLGaussianSampled(RBPSBase):
         tmp1 = numpy.zeros((self.lxi + self.kf.lz, self.lxi + self.kf.lz), dtype=numpy.double, order='C')
         tmp2 = numpy.zeros((self.lxi + self.kf.lz, self.kf.lz), dtype=numpy.double, order='C')
         if (f_grad is not None):
+            f_grad = numpy.asarray(f_grad, dtype=numpy.double)
             mlnlg_compute.compute_l2_grad_f(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, f_grad, tmp1)
         if (A_grad is not None):
+            A = numpy.asarray(A, dtype=numpy.double)
+            A_grad = numpy.asarray(A_grad, dtype=numpy.double)
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
         return (l2, diff_l2)
-- 
2.43.0


From 3a35f36627b80a2a2e7c02df1bc35d3f16210b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 26/29] fix: find_best_particles returned the least likely
 particles

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 154affb..81f7df6 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1201,5 +1201,5 @@ class ParticleApproximation(object):
 
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
-        indices = numpy.argsort(self.w)
+        indices = numpy.argsort(-self.w)
         return indices[range(n)]
-- 
2.43.0


From d052cdaf37ec8ebd59f8f19ad1172dc6a3495d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:41 +0000
Subject: [PATCH 27/29] fix: M-step of linear models accepts measurements
 stored as integers

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index d29558e..ff205bd 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index 129eb63..288a3ca 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
-- 
2.43.0


From 208696a0a69ca54be54bd9fbbf20ea3c87e32244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 28/29] fix: initial state of nonlinear Gaussian models may be
 given as integers

---
 pyparticleest/models/nlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index d93ad97..cf79549 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -410,7 +410,7 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
         Returns:
          (array-like) with first dimension = N, model specific representation
          of all particles """
-        particles = numpy.repeat(self.x0, N, 1).T
+        particles = numpy.repeat(self.x0, N, 1).T.astype(float)
         if (numpy.any(self.Px0)):
             Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-- 
2.43.0


From 3f842d6a4e499bfdb99ef7dfedf2923e8c812a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 29/29] fix: PSAEM estimators accept a particle count per
 iteration as documented

---
 pyparticleest/paramest/paramest.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 0eb17cd..f6509cb 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -233,16 +233,24 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
             self.set_params(params_local)
 
-            self.simulate(num_part, M, filter=filter, filter_options=filter_options,
+            if (numpy.isscalar(num_part)):
+                nump = num_part
+            else:
+                if (i <= len(num_part)):
+                    nump = num_part[i - 1]
+                else:
+                    nump = num_part[-1]
+
+            self.simulate(nump, M, filter=filter, filter_options=filter_options,
                           smoother=smoother, meas_first=meas_first)
 
             if (raoblackwell == True):
+                ind = numpy.arange(nump, dtype=int)
                 tmp = self.straj.calculate_ancestors(self.pt, ind)
                 w = numpy.exp(self.pt.traj[-1].pa.w)
                 w = numpy.copy(w / numpy.sum(w))
@@ -340,13 +348,21 @@ class ParamEstimationPSAEM2(Simulator):
         else:
             filter_options = dict(filter_options)
         alltrajs = None
-        weights = numpy.empty((max_iter * num_part,))
+        weights = numpy.empty((max_iter,))
 
         datalen = 0
         for i in range(max_iter):
             self.set_params(params_local)
 
-            self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
+            if (numpy.isscalar(num_part)):
+                nump = num_part
+            else:
+                if (i < len(num_part)):
+                    nump = num_part[i]
+                else:
+                    nump = num_part[-1]
+
+            self.simulate(nump, 1, filter=filter, filter_options=filter_options,
                           smoother=smoother, smoother_options=smoother_options,
                           meas_first=meas_first)
 
-- 
2.43.0

