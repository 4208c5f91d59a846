From 4aefdf8fb60eedfd03b32d207ed88b163c308918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 01/32] fix: order Adams-Bashforth and Adams-Moulton
 coefficients oldest first, as the history is

---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 nbkode/multistep/adams_moulton.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From a7eab721ba58d256f0b9e7bac0c9e3eb0dbe6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 02/32] fix: multistep solvers with a nonzero implicit
 coefficient are the implicit ones

---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From e6f5de3d8a1c2a193312d86a749ebd5190e170a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 03/32] fix: multistep startup with a variable-step starter
 counts from t0

---
 nbkode/multistep/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..40fdd96 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -58,9 +58,10 @@ class Multistep(Solver, abstract=True):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
-            # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
+            # For variable step solver we run N times until
+            # t0 + h, t0 + 2h, t0 + 3h .. t0 + (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From 4086921bff47c5bbbfd3c00ea375a515a4701504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 04/32] fix: multistep startup refuses to go beyond t_bound

---
 nbkode/multistep/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 40fdd96..e3b0b9f 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -43,6 +43,9 @@ class Multistep(Solver, abstract=True):
                 self.cache.push(self.t, self.y, self.f)
             return
 
+        # The startup ends at the ORDER-th point, which must not be beyond t_bound.
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if first_stepper_cls == "auto":
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
-- 
2.43.0


From c35cd02604fe0b2f8c82eca14e60fc8ba4ad3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 05/32] fix: run_events with past timepoints warns instead of
 raising AttributeError

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..494c315 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -438,7 +438,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From 1ff67c682b37d2b666ab8e85060465cfde7f9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 06/32] fix: run with unsorted timepoints cut short by t_bound
 or a terminal event

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 494c315..b4a20ac 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -443,7 +443,8 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
-        ondx = np.argsort(ndx)
+        # There are fewer rows than timepoints if the integration was cut short.
+        ondx = np.argsort(ndx[: ts.size])
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From 5b405826d71790bd72707de0fbab321f8da1fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 07/32] fix: stop at the earliest terminal event and report
 nothing after it

---
 nbkode/event_handler.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..703ed39 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -165,6 +165,12 @@ class Event:
 
         return trigger and self.is_terminal
 
+    def discard_after(self, t):
+        """Forget the occurrences later than t."""
+        while self.t and self.t[-1] > t:
+            self.t.pop()
+            self.y.pop()
+
     @property
     def last_event(self):
         if self.t:
@@ -221,14 +227,20 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            # The integration ends at the earliest terminal event.
+            for event in self.events:
+                event.discard_after(min_t)
+
         return terminate
 
 
-- 
2.43.0


From 9f3baa38bccb39b674b502cd2d75c7da0a36f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 08/32] fix: keep the requested timepoints that precede a
 terminal event in its step

---
 nbkode/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b4a20ac..9cff2f9 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -640,9 +640,17 @@ class Solver(ABC, metaclass=MetaSolver):
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
-                    # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    t_end, y_end = event_handler.last_event
+                    # Evaluate the timepoints before the termination ...
+                    n = ndx
+                    while n < t_eval.size and t_eval[n] < t_end:
+                        y_out[n] = interpolate(t_eval[n], rhs, cache, *args)
+                        n += 1
+                    # ... and append the termination value.
+                    if n < t_eval.size:
+                        t_eval[n], y_out[n] = t_end, y_end
+                        n += 1
+                    return t_eval[:n], y_out[:n], True
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
         return t_eval, y_out, False
-- 
2.43.0


From 7fbb33cac58c5819086f2d105415e384978b385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 09/32] fix: step() and skip() raise at t_bound as documented;
 step() returns a copy

---
 nbkode/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 9cff2f9..1359a33 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -245,8 +245,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+            if not self._step(self.t_bound, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
+            return np.atleast_1d(self.t), np.copy(self.y)
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,7 +297,8 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
+            if self._nskip(1, self.t_bound, self._step, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
-- 
2.43.0


From 982bb9fe6e52a34969297f4705670055e78ff471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 10/32] fix: Hermite dense output uses the recorded step that
 contains the timepoint

---
 nbkode/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 1359a33..940e918 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -584,12 +584,20 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        if t_eval == cache.t:
+            return cache.y.copy()
+
+        # Look for the recorded step that contains t_eval.
+        ndx = cache.ts.size - 2
+        while ndx > 0 and t_eval < cache.ts[ndx]:
+            ndx -= 1
+
+        t0, y0 = cache.ts[ndx], cache.ys[ndx]
         if t_eval == t0:
-            return y0
+            return y0.copy()
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        dt, dy = cache.ts[ndx + 1] - t0, cache.ys[ndx + 1] - y0
+        f0, f1 = cache.fs[ndx], cache.fs[ndx + 1]
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From 98d9abcc6346d7880b1f0f5ff5044250adb7cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 11/32] fix: dense output at an accepted point returns a copy,
 not the live history

---
 nbkode/runge_kutta/explicit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..ae62fb2 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -370,9 +370,9 @@ class RkInterpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
@@ -450,9 +450,9 @@ class DOP853Interpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
-- 
2.43.0


From 72f507ddef59697e12a48dc77dee55952879096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 12/32] fix: DOP853 accepts a step whose error estimate is zero

---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index ae62fb2..8922fc9 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = err5
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From 98eb1f24f12ef5d4c33deb377f40795047426035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 13/32] fix: step function of adaptive pairs without FSAL takes
 the arguments it is called with

---
 nbkode/runge_kutta/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..1c16a96 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -107,10 +107,7 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         step_update = cls._step_update
 
         @numba.njit
-        def _step(t_bound, rhs, cache, h, K, options):
-            if cache.t + h > t_bound:
-                return False
-
+        def _step(rhs, cache, h, K, options, *args):
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 error = step_error(h, K, E)
@@ -119,8 +116,6 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                     cache.push(t, y, rhs(t, y))
                     break
 
-            return True
-
         return _step
 
     @property
-- 
2.43.0


From c1438d88ff30371b1c28a39d7cec8353f3426aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 14/32] fix: a failed or rejected attempt of an adaptive step
 leaves step size and stages alone

---
 nbkode/runge_kutta/core.py     | 13 +++++++++----
 nbkode/runge_kutta/explicit.py | 26 +++++++++++++++++---------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 1c16a96..dc7ac6d 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -108,12 +108,17 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # h and K are only updated when the step is accepted.
+            h_try, K_try = h.copy(), np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                error = step_error(h, K, E)
+                t, y = fixed_step(rhs, cache, h_try, K_try)
+                error = step_error(h_try, K_try, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
-                if step_update(error_norm, h, options, error_exponent):
-                    cache.push(t, y, rhs(t, y))
+                if step_update(error_norm, h_try, options, error_exponent):
+                    f = rhs(t, y)
+                    cache.push(t, y, f)
+                    K[:] = K_try
+                    h[()] = h_try[()]
                     break
 
         return _step
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8922fc9..ddbd16d 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -88,12 +88,16 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # h and K are only updated when the step is accepted.
+            h_try, K_try = h.copy(), np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                error = step_error(h, K, E)
+                t, y = fixed_step(rhs, cache, h_try, K_try)
+                error = step_error(h_try, K_try, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
-                if step_update(error_norm, h, options, error_exponent):
-                    cache.push(t, y, K[-1])
+                if step_update(error_norm, h_try, options, error_exponent):
+                    cache.push(t, y, K_try[-1])
+                    K[:] = K_try
+                    h[()] = h_try[()]
                     break
 
         return _step
@@ -327,18 +331,22 @@ class DOP853(FSAL):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # h and K are only updated when the step is accepted.
+            h_try, K_try = h.copy(), np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                err5 = step_error(h, K, E5)
-                err3 = step_error(h, K, E3)
+                t, y = fixed_step(rhs, cache, h_try, K_try)
+                err5 = step_error(h_try, K_try, E5)
+                err3 = step_error(h_try, K_try, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
                 if err5 == 0:
                     error_norm = err5
                 else:
                     error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
-                if step_update(error_norm, h, options, error_exponent):
-                    cache.push(t, y, K[-1])
+                if step_update(error_norm, h_try, options, error_exponent):
+                    cache.push(t, y, K_try[-1])
+                    K[:] = K_try
+                    h[()] = h_try[()]
                     break
 
         return _step
-- 
2.43.0


From 41095dce0c7e5f170e2c8093bb77ca7895d41a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 15/32] fix: adaptive steps raise instead of looping for ever
 on non-finite or vanishing steps

---
 nbkode/runge_kutta/core.py     | 8 ++++++++
 nbkode/runge_kutta/explicit.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index dc7ac6d..e120c75 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -79,6 +79,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
     @numba.njit(inline="always")
     def _scaled_error_norm(y, y_prev, error, options):
         scale = options.atol + options.rtol * np.maximum(np.abs(y), np.abs(y_prev))
+        if not np.all(np.isfinite(scale)):
+            return np.inf
         error_norm = np.sqrt(np.mean((error / scale) ** 2))
         return error_norm
 
@@ -94,6 +96,10 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
             h *= options.max_factor
             return True  # step accepted
 
+        if not np.isfinite(error_norm):
+            h *= options.min_factor
+            return False  # step rejected
+
         factor = options.safety_factor / error_norm**error_exponent
         h *= min(options.max_factor, max(options.min_factor, factor))
         return error_norm < 1
@@ -111,6 +117,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
             # h and K are only updated when the step is accepted.
             h_try, K_try = h.copy(), np.empty_like(K)
             while True:
+                if not cache.t < cache.t + h_try < np.inf:
+                    raise RuntimeError("Required step size is too small or not finite.")
                 t, y = fixed_step(rhs, cache, h_try, K_try)
                 error = step_error(h_try, K_try, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index ddbd16d..b667f00 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -91,6 +91,8 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
             # h and K are only updated when the step is accepted.
             h_try, K_try = h.copy(), np.empty_like(K)
             while True:
+                if not cache.t < cache.t + h_try < np.inf:
+                    raise RuntimeError("Required step size is too small or not finite.")
                 t, y = fixed_step(rhs, cache, h_try, K_try)
                 error = step_error(h_try, K_try, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
@@ -334,6 +336,8 @@ class DOP853(FSAL):
             # h and K are only updated when the step is accepted.
             h_try, K_try = h.copy(), np.empty_like(K)
             while True:
+                if not cache.t < cache.t + h_try < np.inf:
+                    raise RuntimeError("Required step size is too small or not finite.")
                 t, y = fixed_step(rhs, cache, h_try, K_try)
                 err5 = step_error(h_try, K_try, E5)
                 err3 = step_error(h_try, K_try, E3)
-- 
2.43.0


From c94a6dc7b3fc5bafb353a1b1ad823fb3e7f41e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 16/32] fix: honour the min_step and max_step options of
 adaptive solvers

---
 nbkode/core.py             |  3 ++-
 nbkode/runge_kutta/core.py | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 940e918..3628561 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -683,7 +683,7 @@ class VariableStepOptions:
         self,
         atol: float = 1e-6,
         rtol: float = 1e-3,
-        min_step: float = 1e-15,
+        min_step: float = 0.0,
         max_step: float = np.inf,
         min_factor: float = 0.2,
         max_factor: float = 10.0,
@@ -722,6 +722,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
+        h = min(self.options.max_step, max(self.options.min_step, h))
         self.h = np.array(h, dtype=float)
 
 
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index e120c75..33a2cd7 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -93,16 +93,20 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         Returns True if step is accepted.
         """
         if error_norm == 0:
-            h *= options.max_factor
-            return True  # step accepted
-
-        if not np.isfinite(error_norm):
-            h *= options.min_factor
-            return False  # step rejected
-
-        factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
-        return error_norm < 1
+            factor = options.max_factor
+        elif np.isfinite(error_norm):
+            factor = options.safety_factor / error_norm**error_exponent
+            factor = min(options.max_factor, max(options.min_factor, factor))
+        else:
+            factor = options.min_factor
+
+        accepted = error_norm < 1
+        if not accepted and h <= options.min_step:
+            raise RuntimeError("Required step size is less than min_step.")
+
+        h *= factor
+        h[()] = min(options.max_step, max(options.min_step, h[()]))
+        return accepted
 
     @classmethod
     def _step_builder(cls):
-- 
2.43.0


From aeb11933e50804576b9c2a536dfb71b09bf6fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 17/32] fix: a solver definition that fails leaves the registry
 alone

---
 nbkode/core.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 3628561..6329342 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -158,16 +158,15 @@ class Solver(ABC, metaclass=MetaSolver):
                     f"LEN_HISTORY cannot be smaller than 1"
                 )
 
+            names = CaseInsensitiveDict()
             for name_or_alias in (cls.__name__,) + cls.ALIASES:
-                if name_or_alias in cls.SOLVERS:
+                other = cls.SOLVERS.get(name_or_alias, names.get(name_or_alias))
+                if other is not None:
                     raise Exception(
                         f"Duplicate name/alias {cls.__name__} in {cls} "
-                        f"collides with {cls.SOLVERS[name_or_alias]}"
+                        f"collides with {other}"
                     )
-                cls.SOLVERS[name_or_alias] = cls
-            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
-                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
-            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
+                names[name_or_alias] = cls
 
             cls._fixed_step = staticmethod(cls._fixed_step_builder())
 
@@ -183,6 +182,12 @@ class Solver(ABC, metaclass=MetaSolver):
 
             cls._step = staticmethod(_step)
 
+            # Register the solver only once nothing can fail anymore.
+            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
+                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
+            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
+            cls.SOLVERS.update(names)
+
     @classmethod
     @abstractmethod
     def _fixed_step_builder(cls):
-- 
2.43.0


From ec21620bae447eee6c813b212c0688961b9e0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 18/32] fix: params are copied, so that later changes do not
 reach the solver

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 6329342..e614842 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -116,7 +116,8 @@ class Solver(ABC, metaclass=MetaSolver):
         self.t_bound = t_bound
 
         if params is not None:
-            params = np.ascontiguousarray(params)
+            # A copy, as the array provided by the user might change later.
+            params = np.ascontiguousarray(params).copy()
 
         self.user_rhs = rhs
 
-- 
2.43.0


From a075dfd247ff1a68636f7f96934fd5d284211d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 19/32] fix: accuracy of the event time does not depend on the
 scale of the event function

---
 nbkode/event_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 703ed39..0947988 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -152,6 +152,9 @@ class Event:
                     event_at_sol,
                     self.last_t,
                     t,
+                    # Only stop on the width of the interval, as the scale of
+                    # the event function is arbitrary.
+                    tol=0.0,
                     args=(self.func, interpolate, rhs, cache, *args),
                 )
 
-- 
2.43.0


From e984fac00beb870b6a5e9a8fca6c887619ab8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 20/32] fix: DOP853 does not evaluate the rhs at uninitialised
 memory on construction

---
 nbkode/runge_kutta/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 33a2cd7..02d6b1a 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -24,7 +24,8 @@ class RungeKutta(Solver, abstract=True):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self.K = np.empty((self.stages, self.y.size))
+        # Zeros, as DOP853 evaluates the rhs from it before the first step.
+        self.K = np.zeros((self.stages, self.y.size))
 
     @staticmethod
     def _fixed_step():
-- 
2.43.0


From 69025fe680f2b4763f2db08b8a178ca935e357e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 21/32] fix: implicit steps raise in both modes when the Newton
 system is not finite

---
 nbkode/nbcompat/zeros.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..de74e51 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -478,7 +478,11 @@ def newton_hd_impl(
     iteration_counter = 0
 
     while not isclose(distance, 0, rtol=rtol, atol=atol):
-        delta = np.linalg.solve(jacobian(func, y, args), -value)
+        J = jacobian(func, y, args)
+        # numpy and numba disagree on how to solve a non finite system.
+        if not (np.all(np.isfinite(J)) and np.all(np.isfinite(value))):
+            return y, NewtonEnum.NOT_CONVERGED
+        delta = np.linalg.solve(J, -value)
         y = y + delta
         value = func(y, *args)
         distance = np.linalg.norm(value, ord=2)
-- 
2.43.0


From 7f0337fb6207391273182dc60217eae096ac282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 22/32] fix: scalar implicit steps raise instead of accepting a
 point that is not a root

The secant iteration ends when its steps are small. When an iterate meets a
huge or infinite value of the right-hand side it falls back onto an earlier
iterate, which was then returned as a root whatever its residual.
---
 nbkode/nbcompat/zeros.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index de74e51..69341eb 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -434,6 +434,15 @@ def j_newton(
     p, funcalls, itr, flag = r
     if my_flag is not NewtonEnum.OK:
         raise RuntimeError
+
+    # The iteration ends when its steps are small, which they also are
+    # next to a huge or infinite value without p being a root.
+    value = func(p, *args)
+    if not isclose(value, 0, rtol=rtol, atol=tol):
+        dx = 1e-7 * (1 + np.abs(p))
+        dvalue = func(p + dx, *args) - value
+        if not np.abs(value) <= np.abs(dvalue):
+            raise RuntimeError
     return p
 
 
-- 
2.43.0


From 9076bcaae72e0bc64760b1f5567b714554bce29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 23/32] fix: IMPLICIT is a plain bool for multistep solvers
 defined with a numpy Bn

get_solvers compares it by identity, so such solvers were left out of every
implicit=True or implicit=False query.
---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index e3b0b9f..078169c 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn != 0
+        return bool(cls.Bn != 0)
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From e30cfc12b8519579257688fe783b4c48e15a874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 24/32] fix: events of very small scale raised because the
 product of their values is zero

---
 nbkode/nbcompat/zeros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 69341eb..6762b13 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -528,7 +528,8 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    # Compare the signs, as the product of small values is zero.
+    if not np.sign(yl) * np.sign(yr) < 0:
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0


From e5a6f9ca0656c4f49a873ccaab393131a485aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 25/32] fix: the automatic first step does not evaluate the
 right-hand side beyond t_bound

---
 nbkode/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index e614842..8bbbf19 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -718,8 +718,10 @@ class VariableStep:
         validate_max_step(self.options.max_step)
         validate_tol(self.options.rtol, self.options.atol, self.y.size)
         if h is None:
+            rhs, t_bound = self.rhs, float(self.t_bound)
             h = select_initial_step(
-                self.rhs,
+                # The equation might have problems after t_bound.
+                lambda t, y: rhs(min(t, t_bound), y),
                 self.t,
                 self.y,
                 self.f,
-- 
2.43.0


From 13f6675f978be4ff6968394fa81c672237001841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 26/32] fix: the valid names offered by a failed lookup and by
 dir() include solvers defined later

---
 nbkode/__init__.py | 13 +++----------
 nbkode/core.py     | 11 ++---------
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/nbkode/__init__.py b/nbkode/__init__.py
index 90d8914..5a83675 100644
--- a/nbkode/__init__.py
+++ b/nbkode/__init__.py
@@ -45,18 +45,11 @@ def test():  # pragma: no cover
     return run()
 
 
-_SOLVERS_NAMES = None
-
-
 def __dir__():
-    global _SOLVERS_NAMES
-
-    if not _SOLVERS_NAMES:
-        _SOLVERS_NAMES = ["get_groups", "get_solvers", "get_solver", "test"]
-        _SOLVERS_NAMES += list_solvers(include_alias=False)
-        _SOLVERS_NAMES = sorted(_SOLVERS_NAMES)
+    names = ["get_groups", "get_solvers", "get_solver", "test"]
+    names += list_solvers(include_alias=False)
 
-    return _SOLVERS_NAMES
+    return sorted(names)
 
 
 def __getattr__(name):
diff --git a/nbkode/core.py b/nbkode/core.py
index 8bbbf19..8883a33 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -796,9 +796,6 @@ def get_groups():
     return tuple(sorted(Solver.SOLVERS_BY_GROUP.keys()))
 
 
-_VALID_NAME_ALIAS = None
-
-
 def list_solvers(
     fmt_string="{cls.__name__}",
     alias_fmt_string="{name} (alias of {cls.__name__})",
@@ -819,10 +816,6 @@ def get_solver(name_or_alias):
     except KeyError:
         pass
 
-    global _VALID_NAME_ALIAS
-    if not _VALID_NAME_ALIAS:
-        _VALID_NAME_ALIAS = "- " + "\n- ".join(sorted(list_solvers()))
+    valid = "- " + "\n- ".join(sorted(list_solvers()))
 
-    raise ValueError(
-        f"No solver named {name_or_alias}, valid options are:\n{_VALID_NAME_ALIAS}"
-    )
+    raise ValueError(f"No solver named {name_or_alias}, valid options are:\n{valid}")
-- 
2.43.0


From ea94228a2aecbaba78afadc3dae80ed780b6b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 27/32] fix: the generic adaptive step does not accept a step
 whose derivative is not finite

---
 nbkode/runge_kutta/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 02d6b1a..1dae8b4 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -121,14 +121,19 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         def _step(rhs, cache, h, K, options, *args):
             # h and K are only updated when the step is accepted.
             h_try, K_try = h.copy(), np.empty_like(K)
+            f = cache.f
             while True:
                 if not cache.t < cache.t + h_try < np.inf:
                     raise RuntimeError("Required step size is too small or not finite.")
                 t, y = fixed_step(rhs, cache, h_try, K_try)
                 error = step_error(h_try, K_try, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
-                if step_update(error_norm, h_try, options, error_exponent):
+                if error_norm < 1:
+                    # The next step starts from this derivative.
                     f = rhs(t, y)
+                    if not np.all(np.isfinite(f)):
+                        error_norm = np.inf
+                if step_update(error_norm, h_try, options, error_exponent):
                     cache.push(t, y, f)
                     K[:] = K_try
                     h[()] = h_try[()]
-- 
2.43.0


From 05e5034a974255258d31b3a672a438d4780e050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 28/32] fix: a fixed step too small to change the time raises
 instead of looping for ever

---
 nbkode/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index 8883a33..176fb13 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -177,6 +177,8 @@ class Solver(ABC, metaclass=MetaSolver):
             def _step(t_bound, rhs, cache, h, *args):
                 if cache.t + h > t_bound:
                     return False
+                elif cache.t + h == cache.t:
+                    raise RuntimeError("Step size is too small to advance the time.")
                 else:
                     step(rhs, cache, h, *args)
                     return True
-- 
2.43.0


From 4cb455be0ff46bd70f27d089c4eaa7d87c958112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 29/32] fix: a starter given by name is looked up like any
 other solver, in any letter case

---
 nbkode/multistep/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 078169c..9edfa98 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from ..core import Solver
+from ..core import Solver, get_solver
 from ..nbcompat import numba
 from ..nbcompat.zeros import j_newton, newton_hd
 from ..util import classproperty
@@ -50,9 +50,7 @@ class Multistep(Solver, abstract=True):
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
         if isinstance(first_stepper_cls, str):
-            import nbkode
-
-            first_stepper_cls = getattr(nbkode, first_stepper_cls)
+            first_stepper_cls = get_solver(first_stepper_cls)
 
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
-- 
2.43.0


From de0b57eb9c8d1f3672486910aa24b3b10b04bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 30/32] fix: a time that is not a number is refused like one
 beyond t_bound

---
 nbkode/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 176fb13..b36dfdf 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -214,9 +214,9 @@ class Solver(ABC, metaclass=MetaSolver):
         return self.cache.f
 
     def _check_time(self, t):
-        if t > self.t_bound:
+        if not t <= self.t_bound:  # also if it is not a number
             raise ValueError(
-                f"Time {t} is larger than solver bound time t_bound={self.t_bound}"
+                f"Time {t} is not within solver bound time t_bound={self.t_bound}"
             )
 
     def step(self, *, n: int = None, upto_t: float = None) -> Tuple[np.array, np.array]:
-- 
2.43.0


From f2f5622e27de3951f9071f1df6c817754f0708c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 31/32] fix: run without any requested time returns no rows

---
 nbkode/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b36dfdf..10f1848 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -400,13 +400,13 @@ class Solver(ABC, metaclass=MetaSolver):
             ndx = np.argsort(t)
             t = t[ndx]
 
-        if t[0] < self.cache.ts[0]:
+        if t.size and t[0] < self.cache.ts[0]:
             raise ValueError(
                 f"Cannot interpolate at t={t[0]} as it is smaller "
                 f"than the current smallest value in history ({self.cache.ts[0]})"
             )
 
-        self._check_time(np.max(t))
+        self._check_time(np.max(t, initial=-np.inf))
 
         to_interpolate = t <= self.t
         is_to_interpolate = np.any(to_interpolate)
-- 
2.43.0


From ceb0b34b669127961ed633d7ac0af005eb195426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 32/32] fix: t_bound and the step size options are values, not
 references to the client's arrays

---
 nbkode/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 10f1848..2cc8e57 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -113,7 +113,7 @@ class Solver(ABC, metaclass=MetaSolver):
         h: float = None,
         t_bound: float = np.inf,
     ):
-        self.t_bound = t_bound
+        self.t_bound = float(t_bound)
 
         if params is not None:
             # A copy, as the array provided by the user might change later.
@@ -713,7 +713,7 @@ class VariableStep:
 
     def __init__(self, *args, **kwargs):
         self.options = VariableStepOptions(
-            **{k: kwargs.pop(k) for k in variable_step_options if k in kwargs}
+            **{k: float(kwargs.pop(k)) for k in variable_step_options if k in kwargs}
         )
         h = kwargs.pop("first_step", None)
         super().__init__(*args, **kwargs)
-- 
2.43.0

