From d00299a6b34262c48f2d04066259f7dc854ff869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 01/32] fix: order the Adams-Bashforth coefficients like the
 history (oldest first)

The history buffers store the oldest derivative first, the weights of
AdamsBashforth2 to 5 were listed newest first, which made these methods
first order.
---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
-- 
2.43.0


From 44f727b7594a2a919be0992e4b99dff599d8f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 02/32] fix: order the AdamsMoulton4 and 5 coefficients like
 the history (oldest first)

---
 nbkode/multistep/adams_moulton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From 77ca7de11801ae9b8cbf21a1dcff95b16db5e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 03/32] fix: IMPLICIT was inverted for the multistep solvers

Bn weighs the derivative at the new point: a method is implicit when it is
not zero.
---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 2c209fd73c994ba29515002bbe32553c8f2dae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 04/32] fix: start multistep solvers from t0 when the first
 stepper is variable step

The starting points were requested at h, 2h, ... instead of t0 + h, ...:
a ValueError for t0 > 0, a wrong history for t0 < 0.
---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..46ff8e6 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -60,7 +60,7 @@ class Multistep(Solver, abstract=True):
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From 2a850d0bb9abcd950c8f8cf7908d378b14fb40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 05/32] fix: do not start a multistep solver beyond t_bound

The ORDER - 1 starting steps ignored t_bound, leaving a solver whose time is
already beyond the bound.
---
 nbkode/multistep/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 46ff8e6..83c3592 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -51,6 +51,9 @@ class Multistep(Solver, abstract=True):
 
             first_stepper_cls = getattr(nbkode, first_stepper_cls)
 
+        # The starting points must not go beyond t_bound.
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
             solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
-- 
2.43.0


From 0a9593df46b3906f4d255f1ad6eb11c6066ac640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 06/32] fix: step() and skip() raise RuntimeError when t_bound
 is reached

As documented, and as step(n=1) and skip(n=1) do. step() returned None and
skip() silently did nothing.
---
 nbkode/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..6a8e242 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -245,8 +245,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+            if not self._step(self.t_bound, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
+            return np.atleast_1d(self.t), self.y
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,7 +297,8 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
+            if self._nskip(1, self.t_bound, self._step, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
-- 
2.43.0


From dddbf3788ab0b47afb46073bfd672a030099dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 07/32] fix: return copies of the state instead of views of the
 history buffer

step(), interpolate() at a recorded time and the y_events of an event found
exactly at a step were views of the internal buffer: the values already
returned changed with the next steps.
---
 nbkode/core.py          | 4 ++--
 nbkode/event_handler.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 6a8e242..09ab333 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -247,7 +247,7 @@ class Solver(ABC, metaclass=MetaSolver):
             # No parameters, make one step.
             if not self._step(self.t_bound, *self._step_args):
                 raise RuntimeError("Integrator reached t_bound.")
-            return np.atleast_1d(self.t), self.y
+            return np.atleast_1d(self.t), self.y.copy()
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -471,7 +471,7 @@ class Solver(ABC, metaclass=MetaSolver):
                 f"Time {t} to interpolate outside range ([{self.cache.ts[0]}, {self.cache.t}])"
             )
 
-        return self._interpolate(t, *self._step_args)
+        return np.copy(self._interpolate(t, *self._step_args))
 
     @staticmethod
     @abstractmethod
diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..20041d4 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -158,7 +158,7 @@ class Event:
             # This is required to avoid duplicates
             if not (self.t and self.t[-1] == root):
                 self.t.append(root)
-                self.y.append(interpolate(root, rhs, cache, *args))
+                self.y.append(np.copy(interpolate(root, rhs, cache, *args)))
 
         self.last_t = t
         self.last_value = value
-- 
2.43.0


From ea46ebcc8d64728bab76630a4ddc6c3621097d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 08/32] fix: run_events raised AttributeError when a timepoint
 is in the past

The function is warnings.warn. The initial time is such a timepoint.
---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 09ab333..1bbff6a 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -440,7 +440,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From b704a79404c02c8878231271cc8eabb5f13c3a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 09/32] fix: IndexError when unsorted timepoints could not all
 be reached

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 1bbff6a..3e3a6fe 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -445,7 +445,8 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
-        ondx = np.argsort(ndx)
+        # There might be less points than requested (t_bound, terminal event).
+        ondx = np.argsort(ndx[: ts.size])
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From 93b5cc7b4118c8d96961d1735caa89d65d64d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 10/32] fix: interpolate within the step that contains the
 timepoint

With more than two points in the history (multistep methods), the Hermite
interpolant spanned the whole history and ignored the points in between: it
was not the solution at the steps, and finding an event failed when the sign
of the event at the previous step did not match.
---
 nbkode/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 3e3a6fe..620873f 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -584,12 +584,20 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Find the step that contains t_eval.
+        ndx = cache.ts.size - 2
+        while ndx > 0 and t_eval < cache.ts[ndx]:
+            ndx -= 1
+
+        t0, y0, f0 = cache.ts[ndx], cache.ys[ndx], cache.fs[ndx]
         if t_eval == t0:
             return y0
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        t1, y1, f1 = cache.ts[ndx + 1], cache.ys[ndx + 1], cache.fs[ndx + 1]
+        if t_eval == t1:
+            return y1
+
+        dt, dy = t1 - t0, y1 - y0
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From 55c367ff00f5264b01d3c2c8cfefde13670b57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 11/32] fix: stop at the earliest terminal event found within a
 step

min_t was never updated, so the last terminal event of the list won, and
events located after the terminal one were reported as well.
---
 nbkode/event_handler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 20041d4..0379395 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -221,14 +221,23 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            # The integration ends at the first terminal event:
+            # anything found later within this step did not happen.
+            for event in self.events:
+                while event.t and event.t[-1] > min_t:
+                    event.t.pop()
+                    event.y.pop()
+
         return terminate
 
 
-- 
2.43.0


From 83b79931a79e00e2d526fb573f38788ea752f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 12/32] fix: run_events dropped the timepoints between the last
 step and a terminal event

---
 nbkode/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 620873f..6af3737 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -650,8 +650,15 @@ class Solver(ABC, metaclass=MetaSolver):
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
+                    t_last, y_last = event_handler.last_event
+                    # Timepoints of this step that are before the event.
+                    while ndx < t_eval.size and t_eval[ndx] < t_last:
+                        y_out[ndx] = interpolate(t_eval[ndx], rhs, cache, *args)
+                        ndx += 1
+                    if ndx == t_eval.size:
+                        return t_eval, y_out, True
                     # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
+                    t_eval[ndx], y_out[ndx] = t_last, y_last
                     return t_eval[: ndx + 1], y_out[: ndx + 1], True
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
-- 
2.43.0


From 57b6fd008514003798038db0c2209da55b2227f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 13/32] fix: locate events to full precision in time

Bisection stopped as soon as the event function was below 1.48e-8 in absolute
value, however far from the root: with an event function of small magnitude,
the time was that of the middle of the step.
---
 nbkode/event_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 0379395..1c0979d 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -152,6 +152,7 @@ class Event:
                     event_at_sol,
                     self.last_t,
                     t,
+                    tol=0.0,
                     args=(self.func, interpolate, rhs, cache, *args),
                 )
 
-- 
2.43.0


From 12bd3e7d11b9579d7e15e19a31d3cdf24eeacaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 14/32] fix: DOP853 raised ZeroDivisionError when the error
 estimate is zero

For example, at an equilibrium point.
---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..fdc66d0 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = 0.0
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From 62592a09879faaf38627554f32cb5f3cf91c8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 15/32] fix: variable step solvers ignored max_step

---
 nbkode/core.py             |  2 +-
 nbkode/runge_kutta/core.py | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 6af3737..65da300 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -721,7 +721,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
-        self.h = np.array(h, dtype=float)
+        self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
 def check(solver, implicit=None, fixed_step=None, runge_kutta=None, multistep=None):
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..47d61b9 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -92,11 +92,16 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         """
         if error_norm == 0:
             h *= options.max_factor
-            return True  # step accepted
+            accepted = True
+        else:
+            factor = options.safety_factor / error_norm**error_exponent
+            h *= min(options.max_factor, max(options.min_factor, factor))
+            accepted = error_norm < 1
 
-        factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
-        return error_norm < 1
+        if h > options.max_step:
+            h[()] = options.max_step
+
+        return accepted
 
     @classmethod
     def _step_builder(cls):
-- 
2.43.0


From 77790ca2ad829f4520ab49867825408ca7492636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 16/32] fix: variable step solvers ignored min_step and looped
 forever

When no step size meets the tolerances (a singularity, a right hand side that
is not a number), the step was rejected again and again, shrinking to zero.
---
 nbkode/runge_kutta/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 47d61b9..9428ed7 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -101,6 +101,10 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         if h > options.max_step:
             h[()] = options.max_step
 
+        # Written in this way to fail also when the error is not a number.
+        if not accepted and not h >= options.min_step:
+            raise RuntimeError("Required step size is less than min_step.")
+
         return accepted
 
     @classmethod
-- 
2.43.0


From bae7a61331ac9a4f1c91ca8c1991b9ff5a1bcecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 17/32] fix: implicit solvers failed with a singular matrix for
 large states

The finite difference step of the jacobian was 1e-10 whatever the size of the
state, and vanished in it above 1e6; the residual could not reach 1.48e-8
either.
---
 nbkode/nbcompat/zeros.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..6508a3a 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -439,12 +439,12 @@ def j_newton(
 
 @numba.njit()
 def jacobian(func, x, args=()):
-    eps = 1e-10
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
         x1 = x.copy()
         x2 = x.copy()
+        eps = 1e-10 * max(1.0, abs(x[i]))
 
         x1[i] += eps
         x2[i] -= eps
@@ -471,8 +471,9 @@ def newton_hd_impl(
 
     J is the Jacobian of F. Both F and J must be functions of x.
     At input, x holds the start value. The iteration continues
-    until ||F|| < eps.
+    until ||F|| < eps, or the rounding errors of a large x.
     """
+    atol = atol + 1e-12 * np.linalg.norm(y, ord=2)
     value = func(y, *args)
     distance = np.linalg.norm(value, ord=2)  # l2 norm of vector
     iteration_counter = 0
-- 
2.43.0


From 634cd30862ca33b4cdb6dbb57782403577f74b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 18/32] fix: variable step solvers looped forever when a
 rejected step cannot advance time

At a singularity away from t = 0 the step size falls below the spacing of
floating point numbers before reaching min_step: steps that do not move were
accepted and the step size grew again, endlessly.
---
 nbkode/runge_kutta/explicit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index fdc66d0..b3fa412 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -95,6 +95,8 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
+                elif cache.t + h == cache.t:
+                    raise RuntimeError("Required step size does not change time.")
 
         return _step
 
@@ -340,6 +342,8 @@ class DOP853(FSAL):
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
+                elif cache.t + h == cache.t:
+                    raise RuntimeError("Required step size does not change time.")
 
         return _step
 
-- 
2.43.0


From e58cff42e3f400654e23e9e7ecf7c61f8daa0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 19/32] fix: copy params, later changes to the array leaked
 into the solver

Without numba they took effect at once, with numba when a function was compiled
for another signature.
---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 65da300..b2086f3 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -116,7 +116,7 @@ class Solver(ABC, metaclass=MetaSolver):
         self.t_bound = t_bound
 
         if params is not None:
-            params = np.ascontiguousarray(params)
+            params = np.array(params, order="C", ndmin=1)
 
         self.user_rhs = rhs
 
-- 
2.43.0


From 3a5b7a8fda92b51488a46e6f755920f46dbb7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 20/32] fix: bisect rejected tiny values of opposite sign
 (their product underflows)

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 6508a3a..9d253f1 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -516,7 +516,7 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    if not np.sign(yl) * np.sign(yr) < 0:
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0


From 1b80b94f5ffc5f09cc79c9e87f4194fc0c42d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 21/32] fix: newton reported convergence where the secant
 method got stuck

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 9d253f1..bfb728e 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -366,7 +366,7 @@ def _newton(
                     # warnings.warn(msg, RuntimeWarning)
                 p = (p1 + p0) / 2.0
                 return (
-                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERGED)),
+                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERR)),
                     my_flag,
                 )
             else:
-- 
2.43.0


From 1ba49caa3e6bf01580270c421b13ba6b478654e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 22/32] fix: step(upto_t=nan) and skip(upto_t=nan) never
 returned

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b2086f3..ec3b7c1 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -206,7 +206,8 @@ class Solver(ABC, metaclass=MetaSolver):
         return self.cache.f
 
     def _check_time(self, t):
-        if t > self.t_bound:
+        # Written in this way to fail also when t is not a number.
+        if not t <= self.t_bound:
             raise ValueError(
                 f"Time {t} is larger than solver bound time t_bound={self.t_bound}"
             )
-- 
2.43.0


From 502cf4d2ca7c49ff19264bfc8d2d91fb030cd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 23/32] fix: refuse step sizes that are not positive, the
 solvers never reached any time

---
 nbkode/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index ec3b7c1..a69d9ab 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -132,6 +132,8 @@ class Solver(ABC, metaclass=MetaSolver):
             self.rhs = numba.njit(lambda t, y: rhs(t, y, params))
 
         if h is not None:  # It might be set automatically
+            if not h > 0:
+                raise ValueError("`h` must be positive.")
             self.h = np.array(h, dtype=float)
         elif not hasattr(self, "h"):  # TODO: Make it better.
             self.h = 1
@@ -722,6 +724,8 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
+        elif not h > 0:
+            raise ValueError("`first_step` must be positive.")
         self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
-- 
2.43.0


From b1a38d06b604715f5a28407c2666bf60b5b383fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 24/32] fix: refuse an automatic first step of zero, the solver
 never reached any time

---
 nbkode/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index a69d9ab..4b8a5a6 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -724,6 +724,8 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
+            if not h > 0:
+                raise ValueError("No suitable `first_step` was found, provide one.")
         elif not h > 0:
             raise ValueError("`first_step` must be positive.")
         self.h = np.array(min(h, self.options.max_step), dtype=float)
-- 
2.43.0


From 422eda4a8b4661e982d87dc4aea323449503173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 25/32] fix: refuse steps too small to change time, run and
 skip never returned

---
 nbkode/core.py                 | 2 ++
 nbkode/multistep/core.py       | 2 ++
 nbkode/runge_kutta/core.py     | 2 ++
 nbkode/runge_kutta/explicit.py | 8 ++++----
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 4b8a5a6..fc447c9 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -726,6 +726,8 @@ class VariableStep:
             )
             if not h > 0:
                 raise ValueError("No suitable `first_step` was found, provide one.")
+            # It must be large enough to change time.
+            h = max(h, np.spacing(abs(self.t)))
         elif not h > 0:
             raise ValueError("`first_step` must be positive.")
         self.h = np.array(min(h, self.options.max_step), dtype=float)
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 83c3592..7735c52 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -78,6 +78,8 @@ class Multistep(Solver, abstract=True):
         @numba.njit
         def _step(rhs, cache, h):
             t, y = fixed_step(rhs, cache, h)
+            if t == cache.t:
+                raise RuntimeError("Step size does not change time.")
             cache.push(t, y, rhs(t, y))
 
         return _step
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 9428ed7..e7a2cba 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -37,6 +37,8 @@ class RungeKutta(Solver, abstract=True):
         @numba.njit
         def _step(rhs, cache, h, K):
             t, y = fixed_step(rhs, cache, h, K)
+            if t == cache.t:
+                raise RuntimeError("Step size does not change time.")
             cache.push(t, y, rhs(t, y))
 
         return _step
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index b3fa412..d59cece 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -89,14 +89,14 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
             while True:
+                if cache.t + h == cache.t:
+                    raise RuntimeError("Required step size does not change time.")
                 t, y = fixed_step(rhs, cache, h, K)
                 error = step_error(h, K, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-                elif cache.t + h == cache.t:
-                    raise RuntimeError("Required step size does not change time.")
 
         return _step
 
@@ -330,6 +330,8 @@ class DOP853(FSAL):
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
             while True:
+                if cache.t + h == cache.t:
+                    raise RuntimeError("Required step size does not change time.")
                 t, y = fixed_step(rhs, cache, h, K)
                 err5 = step_error(h, K, E5)
                 err3 = step_error(h, K, E3)
@@ -342,8 +344,6 @@ class DOP853(FSAL):
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-                elif cache.t + h == cache.t:
-                    raise RuntimeError("Required step size does not change time.")
 
         return _step
 
-- 
2.43.0


From a06e641ce5e459a6bb6255e35daf5539243505a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 26/32] fix: names of solvers registered after a failed lookup
 or dir() are listed

---
 nbkode/__init__.py | 13 ++-----------
 nbkode/core.py     | 12 ++----------
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/nbkode/__init__.py b/nbkode/__init__.py
index 90d8914..8dbcfb8 100644
--- a/nbkode/__init__.py
+++ b/nbkode/__init__.py
@@ -45,18 +45,9 @@ def test():  # pragma: no cover
     return run()
 
 
-_SOLVERS_NAMES = None
-
-
 def __dir__():
-    global _SOLVERS_NAMES
-
-    if not _SOLVERS_NAMES:
-        _SOLVERS_NAMES = ["get_groups", "get_solvers", "get_solver", "test"]
-        _SOLVERS_NAMES += list_solvers(include_alias=False)
-        _SOLVERS_NAMES = sorted(_SOLVERS_NAMES)
-
-    return _SOLVERS_NAMES
+    names = ["get_groups", "get_solvers", "get_solver", "test"]
+    return sorted(names + list_solvers(include_alias=False))
 
 
 def __getattr__(name):
diff --git a/nbkode/core.py b/nbkode/core.py
index fc447c9..a2019a4 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -795,9 +795,6 @@ def get_groups():
     return tuple(sorted(Solver.SOLVERS_BY_GROUP.keys()))
 
 
-_VALID_NAME_ALIAS = None
-
-
 def list_solvers(
     fmt_string="{cls.__name__}",
     alias_fmt_string="{name} (alias of {cls.__name__})",
@@ -818,10 +815,5 @@ def get_solver(name_or_alias):
     except KeyError:
         pass
 
-    global _VALID_NAME_ALIAS
-    if not _VALID_NAME_ALIAS:
-        _VALID_NAME_ALIAS = "- " + "\n- ".join(sorted(list_solvers()))
-
-    raise ValueError(
-        f"No solver named {name_or_alias}, valid options are:\n{_VALID_NAME_ALIAS}"
-    )
+    valid = "- " + "\n- ".join(sorted(list_solvers()))
+    raise ValueError(f"No solver named {name_or_alias}, valid options are:\n{valid}")
-- 
2.43.0


From 4711e0d4601891e2044a43d242a6769147d1e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 27/32] fix: starters named in any casing or by alias are
 looked up as solvers

---
 nbkode/multistep/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 7735c52..21aab48 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from ..core import Solver
+from ..core import Solver, get_solver
 from ..nbcompat import numba
 from ..nbcompat.zeros import j_newton, newton_hd
 from ..util import classproperty
@@ -47,9 +47,7 @@ class Multistep(Solver, abstract=True):
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
         if isinstance(first_stepper_cls, str):
-            import nbkode
-
-            first_stepper_cls = getattr(nbkode, first_stepper_cls)
+            first_stepper_cls = get_solver(first_stepper_cls)
 
         # The starting points must not go beyond t_bound.
         self._check_time(self.t + (self.ORDER - 1) * self.h)
-- 
2.43.0


From b1ba4bba7b1670eb6c9d05b2107a94794dffcbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 28/32] fix: DOP853 dense output of compiled equations
 returning a view

---
 nbkode/runge_kutta/explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index d59cece..be86c24 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -502,7 +502,7 @@ if not NO_NUMBA:
         ]
     )(RkInterpolator)
 
-    rhs_type = numba.types.float64[::1](numba.types.float64, numba.types.float64[::1])
+    rhs_type = numba.types.float64[:](numba.types.float64, numba.types.float64[::1])
 
     DOP853Interpolator = numba.jitclass(
         [
-- 
2.43.0


From 6195ad2d5ed74d23ba97771c2d8b5d373cbcbd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 29/32] fix: the terminal event stays the last point of
 unsorted requests

---
 nbkode/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index a2019a4..c128f45 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -449,7 +449,12 @@ class Solver(ABC, metaclass=MetaSolver):
             return ts, ys, t_events, y_events
 
         # There might be less points than requested (t_bound, terminal event).
-        ondx = np.argsort(ndx[: ts.size])
+        n_sorted = ts.size
+        if events and n_sorted and ts[-1] == eh.last_event[0]:
+            # The last point is the terminal event, not one of the requested.
+            n_sorted -= 1
+        ondx = np.argsort(ndx[:n_sorted])
+        ondx = np.append(ondx, np.arange(n_sorted, ts.size))
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From 97730a713d126d4d263f6fc63cd28618577314c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 30/32] fix: refuse times and maximum steps that are not
 numbers

---
 nbkode/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index c128f45..741932b 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -139,6 +139,8 @@ class Solver(ABC, metaclass=MetaSolver):
             self.h = 1
 
         t0 = float(t0)
+        if np.isnan(t0) or np.isnan(t_bound):
+            raise ValueError("`t0` and `t_bound` must be numbers.")
         y0 = np.array(y0, dtype=float, ndmin=1)
         self.cache = AlignedBuffer(self.LEN_HISTORY, t0, y0, self.rhs(t0, y0))
 
@@ -717,6 +719,8 @@ class VariableStep:
         h = kwargs.pop("first_step", None)
         super().__init__(*args, **kwargs)
         validate_max_step(self.options.max_step)
+        if np.isnan(self.options.max_step):
+            raise ValueError("`max_step` must be positive.")
         validate_tol(self.options.rtol, self.options.atol, self.y.size)
         if h is None:
             h = select_initial_step(
-- 
2.43.0


From 59e9e6f10b7189ca13bb6e2583dc0c501b7c23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 31/32] fix: newton_hd failed where a component close to zero
 has far to move

---
 nbkode/nbcompat/zeros.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index bfb728e..1cfc229 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -438,13 +438,14 @@ def j_newton(
 
 
 @numba.njit()
-def jacobian(func, x, args=()):
+def jacobian(func, x, value, args=()):
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
         x1 = x.copy()
         x2 = x.copy()
-        eps = 1e-10 * max(1.0, abs(x[i]))
+        # Relative to the component and to the distance it has to move.
+        eps = 1e-10 * max(1.0, abs(x[i]), abs(value[i]))
 
         x1[i] += eps
         x2[i] -= eps
@@ -471,15 +472,17 @@ def newton_hd_impl(
 
     J is the Jacobian of F. Both F and J must be functions of x.
     At input, x holds the start value. The iteration continues
-    until ||F|| < eps, or the rounding errors of a large x.
+    until ||F|| < eps, or the rounding errors of a large x or F.
     """
-    atol = atol + 1e-12 * np.linalg.norm(y, ord=2)
     value = func(y, *args)
     distance = np.linalg.norm(value, ord=2)  # l2 norm of vector
+    scale = np.linalg.norm(y, ord=2) + distance
+    if np.isfinite(scale):
+        atol = atol + 1e-12 * scale
     iteration_counter = 0
 
     while not isclose(distance, 0, rtol=rtol, atol=atol):
-        delta = np.linalg.solve(jacobian(func, y, args), -value)
+        delta = np.linalg.solve(jacobian(func, y, value, args), -value)
         y = y + delta
         value = func(y, *args)
         distance = np.linalg.norm(value, ord=2)
-- 
2.43.0


From cdf824f217a144a20d90e4c72b22615e5b09afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 32/32] fix: scalar implicit steps did not converge for large
 states

---
 nbkode/multistep/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 21aab48..b47b3e0 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -138,6 +138,7 @@ class ImplicitMultistep(Multistep, abstract=True):
                         implicit_root,
                         cache.y,
                         args=(rhs, t_new, h * Bn, K),
+                        rtol=1e-12,
                     )
                 else:
                     y_new = newton_hd(
@@ -160,6 +161,7 @@ class ImplicitMultistep(Multistep, abstract=True):
                         implicit_root,
                         cache.y,
                         args=(rhs, t_new, h * Bn, K),
+                        rtol=1e-12,
                     )
                 else:
                     y_new = newton_hd(
-- 
2.43.0

