From 10341fc160129b293e3683ef88fab073cbeef5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 01/17] fix: evaluate the universal functions by power series
 near the parabola

The closed forms of U2..U5 subtract nearly equal numbers when |alpha|*chi**2 is
small, so near-parabolic orbits were propagated with garbage (a round-off alpha
of 1e-8 left no significant digit), and alpha-derivatives were wrong at alpha=0.
---
 src/astrodynx/twobody/_uniformulas.py | 38 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..0c4705c 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -1,3 +1,4 @@
+import math
 import jax.numpy as jnp
 import jax
 from jax.typing import ArrayLike, DTypeLike
@@ -50,6 +51,25 @@ def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array
     return jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) / jnp.sqrt(mu)
 
 
+def _near_parabolic(
+    n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: ArrayLike
+) -> Array:
+    r"""Replaces the closed form of $U_n$ by its power series where $|\alpha| \chi^2 < 1$.
+
+    The closed forms of $U_2$ to $U_5$, and the derivatives of all of them with respect to $\alpha$, subtract nearly equal numbers when $\alpha \chi^2$ is small, so that no significant digit is left for near-parabolic orbits. The power series (Battin, 1999, pp.175) has no such cancellation:
+    $$
+    U_n(\chi, \alpha) = \chi^n \sum_{k=0}^{\infty} \frac{(-\alpha \chi^2)^k}{(n + 2k)!}
+    $$
+    """
+    z = alpha * chi**2
+    small = jnp.abs(z) < 1
+    z = jnp.where(small, z, 0)
+    series = 1 / math.factorial(n + 20)
+    for k in range(9, -1, -1):
+        series = 1 / math.factorial(n + 2 * k) - z * series
+    return jnp.where(small, chi**n * series, closed_form)
+
+
 def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U0
 
@@ -91,7 +111,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc0(chi, alpha)
         Array([ 0.5403..., -0.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.cos(jnp.sqrt(alpha) * chi),
         lambda: jax.lax.cond(
@@ -100,6 +120,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: jnp.ones_like(chi),
         ),
     )
+    return _near_parabolic(0, chi, alpha, closed_form)
 
 
 def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -143,7 +164,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc1(chi, alpha)
         Array([0.8414..., 0.9092...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.sin(jnp.sqrt(alpha) * chi) / jnp.sqrt(alpha),
         lambda: jax.lax.cond(
@@ -152,6 +173,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi,
         ),
     )
+    return _near_parabolic(1, chi, alpha, closed_form)
 
 
 def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -195,7 +217,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc2(chi, alpha)
         Array([0.4596..., 1.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (1 - jnp.cos(jnp.sqrt(alpha) * chi)) / alpha,
         lambda: jax.lax.cond(
@@ -204,6 +226,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**2 / 2,
         ),
     )
+    return _near_parabolic(2, chi, alpha, closed_form)
 
 
 def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -247,7 +270,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc3(chi, alpha)
         Array([0.1585..., 1.0907...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (jnp.sqrt(alpha) * chi - jnp.sin(jnp.sqrt(alpha) * chi))
         / alpha
@@ -260,6 +283,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**3 / 6,
         ),
     )
+    return _near_parabolic(3, chi, alpha, closed_form)
 
 
 def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -303,7 +327,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc4(chi, alpha)
         Array([0.0403..., 0.5838...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (alpha * chi**2 - 2 + 2 * jnp.cos(jnp.sqrt(alpha) * chi))
         / (2 * alpha**2),
@@ -314,6 +338,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**4 / 24,
         ),
     )
+    return _near_parabolic(4, chi, alpha, closed_form)
 
 
 def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -357,7 +382,7 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc5(chi, alpha)
         Array([0.2426..., 1.6411...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (
             alpha**2 * chi**3
@@ -376,3 +401,4 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**5 / 120,
         ),
     )
+    return _near_parabolic(5, chi, alpha, closed_form)
-- 
2.43.0


From 06f7d7875123fad0ecfa5f73270c7414f9d290cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 02/17] fix: keep solve_kepler_elps bounded and always iterate

Newton's method diverged for nearly parabolic ellipses (e >= 0.999), and in
float32 the starting value of the previous iterate was lost for |M| > 32, so
that the loop ended before its first step.
---
 src/astrodynx/twobody/_kep_equ.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..dc14721 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -390,10 +390,11 @@ def solve_kepler_elps(
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, E, _ = val
         f = E - e * jnp.sin(E) - M
-        E_new = E - f / dE(E, e)
+        # The root lies within e of M: keeps nearly parabolic iterations bounded.
+        E_new = jnp.clip(E - f / dE(E, e), M - e, M + e)
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
+    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, jnp.full_like(E0, jnp.inf)))
     return E
 
 
-- 
2.43.0


From 458e90091ed33287b225333b483975ac60629cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 03/17] fix: start solve_kepler_hypb from arcsinh and always
 iterate

The logarithm cancelled for large negative N (-inf or nan in float32), and the
forward derivative was that of the starting value when it was already converged.
---
 src/astrodynx/twobody/_kep_equ.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index dc14721..252900a 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -432,20 +432,21 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
+        iter_count, _, residual = val
+        not_converged = jnp.abs(residual) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, H, _ = val
-        H_new = H - kepler_equ_hypb(H, e, N) / dH(H, e)
-        return (iter_count + 1, H_new, H)
+        residual = kepler_equ_hypb(H, e, N)
+        H_new = H - residual / dH(H, e)
+        return (iter_count + 1, H_new, residual)
 
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, H0 + 2 * tol))
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, jnp.full_like(H0, jnp.inf)))
     return H
 
 
-- 
2.43.0


From 23d34abc3861bef55e7dcc4e02f7e0bc99283e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 04/17] fix: safeguard Newton's method in solve_kepler_uni

The unguarded iteration silently returned unconverged anomalies for long
hyperbolic arcs (N > 55) and for very eccentric ellipses, the absolute tolerance
was meaningless in small length units, and the forward derivative was that of the
starting value when it was already converged.
---
 src/astrodynx/twobody/_kep_equ.py | 40 +++++++++++++++++++------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 252900a..35e5276 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -500,22 +500,32 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
-
-    def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
-        )
+    # For hyperbolic orbits chi grows like log(deltat), so start from the epoch.
+    chi0 = jnp.sqrt(mu) * jnp.maximum(alpha, 0) * deltat
+    max_step = 2 / jnp.sqrt(jnp.abs(jax.lax.stop_gradient(alpha)))
+    # The residual has the dimension of length**1.5: keep tol meaningful in small units.
+    residual_tol = tol * jnp.minimum(1, r0**1.5)
+
+    def cond_fn(val: tuple[int, Array, Array, Array, Array]) -> Array:
+        iter_count, _, _, _, residual = val
+        not_converged = jnp.abs(residual) > residual_tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
-    def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        chi_new = chi - kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu) / dchi(
-            chi, alpha, r0, sigma0
-        )
-        return (iter_count + 1, chi_new, chi)
-
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, chi0 + 2 * tol))
+    def body_fn(
+        val: tuple[int, Array, Array, Array, Array],
+    ) -> tuple[int, Array, Array, Array, Array]:
+        # Newton's method, safeguarded by the bracket (lower, upper) of the only root.
+        iter_count, chi, lower, upper, _ = val
+        residual = kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)
+        lower = jnp.where(residual < 0, chi, lower)
+        upper = jnp.where(residual > 0, chi, upper)
+        step = residual / dchi(chi, alpha, r0, sigma0)
+        chi_new = chi - jnp.clip(step, -max_step, max_step)
+        bracketed = (chi_new >= lower) & (chi_new <= upper)
+        chi_new = jnp.where(bracketed, chi_new, 0.5 * (lower + upper))
+        return (iter_count + 1, chi_new, lower, upper, residual)
+
+    inf = jnp.full_like(chi0, jnp.inf)
+    _, chi, _, _, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, -inf, inf, inf))
     return chi
-- 
2.43.0


From 55cbb48ea768d496541a28a98ebd2d2fea284275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 05/17] fix: make prop.kepler traceable

.item() made jit and vmap over the initial state raise, and cut the derivatives.
---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..43c98f1 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, sigma0[0], mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From f4f266c25a889134f50b42b1edda6a33b74ff8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 06/17] fix: resolve the quadrants of argp and true anomaly in
 rv2coe

Both angles were folded into [0, pi], so that rv2coe gave wrong elements for
every orbit with its periapsis below the reference plane and for every inbound
state, and coe2rv did not restore the state.
---
 src/astrodynx/twobody/_orb_elements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..fa83fd9 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -95,13 +95,13 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         $$
         \omega = \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e})
         $$
-        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
+        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector. If $e_z < 0$, the periapsis is below the reference plane and $2\pi - \omega$ is returned.
     """
     argp = jnp.arctan2(
         vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
         jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
     )
-    return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
+    return jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
 
 
 def rv2coe(
@@ -131,7 +131,7 @@ def rv2coe(
         f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. If $e_z < 0$, $\omega$ is replaced by $2\pi - \omega$; if $\boldsymbol{r} \cdot \boldsymbol{v} < 0$, $f$ is replaced by $2\pi - f$.
 
     References
         Vallado, 2013, pp.114.
@@ -171,6 +171,8 @@ def rv2coe(
     raan = right_ascension(N)
     argp = argument_of_periapsis(N, e_vec)
     true_anom = true_anomaly(pos_vec, e_vec)
+    inbound = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) < 0
+    true_anom = jnp.where(inbound, 2 * jnp.pi - true_anom, true_anom)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From c8d7a446ff00d877f8d5c3519b284aa2fb9590fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 07/17] fix: let coe2rv broadcast eccentricity against true
 anomaly

---
 src/astrodynx/twobody/_orb_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index fa83fd9..18dc56d 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -257,6 +257,7 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    e, true_anom = jnp.broadcast_arrays(e, true_anom)
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From ad7511d7ae1ae7718d26e8220d5d7c1aaa9b8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 08/17] fix: let pass_perigee handle a transfer angle of 180
 degrees

r1 x r2 vanishes there, and the answer was always True.
---
 src/astrodynx/twobody/_path_check.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_path_check.py b/src/astrodynx/twobody/_path_check.py
index a5ab849..d34ead5 100644
--- a/src/astrodynx/twobody/_path_check.py
+++ b/src/astrodynx/twobody/_path_check.py
@@ -109,7 +109,7 @@ def pass_perigee(
         $$
         \boldsymbol{b}_2 = (\boldsymbol{r}_1 \times \boldsymbol{r}_2) \cdot (\boldsymbol{e} \times \boldsymbol{r}_2) > 0
         $$
-        where $\boldsymbol{e}$ is the eccentricity vector.
+        where $\boldsymbol{e}$ is the eccentricity vector. (The direction of $\boldsymbol{r}_1 \times \boldsymbol{r}_2$ is taken from the angular momentum, so that a transfer angle of 180 degrees is handled too.)
         Then, the orbit passes through perigee if:
         $$
         \boldsymbol{b}_1 \land \boldsymbol{b}_2 = \text{is_short_way}(\boldsymbol{r}_1, \boldsymbol{v}_1, \boldsymbol{r}_2)
@@ -128,9 +128,12 @@ def pass_perigee(
         Array(False, dtype=bool)
     """
     e = adx.eccentricity_vector(r1, v1, mu)
-    b1 = jnp.inner(jnp.cross(r1, r2), jnp.cross(r1, e)) > 0
-    b2 = jnp.inner(jnp.cross(r1, r2), jnp.cross(e, r2)) > 0
-    return jnp.logical_and(b1, b2) == is_short_way(r1, v1, r2)
+    short_way = is_short_way(r1, v1, r2)
+    # Direction of r1 x r2, which is also defined when r1 and r2 are opposite.
+    normal = jnp.where(short_way, 1, -1) * adx.angular_momentum(r1, v1)
+    b1 = jnp.inner(normal, jnp.cross(r1, e)) > 0
+    b2 = jnp.inner(normal, jnp.cross(e, r2)) > 0
+    return jnp.logical_and(b1, b2) == short_way
 
 
 def rp_islower_rmin(
-- 
2.43.0


From 3780ef67c834de63c44394cef3d500d42cb03cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 09/17] fix: avoid the float32 overflow of r**5 in j2_acc

Beyond 5e7 m the J2 acceleration was zero in float32.
---
 src/astrodynx/gravity/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/gravity/_general.py b/src/astrodynx/gravity/_general.py
index edb44d7..d455625 100644
--- a/src/astrodynx/gravity/_general.py
+++ b/src/astrodynx/gravity/_general.py
@@ -85,7 +85,7 @@ def j2_acc(
     R_eq = args["R_eq"]
     r = jnp.linalg.vector_norm(x[:3])
     zsq_over_rsq = (x[2] / r) ** 2
-    factor = -1.5 * mu * J2 * R_eq**2 / r**5
+    factor = -1.5 * mu * J2 * (R_eq / r) ** 2 / r**3
     ax = factor * x[0] * (1 - 5 * zsq_over_rsq)
     ay = factor * x[1] * (1 - 5 * zsq_over_rsq)
     az = factor * x[2] * (3 - 5 * zsq_over_rsq)
-- 
2.43.0


From de1f7938c2cb179e7ddc5b66c524dad28b9faea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:56 +0000
Subject: [PATCH 10/17] fix: keep the cosine of the inclination within [-1, 1]

Rounding could push it beyond one for equatorial orbits, which gave nan.
---
 src/astrodynx/twobody/_orb_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 18dc56d..9e3cd2d 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -26,7 +26,8 @@ def inclination(h_vec: ArrayLike) -> Array:
         $$
         where $i$ is the inclination, $h_z$ is the z-component of the specific angular momentum vector, and $h$ is the norm of the specific angular momentum vector.
     """
-    return jnp.arccos(h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True))
+    cos_incl = h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True)
+    return jnp.arccos(jnp.clip(cos_incl, -1, 1))
 
 
 def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
-- 
2.43.0


From 3b506758a79a51fde6b13302a719ee02db78dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:56 +0000
Subject: [PATCH 11/17] fix: start solve_kepler_hypb from an upper bound

For nearly parabolic hyperbolas (e - 1 < 1e-4) the first Newton step from the
old starting value overshot so far that the iteration did not come back.
---
 src/astrodynx/twobody/_kep_equ.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 35e5276..eb2aae4 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -432,7 +432,12 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.arcsinh(2 * N / e)
+    # Upper bounds of |H|, from which Newton's method descends monotonically.
+    N_abs = jnp.abs(N)
+    large = jnp.arcsinh(2 * N_abs / e)
+    small = jnp.minimum(jnp.cbrt(6 * N_abs / e), N_abs / (e - 1))
+    H0 = jnp.sign(N) * jnp.where(N_abs > large, jnp.minimum(large, small), small)
+    H0 = jax.lax.stop_gradient(H0)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, _, residual = val
-- 
2.43.0


From 6619696b4c414fb76d6da78c09d61218ebf582ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:31 +0000
Subject: [PATCH 12/17] fix: keep prop.kepler differentiable on parabolic
 orbits

---
 src/astrodynx/prop/_kepler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index 43c98f1..ecc69c8 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -4,7 +4,7 @@ from jax.typing import ArrayLike, DTypeLike
 from jax import Array
 from astrodynx.twobody._kep_equ import solve_kepler_uni
 from astrodynx.twobody._uniformulas import sigma_fn, ufunc0, ufunc1, ufunc2
-from astrodynx.twobody._orb_integrals import semimajor_axis, equ_of_orb_uvi
+from astrodynx.twobody._orb_integrals import equ_of_orb_uvi
 from astrodynx.twobody._lagrange import lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt
 
 
@@ -93,7 +93,8 @@ def kepler(
     """
     r0 = jnp.linalg.vector_norm(r0_vec)
     v0 = jnp.linalg.vector_norm(v0_vec)
-    alpha = 1.0 / semimajor_axis(r0, v0, mu)
+    # Not 1 / semimajor_axis, whose derivative is undefined for parabolic orbits.
+    alpha = 2 / r0 - v0**2 / mu
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-- 
2.43.0


From 189e6801652d6fea2f57921beeefe3360cd0b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 13/17] fix: let diffrax locate the radius_islow event

The root finder of diffrax.Event calls the condition with the state as the
keyword y, which radius_islow did not accept.
---
 src/astrodynx/events/radius.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/events/radius.py b/src/astrodynx/events/radius.py
index f426e0a..2c36916 100644
--- a/src/astrodynx/events/radius.py
+++ b/src/astrodynx/events/radius.py
@@ -6,7 +6,10 @@ from typing import Any
 
 
 def radius_islow(
-    t: DTypeLike, x: ArrayLike, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
+    t: DTypeLike,
+    x: ArrayLike | None = None,
+    args: PyTree[Any] = {"rmin": 0.0},
+    **kwargs: Any,
 ) -> Array:
     r"""Returns the difference between the radius and the minimum radius.
 
@@ -29,5 +32,8 @@ def radius_islow(
 
         This event can be used to terminate the propagation of an orbit when the radius falls below a certain threshold.
     """
+    if x is None:
+        # diffrax passes the state as the keyword `y` when it locates the event.
+        x = kwargs["y"]
     rmin = args["rmin"]
     return jnp.linalg.vector_norm(x[:3]) - rmin
-- 
2.43.0


From ce0c78e4e3412dc58a52fb1bf45ad1167556adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:18 +0000
Subject: [PATCH 14/17] fix: keep float32 transition matrices in float32 when
 64-bit is enabled

---
 src/astrodynx/twobody/_state_trans.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_state_trans.py b/src/astrodynx/twobody/_state_trans.py
index 5f20988..f11c516 100644
--- a/src/astrodynx/twobody/_state_trans.py
+++ b/src/astrodynx/twobody/_state_trans.py
@@ -85,7 +85,7 @@ def prpr0(
         vector_norm(r_vec) / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
         + (1 - F) * jnp.outer(r_vec / r0_mag, r0_vec / r0_mag)
         + C / r0_mag**2 * jnp.outer(v_vec, r0_vec / r0_mag)
-        + F * jnp.eye(3)
+        + F * jnp.eye(3, dtype=int)
     )
 
 
@@ -133,7 +133,7 @@ def prpv0(
         * (1 - F)
         * (jnp.outer(r_vec - r0_vec, v0_vec) - jnp.outer(v_vec - v0_vec, r0_vec))
         + C / mu * jnp.outer(v_vec, v0_vec)
-        + G * jnp.eye(3)
+        + G * jnp.eye(3, dtype=int)
     )
 
 
@@ -186,7 +186,7 @@ def pvpr0(
         - jnp.outer(r_vec / r_mag**2, v_vec - v0_vec)
         + Ft
         * (
-            jnp.eye(3)
+            jnp.eye(3, dtype=int)
             - jnp.outer(r_vec / r_mag, r_vec / r_mag)
             + (jnp.outer(r_vec, v_vec) - jnp.outer(v_vec, r_vec))
             / mu
@@ -236,7 +236,7 @@ def pvpv0(
         r0_mag / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
         + (1 - F) * jnp.outer(r_vec / r_mag, r0_vec / r_mag) * r0_mag / r_mag
         - C / r_mag**2 * jnp.outer(r_vec / r_mag, v0_vec)
-        + Gt * jnp.eye(3)
+        + Gt * jnp.eye(3, dtype=int)
     )
 
 
-- 
2.43.0


From fcd0ea3ae7e0a5bb02734de1f7d89b4c42387f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:13 +0000
Subject: [PATCH 15/17] fix: accept mixed precisions and Python numbers in the
 universal functions

With 64-bit enabled a Python number next to a float32 array made the branches
of the conditionals, and the loop of solve_kepler_uni, differ in dtype; integer
chi failed in ufunc0 and ufunc1.
---
 src/astrodynx/twobody/_kep_equ.py     |  1 +
 src/astrodynx/twobody/_uniformulas.py | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index eb2aae4..0a62c96 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -507,6 +507,7 @@ def solve_kepler_uni(
 
     # For hyperbolic orbits chi grows like log(deltat), so start from the epoch.
     chi0 = jnp.sqrt(mu) * jnp.maximum(alpha, 0) * deltat
+    chi0 = chi0 + 0.0 * (r0 + sigma0)  # the loop keeps the dtype of its start
     max_step = 2 / jnp.sqrt(jnp.abs(jax.lax.stop_gradient(alpha)))
     # The residual has the dimension of length**1.5: keep tol meaningful in small units.
     residual_tol = tol * jnp.minimum(1, r0**1.5)
diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 0c4705c..c4f93a2 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -117,7 +117,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(chi),
+            lambda: jnp.ones_like(1.0 * alpha * chi),
         ),
     )
     return _near_parabolic(0, chi, alpha, closed_form)
@@ -170,7 +170,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.sinh(jnp.sqrt(-alpha) * chi) / jnp.sqrt(-alpha),
-            lambda: chi,
+            lambda: chi + 0.0 * alpha,
         ),
     )
     return _near_parabolic(1, chi, alpha, closed_form)
@@ -223,7 +223,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: (jnp.cosh(jnp.sqrt(-alpha) * chi) - 1) / -alpha,
-            lambda: chi**2 / 2,
+            lambda: chi**2 / 2 + 0.0 * alpha,
         ),
     )
     return _near_parabolic(2, chi, alpha, closed_form)
@@ -280,7 +280,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: (jnp.sqrt(-alpha) * chi - jnp.sinh(jnp.sqrt(-alpha) * chi))
             / alpha
             / jnp.sqrt(-alpha),
-            lambda: chi**3 / 6,
+            lambda: chi**3 / 6 + 0.0 * alpha,
         ),
     )
     return _near_parabolic(3, chi, alpha, closed_form)
@@ -335,7 +335,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             alpha < 0,
             lambda: (alpha * chi**2 - 2 + 2 * jnp.cosh(jnp.sqrt(-alpha) * chi))
             / (2 * alpha**2),
-            lambda: chi**4 / 24,
+            lambda: chi**4 / 24 + 0.0 * alpha,
         ),
     )
     return _near_parabolic(4, chi, alpha, closed_form)
@@ -398,7 +398,7 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
                 - 6 * jnp.sqrt(-alpha) * jnp.sinh(jnp.sqrt(-alpha) * chi)
             )
             / (6 * alpha**3),
-            lambda: chi**5 / 120,
+            lambda: chi**5 / 120 + 0.0 * alpha,
         ),
     )
     return _near_parabolic(5, chi, alpha, closed_form)
-- 
2.43.0


From e80b6ce58a34279f2827be8a2f8ac51144538ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:43 +0000
Subject: [PATCH 16/17] fix: correct the derivative of solve_kepler_elps with
 respect to e on circular orbits

At e = 0 the clip bounds M - e and M + e tie with the iterate, which halves or drops the derivative.
---
 src/astrodynx/twobody/_kep_equ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 0a62c96..9d00609 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -390,8 +390,8 @@ def solve_kepler_elps(
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, E, _ = val
         f = E - e * jnp.sin(E) - M
-        # The root lies within e of M: keeps nearly parabolic iterations bounded.
-        E_new = jnp.clip(E - f / dE(E, e), M - e, M + e)
+        # The root lies within e < 1 of M: keeps nearly parabolic iterations bounded.
+        E_new = jnp.clip(E - f / dE(E, e), M - 1, M + 1)
         return (iter_count + 1, E_new, E)
 
     _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, jnp.full_like(E0, jnp.inf)))
-- 
2.43.0


From 6fbaab315e257ce8c6edcdf183281f3223ba71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 17/17] fix: let ufunc0 return NaN for an undefined alpha

---
 src/astrodynx/twobody/_uniformulas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index c4f93a2..a418cdf 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -117,7 +117,8 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(1.0 * alpha * chi),
+            # 0 * alpha: an undefined alpha must not look like a parabola
+            lambda: jnp.ones_like(1.0 * alpha * chi) + 0.0 * alpha,
         ),
     )
     return _near_parabolic(0, chi, alpha, closed_form)
-- 
2.43.0

