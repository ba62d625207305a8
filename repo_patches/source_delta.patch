From db394ab9ee374b9f8dbf40c702c9d3f3954b2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:44 +0000
Subject: [PATCH 01/29] fix: cumulative matrix product of a composite number of
 matrices

matrices_cumdot accumulated the factors of a composite length in the wrong
order, so the blocked LPV recursion was wrong for non-commuting matrices
whenever unroll_factor - 1 is composite.
---
 philtorch/mat.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..410aab5 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -144,23 +144,25 @@ def matrices_cumdot(A: Tensor) -> Tensor:
     M = A.size(-3)
     if M == 1:
         return A
-    leading_dims = len(A.shape) - 3
     factors = factorint(M, multiple=True)[::-1]
-    unfolded_A = A.unflatten(-3, factors)
-    return _mat_cumdot_runner(unfolded_A, leading_dims).flatten(leading_dims, -3)
+    return _mat_cumdot_runner(A.unflatten(-3, factors), len(factors))
 
 
-def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
+def _mat_cumdot_runner(A: Tensor, levels: int) -> Tensor:
+    # A has `levels` axes of factors in front of the matrix axes, the last one
+    # being the fastest; the result has a single axis in their place.
     accums = torch.stack(list(accumulate(A.unbind(-3), torch.matmul)), dim=-3)
-    if A.dim() == leading_dims + 3:
+    if levels == 1:
         return accums
 
-    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    blocks = _mat_cumdot_runner(accums[..., -1, :, :], levels - 1)
+    accums = accums.flatten(-2 - levels, -4)
+    # prefix every block with the product of all the blocks before it
+    tmp = blocks[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
-            torch.cat([tmp, higher_powers[..., 1:, None, :, :]], dim=-3),
+            torch.cat([tmp, blocks[..., 1:, None, :, :]], dim=-3),
         ],
         dim=-4,
-    )
+    ).flatten(-4, -3)
-- 
2.43.0


From 2f38bc4b76a8815f923c4fed4b1f58e0c7ec6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 02/29] fix: LPV C/D of shape (B, N, ...) when the batch size
 equals the number of steps

The (N, _, M) and (N, _) cases were tried first, so the per-batch and per-step
output matrices of lpv.lfilter were misread and the output had a spurious
feature axis whenever B == N.
---
 philtorch/lpv/ssm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..319202c 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -502,16 +502,16 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
             case (D_batch, DN) if D_batch == batch_size and DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
                 Dx = D * x
+            case (DN, _) if DN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+                Dx = D * x.unsqueeze(-1)
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +556,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-- 
2.43.0


From a4501a32f301ba623b791c37960de8d154c51b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 03/29] fix: lti.fir with a zero-order filter or a signal
 shorter than the filter

The transposed form returned an empty output for M = 0 and rejected initial
conditions when N < M, and both forms returned a wrong final state for M = 0.
---
 philtorch/lti/filtering.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..9f8ef62 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -184,19 +184,19 @@ def fir(
             stride=1,
             groups=B,
         ).squeeze(0)
+        y, zf = y[:, :N], y[:, N:]
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
-            y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
-            return y, zf
-        return y[:, :-M]
+            # the initial registers drain into the first M outputs
+            zi = F.pad(zi, (0, N))
+            return y + zi[:, :N], zf + zi[:, N:]
+        return y
 
     if zi is None:
         zf = None
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From f7d075917f66355f42eb5785e5de1f0da3a8eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 04/29] fix: lpv.fir and lpv.allpole for short signals and
 zero-order filters

The transposed forms rejected signals shorter than the filter order (and fir
an order of zero), and the direct allpole returned a final state of N entries
instead of M when N < M.
---
 philtorch/lpv/filtering.py | 25 +++++++++----------------
 philtorch/lpv/utils.py     |  2 +-
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..f65febd 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -65,16 +65,9 @@ def fir(
         )
         if return_zf:
             y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
-            )
+            # the initial registers drain into the first outputs
+            zi = F.pad(zi, (0, T))
+            return y + zi[:, :T], zf + zi[:, T:]
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
@@ -122,17 +115,17 @@ def allpole(
 
     if transpose:
         a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        # the initial registers drain into the first inputs
+        x = F.pad(x, (0, a.size(1) - T)) + F.pad(zi, (0, T))[:, : a.size(1)]
         y = sample_wise_lpc(x, a)
         if return_zf:
             return torch.split_with_sizes(y, [T, a.size(2)], 1)
         return y
 
-    return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
+    y = sample_wise_lpc(x, a, zi=zi)
+    if return_zf:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, T:].flip(1)
+    return y
 
 
 def lfilter(
diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
-- 
2.43.0


From 9ddaf1ac600ca6360b32c15c6a7871086b5b128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 05/29] fix: time alignment of the transposed direct form I of
 the LPV ssm backend

The feedback registers were updated with the denominator taps one step late,
so form='tdf1' disagreed with the torchlpc backend and lpv.allpole for
time-varying coefficients.
---
 philtorch/lpv/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index f65febd..733f9d5 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -348,7 +348,8 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT.conj(),
+                    # the feedback registers hold the taps of the previous step
+                    A.mT.conj().roll(1, -3),
                     zi,
                     out_idx=0,
                     **kwargs,
-- 
2.43.0


From da72d8097396fb061e664e1326daeb9d90291425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 06/29] fix: complex coefficients in the transposed forms of
 lfilter

'tdf1', 'tdf2' and the LTI 'df1' and diag_ssm FIR part filtered with (partly)
conjugated coefficients, so the forms disagreed with each other and with
scipy.signal.lfilter for complex filters; lfilter_zi likewise.
---
 philtorch/lpv/filtering.py | 12 ++++++------
 philtorch/lti/filtering.py | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 733f9d5..e0556fa 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -265,10 +265,10 @@ def _torchlpc_lfilter(
             filt = chain_functions(
                 partial(
                     allpole,
-                    broadcasted_a,
+                    broadcasted_a.conj(),
                     transpose=True,
                 ),
-                partial(fir, broadcasted_b, transpose=True),
+                partial(fir, broadcasted_b.conj(), transpose=True),
             )
         case _:
             raise ValueError(
@@ -315,10 +315,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -349,7 +349,7 @@ def _ssm_lfilter(
                         else state_space_recursion
                     ),
                     # the feedback registers hold the taps of the previous step
-                    A.mT.conj().roll(1, -3),
+                    A.mT.roll(1, -3),
                     zi,
                     out_idx=0,
                     **kwargs,
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9f8ef62..6a5e2f2 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -127,7 +127,7 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
         if a.size(-1) < n - 1:
             a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
-        A = companion(a).mT.conj()
+        A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
         raise ValueError(
@@ -307,10 +307,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -318,13 +318,13 @@ def _ssm_lfilter(
         case "df1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(fir, b.broadcast_to((x.size(0), -1))),
+                partial(fir, b.conj().broadcast_to((x.size(0), -1))),
                 partial(state_space_recursion, A, zi, out_idx=0, **kwargs),
             )
         case "tdf1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(state_space_recursion, A.mT.conj(), zi, out_idx=0, **kwargs),
+                partial(state_space_recursion, A.mT, zi, out_idx=0, **kwargs),
                 partial(fir, b.conj().broadcast_to((x.size(0), -1)), transpose=True),
             )
         case _:
@@ -348,12 +348,12 @@ def _diag_ssm_lfilter(
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-            direct_filt = partial(fir, q)
+            direct_filt = partial(fir, q.conj())
             delay = b.size(-1) - a.size(-1)
             b = r
         else:
             rev_q, rev_r = polydiv(b.flip(-1), F.pad(a.flip(-1), (0, 1), value=1.0))
-            direct_filt = partial(fir, rev_q.flip(-1))
+            direct_filt = partial(fir, rev_q.flip(-1).conj())
             delay = 0
             b = rev_r.flip(-1)
     else:
@@ -385,10 +385,10 @@ def _diag_ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-                A=A.mT.conj(),
-                B=B.conj(),
+                A=A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
-- 
2.43.0


From 9549e75c67cffd83b245f98cedd1c883812d4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:41 +0000
Subject: [PATCH 07/29] fix: comb_filter final state, shared coefficient and
 pure-Python fallback

A delay of one ignored the final state, signals shorter than the delay returned
a short one, a shared coefficient of shape (1,) was rejected although
documented, and without the extension the filter called the missing operator.
---
 philtorch/lti/filtering.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 6a5e2f2..65a34d5 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -8,8 +8,7 @@ from .ssm import state_space, state_space_recursion, diag_state_space
 from ..mat import companion
 from ..utils import chain_functions
 from ..poly import polydiv
-from .recur import linear_recurrence, LTIRecurrence
-from .. import EXTENSION_LOADED
+from .recur import linear_recurrence
 
 
 def comb_filter(
@@ -29,24 +28,27 @@ def comb_filter(
     assert x.dim() == 2, "Input signal x must be 2D."
     assert delay >= 0, "Delay must be non-negative."
     if a.dim() == 1:
-        assert a.size(0) == x.size(
-            0
-        ), "The first dimension of a must match the batch size of x."
+        assert a.size(0) in (
+            1,
+            x.size(0),
+        ), "The first dimension of a must be 1 or match the batch size of x."
 
     if delay == 1:
-        return linear_recurrence(
+        y = linear_recurrence(
             -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
         )
+        return y if zi is None else (y, y[:, -1:])
 
     remainder = x.size(1) % delay
     if remainder != 0:
         x = F.pad(x, (0, delay - remainder))
 
     folded_x = x.unflatten(1, (-1, delay)).mT
-    if a.dim() == 1:
+    if a.numel() > 1:
         a = a.repeat_interleave(delay)
     if zi is not None:
         return_zf = True
+        past = zi.flip(-1).broadcast_to(x.size(0), delay)
         if zi.dim() == 1:
             zi = zi.flip(0).repeat(x.size(0))
         else:
@@ -56,18 +58,14 @@ def comb_filter(
         zi = torch.zeros_like(a)
 
     y = (
-        (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
-        )
+        linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
         .unflatten(0, (-1, delay))
         .mT.flatten(1, 2)
     )
     if remainder != 0:
         y = y[:, : -(delay - remainder)]
     if return_zf:
-        return y, y[:, -delay:].flip(1)
+        return y, torch.cat([past, y], dim=1)[:, -delay:].flip(1)
     return y
 
 
-- 
2.43.0


From b3ba5c96eb43604fdeb6b4ce06125a6b586ede6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 08/29] fix: lfiltic with a zero-order numerator

---
 philtorch/lti/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 65a34d5..7dc67e5 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -90,7 +90,8 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
+    # (an order of zero has no past input to account for)
+    b_mat = F.pad(b[..., 1:], (0, max(m, 1) - 1), value=0.0).unfold(-1, m, 1)[..., :m, :]
     a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
     zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
     zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
-- 
2.43.0


From c873f6eaa2629ccfaf69afee3667c5fb8d51819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 09/29] fix: lfilter_zi of the direct form II when the
 numerator is longer

filtfilt(form='df2') failed because the initial state had fewer entries than
the filter's max(M_b, M_a).
---
 philtorch/lti/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 7dc67e5..984047d 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -115,6 +115,8 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
     assert a.dim() >= 1, "Denominator coefficients a must be at least 1D."
 
     if not transpose:
+        if b is not None and b.size(-1) > a.size(-1) + 1:
+            a = F.pad(a, (0, b.size(-1) - a.size(-1) - 1), value=0.0)
         n = a.size(-1) + 1
         A = companion(a)
         B = a.new_zeros(n - 1)
-- 
2.43.0


From c1cdfe3d807697011a23a908cd8da936dbd27bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:35 +0000
Subject: [PATCH 10/29] fix: polydiv of a shorter dividend, broadcasting and
 backward

A dividend of lower degree raised instead of returning an empty quotient, a
divisor with more batch dimensions than the dividend raised, and backward
failed because the remainder was updated in place.
---
 philtorch/poly.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..be5dda8 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -24,10 +24,14 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     m = u.size(-1) - 1
     n = v.size(-1) - 1
     scale = v[..., 0].reciprocal()
-    r = u.clone()
+    batch_shape = torch.broadcast_shapes(u.shape[:-1], v.shape[:-1])
+    r = u.expand(*batch_shape, -1).to(torch.result_type(u, v), copy=True)
+    if m < n:
+        return r[..., :0], r
+    r = r.contiguous()
     q = []
     for k in range(0, m - n + 1):
-        d = scale * r[..., k]
+        d = scale * r[..., k].clone()  # r is updated in place below
         q.append(d)
         r[..., k : k + n + 1] -= d.unsqueeze(-1) * v
 
-- 
2.43.0


From 3cc4286ad943529132bdf518adf0bc1f1e1be3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:15 +0000
Subject: [PATCH 11/29] fix: real and imaginary parts of the diagonalised state
 space

Real systems without an output matrix (diag_ssm 'tdf2') returned complex
outputs, a real output matrix dropped the imaginary part of complex signals,
and one-dimensional b longer than a failed.
---
 philtorch/lti/filtering.py | 6 ++++--
 philtorch/lti/ssm.py       | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 984047d..2685ef5 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -349,12 +349,14 @@ def _diag_ssm_lfilter(
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-            direct_filt = partial(fir, q.conj())
+            direct_filt = partial(fir, q.conj().broadcast_to((x.size(0), -1)))
             delay = b.size(-1) - a.size(-1)
             b = r
         else:
             rev_q, rev_r = polydiv(b.flip(-1), F.pad(a.flip(-1), (0, 1), value=1.0))
-            direct_filt = partial(fir, rev_q.flip(-1).conj())
+            direct_filt = partial(
+                fir, rev_q.flip(-1).conj().broadcast_to((x.size(0), -1))
+            )
             delay = 0
             b = rev_r.flip(-1)
     else:
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..b99fbaa 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -728,6 +728,11 @@ def diag_state_space(
     elif zi.dim() == 1:
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
+    # the states are known to be real if everything that drives them is
+    is_real = (C is not None or A is not None) and not any(
+        t is not None and t.is_complex() for t in (x, A, B, C, zi)
+    )
+
     x_orig = x
     if Vinv.is_complex():
         if not zi.is_complex():
@@ -823,9 +828,11 @@ def diag_state_space(
             dim=1,
         )
 
-    if C is not None and not C.is_complex():
+    if is_real:
         h = h.real
         zf = zf.real if return_zf else None
+    elif C is not None and h.is_complex() and not C.is_complex():
+        C = C + 0j
 
     y = _ssm_C_D(h, x_orig, C, D, batch_size, M)
     if return_zf:
-- 
2.43.0


From 082a5f8f18069951f6d0845f89075f9c1143e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 12/29] fix: cubic_spline for factors whose reciprocal rounds
 up

torch.arange(-2, 2, 1 / m) has 4 m + 1 entries for m = 49, 98, 103, ...
---
 philtorch/lti/interp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..e5697ba 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -121,9 +121,9 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-    kernel_idx = torch.arange(-2, 2, 1 / m, device=x.device, dtype=x.dtype).reshape(
-        4, m
-    )
+    kernel_idx = (
+        torch.arange(4 * m, device=x.device, dtype=x.dtype) / m - 2
+    ).reshape(4, m)
     kernel = _cubic_spline_kernel(kernel_idx).flip(0).T
 
     interped = F.conv1d(
-- 
2.43.0


From a98ff2b931e3548575c505c8a0645144cc0da93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 13/29] fix: check the shapes of A and zi in the CPU recurrence
 operators

A batch size or a number of steps of A, or a batch size of zi, different from
that of x made the kernels read out of bounds (e.g. lpv.state_space with A of
batch size one), although the fake kernels already reject them.
---
 philtorch/csrc/host_lti_recurN.cpp | 6 ++++++
 philtorch/csrc/host_recurN.cpp     | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 2ba902e..f07809f 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -69,10 +69,16 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "A must have the same batch size as x");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) &&
+                    zi.size(1) == x.size(2),
+                "zi must have the same batch size and order as x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 6c397c9..8122965 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -242,10 +242,18 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "A must have the same number of steps as x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "A must have the same batch size as x");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) &&
+                    zi.size(1) == x.size(2),
+                "zi must have the same batch size and order as x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
-- 
2.43.0


From 1f038adb66a094877a237c5435061966e0a135a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 14/29] fix: strides promised by the fake kernels of the
 recurrence operators

The operators return contiguous tensors, but the fake kernels promised the
strides of x, so torch.compile failed for a non-contiguous x.
---
 philtorch/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..fefc088 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -174,7 +174,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
@@ -195,7 +195,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
@@ -211,7 +211,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
@@ -228,7 +228,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
@@ -241,7 +241,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 1D, its length must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     torch.library.register_autograd(
         "philtorch::recur2",
-- 
2.43.0


From f5e47326bcdd6ffd4ec78942ea95235902efa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 15/29] fix: shapes of B and D that coincide with the per-row
 ones

A (M, F) input matrix with a batch of M = F rows, a (B, M, F) one with
N = M = F steps and a one-element D with a single row or step raised
although the input has a feature axis, which rules the other reading out.
---
 philtorch/lpv/ssm.py |  8 +++++---
 philtorch/lti/ssm.py | 12 ++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 319202c..cf6d77b 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -431,7 +431,9 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
+            case (B_batch, BN, BM) if (
+                B_batch == batch_size and BM == M and BN == N and features == -1
+            ):
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
@@ -481,6 +483,8 @@ def state_space(
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (DN,) if DN == N:
                 assert (
                     x.dim() == 2
@@ -491,8 +495,6 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index b99fbaa..f88f9bf 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,7 +464,9 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
-            case (B_batch, BM) if B_batch == batch_size and BM == M:
+            case (B_batch, BM) if (
+                B_batch == batch_size and BM == M and features == -1
+            ):
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
@@ -535,13 +537,13 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (D_batch,) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
@@ -765,7 +767,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
-            case (B_batch, BM) if B_batch == batch_size and BM == M:
+            case (B_batch, BM) if (
+                B_batch == batch_size and BM == M and features == -1
+            ):
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
-- 
2.43.0


From 6f19b63c3d50e8d15566f38ad81e8f1fdb505725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 16/29] fix: gradients of lpv.allpole of order zero

---
 philtorch/lpv/filtering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index e0556fa..f3d461e 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -113,6 +113,11 @@ def allpole(
 
         return_zf = True
 
+    if a.size(2) == 0:
+        # no recursion to run (sample_wise_lpc has no gradient at order zero)
+        y = x + a.sum(2)
+        return (y, zi.clone()) if return_zf else y
+
     if transpose:
         a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
         # the initial registers drain into the first inputs
-- 
2.43.0


From e88700a4f19cbd0b0bade15471dad1caead54e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 17/29] fix: higher derivatives of the scalar recurrence for
 signals of one sample

---
 philtorch/__init__.py  | 13 ++-----------
 philtorch/lti/recur.py | 13 ++-----------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index fefc088..7990e1b 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -118,17 +118,8 @@ def _lti_recur_backward(
     a, init, out = ctx.saved_tensors
     grad_a = grad_x = grad_init = None
 
-    bp_init = grad_out[:, -1]
-    flipped_grad_x = torch.cat(
-        [
-            bp_init.unsqueeze(1),
-            torch.ops.philtorch.lti_recur(
-                a.conj_physical(),
-                bp_init,
-                grad_out[:, :-1].flip(1),
-            ),
-        ],
-        dim=1,
+    flipped_grad_x = torch.ops.philtorch.lti_recur(
+        a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
     )
 
     if ctx.needs_input_grad[1]:
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index 6ac3094..e6e3622 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -29,17 +29,8 @@ class LTIRecurrence(Function):
         a, init, out = ctx.saved_tensors
         grad_a = grad_x = grad_init = None
 
-        bp_init = grad_out[:, -1]
-        flipped_grad_x = torch.cat(
-            [
-                bp_init.unsqueeze(1),
-                LTIRecurrence.apply(
-                    a.conj_physical(),
-                    bp_init,
-                    grad_out[:, :-1].flip(1),
-                ),
-            ],
-            dim=1,
+        flipped_grad_x = LTIRecurrence.apply(
+            a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
         )
 
         if ctx.needs_input_grad[1]:
-- 
2.43.0


From 87c8e3761a93ca79b8a0f944c053120950c9a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 18/29] fix: compiled operators and their fake kernels accept
 the same ranks, orders and dtypes

---
 philtorch/__init__.py              | 16 +++++++++++++++-
 philtorch/csrc/host_lti_recurN.cpp | 11 ++++++++++-
 philtorch/csrc/host_recurN.cpp     | 11 ++++++++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7990e1b..daca98c 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -145,12 +145,22 @@ def _setup_context(ctx: Any, inputs: list[Any], output: Any) -> Any:
     ctx.save_for_backward(A, zi, y)
 
 
+def _check_ranks_and_dtypes(A, zi, x, x_ndim):
+    torch._check(x.ndim == x_ndim, "x must be {}D.".format(x_ndim))
+    torch._check(zi.ndim == x_ndim - 1, "zi must be {}D.".format(x_ndim - 1))
+    torch._check(
+        A.dtype == x.dtype and zi.dtype == x.dtype,
+        "A, zi and x must have the same dtype.",
+    )
+
+
 if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::recur2")
     def _(A, zi, x):
-        torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -169,6 +179,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
         torch._check(
@@ -190,6 +201,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
@@ -206,6 +218,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(
@@ -223,6 +236,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 2)
         torch._check(A.ndim <= 1, "A must be 1D or scalar.")
         torch._check(
             zi.shape[0] == x.shape[0], "x and zi must have the same batch size."
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index f07809f..72bbe15 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -113,8 +113,17 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
         .contiguous(); // Remove the initial state from the output
 }
 
+at::Tensor lti_mat_recur_second_order_cpu_impl(const at::Tensor &A,
+                                               const at::Tensor &zi,
+                                               const at::Tensor &x)
+{
+    TORCH_CHECK(x.dim() == 3 && x.size(2) == 2,
+                "Last dimension of x must be 2");
+    return lti_mat_recur_N_order_cpu_impl(A, zi, x);
+}
+
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
 {
     m.impl("lti_recurN", &lti_mat_recur_N_order_cpu_impl);
-    m.impl("lti_recur2", &lti_mat_recur_N_order_cpu_impl);
+    m.impl("lti_recur2", &lti_mat_recur_second_order_cpu_impl);
 }
\ No newline at end of file
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 8122965..7eb3f01 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -288,8 +288,17 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
         .contiguous(); // Remove the initial state from the output
 }
 
+at::Tensor mat_recur_second_order_cpu_omp_impl(const at::Tensor &A,
+                                               const at::Tensor &zi,
+                                               const at::Tensor &x)
+{
+    TORCH_CHECK(x.dim() == 3 && x.size(2) == 2,
+                "Last dimension of x must be 2");
+    return mat_recur_N_order_cpu_omp_impl(A, zi, x);
+}
+
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
 {
     m.impl("recurN", &mat_recur_N_order_cpu_omp_impl);
-    m.impl("recur2", &mat_recur_N_order_cpu_omp_impl);
+    m.impl("recur2", &mat_recur_second_order_cpu_omp_impl);
 }
\ No newline at end of file
-- 
2.43.0


From 1115eb1029c47877522022aea0f2d2dbdb098b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 19/29] fix: reject coefficient sequences and C/D ranks that do
 not match the signal

linear_recurrence (lpv) accepted a two-dimensional a whose rows or length
differ from x and returned a result of another shape; state_space added a
C h and D x of different ranks by broadcasting the batch against the time
axis.
---
 philtorch/lpv/recur.py | 5 +++++
 philtorch/lpv/ssm.py   | 4 ++++
 philtorch/lti/ssm.py   | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 1dc9fcd..00f908f 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -45,6 +45,11 @@ def linear_recurrence(
 
     batch_size, N = x.size(0), x.size(1)
 
+    if a.dim() == 2 and (a.size(0) not in (1, batch_size) or a.size(1) != N):
+        raise ValueError(
+            f"State matrix a must have the same batch size and length as x, got a: {tuple(a.shape)}, x: {tuple(x.shape)}"
+        )
+
     assert init.dim() in (
         0,
         1,
diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index cf6d77b..37cb2b9 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -574,6 +574,10 @@ def state_space(
         Ch = h
 
     if Dx is not None:
+        if Dx.dim() != Ch.dim():
+            raise ValueError(
+                f"The outputs of C and D must have the same number of dimensions, got {tuple(Ch.shape)} and {tuple(Dx.shape)}"
+            )
         y = Ch + Dx
     else:
         y = Ch
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index f88f9bf..ca4bce2 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -585,6 +585,10 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         Ch = h
 
     if Dx is not None:
+        if Dx.dim() != Ch.dim():
+            raise ValueError(
+                f"The outputs of C and D must have the same number of dimensions, got {tuple(Ch.shape)} and {tuple(Dx.shape)}"
+            )
         y = Ch + Dx
     else:
         y = Ch
-- 
2.43.0


From 3e94cbc1a8a555d81e8124cb8dd95648d631f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:58 +0000
Subject: [PATCH 20/29] fix: vandermonde of batched poles

---
 philtorch/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 410aab5..17ef35f 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -76,7 +76,7 @@ def vandermonde(poles: Tensor) -> Tensor:
     """
     if poles.size(-1) == 1:
         return torch.ones_like(poles).unsqueeze(-1)
-    return torch.vander(poles).mT
+    return torch.linalg.vander(poles).flip(-1).mT
 
 
 def matrix_power_accumulate(A: Tensor, n: int) -> Tensor:
-- 
2.43.0


From bd50f406a15bd9b3548d1a4f13f53811c3cf31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:58 +0000
Subject: [PATCH 21/29] fix: lfilter_zi broadcasts the leading dimensions of a
 and b

---
 philtorch/lti/filtering.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2685ef5..daeb719 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -137,9 +137,10 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
 
     IminusA = torch.eye(n - 1, device=a.device, dtype=a.dtype) - A
 
-    if IminusA.ndim == 2 and B.ndim > 1:
-        IminusA = IminusA.expand(*B.shape[:-1], -1, -1)
-    zi = torch.linalg.solve(IminusA, B)
+    batch_shape = torch.broadcast_shapes(IminusA.shape[:-2], B.shape[:-1])
+    zi = torch.linalg.solve(
+        IminusA.expand(*batch_shape, -1, -1), B.expand(*batch_shape, -1)
+    )
     return zi
 
 
-- 
2.43.0


From ca0ef5c9863d0773df14603ec9992db54b813332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:58 +0000
Subject: [PATCH 22/29] fix: lfiltic with a zero-order denominator

---
 philtorch/lti/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index daeb719..bfb9827 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -90,9 +90,9 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    # (an order of zero has no past input to account for)
+    # (an order of zero has no past samples to account for)
     b_mat = F.pad(b[..., 1:], (0, max(m, 1) - 1), value=0.0).unfold(-1, m, 1)[..., :m, :]
-    a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
+    a_mat = F.pad(a, (0, max(n, 1) - 1), value=0.0).unfold(-1, n, 1)[..., :n, :]
     zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
     zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
     if zi_b.size(-1) < k:
-- 
2.43.0


From 5ee65503c657a5f135c7aa39eae580b4d26cb35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 23/29] fix: diag_ssm lfilter for signals shorter than the
 delay of its direct part

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index bfb9827..66fda08 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -406,7 +406,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : y.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From 7f2840248c19375297b8628eda86f74785dd252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 24/29] fix: filtfilt in the forms df1 and tdf1

---
 philtorch/lti/filtering.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 66fda08..0cba188 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -474,13 +474,22 @@ def filtfilt(
     else:
         ext = x
 
-    zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
-    x0 = ext[..., :1]
+    if form in ("df1", "tdf1"):
+        # these forms take no initial state: shift the steady state to the origin
+        gain = (b.sum(-1) / (1 + a.sum(-1))).unsqueeze(-1)
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
-    y0 = y[..., -1:]
+        def forward(x: Tensor) -> Tensor:
+            x0 = x[..., :1]
+            return lfilter(b, a, x - x0, form=form, **kwargs) + gain * x0
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    else:
+        zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
+
+        def forward(x: Tensor) -> Tensor:
+            return lfilter(b, a, x, zi=zi * x[..., :1], form=form, **kwargs)[0]
+
+    y = forward(ext)
+    y = forward(y.flip(-1))
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From 7b81fdacb3713aed40fcf5505a7e688a7174cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 25/29] fix: find_eigenvectors with vanishing first components

---
 philtorch/mat.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 17ef35f..e1d7ad2 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -27,15 +27,18 @@ def find_eigenvectors(A: Tensor, eigenvalues: Tensor) -> Tensor:
     n = A.size(-1)
     I = torch.eye(n, device=A.device, dtype=A.dtype)
     W = A.unsqueeze(-3) - eigenvalues[..., None, None] * I
-    B, W = torch.split(W, [1, n - 1], dim=-1)
 
-    WtW = W.mT.conj() @ W
-    WtB = W.mT.conj() @ -B
+    # null vectors up to scale; held constant they keep the system below regular
+    # whichever components of the eigenvectors vanish
+    B = torch.linalg.svd(W.detach())[2][..., -1:, :].mT.conj()
 
-    X = torch.linalg.solve(WtW, WtB)
-    X = X.reshape(A.shape[:-2] + (n, n - 1))
-    X = torch.cat([X.new_ones(X.shape[:-1] + (1,)), X], dim=-1)
+    X = torch.linalg.solve(W.mT.conj() @ W + B @ B.mT.conj(), B).squeeze(-1)
     X = X / torch.linalg.vector_norm(X, dim=-1, keepdim=True)
+    # first component real and positive unless it vanishes
+    first = X[..., :1]
+    vanishes = first.abs() <= torch.finfo(X.dtype).eps ** 0.5
+    scale = torch.where(vanishes, torch.ones_like(first), first)
+    X = X * (scale.conj() / scale.abs())
     return X.mT
 
 
-- 
2.43.0


From 3638bc3da5314ad78974ba2a2348919b645a259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 26/29] fix: polyval of a constant polynomial has the shape of
 the points

---
 philtorch/prototype/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4a715d6..97103b4 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -122,7 +122,7 @@ def polyval(p: Tensor, x: Tensor) -> Tensor:
     """
     p = trim_zeros(p)
     if p.numel() == 1:
-        return p
+        return p[0] + torch.zeros_like(x)
     return reduce(lambda y, pv: y * x + pv, p.unbind(0))
 
 
-- 
2.43.0


From 1ccc2d398ffa3cf3d7d6ef02e943f64f356164ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 27/29] fix: roots of polynomials with a single coefficient,
 complex empty results

---
 philtorch/prototype/poly.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 97103b4..ea04fd9 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -31,11 +31,12 @@ def roots(p: Tensor) -> Tensor:
         raise ValueError("Input must be a rank-1 array.")
 
     # find non-zero array entries
-    non_zero = torch.nonzero(p).squeeze()
+    non_zero = torch.nonzero(p).flatten()
 
     # Return an empty array if polynomial is all zeros
+    empty = p.new_empty(0, dtype=p.dtype.to_complex())
     if non_zero.numel() == 0:
-        return torch.tensor([])
+        return empty
 
     # find the number of trailing zeros -- this is the number of roots at 0.
     trailing_zeros = p.numel() - non_zero[-1] - 1
@@ -51,7 +52,7 @@ def roots(p: Tensor) -> Tensor:
         A[0, :] = -p[1:] / p[0]
         roots = torch.linalg.eigvals(A)
     else:
-        roots = torch.tensor([])
+        roots = empty
 
     # tack any zeros onto the back of the array
     if trailing_zeros > 0:
-- 
2.43.0


From 3a4e2cd89a7dca74560576c34d3d86ff41ae6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:56 +0000
Subject: [PATCH 28/29] fix: index overflow of the CPU kernels beyond 2^31
 elements

---
 philtorch/csrc/host_lti_recur.cpp  | 12 ++++++------
 philtorch/csrc/host_lti_recurN.cpp | 12 ++++++------
 philtorch/csrc/host_recurN.cpp     | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 96615f9..5815b07 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -2,19 +2,19 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_linear_recurrence(int B, int T,
+void host_lti_batch_linear_recurrence(int64_t B, int64_t T,
                                       const scalar_t *a,
                                       scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t a_b = a[b];
         scalar_t *out_b = out + b * T;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a_b * out_b[t - 1];
         }
@@ -22,17 +22,17 @@ void host_lti_batch_linear_recurrence(int B, int T,
 }
 
 template <typename scalar_t>
-void host_lti_shared_linear_recurrence(int B, int T,
+void host_lti_shared_linear_recurrence(int64_t B, int64_t T,
                                        const scalar_t a,
                                        scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *out_b = out + b * T;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a * out_b[t - 1];
         }
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 72bbe15..21b473a 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -2,20 +2,20 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_mat_recur_N_order(int B, int T, int N,
+void host_lti_batch_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
@@ -33,18 +33,18 @@ void host_lti_batch_mat_recur_N_order(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_lti_share_mat_recur_N_order(int B, int T, int N,
+void host_lti_share_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 7eb3f01..c945b3e 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -79,20 +79,20 @@ void host_batch_mat_recur_N_order(const scalar_t *Ax, scalar_t *out,
 }
 
 template <typename scalar_t>
-void host_batch_mat_recur_N_order_omp(int B, int T, int N,
+void host_batch_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * T * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A_b + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
@@ -111,18 +111,18 @@ void host_batch_mat_recur_N_order_omp(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_share_mat_recur_N_order_omp(int B, int T, int N,
+void host_share_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
-- 
2.43.0


From c81fb59b4c56efa6927e6c176bcb54d115283b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:27 +0000
Subject: [PATCH 29/29] fix: lfilter df2 takes a mismatched batch of
 coefficients for output channels

---
 philtorch/lpv/filtering.py | 2 ++
 philtorch/lti/filtering.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index f3d461e..fd04139 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -303,6 +303,8 @@ def _ssm_lfilter(
         case "df2":
             b0 = b[..., :1]  # First coefficient of the FIR filter
             C = b[..., 1:] - b0 * a
+            # rows of coefficients belong to rows of x, they are not output channels
+            C = C.expand(*x.shape[3 - C.dim() :], -1)
             D = b[..., 0]
             filt = partial(
                 state_space,
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 0cba188..f91a4a8 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -292,6 +292,8 @@ def _ssm_lfilter(
         case "df2":
             b0 = b[..., :1]  # First coefficient of the FIR filter
             C = b[..., 1:] - b0 * a
+            # rows of coefficients belong to rows of x, they are not output channels
+            C = C.expand(*x.shape[: C.dim() - 1], -1)
             D = b[..., 0]
             filt = partial(
                 state_space,
@@ -373,6 +375,8 @@ def _diag_ssm_lfilter(
         case "df2":
             b0 = b[..., :1]  # First coefficient of the FIR filter
             C = b[..., 1:] - b0 * a
+            # rows of coefficients belong to rows of x, they are not output channels
+            C = C.expand(*x.shape[: C.dim() - 1], -1)
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-- 
2.43.0

