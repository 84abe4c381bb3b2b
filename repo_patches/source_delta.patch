From c63bb57ef1e8b8040d4d3f6b752a735b644ca53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:28 +0000
Subject: [PATCH 01/27] fix: transpose the Jacobian in the default jTmjp
 diagonal modes

The diag->full, full->diag and diag->diag branches of AbstractJacobian.jTmjp contracted the metric with the
input index of the left Jacobian factor, which only works for symmetric Jacobians.
---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From 68acaf2ef68b9bbf77ee50cc69fa9a3dc6d52ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 02/27] fix: accumulate MaxPool2d backward passes over
 overlapping windows

With stride < kernel_size several outputs can select the same input; assigning instead of accumulating kept only one of them.
---
 nnj/maxpool2d.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..b1b2b1f 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -173,7 +173,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            # overlapping windows can share the same maximum
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -212,7 +213,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            # overlapping windows can share the same maximum
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -263,7 +265,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                # overlapping windows can share the same maximum
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -296,7 +299,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                # overlapping windows can share the same maximum
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From 3b3235977923de5002c8cb341d31850332d5d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 03/27] fix: MaxPool2d.jmp accepts any number of columns

It assumed as many columns as inputs.
---
 nnj/maxpool2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index b1b2b1f..ff181cf 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -96,10 +96,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, -1)
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self.idx.reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
+            matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
-- 
2.43.0


From 797bf2ca4f6439063366e898ea7fc5cbe31986a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 04/27] fix: keep the working dtype in Conv2d, MaxPool2d,
 Upsample and L2Norm products

Buffers were allocated in the default dtype, so double precision models crashed or lost precision.
---
 nnj/conv2d.py    | 12 +++++++-----
 nnj/l2norm.py    |  2 +-
 nnj/maxpool2d.py |  8 ++++----
 nnj/upsample.py  | 18 +++++++++++++-----
 4 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..c808819 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(
+                    b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device
+                )
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +505,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +627,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..edf8c2d 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -38,7 +38,7 @@ class L2Norm(AbstractJacobian, nn.Module):
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
             jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index ff181cf..a9db9a1 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -44,7 +44,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -172,7 +172,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             # overlapping windows can share the same maximum
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
@@ -212,7 +212,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
             # overlapping windows can share the same maximum
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
@@ -264,7 +264,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
                 # overlapping windows can share the same maximum
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..30ab5a2 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(
+                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+            )
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +174,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(
+                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+            )
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +223,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(
+                    1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+                )
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +274,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(
+                    1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+                )
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From b5b0e67e5388549b8a4505d01f48c114e821922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 05/27] fix: exact L2Norm Jacobian for eps > 0

The derivative of x / (|x| + eps) has a factor 1 / |x| where 1 / (|x| + eps) was used.
---
 nnj/l2norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index edf8c2d..d0c35f8 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,7 +37,9 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
+            # derivative of the norm, which is taken to be zero at the origin
+            unit_x = torch.einsum("b,bi->bi", torch.where(norm > 0, 1.0 / norm, torch.zeros_like(norm)), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, unit_x)
             jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
-- 
2.43.0


From d179f6f71ac7a58231d102c2320ceae7dc5f03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 06/27] fix: Softplus Jacobian respects the threshold

Above the threshold the forward pass is the identity, so its derivative is one.
---
 nnj/softplus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..ef4424e 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -23,7 +23,9 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
         if wrt == "input":
             if val is None:
                 val = self.forward(x)
-            diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            # above the threshold the forward pass is linear
+            diag_jacobian = torch.where(self.beta * x > self.threshold, torch.ones_like(x), torch.sigmoid(self.beta * x))
+            diag_jacobian = diag_jacobian.reshape(val.shape[0], -1)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From b7db4baeb51568bb1e863f43965e411f50a6ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 07/27] fix: reject Conv2d configurations the products do not
 support

The backward passes ignore padding_mode (silently wrong numbers) and fail for dilation and groups.
---
 nnj/conv2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index c808819..19d10d5 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -39,6 +39,10 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
             raise ValueError(
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
+        if self.dilation != (1, 1) or self.groups != 1 or self.padding_mode != "zeros":
+            raise ValueError(
+                f"I can't handle dilation = {self.dilation}, groups = {self.groups}, padding_mode = {self.padding_mode}, sorry."
+            )
 
     @torch.no_grad()
     def jacobian(
-- 
2.43.0


From 15ced22732287266d6948369a832b9135d0e9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 08/27] fix: reject Upsample configurations the products do not
 support

The products assume nearest upsampling by one integer factor; other modes gave silently wrong numbers.
---
 nnj/upsample.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nnj/upsample.py b/nnj/upsample.py
index 30ab5a2..a27bc01 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -11,6 +11,13 @@ class Upsample(nn.Upsample, AbstractJacobian):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._n_params = 0
+        if (
+            self.mode != "nearest"
+            or self.size is not None
+            or not isinstance(self.scale_factor, float)
+            or self.scale_factor != int(self.scale_factor)
+        ):
+            raise ValueError("I can only handle nearest upsampling by a single integer scale_factor, sorry.")
 
     @torch.no_grad()
     def jacobian(
-- 
2.43.0


From eac22561dcff2b0fffc39ba88abb01e4206d3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 09/27] fix: matrix=None means identity in every matrix and
 metric product

The default, Flatten, Reshape, Conv2d, Sequential and SkipConnection implementations crashed on it for some inputs,
and the diag_backprop example in the README failed its assertion.
---
 nnj/abstract_jacobian.py | 18 ++++++++++++++----
 nnj/conv2d.py            |  2 +-
 nnj/flatten.py           |  4 ++--
 nnj/reshape.py           |  4 ++--
 nnj/sequential.py        |  6 +++---
 nnj/skipconnection.py    |  9 ++++++---
 6 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..302650c 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -74,7 +74,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
     ) -> Union[Tensor, None]:
         """
@@ -83,6 +83,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            return jacobian
         return torch.einsum("bij,bjk->bik", jacobian, matrix)
 
     @torch.no_grad()
@@ -90,7 +92,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
         from_diag: bool = False,
         to_diag: bool = False,
@@ -121,6 +123,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            matrix = torch.ones_like(jacobian[:, 0, :])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
@@ -171,7 +176,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
     ) -> Union[Tensor, None]:
         """
@@ -180,6 +185,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            return jacobian
         return torch.einsum("bij,bjk->bik", matrix, jacobian)
 
     @torch.no_grad()
@@ -187,7 +194,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
         from_diag: bool = False,
         to_diag: bool = False,
@@ -218,6 +225,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            matrix = torch.ones_like(jacobian[:, :, 0])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 19d10d5..fd33c6b 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -386,7 +386,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
diff --git a/nnj/flatten.py b/nnj/flatten.py
index b0be53a..4dd0b0d 100644
--- a/nnj/flatten.py
+++ b/nnj/flatten.py
@@ -68,7 +68,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -140,7 +140,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
diff --git a/nnj/reshape.py b/nnj/reshape.py
index dfabfd8..42a5908 100644
--- a/nnj/reshape.py
+++ b/nnj/reshape.py
@@ -69,7 +69,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -141,7 +141,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..900148e 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -135,14 +135,14 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
 
         # forward pass
         if val is None:
             val = self.forward(x)
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
                 from_diag = True
             # forward pass again
             for k in range(len(self._modules_list)):
@@ -300,7 +300,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
         # forward pass
         if val is None:
             val = self.forward(x)
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..f30e512 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -97,11 +97,14 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
         if val is None:
             val = self.forward(x)
         b = x.shape[0]
         l1, l2 = x[0].numel(), val[0].numel()
+        if matrix is None and wrt == "input":
+            matrix = torch.ones_like(x).reshape(b, l1)
+            from_diag = True
         jmjTp = self._F.jmjTp(
             x,
             None if val is None else val[:, l1:],
@@ -189,11 +192,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
-- 
2.43.0


From 154cac2423e86b82623a0a890c10c18b74dabd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 10/27] fix: SkipConnection.jacobian with a given val, and
 without parameters

The whole output was handed to the inner Sequential as its output, and the None that layers without parameters return
for wrt=weight was concatenated. Return types admit the None, as typeguard checks them.
---
 nnj/sequential.py     | 10 ++++++----
 nnj/skipconnection.py | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 900148e..2003ec4 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -36,7 +36,9 @@ class Sequential(AbstractJacobian, nn.Sequential):
         return x
 
     @torch.no_grad()
-    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
+    def jacobian(
+        self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input"
+    ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         return self.mjp(x, val, None, wrt=wrt)
 
@@ -51,7 +53,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
@@ -88,7 +90,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -130,7 +132,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index f30e512..4d8bef7 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -23,9 +23,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         x: Tensor,
         val: Union[Tensor, None] = None,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
-        jac = self._F.jacobian(x, val, wrt=wrt)
+        jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
+        if jac is None:  # non parametric layer
+            return None
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
@@ -48,13 +50,15 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
         b = x.shape[0]
         l = x[0].numel()
         jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
+        if jvp is None:  # non parametric layer
+            return None
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -68,7 +72,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -77,6 +81,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         b = x.shape[0]
         l = x[0].numel()
         jmp = self._F.jmp(x, None if val is None else val[:, l:], matrix, wrt=wrt)
+        if jmp is None:  # non parametric layer
+            return None
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -93,7 +99,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
@@ -114,6 +120,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             to_diag=to_diag,
             diag_backprop=diag_backprop,
         )
+        if jmjTp is None:  # non parametric layer
+            return None
         if wrt == "input":
             if to_diag:
                 if from_diag:
-- 
2.43.0


From 883a0f1a875ffc0f6187236f1299f587f7d077da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 11/27] fix: collect the Sequential feature maps in its own
 forward pass

With forward hooks a layer used twice appended every feature map twice, calls of a layer from elsewhere appended foreign
ones, and a deep copy kept feeding the original.
---
 nnj/maxpool2d.py  | 20 ++++++++++----------
 nnj/sequential.py |  8 ++------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index a9db9a1..ec22cdc 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -35,8 +35,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
     ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # always recompute, self.idx can come from another input
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -88,8 +88,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # always recompute, self.idx can come from another input
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             matrix_orig_shape = matrix.shape
@@ -158,8 +158,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # always recompute, self.idx can come from another input
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -196,8 +196,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # always recompute, self.idx can come from another input
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -236,8 +236,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        if val is None:
-            val = self.forward(x)
+        # always recompute, self.idx can come from another input
+        val = self.forward(x)
         b, c1, h1, w1 = x.shape
         _, c2, h2, w2 = val.shape
         assert c1 == c2
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 2003ec4..b1e2ab8 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,18 +20,14 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x]
         for module in self._modules.values():
             val = module(x)
+            if self.add_hooks:
+                self.feature_maps.append(val.detach())
             x = val
         return x
 
-- 
2.43.0


From 44ea37fdedcf44777ac091733ff22a04ee6aff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 12/27] fix: Sequential products do not use feature maps of
 another input

With val given, vjp, mjp, jmjTp and jTmjp took the feature maps of the last forward pass, whatever its input was.
---
 nnj/sequential.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index b1e2ab8..63175d1 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -31,6 +31,14 @@ class Sequential(AbstractJacobian, nn.Sequential):
             x = val
         return x
 
+    def _is_cached(self, x: Tensor) -> bool:
+        """Whether the feature maps come from a forward pass of this very input"""
+        if len(self.feature_maps) != len(self._modules_list) + 1:
+            return False
+        last = self.feature_maps[0]
+        same_layout = last.shape == x.shape and last.stride() == x.stride()
+        return last is x or (same_layout and last.data_ptr() == x.data_ptr())
+
     @torch.no_grad()
     def jacobian(
         self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input"
@@ -136,7 +144,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
 
         # forward pass
-        if val is None:
+        if val is None or not self._is_cached(x):
             val = self.forward(x)
         if wrt == "input":
             if matrix is None:
@@ -227,7 +235,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass for computing hook values
-        if val is None:
+        if val is None or not self._is_cached(x):
             val = self.forward(x)
 
         # backward pass
@@ -262,7 +270,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass
-        if val is None:
+        if val is None or not self._is_cached(x):
             val = self.forward(x)
         if matrix is None:
             vs = val.shape
@@ -300,7 +308,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
         # forward pass
-        if val is None:
+        if val is None or not self._is_cached(x):
             val = self.forward(x)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
-- 
2.43.0


From 15169e1dc57d4421c8c2fe3c66149291d4c29f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 13/27] fix: set_weight copies the given vector

The parameters were views of it, so changing the vector afterwards changed the model.
---
 nnj/abstract_jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 302650c..4b9723e 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -253,4 +253,4 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
-        torch.nn.utils.vector_to_parameters(weight, self.parameters())
+        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
-- 
2.43.0


From 5553c35c78fd0ccd37b18861de46a56b7aff73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 14/27] fix: invert_block_diagonal inverts the matrix, not its
 Cholesky product

cholesky_inverse expects the factor of the matrix.
---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..6e0d9c3 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -42,4 +42,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From c8c231e52f42055909d6a6f14e271d6f83fa85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 15/27] fix: accept aggregate_batch="return all", the default
 of the likelihoods

The assertion rejected it, and with None every method returned None.
---
 nnj/log_likelihoods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..64d9b18 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,9 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        if aggregate_batch is None:
+            aggregate_batch = "return all"
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From af0f42fff339204e1b2cfdb68772bf7df0e5bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 16/27] fix: LogBernoulli.ggn on outputs with more than one
 categorical variable

The number of variables was a float, which reshape rejects.
---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 64d9b18..cdf12ff 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -227,7 +227,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         exp_val = torch.exp(val)
         normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-- 
2.43.0


From d0347085e3339555760cf0f16640b761c544c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 17/27] fix: class probabilities of the Bernoulli likelihoods
 do not overflow

exp of a logit above 88 is inf in single precision, which made gradient and ggn nan.
---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index cdf12ff..23ce31e 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -127,7 +127,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -149,7 +149,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -202,9 +202,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -229,9 +227,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() // c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From c02117ce628dd22598106de1e7d31f7aecdc7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 18/27] fix: aggregate block diagonal GGNs block by block

For metric_shape="full" a Sequential returns a list of blocks, on which torch.sum failed.
---
 nnj/log_likelihoods.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 23ce31e..4edb345 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -1,4 +1,4 @@
-from typing import Literal, Optional, Tuple, Union
+from typing import List, Literal, Optional, Tuple, Union
 
 import torch
 from torch import nn, Tensor
@@ -25,6 +25,16 @@ class LogLikelihood(nn.Module):
         self.metric_shape = metric_shape
         self.metric_backprop = metric_backprop
 
+    def _aggregate_metric(self, metric):
+        if isinstance(metric, list):  # block diagonal metric, one block for each layer
+            return [self._aggregate_metric(block) for block in metric]
+        if self.aggregate_batch == "return all":
+            return metric
+        elif self.aggregate_batch == "sum":
+            return torch.sum(metric, dim=0)
+        elif self.aggregate_batch == "average":
+            return torch.mean(metric, dim=0)
+
 
 class LogGaussian(LogLikelihood):
     @torch.no_grad()
@@ -72,7 +82,7 @@ class LogGaussian(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, List]:
         b = x.shape[0]
         val = model(x)
 
@@ -87,12 +97,7 @@ class LogGaussian(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -145,7 +150,7 @@ class LogBinaryBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, List]:
         b = x.shape[0]
         val = model(x)
 
@@ -163,12 +168,7 @@ class LogBinaryBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBernoulli(LogLikelihood):
@@ -221,7 +221,7 @@ class LogBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, List]:
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
@@ -251,9 +251,4 @@ class LogBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
-- 
2.43.0


From d9d55282de73141f45aaea753c8a46dc19ead3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 19/27] fix: convert_to_nnj keeps the configuration of the
 layers

Padding, pooling stride, Softplus beta, ... were dropped (a silently different function), layers without bias crashed and
nested Sequentials came out empty.
---
 nnj/utils.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6e0d9c3..c84e643 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -7,28 +7,51 @@ import nnj
 from nnj.sequential import Sequential
 
 
-def convert_to_nnj(sequential: Sequential) -> Sequential:
+def convert_to_nnj(sequential: nn.Sequential) -> Sequential:
     model = []
     for layer in sequential:
-        if layer.__class__.__name__ == "Linear":
+        if isinstance(layer, nnj.AbstractJacobian):  # already a nnj layer
+            nnj_layer = layer
+        elif isinstance(layer, nn.Sequential):
+            nnj_layer = convert_to_nnj(layer)
+        elif layer.__class__.__name__ == "Linear":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(size=layer.size, scale_factor=layer.scale_factor, mode=layer.mode)
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Flatten" and (layer.start_dim, layer.end_dim) != (1, -1):
+            raise ValueError("I can only convert a Flatten of all but the batch dimension, sorry.")
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From 2f6296a97f11784749e2bbdd135b53d977432911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:35 +0000
Subject: [PATCH 20/27] fix: Sequential products always collect their own
 feature maps

Feature maps kept from an earlier forward pass can stem from other weights
(set_weight, forward, set_weight back) or from an input changed in place.
---
 nnj/sequential.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 63175d1..6b60ca5 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -31,14 +31,6 @@ class Sequential(AbstractJacobian, nn.Sequential):
             x = val
         return x
 
-    def _is_cached(self, x: Tensor) -> bool:
-        """Whether the feature maps come from a forward pass of this very input"""
-        if len(self.feature_maps) != len(self._modules_list) + 1:
-            return False
-        last = self.feature_maps[0]
-        same_layout = last.shape == x.shape and last.stride() == x.stride()
-        return last is x or (same_layout and last.data_ptr() == x.data_ptr())
-
     @torch.no_grad()
     def jacobian(
         self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input"
@@ -143,9 +135,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
 
-        # forward pass
-        if val is None or not self._is_cached(x):
-            val = self.forward(x)
+        # forward pass, always recompute as the feature maps can come from another input or weight
+        val = self.forward(x)
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x).reshape(x.shape[0], -1)
@@ -234,9 +225,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass for computing hook values
-        if val is None or not self._is_cached(x):
-            val = self.forward(x)
+        # forward pass for computing the feature maps, always recompute as they can come from another input or weight
+        val = self.forward(x)
 
         # backward pass
         vs = []
@@ -269,9 +259,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass
-        if val is None or not self._is_cached(x):
-            val = self.forward(x)
+        # forward pass, always recompute as the feature maps can come from another input or weight
+        val = self.forward(x)
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -307,9 +296,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian.T matrix jacobian product
         """
         assert (not diag_backprop) or (diag_backprop and (from_diag or matrix is None) and to_diag)
-        # forward pass
-        if val is None or not self._is_cached(x):
-            val = self.forward(x)
+        # forward pass, always recompute as the feature maps can come from another input or weight
+        val = self.forward(x)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
-- 
2.43.0


From 7ef7e7b4c403e3ea568f69d97df76244554bff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:04 +0000
Subject: [PATCH 21/27] fix: refuse MaxPool2d(return_indices=True) instead of
 dropping the indices

---
 nnj/maxpool2d.py | 2 ++
 nnj/utils.py     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index ec22cdc..b8e6fe5 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -12,6 +12,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         super().__init__(*args, **kwargs)
         self._n_params = 0
         self.idx = None
+        if self.return_indices:
+            raise ValueError("I only return the pooled values, not their indices, sorry.")
 
     def forward(self, input: Tensor):
         val, idx = F.max_pool2d(
diff --git a/nnj/utils.py b/nnj/utils.py
index c84e643..23cbaaa 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -44,6 +44,7 @@ def convert_to_nnj(sequential: nn.Sequential) -> Sequential:
                 stride=layer.stride,
                 padding=layer.padding,
                 dilation=layer.dilation,
+                return_indices=layer.return_indices,
                 ceil_mode=layer.ceil_mode,
             )
         elif layer.__class__.__name__ == "Upsample":
-- 
2.43.0


From c10595f1dc7d730a83fd82f1d29700fdb842612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:56 +0000
Subject: [PATCH 22/27] fix: Sequential keeps no autograd graph of its input,
 so used models can be copied

---
 nnj/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 6b60ca5..328a21d 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -23,7 +23,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
-            self.feature_maps = [x]
+            self.feature_maps = [x.detach()]
         for module in self._modules.values():
             val = module(x)
             if self.add_hooks:
-- 
2.43.0


From 26c402a73d3f62e6da6b95c782022e0b2a044004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 23/27] fix: Sequential and SkipConnection follow layers that
 are added, replaced or deleted later

---
 nnj/sequential.py     | 18 +++++++++++-------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 328a21d..1c6d563 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,18 +9,22 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
-        for layer in self._modules_list:
-            self._n_params += layer._n_params
+        if not all(hasattr(layer, "_n_params") for layer in self._modules_list):
+            raise AttributeError("I can only handle layers that implement AbstractJacobian, sorry.")
 
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
 
+    # layers can be appended, replaced or deleted after construction
+    @property
+    def _modules_list(self) -> List[nn.Module]:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules_list)
+
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x.detach()]
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 4d8bef7..68a7a0a 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0


From 58980b7dc8ebb4f0e55c3dd81b5813503b8a3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 24/27] fix: metric products of an empty Sequential convert
 between full and diagonal

---
 nnj/sequential.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 1c6d563..a42a104 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -6,6 +6,14 @@ from torch import nn, Tensor
 from nnj.abstract_jacobian import AbstractJacobian
 
 
+def _convert(matrix: Tensor, from_diag: bool, to_diag: bool) -> Tensor:
+    if from_diag and not to_diag:
+        return torch.diag_embed(matrix)
+    if to_diag and not from_diag:
+        return torch.diagonal(matrix, dim1=1, dim2=2)
+    return matrix
+
+
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
@@ -157,6 +165,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     to_diag=to_diag if k == len(self._modules_list) - 1 else diag_backprop,
                     diag_backprop=diag_backprop,
                 )
+            if len(self._modules_list) == 0:  # identity, no layer has converted the matrix
+                matrix = _convert(matrix, from_diag, to_diag)
             return matrix
         elif wrt == "weight":
             if matrix is None:
@@ -335,6 +345,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 diag_backprop=diag_backprop,
             )
         if wrt == "input":
+            if len(self._modules_list) == 0:  # identity, no layer has converted the matrix
+                matrix = _convert(matrix, from_diag, to_diag)
             return matrix
         elif wrt == "weight":
             if len(ms) == 0:  # case of a Sequential with no parametric layers inside
-- 
2.43.0


From ac1fcd79a4fe8702822afb9d5594c97a9b77aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 25/27] fix: ReLU never overwrites its input, which the
 products need

---
 nnj/relu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnj/relu.py b/nnj/relu.py
index f455bd7..212f1aa 100644
--- a/nnj/relu.py
+++ b/nnj/relu.py
@@ -10,6 +10,8 @@ class ReLU(AbstractDiagonalJacobian, nn.ReLU):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._n_params = 0
+        # the products need the input after the forward pass
+        self.inplace = False
 
     @torch.no_grad()
     def jacobian(
-- 
2.43.0


From 5557e3febb7fb4c44b38bb325c01d17aba332560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 26/27] fix: Linear.jacobian does not share memory with the
 weight

---
 nnj/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnj/linear.py b/nnj/linear.py
index fc19c8a..25ce841 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -21,7 +21,8 @@ class Linear(nn.Linear, AbstractJacobian):
         """Returns the Jacobian matrix"""
         b, c1 = x.shape
         if wrt == "input":
-            return self.weight.unsqueeze(0).expand(b, *self.weight.shape)
+            # a copy, so that the result does not follow later changes of the weight
+            return self.weight.clone().unsqueeze(0).expand(b, *self.weight.shape)
         elif wrt == "weight":
             if val is None:
                 val = self.forward(x)
-- 
2.43.0


From 5183c5ba74f8df7d36fa6f123458e398320e6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:29 +0000
Subject: [PATCH 27/27] fix: layers added by the user count their own
 parameters

---
 nnj/abstract_jacobian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 4b9723e..7108dd9 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -1,3 +1,4 @@
+from functools import cached_property
 from typing import List, Literal, Union
 
 import torch
@@ -14,6 +15,11 @@ class AbstractJacobian:
     - pull back and push forward metrics
     """
 
+    @cached_property
+    def _n_params(self) -> int:
+        # layers can also set the number of parameters in their constructor
+        return sum(p.numel() for p in self.parameters())
+
     def jacobian(
         self,
         x: Tensor,
-- 
2.43.0

