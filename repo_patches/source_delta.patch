From e431453c7c68fd7e5b58b3bdbb76917bc0012395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:58 +0000
Subject: [PATCH 01/38] fix: transpose the jacobian in the generic jTmjp
 diagonal modes

---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From 6a7a174661a3f45f5ef3a71fc5eadfa58ba8e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:58 +0000
Subject: [PATCH 02/38] fix: accept None (the identity) as matrix in the
 generic jacobian products

---
 nnj/abstract_jacobian.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..0d694df 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -74,7 +74,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
     ) -> Union[Tensor, None]:
         """
@@ -83,6 +83,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            return jacobian
         return torch.einsum("bij,bjk->bik", jacobian, matrix)
 
     @torch.no_grad()
@@ -90,7 +92,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
         from_diag: bool = False,
         to_diag: bool = False,
@@ -121,6 +123,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            matrix = torch.ones_like(jacobian[:, 0, :])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
@@ -171,7 +176,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
     ) -> Union[Tensor, None]:
         """
@@ -180,6 +185,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            return jacobian
         return torch.einsum("bij,bjk->bik", matrix, jacobian)
 
     @torch.no_grad()
@@ -187,7 +194,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
         from_diag: bool = False,
         to_diag: bool = False,
@@ -218,6 +225,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            matrix = torch.ones_like(jacobian[:, :, 0])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
-- 
2.43.0


From aef8472cb621a022f5f057387388ec3909dda8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 03/38] fix: exact L2Norm jacobian (eps only in the
 denominator) in the dtype of the input

---
 nnj/l2norm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..588d440 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,8 +37,10 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            # derivative of the norm itself, which does not include eps
+            unit_x = torch.einsum("b,bi->bi", 1.0 / norm.clamp_min(torch.finfo(x.dtype).tiny), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, unit_x)
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
-- 
2.43.0


From 7eb5ae72d49e96bfcfe78b0dcfcc87fbbe525667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 04/38] fix: Softplus jacobian is 1 above the threshold

---
 nnj/softplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..43c66b2 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -24,6 +24,9 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
             if val is None:
                 val = self.forward(x)
             diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            # the forward pass is linear above the threshold
+            is_linear = (self.beta * x > self.threshold).reshape(val.shape[0], -1)
+            diag_jacobian = diag_jacobian.masked_fill(is_linear, 1.0)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From ca7f080464eae4db79d972f595b6f282a5e02eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 05/38] fix: Conv2d products keep the dtype of the input

---
 nnj/conv2d.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..c808819 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(
+                    b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device
+                )
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +505,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +627,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
-- 
2.43.0


From fc93ab01c1af6dfc58def1f67fd8957d746ad62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 06/38] fix: Conv2d jTmjp with None as matrix

---
 nnj/conv2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index c808819..4b369d6 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -382,7 +382,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
-- 
2.43.0


From da0421cfb0255c3caecf84092a87ea4341b6b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 07/38] fix: Conv2d refuses the jacobian products of non zero
 padding modes

---
 nnj/conv2d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 4b369d6..1e16a10 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -40,6 +40,11 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
 
+    def _check_padding_mode(self) -> None:
+        # the transposed convolutions below are the derivative of a zero padded convolution only
+        if self.padding_mode != "zeros":
+            raise NotImplementedError(f"Jacobian products are not implemented for padding_mode = {self.padding_mode}")
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -164,6 +169,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         vector jacobian product
         """
+        self._check_padding_mode()
         if val is None:
             val = self.forward(x)
         b, c1, h1, w1 = x.shape
@@ -255,6 +261,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         matrix jacobian product
         """
+        self._check_padding_mode()
         if val is None:
             val = self.forward(x)
         if matrix is None:
@@ -379,6 +386,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        self._check_padding_mode()
         if val is None:
             val = self.forward(x)
         if matrix is None:
-- 
2.43.0


From 2c44ce78a2920dcb9a7f61f927b4c2a123192385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 08/38] fix: MaxPool2d products keep the dtype of the input

---
 nnj/maxpool2d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..5b6baa4 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -44,7 +44,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -172,7 +172,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             vector_J[arange_repeated, idx] = vector
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
@@ -211,7 +211,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
             matrix_J[arange_repeated, idx] = matrix
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
@@ -262,7 +262,9 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros(
+                    (b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device
+                )
                 Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
-- 
2.43.0


From 83b1e720533df9a0a7da5af982c8c5f9c9e9de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 09/38] fix: MaxPool2d backward products accumulate over
 overlapping windows

---
 nnj/maxpool2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 5b6baa4..be26219 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -173,7 +173,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -212,7 +212,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -265,7 +265,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 Jt_matrix_J = torch.zeros(
                     (b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device
                 )
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -298,7 +298,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From 0102cbbd09c4de51fb7d70bdcf656410c11f1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 10/38] fix: MaxPool2d jmp for any number of columns

---
 nnj/maxpool2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index be26219..ab70ab6 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -96,10 +96,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self.idx.reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
+            matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
-- 
2.43.0


From 19ed49158a91193d535220c27283400b25b13244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:38 +0000
Subject: [PATCH 11/38] fix: MaxPool2d products use the indexes of the given x,
 not of the last forward

---
 nnj/maxpool2d.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index ab70ab6..57d05af 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -88,8 +88,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # the indexes have to be the ones of this x, even if val is given
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             matrix_orig_shape = matrix.shape
@@ -158,8 +158,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # the indexes have to be the ones of this x, even if val is given
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -195,8 +195,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            # the indexes have to be the ones of this x, even if val is given
+            val = self.forward(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -234,8 +234,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        if val is None:
-            val = self.forward(x)
+        # the indexes have to be the ones of this x, even if val is given
+        val = self.forward(x)
         b, c1, h1, w1 = x.shape
         _, c2, h2, w2 = val.shape
         assert c1 == c2
-- 
2.43.0


From a19697a539584cb0048ac9642ed016b464df44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:52 +0000
Subject: [PATCH 12/38] fix: Upsample products keep the dtype of the input

---
 nnj/upsample.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..30ab5a2 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(
+                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+            )
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +174,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(
+                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+            )
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +223,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(
+                    1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+                )
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +274,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(
+                    1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+                )
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From e8f25297331137257e995719f48abc1fd7a467da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:52 +0000
Subject: [PATCH 13/38] fix: Upsample refuses the jacobian products of modes
 and factors it cannot handle

---
 nnj/upsample.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nnj/upsample.py b/nnj/upsample.py
index 30ab5a2..8c338c4 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -12,6 +12,13 @@ class Upsample(nn.Upsample, AbstractJacobian):
         super().__init__(*args, **kwargs)
         self._n_params = 0
 
+    def _check_supported(self) -> None:
+        # the sum pooling below is the derivative of a nearest upsampling with integer factor only
+        if self.mode not in ("nearest", "nearest-exact") or not isinstance(self.scale_factor, float):
+            raise NotImplementedError("Jacobian products are only implemented for nearest mode and scalar scale_factor")
+        if int(self.scale_factor) != self.scale_factor:
+            raise NotImplementedError(f"Jacobian products are not implemented for scale_factor = {self.scale_factor}")
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -126,6 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
+            self._check_supported()
             if val is None:
                 val = self.forward(x)
             b, c1, h1, w1 = x.shape
@@ -166,6 +174,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
+            self._check_supported()
             if val is None:
                 val = self.forward(x)
             b, c1, h1, w1 = x.shape
@@ -220,6 +229,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         else:
             assert matrix.shape == (b, c2 * h2 * w2, c2 * h2 * w2)
         if wrt == "input":
+            self._check_supported()
             if not from_diag and not to_diag:
                 # full -> full
 
-- 
2.43.0


From 05520df28b7e76f7633c299123fd97a5a4b33e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:10 +0000
Subject: [PATCH 14/38] fix: Flatten and Reshape jmp and mjp with None as
 matrix

---
 nnj/flatten.py | 4 ++--
 nnj/reshape.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/flatten.py b/nnj/flatten.py
index b0be53a..4dd0b0d 100644
--- a/nnj/flatten.py
+++ b/nnj/flatten.py
@@ -68,7 +68,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -140,7 +140,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
diff --git a/nnj/reshape.py b/nnj/reshape.py
index dfabfd8..42a5908 100644
--- a/nnj/reshape.py
+++ b/nnj/reshape.py
@@ -69,7 +69,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -141,7 +141,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
-- 
2.43.0


From 0576a182bea72a18427899de5c5d504e96f36d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:10 +0000
Subject: [PATCH 15/38] fix: Sequential records its own feature maps, for the
 given x, without module hooks

---
 nnj/sequential.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..2f08390 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,19 +20,15 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
-        if self.add_hooks:
-            self.feature_maps = [x]
+        feature_maps = [x.detach()]
         for module in self._modules.values():
             val = module(x)
+            feature_maps.append(val.detach())
             x = val
+        if self.add_hooks:
+            self.feature_maps = feature_maps
         return x
 
     @torch.no_grad()
@@ -137,9 +133,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
-        # forward pass
-        if val is None:
-            val = self.forward(x)
+        # forward pass for computing the feature maps of this x, even if val is given
+        val = self.forward(x)
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x)
@@ -228,9 +223,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass for computing hook values
-        if val is None:
-            val = self.forward(x)
+        # forward pass for computing the feature maps of this x, even if val is given
+        val = self.forward(x)
 
         # backward pass
         vs = []
@@ -263,9 +257,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass
-        if val is None:
-            val = self.forward(x)
+        # forward pass for computing the feature maps of this x, even if val is given
+        val = self.forward(x)
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -301,9 +294,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian.T matrix jacobian product
         """
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
-        # forward pass
-        if val is None:
-            val = self.forward(x)
+        # forward pass for computing the feature maps of this x, even if val is given
+        val = self.forward(x)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
-- 
2.43.0


From 4a8f44d8b7a47c74c6edb0ee06335a44b1611bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:45 +0000
Subject: [PATCH 16/38] fix: Sequential metric products with None as matrix,
 for any input shape and diag_backprop

---
 nnj/sequential.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 2f08390..d375148 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -131,14 +131,15 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
+        if matrix is None:  # identity
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass for computing the feature maps of this x, even if val is given
         val = self.forward(x)
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
-                from_diag = True
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
             # forward pass again
             for k in range(len(self._modules_list)):
                 # propagate through the input
@@ -155,7 +156,6 @@ class Sequential(AbstractJacobian, nn.Sequential):
         elif wrt == "weight":
             if matrix is None:
                 matrix = torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device)
-                from_diag = True
             if not isinstance(matrix, list):
                 new_matrix = []
                 p = 0
@@ -293,12 +293,13 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
+        if matrix is None:  # identity
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass for computing the feature maps of this x, even if val is given
         val = self.forward(x)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
-            from_diag = True
         # backward pass
         ms = []
         for k in range(len(self._modules_list) - 1, -1, -1):
-- 
2.43.0


From 2d7f1e93589fd006075aa93ed6a3cfe96eb9bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:45 +0000
Subject: [PATCH 17/38] fix: SkipConnection metric products with None as matrix

---
 nnj/skipconnection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..f63f0ca 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -97,6 +97,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
+        if matrix is None and wrt == "input":  # identity
+            matrix = torch.ones_like(x).reshape(x.shape[0], -1)
+            from_diag = True
+        elif matrix is None:  # identity, handled by the Sequential
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
@@ -189,12 +194,13 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        if matrix is None:  # identity
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
-            from_diag = True
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
             x,
-- 
2.43.0


From 7da977982b3d261650d7e7ae1abac219d9349a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:45 +0000
Subject: [PATCH 18/38] fix: SkipConnection without parameters has no
 derivative with respect to the weight

---
 nnj/sequential.py     |  8 ++++----
 nnj/skipconnection.py | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index d375148..a9561c4 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -32,7 +32,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         return x
 
     @torch.no_grad()
-    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
+    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         return self.mjp(x, val, None, wrt=wrt)
 
@@ -47,7 +47,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
@@ -84,7 +84,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -126,7 +126,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index f63f0ca..05bd6b6 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -23,9 +23,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         x: Tensor,
         val: Union[Tensor, None] = None,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         jac = self._F.jacobian(x, val, wrt=wrt)
+        if jac is None:  # non parametric
+            return None
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
@@ -48,13 +50,15 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
         b = x.shape[0]
         l = x[0].numel()
         jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
+        if jvp is None:  # non parametric
+            return None
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -68,7 +72,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -77,6 +81,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         b = x.shape[0]
         l = x[0].numel()
         jmp = self._F.jmp(x, None if val is None else val[:, l:], matrix, wrt=wrt)
+        if jmp is None:  # non parametric
+            return None
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -93,7 +99,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
@@ -116,6 +122,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             to_diag=to_diag,
             diag_backprop=diag_backprop,
         )
+        if jmjTp is None:  # non parametric
+            return None
         if wrt == "input":
             if to_diag:
                 if from_diag:
-- 
2.43.0


From c21a0a51ffa3482c77ac0bdd54dd57e466b1f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 19/38] fix: set_weight does not alias the given vector

---
 nnj/abstract_jacobian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 0d694df..1ebaf2c 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -253,4 +253,5 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
-        torch.nn.utils.vector_to_parameters(weight, self.parameters())
+        # the parameters become views of the vector, so do not share memory with the given one
+        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
-- 
2.43.0


From 10e3105a1dd65f7a9d644d8e5d97ed2937d3eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 20/38] fix: invert_block_diagonal inverts the matrix, not the
 matrix seen as a cholesky factor

---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..6e0d9c3 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -42,4 +42,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From cc601524e13b3c3bf351d7568c6a64e939d5aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 21/38] fix: LogLikelihood accepts its default aggregate_batch

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..d97f603 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,7 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From 44de2a428e69846414951290f09ce9d414c9b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 22/38] fix: Bernoulli gradients and ggn stay finite for large
 logits

---
 nnj/log_likelihoods.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index d97f603..028256f 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -125,7 +125,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -147,8 +147,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
-        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
+        log_bernoulli_hessian = -torch.sigmoid(val) * torch.sigmoid(-val)
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
         JtHJ = model.jTmjp(
@@ -200,9 +199,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -227,9 +224,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() / c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From 5a9c5dc109465face14b9cb62d961e980551ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 23/38] fix: aggregate the full ggn of a Sequential, which is a
 list of blocks

---
 nnj/log_likelihoods.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 028256f..19b6c2f 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -1,4 +1,4 @@
-from typing import Literal, Optional, Tuple, Union
+from typing import List, Literal, Optional, Tuple, Union
 
 import torch
 from torch import nn, Tensor
@@ -23,6 +23,16 @@ class LogLikelihood(nn.Module):
         self.metric_shape = metric_shape
         self.metric_backprop = metric_backprop
 
+    def _aggregate_metric(self, metric: Union[Tensor, List]) -> Union[Tensor, List]:
+        if isinstance(metric, list):  # block diagonal, one (batch of) block for each layer
+            return [self._aggregate_metric(block) for block in metric]
+        if self.aggregate_batch == "return all":
+            return metric
+        elif self.aggregate_batch == "sum":
+            return torch.sum(metric, dim=0)
+        elif self.aggregate_batch == "average":
+            return torch.mean(metric, dim=0)
+
 
 class LogGaussian(LogLikelihood):
     @torch.no_grad()
@@ -70,7 +80,7 @@ class LogGaussian(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[Tensor, List]:
         b = x.shape[0]
         val = model(x)
 
@@ -85,12 +95,7 @@ class LogGaussian(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -143,7 +148,7 @@ class LogBinaryBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[Tensor, List]:
         b = x.shape[0]
         val = model(x)
 
@@ -160,12 +165,7 @@ class LogBinaryBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBernoulli(LogLikelihood):
@@ -218,7 +218,7 @@ class LogBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[Tensor, List]:
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
@@ -248,9 +248,4 @@ class LogBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
-- 
2.43.0


From a141b5f185b526c9a20a341cc14f58be2437e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 24/38] fix: LogBernoulli ggn for outputs with more than one
 categorical variable

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 19b6c2f..7aa75c8 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -222,7 +222,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
-- 
2.43.0


From 4f8dbce84e917442b1a287b8f5339cb22ea1e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 25/38] fix: LogBernoulli approximated ggn propagates the
 diagonal of the hessian

---
 nnj/log_likelihoods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 7aa75c8..cbe51e8 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -238,12 +238,14 @@ class LogBernoulli(LogLikelihood):
                 .movedim((-2, -1), (1, 3))
                 .reshape(b, l * c, l * c)
             )
+        if self.metric_backprop == "approx":  # the approximated backpropagation starts from a diagonal
+            log_bernoulli_hessian = torch.diagonal(log_bernoulli_hessian, dim1=1, dim2=2)
         JtHJ = model.jTmjp(
             x,
             val,
             log_bernoulli_hessian,
             wrt=wrt,
-            from_diag=False,
+            from_diag=self.metric_backprop == "approx",
             to_diag=self.metric_shape == "diag",
             diag_backprop=self.metric_backprop == "approx",
         )
-- 
2.43.0


From 1b1e5ca9b3d5662bfaacc9bd86daa4e4e9bcb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 26/38] fix: convert_to_nnj honours the options of the layers,
 nested Sequentials and missing biases

---
 nnj/utils.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6e0d9c3..c727832 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -10,25 +10,54 @@ from nnj.sequential import Sequential
 def convert_to_nnj(sequential: Sequential) -> Sequential:
     model = []
     for layer in sequential:
-        if layer.__class__.__name__ == "Linear":
+        if isinstance(layer, nn.Sequential):
+            nnj_layer = convert_to_nnj(layer)
+        elif layer.__class__.__name__ == "Linear":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+                recompute_scale_factor=layer.recompute_scale_factor,
+            )
+        elif layer.__class__.__name__ == "Flatten":
+            if (getattr(layer, "start_dim", 1), getattr(layer, "end_dim", -1)) != (1, -1):
+                raise ValueError("I can't convert a Flatten layer that does not flatten all but the batch dimension")
+            nnj_layer = nnj.Flatten()
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From 3f196009b2bb7d018745f0091e6d2172ed0463bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:13 +0000
Subject: [PATCH 27/38] fix: Linear jacobian does not share memory with the
 weight

---
 nnj/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/linear.py b/nnj/linear.py
index fc19c8a..2c16e02 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -21,7 +21,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """Returns the Jacobian matrix"""
         b, c1 = x.shape
         if wrt == "input":
-            return self.weight.unsqueeze(0).expand(b, *self.weight.shape)
+            return self.weight.unsqueeze(0).repeat(b, 1, 1)
         elif wrt == "weight":
             if val is None:
                 val = self.forward(x)
-- 
2.43.0


From 2a480a00a9fd182d9e999c3408bea1a4c2c7c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 28/38] fix: metric products of an empty Sequential honour
 from_diag and to_diag

---
 nnj/sequential.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index a9561c4..55e8dc3 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -152,6 +152,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     to_diag=to_diag if k == len(self._modules_list) - 1 else diag_backprop,
                     diag_backprop=diag_backprop,
                 )
+            if len(self._modules_list) == 0 and from_diag != to_diag:  # identity function
+                return torch.diagonal(matrix, dim1=1, dim2=2) if to_diag else torch.diag_embed(matrix)
             return matrix
         elif wrt == "weight":
             if matrix is None:
@@ -330,6 +332,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 diag_backprop=diag_backprop,
             )
         if wrt == "input":
+            if len(self._modules_list) == 0 and from_diag != to_diag:  # identity function
+                return torch.diagonal(matrix, dim1=1, dim2=2) if to_diag else torch.diag_embed(matrix)
             return matrix
         elif wrt == "weight":
             if len(ms) == 0:  # case of a Sequential with no parametric layers inside
-- 
2.43.0


From 5ac017ce9dbe83d5d5e718527e521f8e19db8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 29/38] fix: Sequential and SkipConnection follow edits of
 their modules

The list of modules and the number of parameters were recorded at construction, so after replacing,
appending or deleting a module the forward pass used the new modules and the products the old ones.
---
 nnj/sequential.py     | 17 +++++++++++------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 55e8dc3..c7b3970 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,18 +9,23 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
         for layer in self._modules_list:
-            self._n_params += layer._n_params
+            if not hasattr(layer, "_n_params"):
+                raise AttributeError(f"{layer.__class__.__name__} is not a nnj module")
 
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
 
+    # computed on access, because the modules can be edited after construction
+    @property
+    def _modules_list(self) -> List:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules.values())
+
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         feature_maps = [x.detach()]
         for module in self._modules.values():
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 05bd6b6..457436f 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0


From 7d02cec399716f8b55de8ef9740901265abb32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:41 +0000
Subject: [PATCH 30/38] fix: products of Sequential and MaxPool2d do not go
 through attributes of the module

The feature maps and the indexes of the current call were read back from attributes that any other call on
the same module (from another thread, or from inside a layer) overwrites.
---
 nnj/maxpool2d.py  | 26 ++++++++++++----------
 nnj/sequential.py | 56 ++++++++++++++++++++++++++---------------------
 2 files changed, 45 insertions(+), 37 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 57d05af..0998eb5 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -14,7 +14,11 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         self.idx = None
 
     def forward(self, input: Tensor):
-        val, idx = F.max_pool2d(
+        val, self.idx = self._forward_with_idx(input)
+        return val
+
+    def _forward_with_idx(self, input: Tensor):
+        return F.max_pool2d(
             input,
             self.kernel_size,
             self.stride,
@@ -23,8 +27,6 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             self.ceil_mode,
             return_indices=True,
         )
-        self.idx = idx
-        return val
 
     @torch.no_grad()
     def jacobian(
@@ -89,7 +91,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
             # the indexes have to be the ones of this x, even if val is given
-            val = self.forward(x)
+            val, idx = self._forward_with_idx(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             matrix_orig_shape = matrix.shape
@@ -98,7 +100,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
             matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
-            idx = self.idx.reshape(-1)
+            idx = idx.reshape(-1)
             matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
@@ -159,7 +161,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         """
         if wrt == "input":
             # the indexes have to be the ones of this x, even if val is given
-            val = self.forward(x)
+            val, idx = self._forward_with_idx(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -170,7 +172,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
             # indexes for col
-            idx = self.idx.reshape(b * c2, h2 * w2)
+            idx = idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
@@ -196,7 +198,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
             # the indexes have to be the ones of this x, even if val is given
-            val = self.forward(x)
+            val, idx = self._forward_with_idx(x)
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -208,7 +210,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
             # indexes for col
-            idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
+            idx = idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
@@ -235,7 +237,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         jacobian.T matrix jacobian product
         """
         # the indexes have to be the ones of this x, even if val is given
-        val = self.forward(x)
+        val, idx = self._forward_with_idx(x)
         b, c1, h1, w1 = x.shape
         _, c2, h2, w2 = val.shape
         assert c1 == c2
@@ -256,7 +258,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1), h2 * w2 * h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 # indexes for height and width
-                idx = self.idx.reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
+                idx = idx.reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
                 idx_col = idx.unsqueeze(1).expand(-1, c1, -1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 idx_row = (
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
@@ -294,7 +296,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
                 # indexes for height and width
-                idx = self.idx.reshape(b * c2, h2 * w2)
+                idx = idx.reshape(b * c2, h2 * w2)
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
diff --git a/nnj/sequential.py b/nnj/sequential.py
index c7b3970..55082b3 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -27,14 +27,16 @@ class Sequential(AbstractJacobian, nn.Sequential):
         return sum(layer._n_params for layer in self._modules.values())
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
-        feature_maps = [x.detach()]
-        for module in self._modules.values():
-            val = module(x)
-            feature_maps.append(val.detach())
-            x = val
+        feature_maps = self._compute_feature_maps(x)
         if self.add_hooks:
-            self.feature_maps = feature_maps
-        return x
+            self.feature_maps = [feature_map.detach() for feature_map in feature_maps]
+        return feature_maps[-1]
+
+    def _compute_feature_maps(self, x: Tensor) -> List[Tensor]:
+        feature_maps = [x]
+        for module in self._modules.values():
+            feature_maps.append(module(feature_maps[-1]))
+        return feature_maps
 
     @torch.no_grad()
     def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Union[Tensor, None]:
@@ -141,7 +143,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass for computing the feature maps of this x, even if val is given
-        val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x).reshape(x.shape[0], -1)
@@ -149,8 +152,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             for k in range(len(self._modules_list)):
                 # propagate through the input
                 matrix = self._modules_list[k].jmjTp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix,
                     wrt="input",
                     from_diag=from_diag if k == 0 else diag_backprop,
@@ -184,8 +187,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 # propagate through the input
                 if jmjTp is not None:
                     jmjTp = self._modules_list[k].jmjTp(
-                        self.feature_maps[k],
-                        self.feature_maps[k + 1],
+                        feature_maps[k],
+                        feature_maps[k + 1],
                         jmjTp,
                         wrt="input",
                         from_diag=diag_backprop,
@@ -196,8 +199,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 if self._modules_list[k]._n_params == 0:
                     continue
                 jmjTp_from_layer = self._modules_list[k].jmjTp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix[k_with_params],
                     wrt="weight",
                     from_diag=from_diag,
@@ -231,20 +234,21 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass for computing the feature maps of this x, even if val is given
-        val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
 
         # backward pass
         vs = []
         for k in range(len(self._modules_list) - 1, -1, -1):
             # backpropagate through the weight
             if wrt == "weight":
-                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
+                v_k = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="weight")
                 if v_k is not None:
                     vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                 if k == 0:
                     break
             # backpropagate through the input
-            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
+            vector = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="input")
         if wrt == "weight":
             return torch.cat(vs, dim=1) if len(vs) > 0 else None
         elif wrt == "input":
@@ -265,7 +269,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass for computing the feature maps of this x, even if val is given
-        val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -274,13 +279,13 @@ class Sequential(AbstractJacobian, nn.Sequential):
         for k in range(len(self._modules_list) - 1, -1, -1):
             # backpropagate through the weight
             if wrt == "weight":
-                m_k = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="weight")
+                m_k = self._modules_list[k].mjp(feature_maps[k], feature_maps[k + 1], matrix, wrt="weight")
                 if m_k is not None:
                     ms = m_k + ms if isinstance(m_k, list) else [m_k] + ms
                 if k == 0:
                     break
             # backpropagate through the input
-            matrix = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="input")
+            matrix = self._modules_list[k].mjp(feature_maps[k], feature_maps[k + 1], matrix, wrt="input")
         if wrt == "weight":
             return torch.cat(ms, dim=2) if len(ms) > 0 else None
         elif wrt == "input":
@@ -304,7 +309,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass for computing the feature maps of this x, even if val is given
-        val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
         # backward pass
@@ -313,8 +319,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             # backpropagate through the weight
             if wrt == "weight":
                 m_k = self._modules_list[k].jTmjp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix,
                     wrt="weight",
                     from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
@@ -328,8 +334,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     break
             # backpropagate through the input
             matrix = self._modules_list[k].jTmjp(
-                self.feature_maps[k],
-                self.feature_maps[k + 1],
+                feature_maps[k],
+                feature_maps[k + 1],
                 matrix,
                 wrt="input",
                 from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
-- 
2.43.0


From 5bbdf04ea2d0db6ac5d8c77b99e4fbec15b34dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:46 +0000
Subject: [PATCH 31/38] fix: MaxPool2d creates its index tensors on the device
 of the input

---
 nnj/maxpool2d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 0998eb5..33277e7 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -99,7 +99,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
             matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
-            arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
+            arange_repeated = torch.repeat_interleave(torch.arange(b * c1, device=x.device), h2 * w2).long()
             idx = idx.reshape(-1)
             matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
@@ -169,7 +169,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
             vector = vector.reshape(b * c2, h2 * w2)
             # indexes for batch and channel
-            arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
+            arange_repeated = torch.repeat_interleave(torch.arange(b * c2, device=x.device), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
             # indexes for col
             idx = idx.reshape(b * c2, h2 * w2)
@@ -207,7 +207,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             matrix = matrix.reshape(b * n_rows * c2, h2 * w2)
 
             # indexes for batch, channel and row
-            arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
+            arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2, device=x.device), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
             # indexes for col
             idx = idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
@@ -255,7 +255,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     matrix.reshape(b, c1, h2 * w2, c1, h2 * w2).movedim(-2, -3).reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 )
                 # indexes for batch and channel
-                arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1), h2 * w2 * h2 * w2).long()
+                arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1, device=x.device), h2 * w2 * h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 # indexes for height and width
                 idx = idx.reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
@@ -293,7 +293,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 # diag -> diag
 
                 # indexes for batch and channel
-                arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
+                arange_repeated = torch.repeat_interleave(torch.arange(b * c1, device=x.device), h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
                 # indexes for height and width
                 idx = idx.reshape(b * c2, h2 * w2)
-- 
2.43.0


From 8ddeb4523f9d1fd50924318f58fd833560584f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:58 +0000
Subject: [PATCH 32/38] fix: metric passes of Sequential refuse an unknown wrt,
 as the other passes do

---
 README.md                 | 2 +-
 docs/source/index.rst     | 2 +-
 docs/source/nnj/index.rst | 2 +-
 nnj/sequential.py         | 5 +++++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index bb4365e..2dfe2ec 100644
--- a/README.md
+++ b/README.md
@@ -45,7 +45,7 @@ jacobianTranspose_jacobian = model.jTmjp(
     x, 
     val,
     None,               # None means identity (i.e. Euclidean metric)
-    wrt="weights",      # computes the jacobian wrt weights or inputs
+    wrt="weight",       # computes the jacobian wrt weights or inputs
     to_diag=True,       # computes the diagonal elements only
     diag_backprop=True, # approximates the diagonal elements, which speeds up the computations
 )
diff --git a/docs/source/index.rst b/docs/source/index.rst
index 78fe694..f4e46f6 100644
--- a/docs/source/index.rst
+++ b/docs/source/index.rst
@@ -96,7 +96,7 @@ Compute the Generalized-Gauss Newton (which is an approximation of the hessian)
       x,                  # input
       val,                # output
       None,               # None means identity (i.e. Euclidean metric)
-      wrt="weights",      # computes the jacobian wrt weights or inputs
+      wrt="weight",       # computes the jacobian wrt weights or inputs
       to_diag=True,       # computes the diagonal elements only
       diag_backprop=True, # approximates the diagonal elements, which speeds up the computations
    )
diff --git a/docs/source/nnj/index.rst b/docs/source/nnj/index.rst
index 81f736c..d65946a 100644
--- a/docs/source/nnj/index.rst
+++ b/docs/source/nnj/index.rst
@@ -131,7 +131,7 @@ And computing jacobian products is as simple as
         x, 
         val,
         None,               # None means identity (i.e. Euclidean metric)
-        wrt="weights",      # computes the jacobian wrt weights or inputs
+        wrt="weight",       # computes the jacobian wrt weights or inputs
         to_diag=True,       # computes the diagonal elements only
         diag_backprop=True, # approximates the diagonal elements, which speeds up the computations
     )
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 55082b3..fb33a6d 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -138,6 +138,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
+        assert wrt in ["input", "weight"]
+
         if matrix is None:  # identity
             from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
@@ -305,6 +307,9 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
+
+        assert wrt in ["input", "weight"]
+
         if matrix is None:  # identity
             from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
-- 
2.43.0


From 342a0e4927d02dc293d9673770470f420f6f7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:07 +0000
Subject: [PATCH 33/38] fix: conversion replaced the package's own and
 same-named user layers by something else

---
 nnj/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnj/utils.py b/nnj/utils.py
index c727832..d1179bb 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -1,3 +1,4 @@
+import copy
 from typing import List
 
 import torch
@@ -7,9 +8,17 @@ import nnj
 from nnj.sequential import Sequential
 
 
+def _check_forward(layer: nn.Module) -> None:
+    # layers are recognized by the name of their class, which does not tell what an own forward of the user computes
+    if layer.__class__.forward.__module__.split(".")[0] not in ("torch", "nnj"):
+        raise ValueError(f"I can't convert {layer.__class__.__name__}, because it has its own forward")
+
+
 def convert_to_nnj(sequential: Sequential) -> Sequential:
+    _check_forward(sequential)
     model = []
     for layer in sequential:
+        _check_forward(layer)
         if isinstance(layer, nn.Sequential):
             nnj_layer = convert_to_nnj(layer)
         elif layer.__class__.__name__ == "Linear":
@@ -58,6 +67,8 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             if (getattr(layer, "start_dim", 1), getattr(layer, "end_dim", -1)) != (1, -1):
                 raise ValueError("I can't convert a Flatten layer that does not flatten all but the batch dimension")
             nnj_layer = nnj.Flatten()
+        elif isinstance(layer, (nnj.L2Norm, nnj.Reshape, nnj.SkipConnection)):
+            nnj_layer = copy.deepcopy(layer)
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From 75872cfa890814bc36d4dfbb624a16325406cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 34/38] fix: Sequential sums the contributions of its layers
 without writing into the given direction

---
 nnj/sequential.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index fb33a6d..c86ccad 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -78,7 +78,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     if jvp is None:
                         jvp = jvp_from_layer
                     else:
-                        jvp += jvp_from_layer
+                        jvp = jvp + jvp_from_layer
                 p += module._n_params
                 x = val
             assert p == self._n_params
@@ -117,7 +117,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     if jmp is None:
                         jmp = jmp_from_layer
                     else:
-                        jmp += jmp_from_layer
+                        jmp = jmp + jmp_from_layer
                 p += module._n_params
                 x = val
             assert p == self._n_params
@@ -214,7 +214,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     if jmjTp is None:
                         jmjTp = jmjTp_from_layer
                     else:
-                        jmjTp += jmjTp_from_layer
+                        jmjTp = jmjTp + jmjTp_from_layer
             return jmjTp
 
     #######################
-- 
2.43.0


From 6f8a3a38b0fe80971a0448706dcb77e486c0e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 35/38] fix: Linear refuses products for inputs with several
 rows of features per sample

---
 nnj/linear.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnj/linear.py b/nnj/linear.py
index 2c16e02..f5980c7 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -11,6 +11,11 @@ class Linear(nn.Linear, AbstractJacobian):
         super().__init__(*args, **kwargs)
         self._n_params = sum([torch.numel(w) for w in list(self.parameters())])
 
+    def _check_input(self, x: Tensor) -> None:
+        # the weight is the derivative of one row of features only
+        if x.shape[1:].numel() != self.in_features:
+            raise NotImplementedError(f"Jacobian products are not implemented for inputs of shape {tuple(x.shape)}")
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -48,6 +53,7 @@ class Linear(nn.Linear, AbstractJacobian):
         jacobian vector product
         """
         if wrt == "input":
+            self._check_input(x)
             return torch.einsum("kj,bj->bk", self.weight, vector)
         elif wrt == "weight":
             b, c1 = x.shape
@@ -74,6 +80,7 @@ class Linear(nn.Linear, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
+            self._check_input(x)
             return torch.einsum("kj,bji->bki", self.weight, matrix)
         elif wrt == "weight":
             b, c1 = x.shape
@@ -106,6 +113,7 @@ class Linear(nn.Linear, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if wrt == "input":
+            self._check_input(x)
             if matrix is None:
                 matrix = torch.ones_like(x)
                 from_diag = True
@@ -179,6 +187,7 @@ class Linear(nn.Linear, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
+            self._check_input(x)
             return torch.einsum("bj,jk->bk", vector, self.weight)
         elif wrt == "weight":
             b, l = x.shape
@@ -201,6 +210,7 @@ class Linear(nn.Linear, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
+            self._check_input(x)
             return torch.einsum("bij,jk->bik", matrix, self.weight)
         elif wrt == "weight":
             b, c1 = x.shape
@@ -231,6 +241,7 @@ class Linear(nn.Linear, AbstractJacobian):
             matrix = torch.ones_like(val)
             from_diag = True
         if wrt == "input":
+            self._check_input(x)
             if not from_diag and not to_diag:
                 # full -> full
                 return torch.einsum("nm,bnj,jk->bmk", self.weight, matrix, self.weight)
-- 
2.43.0


From 2814df04b5d55850e401db3e8819c0d88f344645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 36/38] fix: ReLU never works in place, because its derivative
 and the feature maps need the input as well

---
 nnj/relu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nnj/relu.py b/nnj/relu.py
index f455bd7..595d29a 100644
--- a/nnj/relu.py
+++ b/nnj/relu.py
@@ -9,6 +9,7 @@ from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian
 class ReLU(AbstractDiagonalJacobian, nn.ReLU):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        self.inplace = False  # the products need the input as well
         self._n_params = 0
 
     @torch.no_grad()
-- 
2.43.0


From 28904be553e7076d2c8a87db5a89b586924e9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 37/38] fix: Linear mjp wrt weight accepts a matrix without
 rows

---
 nnj/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/linear.py b/nnj/linear.py
index f5980c7..50e2ea0 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -217,9 +217,9 @@ class Linear(nn.Linear, AbstractJacobian):
             r = matrix.shape[1]
             assert x.shape[0] == matrix.shape[0]
             if self.bias is None:
-                return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)
+                return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, matrix.shape[2] * c1)
             else:
-                return torch.cat([torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1), matrix], dim=2)
+                return torch.cat([torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, matrix.shape[2] * c1), matrix], dim=2)
 
     @torch.no_grad()
     def jTmjp(
-- 
2.43.0


From 6a5cf421acaa5a3c4e82c964bf4066d3d58ae6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 38/38] fix: get_weight works for parameters that are not
 contiguous in memory

---
 nnj/abstract_jacobian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 1ebaf2c..8239e6b 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -246,7 +246,8 @@ class AbstractJacobian:
         """
         Returns the weight of the module.
         """
-        return torch.nn.utils.parameters_to_vector(self.parameters())
+        # reshape, because the parameters are not contiguous in every memory format
+        return torch.cat([parameter.reshape(-1) for parameter in self.parameters()])
 
     @torch.no_grad()
     def set_weight(self, weight: Tensor) -> None:
-- 
2.43.0

