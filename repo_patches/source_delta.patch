From 15ad8cd4f8bb0947214f26e09d1dc58027eea338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 01/28] fix: register the gradient of negation on the CPU
 device

---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 6b7067f90c8b95f0f100d67e066ab0fe0bacad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 02/28] fix: dispatch batch_slice_bw to the batch kernel

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..c6bf26f 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,7 +460,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
-- 
2.43.0


From 3c29c7ee9292d477e3034a66a8b08006db6ac7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 03/28] fix: dispatch batch_pick_bw to the batch kernel

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index c6bf26f..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -467,7 +467,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From 73a59b6a4566aa77d34a350c79279b5f812bd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 04/28] fix: BatchSplit propagates the gradient of each of its
 outputs

---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From abe231115b76dd8f1c6b4261456fe8b65291096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 05/28] fix: the ELU operator computes ELU

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 73510012a3d96650381647795992d1f14a57db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 06/28] fix: gradients of sum and logsumexp along an axis
 beyond the depth

---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From 41d440e300e3bbd7cff00c0543989a92c9336e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 07/28] fix: scalar operators infer their shape with the scalar
 rule

---
 prima_undine/src/operators/add.rs    | 1 +
 prima_undine/src/operators/common.rs | 5 ++++-
 prima_undine/src/operators/div.rs    | 2 ++
 prima_undine/src/operators/mul.rs    | 1 +
 prima_undine/src/operators/powf.rs   | 2 ++
 prima_undine/src/operators/sub.rs    | 2 ++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..0237c2a 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -17,6 +17,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..822056c 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -25,6 +25,9 @@ macro_rules! define_operator_struct {
 
 macro_rules! define_operator_ab {
     ($name:ident, $fw:ident, $bwfunc:expr) => {
+        define_operator_ab!($name, $fw, elementwise, $bwfunc);
+    };
+    ($name:ident, $fw:ident, $sop:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +37,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$sop(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..34d2493 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -18,6 +18,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..eaac986 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -17,6 +17,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..0a0d12d 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -18,6 +18,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..9299c86 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -18,6 +18,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +28,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From ba1458a4255b2495617fac6cf2388917bb437005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 08/28] fix: Tensor::pow accepts scalar operands like the other
 operations

---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 85138af5ccb05f28ca3d2a3c92a6e10549839715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 09/28] fix: gradient of a power with a scalar operand at base
 zero

---
 prima_undine/src/operators/powf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 0a0d12d..1889c63 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -22,7 +22,7 @@ define_operator_ab!(
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
-        *gx[1].borrow_mut() += (a * x[0] / x[1]).flatten().sum(0);
+        *gx[1].borrow_mut() += (gy[0] * x[0] * x[1].pow(x[0] - 1.)).flatten().sum(0);
     }
 );
 
@@ -32,7 +32,7 @@ define_operator_ab!(
     scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1] / x[0];
+        *gx[0].borrow_mut() += gy[0] * x[1] * x[0].pow(x[1] - 1.);
         *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
     }
 );
-- 
2.43.0


From 430603578bde5532647fd87ee0922a6cccd592f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 10/28] fix: in-place addition and subtraction reject
 mismatching shapes

---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From 5d3ef76ad7ea32e7ae10b88b7ef651f40cf5b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 11/28] fix: reshaping a node checks the number of elements at
 construction

---
 prima_undine/src/operators/reshape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/reshape.rs b/prima_undine/src/operators/reshape.rs
index c67c8b0..0d9662a 100644
--- a/prima_undine/src/operators/reshape.rs
+++ b/prima_undine/src/operators/reshape.rs
@@ -12,7 +12,8 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Reshape<'dev> {
         self.device
     }
 
-    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
+    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(self.shape.size() == x[0].size());
         vec![self.shape]
     }
 
-- 
2.43.0


From d563d7ff47c70630bf94098ae25b4ac36b7373a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 12/28] fix: triangular_l/u with an offset near the integer
 limit

---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c7cb7fd 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j && i - j >= k { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..b1e2533 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i && j - i >= k { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From eda6175b8231b51440f890242e4b341fe1a4ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 13/28] fix: back-propagation starts from clean gradients and
 seeds only its target

---
 prima_undine/src/graph.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..da0de51 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,17 +128,11 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
-        for ret in &op_info.rets {
-            let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
-        }
-    }
+    let target = Rc::clone(&op_info);
     queue.push_back(op_info);
     while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
@@ -148,8 +142,17 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
                 reached.insert(ptr);
             }
         }
+        // Unused outputs need a gradient too, and a former call may have left one.
+        for ret in &op_info.rets {
+            let mut grad = ret.gradient.borrow_mut();
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
+        }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    target.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -169,14 +172,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -218,7 +214,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From 4e69c750ff5f3c5ba16d06869f7fd219325c1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 14/28] fix: an operator whose evaluation failed can be
 evaluated again

---
 prima_undine/src/graph.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index da0de51..195ea2c 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -108,7 +108,6 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         if op_info.forwarded.get() {
             continue;
         }
-        op_info.forwarded.set(true);
         let xs = op_info
             .args
             .iter()
@@ -117,7 +116,14 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let mut ys = op_info
             .rets
             .iter()
-            .map(|ret| ret.value.borrow_mut())
+            .map(|ret| {
+                let mut y = ret.value.borrow_mut();
+                if y.valid() {
+                    // Left by an evaluation that failed halfway.
+                    *y = op_info.operator.device().new_tensor(y.shape);
+                }
+                y
+            })
             .collect::<Vec<RefMut<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let mut ys_ref = ys
@@ -125,6 +131,7 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
             .map(|y| &mut **y)
             .collect::<Vec<&mut Tensor<'arg>>>();
         op_info.operator.forward(&xs_ref, &mut ys_ref);
+        op_info.forwarded.set(true);
     }
 }
 
-- 
2.43.0


From 7ff2ad1cb727a17dfdcfab69e585841d96d3f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 15/28] fix: deep graphs are dropped without recursion

---
 prima_undine/src/graph.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 195ea2c..176ed4b 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -2,6 +2,7 @@ use std::cell::{Cell, Ref, RefCell, RefMut};
 use std::cmp;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, HashSet, VecDeque};
+use std::mem;
 use std::rc::Rc;
 
 use crate::operators as op;
@@ -28,6 +29,18 @@ struct OperatorInfo<'arg, 'dev> {
     depth: usize,
 }
 
+impl<'arg, 'dev> Drop for OperatorInfo<'arg, 'dev> {
+    // Dropping `args` recursively would overflow the stack on deep graphs.
+    fn drop(&mut self) {
+        let mut args = mem::take(&mut self.args);
+        while let Some(arg) = args.pop() {
+            if let Ok(mut op_info) = Rc::try_unwrap(arg.op) {
+                args.append(&mut op_info.args);
+            }
+        }
+    }
+}
+
 struct OperatorInfoCmp<'arg, 'dev>(Rc<OperatorInfo<'arg, 'dev>>);
 
 impl<'arg, 'dev> PartialEq for OperatorInfoCmp<'arg, 'dev> {
-- 
2.43.0


From 7d431a385105f63072eeb3a746f3c6b8c3d0d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 16/28] fix: a tensor never adopts storage it does not own, nor
 forgets storage it owns

---
 prima_undine/src/tensor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..75e4e6d 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -51,6 +51,7 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert!(self.host_values.is_none());
         self.handle = self.device.unwrap().new_handle(self.shape.size());
+        self.reference = None;
     }
 
     pub fn valid(&self) -> bool {
@@ -72,8 +73,10 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        assert!(other.reference.is_none());
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
+        self.reference = None;
         other.handle.store(ptr::null_mut(), Ordering::Release);
     }
 
-- 
2.43.0


From 01ed237b54e20f573798b8d7326b75e899c7b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 17/28] fix: moving a tensor to a device is rejected before any
 effect

---
 prima_undine/src/tensor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 75e4e6d..f8f6894 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -40,9 +40,9 @@ impl<'dev> Tensor<'dev> {
     }
 
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
-        assert!(self.host_values.is_some());
+        assert!(self.host_values.as_ref().unwrap().len() == self.shape.size() as usize);
+        self.handle = device.new_handle(self.shape.size());
         self.device = Some(device);
-        self.handle = self.device.unwrap().new_handle(self.shape.size());
         let values = self.host_values.take().unwrap();
         device.reset_tensor_by_slice(self, &values);
     }
-- 
2.43.0


From 80b3ae3dd92d184c2c4bb7e286b170b56c1604d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 18/28] fix: a failing allocation or release does not poison
 the memory pool

---
 prima_undine/src/memory_pool.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index ca7ba27..c48fe5b 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -54,11 +54,9 @@ impl<'dev> MemoryPool<'dev> {
         let shift = calculate_shifts(size) as usize;
         assert!(shift <= MAX_BITS - 1);
         let mem_size = 1 << shift;
-        let handle = if let Some(handle) = self.pool.lock().unwrap()[shift].pop() {
-            handle
-        } else {
-            self.imp.new_handle(mem_size)
-        };
+        // The locks must not be held while something may panic.
+        let free_handle = self.pool.lock().unwrap()[shift].pop();
+        let handle = free_handle.unwrap_or_else(|| self.imp.new_handle(mem_size));
         self.mem_shift
             .lock()
             .unwrap()
@@ -71,8 +69,8 @@ impl<'dev> MemoryPool<'dev> {
             .mem_shift
             .lock()
             .unwrap()
-            .remove(&(handle.load(Ordering::Acquire) as usize))
-            .unwrap();
+            .remove(&(handle.load(Ordering::Acquire) as usize));
+        let shift = shift.expect("unknown handle");
         self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));
     }
 }
-- 
2.43.0


From 2649e8ae99af8b0021714e935614b0431500e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 19/28] fix: rejected distribution parameters do not poison the
 randomizer

---
 prima_undine/src/devices/naive/random.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prima_undine/src/devices/naive/random.rs b/prima_undine/src/devices/naive/random.rs
index c7e2fe4..809ebf8 100644
--- a/prima_undine/src/devices/naive/random.rs
+++ b/prima_undine/src/devices/naive/random.rs
@@ -26,7 +26,7 @@ impl FunctionFwImpl for RandomBernoulliImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_bernoulli(p, &mut yslice)
         }
     }
@@ -54,7 +54,7 @@ impl FunctionFwImpl for RandomNormalImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_normal(mean, sd, &mut yslice)
         }
     }
@@ -82,7 +82,7 @@ impl FunctionFwImpl for RandomUniformImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_uniform(lower, upper, &mut yslice)
         }
     }
-- 
2.43.0


From 26ea158412122a74af6489decd2b76973311c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 20/28] fix: shapes whose number of elements overflows are
 rejected

---
 prima_undine/src/shape.rs     | 10 +++++++---
 prima_undine/src/shape_ops.rs |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..fb79bc5 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -20,7 +20,7 @@ impl Shape {
         assert!(dims.len() <= MAX_DEPTH as usize);
         assert!(batch >= 1);
         let mut dims_filled = [1; MAX_DEPTH as usize];
-        let mut volume = 1;
+        let mut volume = 1u32;
         let mut depth = 0;
         for i in 0..dims.len() {
             assert!(dims[i] != 0);
@@ -28,8 +28,9 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = volume.checked_mul(dims[i]).unwrap();
         }
+        assert!(volume.checked_mul(batch).is_some());
         Shape {
             dims: dims_filled,
             batch: batch,
@@ -129,6 +130,8 @@ impl Shape {
     pub fn update_dim(&mut self, dim: u32, m: u32) {
         assert!(dim < MAX_DEPTH);
         assert!(m != 0);
+        let volume = (self.volume / self[dim]).checked_mul(m).unwrap();
+        assert!(volume.checked_mul(self.batch).is_some());
         if dim >= self.depth {
             let new_depth = dim + 1;
             for i in self.depth..new_depth {
@@ -136,7 +139,7 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        self.volume = volume;
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
@@ -145,6 +148,7 @@ impl Shape {
 
     pub fn update_batch(&mut self, batch: u32) {
         assert!(batch >= 1);
+        assert!(self.volume.checked_mul(batch).is_some());
         self.batch = batch;
     }
 }
diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..516ee3e 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = u32::checked_add(sum, s[dim]).unwrap();
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = u32::checked_add(sum, s.batch()).unwrap();
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From b809d70903dbf10653c43157e9349635cd03c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 21/28] Verification hooks behind --cfg prima_undine_verif

---
 prima_undine/src/lib.rs         |   4 ++
 prima_undine/src/memory_pool.rs |   6 +-
 prima_undine/src/verif_hooks.rs | 115 ++++++++++++++++++++++++++++++++
 3 files changed, 124 insertions(+), 1 deletion(-)
 create mode 100644 prima_undine/src/verif_hooks.rs

diff --git a/prima_undine/src/lib.rs b/prima_undine/src/lib.rs
index 9e73ee2..1207e5f 100644
--- a/prima_undine/src/lib.rs
+++ b/prima_undine/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 mod macros;
 
@@ -23,6 +25,8 @@ pub mod random;
 mod shape;
 mod shape_ops;
 mod tensor;
+#[cfg(prima_undine_verif)]
+pub mod verif_hooks;
 
 pub use device::Device;
 pub use device_impl::DeviceImpl;
diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index c48fe5b..4ea820a 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -2,9 +2,13 @@ use std::cmp;
 use std::collections::HashMap;
 use std::ffi::c_void;
 use std::sync::atomic::{AtomicPtr, Ordering};
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(prima_undine_verif))]
+use std::sync::Mutex;
 
 use crate::device_impl::DeviceImpl;
+#[cfg(prima_undine_verif)]
+use crate::verif_hooks::Mutex;
 
 const MAX_BITS: usize = 32;
 
diff --git a/prima_undine/src/verif_hooks.rs b/prima_undine/src/verif_hooks.rs
new file mode 100644
index 0000000..21ce13e
--- /dev/null
+++ b/prima_undine/src/verif_hooks.rs
@@ -0,0 +1,115 @@
+//! Hooks for the verification harness, compiled only with `--cfg prima_undine_verif`.
+
+use std::ops::{Deref, DerefMut};
+use std::sync::{Arc, LockResult, PoisonError, RwLock, TryLockError};
+
+use crate::memory_pool::MemoryPool;
+use crate::{Device, DeviceImpl};
+
+/// What a thread is about to do, or has just done, with a lock.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Point {
+    /// The thread is about to try to take the lock.
+    Before,
+    /// The lock is held by another thread; the thread will try again.
+    Blocked,
+    /// The thread has just released the lock.
+    After,
+}
+
+static SCHEDULER: RwLock<Option<fn(Point, usize)>> = RwLock::new(None);
+
+/// Installs (or removes) the callback called at every lock operation.
+pub fn set_scheduler(callback: Option<fn(Point, usize)>) {
+    *SCHEDULER.write().unwrap() = callback;
+}
+
+fn scheduler() -> Option<fn(Point, usize)> {
+    *SCHEDULER.read().unwrap()
+}
+
+/// `std::sync::Mutex` whose lock operations are visible to the scheduler callback.
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+pub struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+    id: usize,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex(std::sync::Mutex::new(value))
+    }
+
+    fn guard<'a>(&self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard {
+            guard: Some(guard),
+            id: self as *const Self as usize,
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let id = self as *const Self as usize;
+        if let Some(callback) = scheduler() {
+            callback(Point::Before, id);
+            loop {
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(self.guard(guard)),
+                    Err(TryLockError::Poisoned(e)) => {
+                        return Err(PoisonError::new(self.guard(e.into_inner())))
+                    }
+                    Err(TryLockError::WouldBlock) => callback(Point::Blocked, id),
+                }
+            }
+        }
+        match self.0.lock() {
+            Ok(guard) => Ok(self.guard(guard)),
+            Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
+        }
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+}
+
+impl<'a, T> Deref for MutexGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<'a, T> DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<'a, T> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        self.guard = None;
+        if let Some(callback) = scheduler() {
+            callback(Point::After, self.id);
+        }
+    }
+}
+
+/// The same device (same registered functions) over another backend.
+pub fn with_backend<'dev, T: DeviceImpl + 'dev>(
+    mut device: Device<'dev>,
+    backend: T,
+) -> Device<'dev> {
+    let imp: Arc<Box<dyn DeviceImpl + 'dev>> = Arc::new(Box::new(backend));
+    device.imp = Arc::clone(&imp);
+    device.mem_pool = MemoryPool::new(imp);
+    device
+}
-- 
2.43.0


From 6b70b358a1bd7b9aeb030573aa177f25a6ba9ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 22/28] fix: triangular parts of a node check the shape at
 construction

---
 prima_undine/src/operators/triangular_l.rs | 1 +
 prima_undine/src/operators/triangular_u.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/operators/triangular_l.rs b/prima_undine/src/operators/triangular_l.rs
index 76bcec2..800bff8 100644
--- a/prima_undine/src/operators/triangular_l.rs
+++ b/prima_undine/src/operators/triangular_l.rs
@@ -14,6 +14,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for TriangularL<'dev> {
     }
 
     fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].is_matrix() && x[0][0] == x[0][1]);
         vec![x[0]]
     }
 
diff --git a/prima_undine/src/operators/triangular_u.rs b/prima_undine/src/operators/triangular_u.rs
index 1f495a8..e5207ad 100644
--- a/prima_undine/src/operators/triangular_u.rs
+++ b/prima_undine/src/operators/triangular_u.rs
@@ -14,6 +14,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for TriangularU<'dev> {
     }
 
     fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].is_matrix() && x[0][0] == x[0][1]);
         vec![x[0]]
     }
 
-- 
2.43.0


From 8e0afd4c3de1c5f62f9ffeed0d4d8a840a89701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 23/28] fix: eager softmax cross entropy accepts only what its
 operator accepts

---
 prima_undine/src/functions/basic/tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index a46a5ae..799c7a3 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -1,7 +1,7 @@
 use std::borrow::Borrow;
 
 use crate::functions::{BasicDeviceFunctions, BasicFunctions};
-use crate::{Shape, Tensor};
+use crate::{shape_ops, Shape, Tensor};
 
 impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // core
@@ -128,7 +128,9 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     }
 
     fn softmax_cross_entropy<T: Borrow<Self>>(&self, t: T, dim: u32) -> Self {
-        -(t.borrow() * self.ln_softmax(dim)).sum(dim)
+        let t = t.borrow();
+        shape_ops::elementwise(self.shape(), t.shape());
+        -(t * self.ln_softmax(dim)).sum(dim)
     }
 
     fn sparse_softmax_cross_entropy(&self, ids: &[u32], dim: u32) -> Self {
-- 
2.43.0


From 55e6cd10bf0e056a14e603874ac0fa932c4c99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 24/28] fix: updating a parameter that is not configured is
 rejected before any effect

---
 prima_undine/src/optimizer.rs               | 7 +++++++
 prima_undine/src/optimizers/adam.rs         | 4 ++++
 prima_undine/src/optimizers/momentum_sgd.rs | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/prima_undine/src/optimizer.rs b/prima_undine/src/optimizer.rs
index 73a644a..f4243fd 100644
--- a/prima_undine/src/optimizer.rs
+++ b/prima_undine/src/optimizer.rs
@@ -14,12 +14,19 @@ pub trait OptimizerBase {
 pub trait Optimizer: OptimizerBase {
     fn configure_parameter(&self, parameter: &mut Parameter);
     fn update_parameter(&self, scale: f32, parameter: &mut Parameter);
+    fn is_configured(&self, _parameter: &Parameter) -> bool {
+        true
+    }
     fn configure_parameters(&self, parameters: &mut [&mut Parameter]) {
         for param in parameters {
             self.configure_parameter(param);
         }
     }
     fn update_parameters(&mut self, parameters: &mut [&mut Parameter]) {
+        // Nothing is changed unless every parameter can be updated.
+        for param in parameters.iter() {
+            assert!(self.is_configured(param), "parameter is not configured");
+        }
         let l2_strength = self.get_weight_decay();
         if l2_strength > 0. {
             for param in parameters.iter_mut() {
diff --git a/prima_undine/src/optimizers/adam.rs b/prima_undine/src/optimizers/adam.rs
index 78f4f77..933691b 100644
--- a/prima_undine/src/optimizers/adam.rs
+++ b/prima_undine/src/optimizers/adam.rs
@@ -13,6 +13,10 @@ impl Optimizer for Adam {
         }
     }
 
+    fn is_configured(&self, parameter: &Parameter) -> bool {
+        parameter.has_stat("Adam.m1") && parameter.has_stat("Adam.m2")
+    }
+
     fn update_parameter(&self, scale: f32, parameter: &mut Parameter) {
         let epoch = (self.epoch + 1) as f32;
         let g = &parameter.gradient;
diff --git a/prima_undine/src/optimizers/momentum_sgd.rs b/prima_undine/src/optimizers/momentum_sgd.rs
index bb77720..9a09c8b 100644
--- a/prima_undine/src/optimizers/momentum_sgd.rs
+++ b/prima_undine/src/optimizers/momentum_sgd.rs
@@ -9,6 +9,10 @@ impl Optimizer for MomentumSGD {
         }
     }
 
+    fn is_configured(&self, parameter: &Parameter) -> bool {
+        parameter.has_stat("MomentumSGD.m")
+    }
+
     fn update_parameter(&self, scale: f32, parameter: &mut Parameter) {
         let mdiff = (scale * self.eta) * &parameter.gradient;
         let mut m = parameter.stats["MomentumSGD.m"].borrow_mut();
-- 
2.43.0


From 820bc198303237096af3b6566ebf7d58de3c5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 25/28] fix: a device resets and reads only its own tensors

---
 prima_undine/src/device.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index c023879..7e195ec 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -160,15 +160,18 @@ impl<'dev> Device<'dev> {
     }
 
     pub fn reset_tensor(&self, x: &mut Tensor, k: f32) {
+        assert!(x.device() == self);
         self.call_fw_impl("reset_tensor_impl", &[], &[], &[k], &mut [x]);
     }
 
     pub fn reset_tensor_by_slice(&self, x: &mut Tensor, values: &[f32]) {
+        assert!(x.device() == self);
         assert!(x.shape.size() as usize == values.len());
         self.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], values, &mut [x]);
     }
 
     pub fn reset_tensor_by_tensor(&self, x: &mut Tensor, source: &Tensor) {
+        assert!(x.device() == self);
         assert!(x.valid());
         assert!(source.valid());
         assert!(x.shape.size() == source.shape.size());
@@ -176,12 +179,14 @@ impl<'dev> Device<'dev> {
     }
 
     pub fn tensor_to_vector(&self, x: &Tensor) -> Vec<f32> {
+        assert!(x.device() == self);
         let mut ret = vec![0.; x.shape.size() as usize];
         self.call_fw_f32_impl("tensor_to_vector_impl", &[x], &[], &[], ret.as_mut_slice());
         ret
     }
 
     pub fn tensor_to_float(&self, x: &Tensor) -> f32 {
+        assert!(x.device() == self);
         assert!(x.shape.size() == 1);
         let mut ret = [0.];
         self.call_fw_f32_impl("tensor_to_vector_impl", &[x], &[], &[], &mut ret);
-- 
2.43.0


From 97d46f03b049aca412de2381e42d9ab21ab7a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 26/28] fix: log-sum-exp of equal infinities is not a number

---
 prima_undine/src/devices/naive/logsumexp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/devices/naive/logsumexp.rs b/prima_undine/src/devices/naive/logsumexp.rs
index 8b9580c..76d49ca 100644
--- a/prima_undine/src/devices/naive/logsumexp.rs
+++ b/prima_undine/src/devices/naive/logsumexp.rs
@@ -20,7 +20,10 @@ impl FunctionFwImpl for LogsumexpFwImpl {
                 for _ in 1..n {
                     offset += skip1;
                     let arg = *src.add(offset) as f64;
-                    tmp = if tmp > arg {
+                    tmp = if tmp == arg {
+                        // also for equal infinities, whose difference is not a number
+                        tmp + std::f64::consts::LN_2
+                    } else if tmp > arg {
                         tmp + (1. + (arg - tmp).exp()).ln()
                     } else {
                         arg + (1. + (tmp - arg).exp()).ln()
-- 
2.43.0


From 5f777cab3f155bd01c732d59183ed0b61d33f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 27/28] fix: softplus of minus infinity is not a number

---
 prima_undine/src/devices/naive/softplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/devices/naive/softplus.rs b/prima_undine/src/devices/naive/softplus.rs
index d962f23..6ccdba8 100644
--- a/prima_undine/src/devices/naive/softplus.rs
+++ b/prima_undine/src/devices/naive/softplus.rs
@@ -1,5 +1,5 @@
 define_naive_fw_x_impl!(SoftplusFwImpl, |x: f32| (1. + (-x.abs()).exp()).ln()
-    + (x > 0.) as u32 as f32 * x);
+    + x.max(0.));
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 8f843050bb00c7c952ba26e52b685cc9569eaab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 28/28] fix: softmax of large arguments loses the differences
 between them

---
 prima_undine/src/functions/basic/node.rs   | 5 ++++-
 prima_undine/src/functions/basic/tensor.rs | 5 ++++-
 prima_undine/src/operators/logsumexp.rs    | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/prima_undine/src/functions/basic/node.rs b/prima_undine/src/functions/basic/node.rs
index 1b9db81..969d036 100644
--- a/prima_undine/src/functions/basic/node.rs
+++ b/prima_undine/src/functions/basic/node.rs
@@ -165,7 +165,10 @@ impl<'arg, 'dev> BasicFunctions for Node<'arg, 'dev> {
     }
 
     fn ln_softmax(&self, dim: u32) -> Self {
-        self - self.logsumexp(dim).broadcast(dim, self.shape()[dim])
+        // relative to the largest, which may be too large to hold the logarithm of the sum
+        let size = self.shape()[dim];
+        let x = self - self.max(dim).broadcast(dim, size);
+        &x - x.logsumexp(dim).broadcast(dim, size)
     }
 
     fn softmax(&self, dim: u32) -> Self {
diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index 799c7a3..03a56ba 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -120,7 +120,10 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     }
 
     fn ln_softmax(&self, dim: u32) -> Self {
-        self - self.logsumexp(dim).broadcast(dim, self.shape()[dim])
+        // relative to the largest, which may be too large to hold the logarithm of the sum
+        let size = self.shape()[dim];
+        let x = self - self.max(dim).broadcast(dim, size);
+        &x - x.logsumexp(dim).broadcast(dim, size)
     }
 
     fn softmax(&self, dim: u32) -> Self {
diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 2b0e5f5..24313e8 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -21,9 +21,9 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
         y[0].replace(self.device().logsumexp_fw(x[0], self.dim));
     }
 
-    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
+    fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
         let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
-            (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
+            x[0].softmax(self.dim) * gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0

