From 1a30121fd076c72d13b6a3c856d70f5e11d9cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 01/59] fix: copy only the padding and stride entries a 1D
 convolution has

Convolution's constructor always copied four padding and two stride entries,
reading beyond the two- and one-element arrays that configure a 1D
convolution (as the importer generates them).
---
 pico-cnn/layers/convolution.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 0994463..94bf94b 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -9,15 +9,19 @@ namespace pico_cnn {
             kernel_ = kernel;
             bias_ = bias;
 
+            // 1D convolutions are configured by {left, right} padding and a single stride,
+            // 2D convolutions by {top, left, bottom, right} padding and {vertical, horizontal} stride.
+            uint32_t num_spatial_dims = kernel_->num_dimensions() == 3 ? 1 : 2;
+
             if (padding) {
                 padding_ = new uint32_t[4]();
-                std::memcpy(padding_, padding, 4 * sizeof(uint32_t));
+                std::memcpy(padding_, padding, 2 * num_spatial_dims * sizeof(uint32_t));
             } else {
                 padding_ = padding;
             }
 
             stride_ = new uint32_t[2]();
-            std::memcpy(stride_, stride, 2*sizeof(uint32_t));
+            std::memcpy(stride_, stride, num_spatial_dims * sizeof(uint32_t));
 
             num_groups_ = num_groups;
 
-- 
2.43.0


From 4e9635ad9ebd1812dc25fccec8aa74fb9b941ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 02/59] fix: GlobalMaxPooling skipped the first column of every
 row but the first

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..d5995c5 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
-- 
2.43.0


From e09bc0760bc0d2bba75b3dc34d09c0c98c67935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 03/59] fix: MaxPooling treated its padding as zeros

Windows of negative values touching the border yielded 0.
---
 pico-cnn/layers/pooling/max_pooling.cpp | 4 ++++
 pico-cnn/layers/pooling/pooling.cpp     | 4 +++-
 pico-cnn/layers/pooling/pooling.h       | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.cpp b/pico-cnn/layers/pooling/max_pooling.cpp
index 9332723..fa4b30b 100644
--- a/pico-cnn/layers/pooling/max_pooling.cpp
+++ b/pico-cnn/layers/pooling/max_pooling.cpp
@@ -1,9 +1,13 @@
 #include "max_pooling.h"
 
+#include <limits>
+
 pico_cnn::naive::MaxPooling::MaxPooling(std::string name, uint32_t id, pico_cnn::op_type op, uint32_t *kernel_size,
                                         uint32_t *stride, uint32_t *padding) :
                                         Pooling(name, id, op, kernel_size, stride, padding) {
 
+    // Padding must never be the maximum of a window.
+    padding_value_ = -std::numeric_limits<fp_t>::infinity();
 }
 
 void pico_cnn::naive::MaxPooling::pool(pico_cnn::naive::Tensor *input, pico_cnn::naive::Tensor *output) {
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..7fb2361 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -3,6 +3,8 @@
 pico_cnn::naive::Pooling::Pooling(std::string name, uint32_t id, pico_cnn::op_type op, uint32_t *kernel_size,
                                   uint32_t *stride, uint32_t *padding) : Layer(name, id, op) {
 
+    padding_value_ = 0.0;
+
     if (kernel_size) {
         kernel_size_ = new uint32_t[2]();
         std::memcpy(kernel_size_, kernel_size, 2 * sizeof(uint32_t));
@@ -38,7 +40,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, padding_value_);
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..040d6a6 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -25,6 +25,8 @@ namespace pico_cnn {
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
+            // Value the padded border of the input is filled with.
+            fp_t padding_value_;
         };
     }
 }
-- 
2.43.0


From 04abf062f494b817c1474c1c4a4e1cb04a0a1f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:15 +0000
Subject: [PATCH 04/59] fix: AveragePooling divided by the full kernel size in
 border windows

With count_include_pad == 0, windows were classified by comparing output
indices with the amount of padding, which is wrong for strides and kernels for
which these differ, wraps around when the output is smaller than the padding,
and dereferences a null pointer when there is no padding.
---
 pico-cnn/layers/pooling/average_pooling.cpp | 81 ++++++++-------------
 1 file changed, 32 insertions(+), 49 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..4fb2285 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -24,6 +24,9 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
     uint32_t kernel_row, kernel_column;
 
+    uint32_t no_padding[4] = {0, 0, 0, 0};
+    const uint32_t *padding = padding_ ? padding_ : no_padding;
+
     if (num_dims == 4) {
         output_channel_height = (height-kernel_size_[0])/stride_[0]+1;
         output_channel_width = (width-kernel_size_[1])/stride_[1]+1;
@@ -88,40 +91,28 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                                 }
                             }
 
-                            // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
-
-                                output->access(batch, channel, output_channel_row, output_channel_column,
-                                               num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
-
-                                // edge case
-                            } else {
-
-                                uint32_t up_row, down_row, left_col, right_col;
-                                int32_t divisor, div_row, div_col;
-
-                                up_row = MAX(channel_row, padding_[0]);
-                                down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding_[2] - 1);
-                                div_row = down_row - up_row + 1;
-
-                                left_col = MAX(channel_column, padding_[1]);
-                                right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding_[3] - 1);
-                                div_col = right_col - left_col + 1;
+                            // Only count the elements of the window which are not part of the padding.
+                            uint32_t up_row, down_row, left_col, right_col;
+                            int32_t divisor, div_row, div_col;
 
-                                divisor = div_row * div_col;
+                            up_row = MAX(channel_row, padding[0]);
+                            down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding[2] - 1);
+                            div_row = down_row - up_row + 1;
 
-                                if (divisor == 0) {
-                                    PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
-                                    exit(1);
-                                }
-
-                                output->access(batch, channel, output_channel_row, output_channel_column,
-                                               num_channels, output_height, output_width) = pixel / ((fp_t) (divisor));
+                            left_col = MAX(channel_column, padding[1]);
+                            right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding[3] - 1);
+                            div_col = right_col - left_col + 1;
 
+                            divisor = div_row * div_col;
 
+                            if (divisor == 0) {
+                                PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
+                                exit(1);
                             }
 
+                            output->access(batch, channel, output_channel_row, output_channel_column,
+                                           num_channels, output_height, output_width) = pixel / ((fp_t) (divisor));
+
                             output_channel_column++;
                         }
                         output_channel_row++;
@@ -186,32 +177,24 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             pixel += input->access(batch, channel, kernel_column, num_channels, width);
                         }
 
-                        // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
-
-                            output->access(batch, channel, output_channel_column,
-                                           num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
-                        // edge case
-                        } else {
-
-                            uint32_t left_col, right_col;
-                            int32_t divisor, div_col;
-
-                            left_col = MAX(channel_column, padding_[0]);
-                            right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding_[1] - 1);
-                            div_col = right_col - left_col + 1;
+                        // Only count the elements of the window which are not part of the padding.
+                        uint32_t left_col, right_col;
+                        int32_t divisor, div_col;
 
-                            divisor = div_col;
+                        left_col = MAX(channel_column, padding[0]);
+                        right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding[1] - 1);
+                        div_col = right_col - left_col + 1;
 
-                            if (divisor == 0) {
-                                PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
-                                exit(1);
-                            }
+                        divisor = div_col;
 
-                            output->access(batch, channel, output_channel_column,
-                                           num_channels, output_width) = pixel / ((fp_t) (divisor));
+                        if (divisor == 0) {
+                            PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
+                            exit(1);
                         }
 
+                        output->access(batch, channel, output_channel_column,
+                                       num_channels, output_width) = pixel / ((fp_t) (divisor));
+
                         output_channel_column++;
                     }
                 }
-- 
2.43.0


From 0414bfa9ceea7dada809df5c5c3efffd5471b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 05/59] fix: Softmax yielded NaN for logits beyond the range of
 the exponential

---
 pico-cnn/layers/activation_functions/softmax.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/activation_functions/softmax.cpp b/pico-cnn/layers/activation_functions/softmax.cpp
index b36f32d..43ae173 100644
--- a/pico-cnn/layers/activation_functions/softmax.cpp
+++ b/pico-cnn/layers/activation_functions/softmax.cpp
@@ -19,12 +19,18 @@ namespace pico_cnn {
 
             uint32_t num_elements = input->num_elements();
 
+            // Subtracting the maximum does not change the result but keeps the exponentials finite.
+            fp_t maximum = input->access_blob(0);
+            for(uint32_t i = 1; i < num_elements; i++) {
+                maximum = MAX(maximum, input->access_blob(i));
+            }
+
             for(uint32_t i = 0; i < num_elements; i++) {
-                denominator += expl((long double)input->access_blob(i));
+                denominator += expl((long double)input->access_blob(i) - maximum);
             }
 
             for(uint32_t i = 0; i < num_elements; i++) {
-                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i)) / denominator);
+                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i) - maximum) / denominator);
             }
         }
     }
-- 
2.43.0


From 629dd3c9ab9e3451f1bf0b088fa5d8c201da67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 06/59] fix: FullyConnected and MatMul computed only the first
 row of the output

---
 pico-cnn/layers/fully_connected.cpp | 40 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pico-cnn/layers/fully_connected.cpp b/pico-cnn/layers/fully_connected.cpp
index 8920e20..b49eb00 100644
--- a/pico-cnn/layers/fully_connected.cpp
+++ b/pico-cnn/layers/fully_connected.cpp
@@ -22,21 +22,23 @@ namespace pico_cnn {
             uint32_t input_width = input->width();
             uint32_t kernel_width = kernel_->width();
 
-            for (uint32_t i = 0; i < output_width; i++) {
+            for (uint32_t row = 0; row < output->height(); row++) {
+                for (uint32_t i = 0; i < output_width; i++) {
 
-                fp_t pixel = 0.0;
+                    fp_t pixel = 0.0;
 
-                for (uint32_t j = 0; j < input_width; j++) {
-                    // With the kernel layout used in the onnx format we can use this memory optimized
-                    // access pattern (i, j) instead of (j, i) as the "normal" matrix multiplication is defined
-                    pixel += input->access(0, j, input_width) * kernel_->access(i, j, kernel_width);
-                }
+                    for (uint32_t j = 0; j < input_width; j++) {
+                        // With the kernel layout used in the onnx format we can use this memory optimized
+                        // access pattern (i, j) instead of (j, i) as the "normal" matrix multiplication is defined
+                        pixel += input->access(row, j, input_width) * kernel_->access(i, j, kernel_width);
+                    }
 
-                if(bias_) {
-                    pixel += bias_->access(i);
-                }
+                    if(bias_) {
+                        pixel += bias_->access(i);
+                    }
 
-                output->access(0, i, output_width) = pixel;
+                    output->access(row, i, output_width) = pixel;
+                }
             }
         }
 
@@ -54,16 +56,18 @@ namespace pico_cnn {
             uint32_t input_width = input->width();
             uint32_t weights_width = weights_->width();
 
-            for (uint32_t i = 0; i < output_width; i++) {
+            for (uint32_t row = 0; row < output->height(); row++) {
+                for (uint32_t i = 0; i < output_width; i++) {
 
-                fp_t pixel = 0.0;
+                    fp_t pixel = 0.0;
 
-                for (uint32_t j = 0; j < input_width; j++) {
-                    // TODO: Improve performance of this operation. See FullyConnected.
-                    pixel += input->access(0, j, input_width) * weights_->access(j, i, weights_width);
-                }
+                    for (uint32_t j = 0; j < input_width; j++) {
+                        // TODO: Improve performance of this operation. See FullyConnected.
+                        pixel += input->access(row, j, input_width) * weights_->access(j, i, weights_width);
+                    }
 
-                output->access(0, i, output_width) = pixel;
+                    output->access(row, i, output_width) = pixel;
+                }
             }
         }
     }
-- 
2.43.0


From 0cec3e482af68bc9af1715cb58f6b82d98028705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 07/59] fix: LRN ignored the bias attribute

---
 .../code_templates/activation/pico_cnn_lrn_alloc.cpp       | 2 +-
 onnx_import/pico_cnn.py                                    | 1 +
 pico-cnn/layers/activation_functions/lrn.cpp               | 7 ++++---
 pico-cnn/layers/activation_functions/lrn.h                 | 5 +++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/onnx_import/code_templates/activation/pico_cnn_lrn_alloc.cpp b/onnx_import/code_templates/activation/pico_cnn_lrn_alloc.cpp
index 7a5085f..dac31b7 100644
--- a/onnx_import/code_templates/activation/pico_cnn_lrn_alloc.cpp
+++ b/onnx_import/code_templates/activation/pico_cnn_lrn_alloc.cpp
@@ -1,2 +1,2 @@
 
-    {{identifier}}_layer = new pico_cnn::naive::LRN("{{name}}", 0, pico_cnn::op_type::LRN, {{alpha}}, {{beta}}, {{n}});
+    {{identifier}}_layer = new pico_cnn::naive::LRN("{{name}}", 0, pico_cnn::op_type::LRN, {{alpha}}, {{beta}}, {{n}}, {{bias}});
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2732484..4d8621d 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1117,6 +1117,7 @@ class LocalResponseNormalization(BaseLayer):
         operation.attributes["alpha"] = attrs["alpha"]
         operation.attributes["beta"] = attrs["beta"]
         operation.attributes["n"] = attrs["size"]
+        operation.attributes["bias"] = attrs.get("bias", 1.0)
 
         return operation
 
diff --git a/pico-cnn/layers/activation_functions/lrn.cpp b/pico-cnn/layers/activation_functions/lrn.cpp
index c1dd793..ad45e13 100644
--- a/pico-cnn/layers/activation_functions/lrn.cpp
+++ b/pico-cnn/layers/activation_functions/lrn.cpp
@@ -2,8 +2,9 @@
 namespace pico_cnn {
     namespace naive {
 
-        LRN::LRN(std::string name, uint32_t id, op_type op, const fp_t alpha, const fp_t beta, const uint16_t n) :
-                ActivationFunction(name, id, op), alpha_(alpha), beta_(beta), n_(n) {
+        LRN::LRN(std::string name, uint32_t id, op_type op, const fp_t alpha, const fp_t beta, const uint16_t n,
+                 const fp_t bias) :
+                ActivationFunction(name, id, op), alpha_(alpha), beta_(beta), bias_(bias), n_(n) {
 
         }
 
@@ -44,7 +45,7 @@ namespace pico_cnn {
 
                                 output->access(batch, channel, row, column, num_channels, height, width) =
                                         input->access(batch, channel, row, column, num_channels, height, width) /
-                                        powf((1 + (alpha_ / (fp_t) n_) * sum), beta_);
+                                        powf((bias_ + (alpha_ / (fp_t) n_) * sum), beta_);
                             }
                         }
                     }
diff --git a/pico-cnn/layers/activation_functions/lrn.h b/pico-cnn/layers/activation_functions/lrn.h
index 7325ecb..309d900 100644
--- a/pico-cnn/layers/activation_functions/lrn.h
+++ b/pico-cnn/layers/activation_functions/lrn.h
@@ -18,13 +18,14 @@ namespace pico_cnn {
     namespace naive {
         class LRN : ActivationFunction {
         public:
-            LRN(std::string name, uint32_t id, op_type op, const fp_t alpha, const fp_t beta, const uint16_t n);
+            LRN(std::string name, uint32_t id, op_type op, const fp_t alpha, const fp_t beta, const uint16_t n,
+                const fp_t bias = 1.0);
             ~LRN();
 
             void run(Tensor *input, Tensor *output) override;
 
         private:
-            const fp_t alpha_, beta_;
+            const fp_t alpha_, beta_, bias_;
             const uint16_t n_;
 
             void activate(Tensor *input, Tensor *output) override;
-- 
2.43.0


From 667ba3c0aa1a610933d770fe1761d99d1f01898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 08/59] fix: comparing tensors of different rank read past the
 end of the shape

---
 pico-cnn/tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/tensor.h b/pico-cnn/tensor.h
index e86c6c1..22c8461 100644
--- a/pico-cnn/tensor.h
+++ b/pico-cnn/tensor.h
@@ -92,6 +92,10 @@ namespace pico_cnn {
             void mul_with_factor(Tensor *other, fp_t factor);
 
             bool operator ==(const Tensor &other) const {
+                if (num_dimensions_ != other.num_dimensions_) {
+                    PRINT_ERROR("Number of dimensions does not match: " << num_dimensions_ << " != " << other.num_dimensions_)
+                    return false;
+                }
                 for (uint32_t i = 0; i < num_dimensions_; i++) {
                     if(shape_[i] != other.shape_[i]) {
                         PRINT_ERROR("Shape does not match at position " << i << ": " << shape_[i] << " != " << other.shape_[i])
-- 
2.43.0


From 7d02eb520752d1e94bb3ffcaa36f414e87c4cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 09/59] fix: zero padding into a used tensor kept its old
 border

---
 pico-cnn/tensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..8a76364 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -299,10 +299,9 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            // The destination might have been used before, so fill the border even if it is zero
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From 5a796c72213bd61c5874fe28ab2aaab41eadce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 10/59] fix: concatenation overlaid 2D inputs and dropped all
 but the first batch

---
 pico-cnn/tensor.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 8a76364..b3acbae 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -376,29 +376,23 @@ namespace pico_cnn {
 
             // concatenate along channels
             if(dimension == 1) {
-                uint32_t output_channel_counter = 0;
+                // Elements of all channels of one batch are stored contiguously
+                uint32_t num_batches = shape_[0];
+                uint32_t output_batch_size = num_elements_ / num_batches;
+                uint32_t output_offset = 0;
 
                 for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
 
                     Tensor *input = inputs[input_id];
 
-                    //uint32_t num_batches = input->num_batches();
-                    uint32_t num_input_channels = input->num_channels();
-                    uint32_t input_channel_size = input->height() * input->width();
+                    uint32_t input_batch_size = input->num_elements() / num_batches;
 
-                    fp_t *input_channel_ptr;
-                    fp_t *output_channel_ptr;
-
-                    for (uint32_t input_channel = 0; input_channel < num_input_channels; input_channel++) {
-
-                        input_channel_ptr = input->get_ptr_to_channel(0, input_channel);
-                        output_channel_ptr = this->get_ptr_to_channel(0, output_channel_counter+input_channel);
-
-                        std::memcpy(output_channel_ptr,
-                                    input_channel_ptr,
-                                    input_channel_size * sizeof(fp_t));
+                    for (uint32_t batch = 0; batch < num_batches; batch++) {
+                        std::memcpy(data_ + batch * output_batch_size + output_offset,
+                                    input->data_ + batch * input_batch_size,
+                                    input_batch_size * sizeof(fp_t));
                     }
-                    output_channel_counter += num_input_channels;
+                    output_offset += input_batch_size;
                 }
 
             } else {
-- 
2.43.0


From e493a4978379ccb9122aeeec4c1c3514060de7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 11/59] fix: reading a missing weights file passed a null
 pointer to fclose

---
 pico-cnn/io/read_binary_weights.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..8e94f02 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -382,6 +382,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } else {
+        PRINT_ERROR("ERROR: Could not open weights file: " << path_to_weights_file)
+        return 1;
     }
     fclose(binary_file);
     return 0;
-- 
2.43.0


From 6d1ff04b15574aa6240e618931d1ad09300eabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 12/59] fix: names of 100 or more characters in a weights file
 overflowed a buffer

---
 pico-cnn/io/read_binary_weights.cpp | 40 ++++++++++++++---------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 8e94f02..4108554 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -1,5 +1,7 @@
 #include "read_binary_weights.h"
 
+#include <string>
+
 int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::Tensor ***kernels, pico_cnn::naive::Tensor ***biases) {
 
     FILE *binary_file;
@@ -24,18 +26,17 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         PRINT_DEBUG(magic_number)
 
         // Read name
-        char buffer[100];
+        std::string buffer;
         char c = '\0';
-        uint32_t i = 0;
-        for(; c != '\n'; i++){
+        while(c != '\n') {
             if(fread((void*)&c, sizeof(c), 1, binary_file) != 1) {
                 PRINT_ERROR("ERROR while reading name")
                 fclose(binary_file);
                 return 1;
             }
-            buffer[i] = c;
+            buffer += c;
         }
-        buffer[i-1] = '\0'; //terminate string correctly
+        buffer.pop_back(); // remove the line end
 
         PRINT_DEBUG(buffer)
 
@@ -60,34 +61,33 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
             // Read layer name
             c = '\0';
-            i = 0;
-            for(; c != '\n'; i++) {
+            buffer.clear();
+            while(c != '\n') {
                 if(fread((void*)&c, sizeof(c), 1, binary_file) != 1) {
                     PRINT_ERROR("ERROR while reading layer name")
                     fclose(binary_file);
                     return 1;
                 }
-                buffer[i] = c;
+                buffer += c;
             }
-            buffer[i-1] = '\0'; //terminate string correctly
+            buffer.pop_back(); // remove the line end
 
             // Read layer type
-            char buffer_layer_type[100];
+            std::string buffer_layer_type;
             c = '\0';
-            i = 0;
-            for(; c != '\n'; i++) {
+            while(c != '\n') {
                 if(fread((void*)&c, sizeof(c), 1, binary_file) != 1) {
                     PRINT_ERROR("ERROR while reading layer type")
                     fclose(binary_file);
                     return 1;
                 }
-                buffer_layer_type[i] = c;
+                buffer_layer_type += c;
             }
-            buffer_layer_type[i-1] = '\0'; //terminate string correctly
+            buffer_layer_type.pop_back(); // remove the line end
 
             PRINT_DEBUG("Layer " << layer << ": " << buffer << " of type: " << buffer_layer_type)
 
-            if(strcmp(buffer_layer_type, "Conv") == 0) {
+            if(buffer_layer_type == "Conv") {
 
                 uint32_t num_output_channels = 0;
                 uint32_t num_input_channels = 0;
@@ -163,7 +163,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     delete[] bias_values;
                 }
 
-            } else if (strcmp(buffer_layer_type, "BatchNormalization") == 0) {
+            } else if (buffer_layer_type == "BatchNormalization") {
                 // read gamma values
                 uint32_t num_gamma = 0;
                 if(fread((void *) &num_gamma, sizeof(num_gamma), 1, binary_file) != 1) {
@@ -264,9 +264,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     delete[] variance_values;
                 }
 
-            } else if (strcmp(buffer_layer_type, "Gemm") == 0 ||
-                       strcmp(buffer_layer_type, "MatMul") == 0 ||
-                       strcmp(buffer_layer_type, "Transpose") == 0) {
+            } else if (buffer_layer_type == "Gemm" ||
+                       buffer_layer_type == "MatMul" ||
+                       buffer_layer_type == "Transpose") {
 
                 uint32_t num_kernels = 0;
                 uint32_t kernel_height = 0;
@@ -333,7 +333,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     delete[] bias_values;
                 }
-            } else if (strcmp(buffer_layer_type, "Add") == 0) {
+            } else if (buffer_layer_type == "Add") {
                 uint32_t num_biases = 0;
                 if(fread((void *) &num_biases, sizeof(num_biases), 1, binary_file) != 1) {
                     PRINT_ERROR("ERROR while reading number of biases")
-- 
2.43.0


From 3ce948234a292c57f568d1104de2c7b169c631ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 13/59] fix: arrays of a truncated weights file were released
 with free()

---
 pico-cnn/io/read_binary_weights.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4108554..9f9d31b 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -125,7 +125,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -152,7 +152,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -178,7 +178,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -203,7 +203,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -228,7 +228,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -253,7 +253,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -299,7 +299,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -323,7 +323,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -347,7 +347,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From aa210738da3c8153345a5a1a7b004665c66f2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 14/59] fix: weights files with a fully connected kernel used
 by two layers ended the process

---
 pico-cnn/io/read_binary_weights.cpp | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 9f9d31b..60c0eb1 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -290,25 +290,32 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
 
-                uint32_t kernel;
-                auto *values = new fp_t[kernel_height*kernel_width]();
+                // All sizes are zero if the kernel was already stored by an earlier layer
+                if(num_kernels != 0 || kernel_height != 0 || kernel_width != 0) {
 
-                if(num_kernels != 1)
-                    PRINT_ERROR_AND_DIE("Number of kernels != 1")
-
-                for(kernel = 0; kernel < num_kernels; kernel++) {
-                    if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
-                        PRINT_ERROR("ERROR while reading kernel values.")
-                        delete[] values;
+                    if(num_kernels != 1) {
+                        PRINT_ERROR("Number of kernels != 1")
                         fclose(binary_file);
                         return 1;
                     }
-                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
-                }
 
-                kernel_idx++;
+                    uint32_t kernel;
+                    auto *values = new fp_t[kernel_height*kernel_width]();
+
+                    for(kernel = 0; kernel < num_kernels; kernel++) {
+                        if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
+                            PRINT_ERROR("ERROR while reading kernel values.")
+                            delete[] values;
+                            fclose(binary_file);
+                            return 1;
+                        }
+                        std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
+                    }
+
+                    kernel_idx++;
 
-                delete[] values;
+                    delete[] values;
+                }
 
                 uint32_t num_biases = 0;
                 if(fread((void *) &num_biases, sizeof(num_biases), 1, binary_file) != 1) {
-- 
2.43.0


From 1ec1b820040ef8f23ddf068182d59fba43e25638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 15/59] fix: array sizes in a weights file were not checked
 against the network

---
 pico-cnn/io/read_binary_weights.cpp | 72 +++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 60c0eb1..67bead5 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -2,6 +2,25 @@
 
 #include <string>
 
+// The sizes declared in the file have to fit the tensor the values are stored in
+static bool conv_kernel_fits(const pico_cnn::naive::Tensor *kernel, uint32_t num_output_channels, uint32_t num_input_channels,
+                             uint32_t kernel_height, uint32_t kernel_width) {
+    if(kernel->num_dimensions() < 3 || kernel->shape_[0] != num_output_channels || kernel->shape_[1] != num_input_channels ||
+       (uint64_t) kernel_height * kernel_width != kernel->num_elements() / (num_output_channels * num_input_channels)) {
+        PRINT_ERROR("ERROR: Kernel size in weights file does not match the network.")
+        return false;
+    }
+    return true;
+}
+
+static bool num_values_fit(const pico_cnn::naive::Tensor *tensor, uint64_t num_values) {
+    if(num_values != tensor->num_elements()) {
+        PRINT_ERROR("ERROR: Number of values in weights file: " << num_values << " does not match the network: " << tensor->num_elements())
+        return false;
+    }
+    return true;
+}
+
 int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::Tensor ***kernels, pico_cnn::naive::Tensor ***biases) {
 
     FILE *binary_file;
@@ -119,6 +138,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
+
+                    if(!conv_kernel_fits((*kernels)[kernel_idx], num_output_channels, num_input_channels, kernel_height, kernel_width)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {
@@ -148,6 +173,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_biases)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -174,6 +205,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_gamma)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto* gamma_values = new fp_t[num_gamma]();
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
@@ -199,6 +236,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_beta)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *beta_values = new fp_t[num_beta]();
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
@@ -224,6 +267,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_mean)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *mean_values = new fp_t[num_mean]();
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
@@ -249,6 +298,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_variance)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *variance_values = new fp_t[num_variance]();
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
@@ -299,6 +354,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         return 1;
                     }
 
+                    if(!num_values_fit((*kernels)[kernel_idx], (uint64_t) kernel_height * kernel_width)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     uint32_t kernel;
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
@@ -326,6 +386,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_biases)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -350,6 +416,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+
+                    if(!num_values_fit((*biases)[bias_idx], num_biases)) {
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
-- 
2.43.0


From 554579e9d2dc09c421de54b827911f7e0ae72233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 16/59] fix: truncated reference data was released with free()
 and left the file open

---
 pico-cnn/io/read_binary_reference_data.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..6eda217 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -102,7 +102,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -199,7 +200,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
-- 
2.43.0


From 86078170e64c663f7f360e15376c9d51563ccd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 17/59] fix: a missing reference data file passed a null
 pointer to fclose

---
 pico-cnn/io/read_binary_reference_data.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 6eda217..5c5b6e5 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -132,6 +132,9 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
@@ -230,6 +233,9 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
-- 
2.43.0


From 9b4a2fe85dea4a111cd1b82b181d18583e43bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 18/59] fix: a means file with missing values was reported as
 read

---
 pico-cnn/io/read_means.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pico-cnn/io/read_means.cpp b/pico-cnn/io/read_means.cpp
index eb0b9f9..f8486a6 100644
--- a/pico-cnn/io/read_means.cpp
+++ b/pico-cnn/io/read_means.cpp
@@ -25,14 +25,14 @@ int32_t read_means(const char* path_to_means_file, fp_t* means) {
         //fread(means, sizeof(fp_t), 3, means_file);
 
         fp_t mean;
-        fscanf(means_file, "%a\n", &mean);
-        means[0] = mean;
-
-        fscanf(means_file, "%a\n", &mean);
-        means[1] = mean;
-
-        fscanf(means_file, "%a\n", &mean);
-        means[2] = mean;
+        for(uint32_t i = 0; i < 3; i++) {
+            if(fscanf(means_file, "%a\n", &mean) != 1) {
+                PRINT_ERROR("Failed to read mean value.")
+                fclose(means_file);
+                return 1;
+            }
+            means[i] = mean;
+        }
 
         fclose(means_file);
 
-- 
2.43.0


From e92b72ae49ae7c2f40910ba410af5ae4c5fb7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 19/59] fix: label lists ignored the requested count and
 overflowed, split or cut lines

---
 pico-cnn/io/read_imagenet_labels.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..8dc2270 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,20 +6,30 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = nullptr;
 
-        char buffer[255];
-        int32_t i = 0;
-        int32_t label_length;
+        uint32_t i = 0;
+        uint32_t capacity = 0;
 
-        while(fgets(buffer, 255, labels_file)) {
-            label_length = strlen(buffer);
-            (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
-            strncpy((*imagenet_labels)[i], buffer, label_length-1);
-            (*imagenet_labels)[i][label_length-1] = '\0';
+        char* label = nullptr;
+        size_t label_size = 0;
+        ssize_t label_length;
+
+        while(i < num_labels && (label_length = getline(&label, &label_size, labels_file)) != -1) {
+            if(label_length > 0 && label[label_length-1] == '\n') {
+                label_length--;
+            }
+            if(i == capacity) {
+                capacity = capacity ? 2*capacity : 1000;
+                (*imagenet_labels) = (char**) realloc(*imagenet_labels, capacity*sizeof(char*));
+            }
+            (*imagenet_labels)[i] = (char*) malloc((label_length+1)*sizeof(char));
+            memcpy((*imagenet_labels)[i], label, label_length);
+            (*imagenet_labels)[i][label_length] = '\0';
             i++;
         }
 
+        free(label);
         fclose(labels_file);
         return i;
     }
-- 
2.43.0


From 8dee902b00b829eafbd1d9ec93b39b92d70fe65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 20/59] fix: validation labels ended one early and read
 uninitialised digits

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..c00e9e9 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -9,12 +9,13 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
         (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
 
         char buffer[255];
-        char label_buffer[6];
         uint32_t i = 1;
 
-        while(fgets(buffer, 255, labels_file) && i < num_labels) {
-            memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
-            (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
+        while(i <= num_labels && fgets(buffer, 255, labels_file)) {
+            if(strlen(buffer) <= FILE_NAME_LENGTH) {
+                break;
+            }
+            (*imagenet_validation_labels)[i] = (uint32_t) atoi(&buffer[FILE_NAME_LENGTH+1]);
             i++;
         }
 
-- 
2.43.0


From fe73bd9bfc329e6685e4537b5cac1929ebb1112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 21/59] fix: MNIST files which end early yielded invented
 images and labels

---
 pico-cnn/io/read_mnist.cpp | 54 ++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9e458d1..0447bb1 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -15,10 +15,10 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
     images = fopen(path_to_mnist_images, "r");
 
     if(images != nullptr) {
-        uint32_t magic_number;
-        uint32_t num_images_provided;
-        uint32_t height;
-        uint32_t width;
+        uint32_t magic_number = 0;
+        uint32_t num_images_provided = 0;
+        uint32_t height = 0;
+        uint32_t width = 0;
         fp_t range = fabs(lower_bound - upper_bound);
 
         uint32_t i;
@@ -38,7 +38,10 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
         fread(&height, sizeof(height), 1, images);
         height = change_endianess(height);
 
-        fread(&width, sizeof(width), 1, images);
+        if(fread(&width, sizeof(width), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         width = change_endianess(width);
 
         // if there are less images in the dataset than requested reduce
@@ -50,17 +53,26 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
         // allocate pointers for images
         *mnist_images = (fp_t**) malloc(num_images*sizeof(fp_t*));
 
+        // buffer for the pixels of a single image
+        const size_t image_size = (size_t) height*width;
+        uint8_t* buffer = (uint8_t*) malloc(image_size);
+        if(buffer == nullptr) {
+            num_images = 0;
+        }
+
         // start reading images
         for(i = 0; i < num_images; i++) {
 
+            // stop at the first image which is not completely contained in the file
+            if(fread(buffer, 1, image_size, images) != image_size) {
+                break;
+            }
+
             // allocate memory for single image
             (*mnist_images)[i] = (fp_t*) malloc((width+2*padding)*(height+2*padding)*sizeof(fp_t));
 
             uint32_t row, column;
-            uint8_t buffer[width*height];
             // store single image
-            fread(&buffer, 1, height*width, images);
-
             for(row = 0; row < height+2*padding; row++) {
                 for(column = 0; column < width+2*padding; column++) {
                     if(row < padding || row >= height+padding) {
@@ -74,9 +86,15 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             }
         }
 
+        free(buffer);
+        if(i == 0) {
+            free(*mnist_images);
+            *mnist_images = nullptr;
+        }
+
         fclose(images);
 
-        return num_images;
+        return i;
     }
 
     return 0;
@@ -88,8 +106,8 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
     labels = fopen(path_to_mnist_labels, "r");
 
     if(labels != nullptr) {
-        uint32_t magic_number;
-        uint32_t num_labels_provided;
+        uint32_t magic_number = 0;
+        uint32_t num_labels_provided = 0;
 
         uint32_t i;
 
@@ -116,13 +134,21 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         // start reading images
         for(i = 0; i < num_labels; i++) {
-            uint8_t label = getc(labels);
-            (*mnist_labels)[i] = label;
+            int label = getc(labels);
+            if(label == EOF) {
+                break;
+            }
+            (*mnist_labels)[i] = (uint8_t) label;
+        }
+
+        if(i == 0) {
+            free(*mnist_labels);
+            *mnist_labels = nullptr;
         }
 
         fclose(labels);
 
-        return num_labels;
+        return i;
     }
 
     return 0;
-- 
2.43.0


From 266a695f1cb06ac3ce0652c0a470e22eb766bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 22/59] fix: grey map reader lost pixels that look like white
 space and required exactly one short comment

---
 pico-cnn/io/read_pgm.cpp | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..81c92a8 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -1,5 +1,20 @@
 #include "read_pgm.h"
 
+// reads the next number of the header, skips white space and comments
+static bool read_header_value(FILE* pgm_file, uint32_t* value) {
+    while(true) {
+        fscanf(pgm_file, " ");
+        int next = fgetc(pgm_file);
+        if(next != '#') {
+            ungetc(next, pgm_file);
+            return fscanf(pgm_file, "%u", value) == 1;
+        }
+        while(next != '\n' && next != EOF) {
+            next = fgetc(pgm_file);
+        }
+    }
+}
+
 int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, const fp_t lower_bound, const fp_t upper_bound, uint16_t* height, uint16_t* width) {
 
     FILE *pgm_file;
@@ -9,28 +24,33 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         char buffer[100];
 
-        fgets(buffer, 100, pgm_file);
-
-        if(strcmp(buffer,"P5\n") != 0) {
+        if(fgets(buffer, 100, pgm_file) == nullptr || strcmp(buffer,"P5\n") != 0) {
             fclose(pgm_file);
             return 1;
         }
 
-        uint8_t max_gray_value;
-
         fp_t range = fabs(lower_bound - upper_bound);
 
-        // skip comment
-        fgets(buffer, 100, pgm_file);
-        // read dimensions
-        fscanf(pgm_file, "%hu %hu\n", width, height);
-        // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        uint32_t header_width;
+        uint32_t header_height;
+        uint32_t max_gray_value;
+
+        // read dimensions and max gray value
+        if(!read_header_value(pgm_file, &header_width) || !read_header_value(pgm_file, &header_height) ||
+           !read_header_value(pgm_file, &max_gray_value) || header_width > UINT16_MAX || header_height > UINT16_MAX) {
+            fclose(pgm_file);
+            return 1;
+        }
+        *width = (uint16_t) header_width;
+        *height = (uint16_t) header_height;
+
+        // a single white space separates the header from the pixels
+        fgetc(pgm_file);
 
         (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
 
-        uint16_t row, column;
-        uint8_t pixel;
+        uint32_t row, column;
+        int pixel;
 
         for(row = 0; row < (*height)+2*padding; row++) {
             for(column = 0; column < (*width)+2*padding; column++) {
@@ -39,7 +59,13 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
                 } else if(column < padding || column >= (*width)+padding) {
                     (*image)[row*((*width)+2*padding)+column] = lower_bound;
                 } else {
-                    pixel = (uint8_t) fgetc(pgm_file);
+                    pixel = fgetc(pgm_file);
+                    if(pixel == EOF) {
+                        free(*image);
+                        *image = nullptr;
+                        fclose(pgm_file);
+                        return 1;
+                    }
                     (*image)[row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);
                 }
             }
-- 
2.43.0


From 62e1b0d33d974e752ac929a7b98efb222713bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 23/59] fix: grey map writer lost constant images and values
 beyond +-1000

---
 pico-cnn/io/write_pgm.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..0bb436f 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = image[0];
+    fp_t min_gray_value = image[0];
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
@@ -18,7 +18,11 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
         }
     }
 
-    fp_t gray_value_range = fabsf(min_gray_value - max_gray_value);
+    // the range of two finite values may exceed that of fp_t, a constant image has none
+    double gray_value_range = (double) max_gray_value - min_gray_value;
+    if(gray_value_range == 0) {
+        gray_value_range = 1;
+    }
 
     FILE* pgm_file;
     pgm_file = fopen(pgm_path, "w+");
@@ -39,7 +43,7 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     for(row = 0; row < height; row++) {
         for(column = 0; column < width; column++) {
             // normalize
-            uint8_t pixel = (uint8_t) ( ( (image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            uint8_t pixel = (uint8_t) ( ( ((double) image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
             fputc(pixel, pgm_file);
         }
     }
-- 
2.43.0


From 577b872f2314f73507de2359766b7b656360c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 24/59] fix: JPEG rows longer than 65535 bytes were truncated

---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..5338aed 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -14,7 +14,7 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         struct jpeg_error_mgr jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
         cinfo.err = jpeg_std_error(&jerr);
-- 
2.43.0


From 4acdfa5024d2b257d6c8e5b14a99086288507eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 25/59] fix: JPEG reader closed the file before the decoder was
 finished with it

---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index 5338aed..c14bbd3 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -64,9 +64,9 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
                 pos++;
             }
         }
-        fclose(jpeg_file);
         (void) jpeg_finish_decompress(&cinfo);
         jpeg_destroy_decompress(&cinfo);
+        fclose(jpeg_file);
 
         return 0;
     }
-- 
2.43.0


From 3a4406bd56c5a4492d7cefbc6188d5549e31e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 26/59] fix: importer dropped reshapes which only begin like
 their input

---
 onnx_import/backend.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7625688..5e4a338 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -64,18 +64,14 @@ class BackendRep(backend_base.BackendRep):
                             node.inputs[num] = inp
 
             if node.op_type == "Reshape":
-                input_state = constant_states[node.inputs[0]]
-                reshape_state = constant_states[node.inputs[1]]
-                is_nop = False
-                if reshape_state.value is not None:
-                    for i, dim in enumerate(reshape_state.value):
-                        if dim == -1 and i == len(reshape_state.value):
-                            is_nop = True
-                        elif i < len(input_state.shape) and dim == input_state.shape[i]:
-                            is_nop = True
-                        else:
-                            is_nop = False
-                            break
+                # The output has to have exactly the shape of the input
+                input_shape = constant_states[node.inputs[0]].shape
+                output_shape = constant_states[node.outputs[0]].shape
+                is_nop = input_shape is not None and input_shape == output_shape
+
+                # Without any operation left the network would not write its output
+                if graph.is_input(node.inputs[0]) and graph.is_output(node.outputs[0]):
+                    is_nop = False
 
                 if is_nop:
                     removed_input = node.inputs[0]
-- 
2.43.0


From 0c444258f9d324afd22b5805d4e2bc7550767b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 27/59] fix: generated 1D pooling passed arrays shorter than
 the layer reads

---
 .../code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp  | 10 +++++-----
 .../code_templates/pool/pico_cnn_max_pool1d_alloc.cpp  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
index b22c7bc..a38be41 100644
--- a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding, {{count_include_pad}});
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr, {{count_include_pad}});
diff --git a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
index 3b2cb05..a355caf 100644
--- a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding);
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr);
-- 
2.43.0


From 41138852cdbdb94e3ea107727b1a9d363c6ca3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 28/59] fix: factors stored as a tensor with dimensions
 generated invalid code

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 4d8621d..905ff94 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -568,7 +568,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor
+        operation.attributes['factor'] = factor.item()
 
         return operation
 
-- 
2.43.0


From 2b36f687fff699c4901163d028816b4f92ef240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 29/59] fix: average pooling without pads attribute stopped the
 importer

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 905ff94..8a180af 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -655,7 +655,7 @@ class AveragePool1D(BaseLayer):
 
         kernel_stride = attrs["strides"]
 
-        padding = attrs["pads"]
+        padding = attrs.get("pads", (0, 0))
         padding_needed = False
         for num in padding:
             if num != 0:
-- 
2.43.0


From f634db3019911a42e26923b2788e5d1002ff401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 30/59] fix: a tensor used for several inputs of a layer was
 written to the weights file once

The reader expects one entry per input, an entry of size zero for a tensor
already stored.
---
 onnx_import/backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 5e4a338..2f75850 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -164,7 +164,10 @@ class BackendRep(backend_base.BackendRep):
             else:
                 continue
 
-            for num, input in enumerate(node.input_tensors):
+            # A tensor may serve as several inputs, each of them has its own entry in the file
+            tensor_inputs = [input for input in node.inputs if input in node.input_tensors]
+
+            for num, input in enumerate(tensor_inputs):
 
                 if input in buffers_written:
                     write_buffer = False
@@ -261,7 +264,7 @@ class BackendRep(backend_base.BackendRep):
 
                 # This handles the case that no bias values are available in the onnx file.
                 # So we need to add num_biases = 0 into the binary file.
-                if len(node.input_tensors) == 1 and node.op_type != "Add":
+                if len(tensor_inputs) == 1 and node.op_type != "Add":
                     # print("No biases in onnx file.")
                     weights_packed.append(struct.pack('i', 0))
 
-- 
2.43.0


From ba68d3bbde666b50951708a1b66b2f42996ec54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 31/59] fix: Gather without axis attribute stopped the importer

The attribute is optional, its default is 0.
---
 onnx_import/constprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/constprop.py b/onnx_import/constprop.py
index 1d7776b..b74a937 100644
--- a/onnx_import/constprop.py
+++ b/onnx_import/constprop.py
@@ -267,7 +267,7 @@ def constant_propagation(graph):
         elif node.op_type == 'Gather':
             data = node.inputs[0]
             indices = node.inputs[1]
-            axis = attrs['axis']
+            axis = attrs.get('axis', 0)
             
             data_state, data_shape = state_dict[data]
             index_state, index_shape = state_dict[indices]
-- 
2.43.0


From b1850d7f6c05ad5a5509294e5fbb5f1b43229531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 32/59] fix: constants with several elements in a Concat
 stopped the importer

'None not in list' compares the arrays of the list with None, which has no
truth value for arrays of more than one element.
---
 onnx_import/constprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/constprop.py b/onnx_import/constprop.py
index b74a937..3d193f8 100644
--- a/onnx_import/constprop.py
+++ b/onnx_import/constprop.py
@@ -302,7 +302,7 @@ def constant_propagation(graph):
             out = ConstPropState(None, input_shapes[0] if None not in input_shapes else None)
 
             # TODO: Is this first case even possible? If not, remove it!
-            if None not in input_states:
+            if all(state is not None for state in input_states):
                 res = np.concatenate(input_states, axis=axis)
                 out = ConstPropState(res, res.shape)
             else:
-- 
2.43.0


From fcf233df90e92e75dc3c98c2907c1dbfe507b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 33/59] fix: Unsqueeze was dropped although the following
 layers read its output shape

Additions, concatenations and reshapes behind an Unsqueeze were refused, and
an Unsqueeze ending the network left its output unwritten.
---
 onnx_import/backend.py  | 12 ------------
 onnx_import/pico_cnn.py | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 2f75850..9e287b9 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -51,18 +51,6 @@ class BackendRep(backend_base.BackendRep):
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-            if node.op_type == "Unsqueeze":
-                inp = node.inputs[0]
-                out = node.outputs[0]
-
-                print("Removing nop", node.name)
-                graph.nodes.remove(node)
-
-                for node in graph.nodes:
-                    for num, input in enumerate(node.inputs):
-                        if input == out:
-                            node.inputs[num] = inp
-
             if node.op_type == "Reshape":
                 # The output has to have exactly the shape of the input
                 input_shape = constant_states[node.inputs[0]].shape
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 8a180af..380bd74 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1159,6 +1159,40 @@ class Squeeze(BaseLayer):
 OperationRegistry.register(Squeeze)
 
 
+class Unsqueeze(BaseLayer):
+    """
+    Insert single-dimensional entries into the shape of a tensor.
+    """
+    name = "UnsqueezeGeneric"
+    operator = "Unsqueeze"
+    template_file_declaration = "empty.cpp"
+    template_file_allocation = "empty.cpp"
+    template_file_execution = "tensor_operations/pico_cnn_squeeze.cpp"
+    template_file_deletion = "empty.cpp"
+
+    @classmethod
+    def create(cls, node, graph, memory_manager):
+        """
+        Derive necessary information from ComputeNode, ComputeGraph and MemoryManager to generate the layer code.
+        :param node: ComputeNode object of a CNN layer
+        :param graph: ComputeGraph object of the CNN
+        :param memory_manager: MemoryManager object containing information about input and output buffers.
+        :return:
+        """
+        attrs = node.attrs
+        input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
+        output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
+
+        operation = cls(node, graph)
+        operation.attributes['input_buffer'] = input_buffer
+        operation.attributes['output_buffer'] = output_buffer
+
+        return operation
+
+
+OperationRegistry.register(Unsqueeze)
+
+
 class Pad(BaseLayer):
     name = "PicoCNNPad"
     operator = "Pad"
-- 
2.43.0


From 66b08a4357854772c9498338a4d8a07289f5fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 34/59] fix: transposed operands of Gemm were ignored

The check of transA and transB looked for misspelled attributes, so networks
were generated which computed another product. The layer implements
transA = 0 and transB = 1, everything else is refused.
---
 onnx_import/pico_cnn.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 380bd74..f7d22db 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -224,14 +224,12 @@ class FullyConnected(BaseLayer):
             if node.attrs['beta'] != 1.0:
                 print("ERROR: Generation of Gemm layer aborted: beta = {}".format(node.attrs['beta']))
                 return None
-        if 'tranA' in node.attrs:
-            if node.attrs['transA'] != 0:
-                print("ERROR: Generation of Gemm layer aborted: tranA = {}".format(node.attrs['tranA']))
-                return None
-        if 'tranB' in node.attrs:
-            if node.attrs['transB'] != 1:
-                print("ERROR: Generation of Gemm layer aborted: tranB = {}".format(node.attrs['tranB']))
-                return None
+        if node.attrs.get('transA', 0) != 0:
+            print("ERROR: Generation of Gemm layer aborted: transA = {}".format(node.attrs['transA']))
+            exit(1)
+        if node.attrs.get('transB', 0) != 1:
+            print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
+            exit(1)
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From 1b0d3dc8477f94ee38981e8dbbb9b2eff1d93ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 35/59] fix: Gemm with a bias of another shape than one value
 per output

A bias which has to be broadcast was read past its end, one with two
dimensions did not match the layout of the weights file.
---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index f7d22db..43585fc 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -238,6 +238,11 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        # The layer adds one value per output
+        if bias_buffer and tuple(bias_buffer.shape) != (output_buffer.shape[1],):
+            print("ERROR: Unsupported bias shape for Gemm layer: {}".format(bias_buffer.shape))
+            exit(1)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From fa3d601dbda338880f3591bb69201690dbba836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 36/59] fix: MatMul of tensors which are not matrices computed
 one product only

The layer multiplies two matrices. For stacks of matrices the rest of the
output was left zero.
---
 onnx_import/pico_cnn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 43585fc..a0833d3 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -522,8 +522,10 @@ class MatMul(BaseLayer):
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
-        input_size = reduce_mult(input_buffer.shape)
-        output_size = reduce_mult(output_buffer.shape)
+        if len(input_buffer.shape) != 2 or len(weight_buffer.shape) != 2:
+            print("ERROR: MatMul is only supported for matrices, not for {} x {}".format(input_buffer.shape,
+                                                                                         weight_buffer.shape))
+            exit(1)
 
         operation = cls(node, graph)
 
-- 
2.43.0


From 303f8ff9dc6f7e0572915754e3b55d2404a3205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 37/59] fix: Add accepted vectors and matrices of different
 size

The generated code reads as many elements from every input as the output
has. Only inputs which differ in dimensions of size one can be added without
broadcasting.
---
 onnx_import/pico_cnn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index a0833d3..0017f6f 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1018,7 +1018,8 @@ class Add(BaseLayer):
         input_shapes = [b.shape for b in input_buffers]
         for shape in input_shapes:
             if shape != input_shapes[0]:
-                if len(input_shapes[0]) <= 2 and len(shape) <= 2:
+                if len(input_shapes[0]) <= 2 and len(shape) <= 2 and \
+                        reduce_mult(shape) == reduce_mult(input_shapes[0]):
                     print("Broadcasting, but it still works without doing anything...")
                 else:
                     # TODO: This needs a better solution!!!
-- 
2.43.0


From 28820e67f94e3d87c2a707fb7f407a499d51a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 38/59] fix: constants with several dimensions in an Add did
 not match the weights file

The weights file holds vectors for this layer, other constants were written
in a layout which the reader takes for something else.
---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 0017f6f..b66e0e3 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1026,6 +1026,11 @@ class Add(BaseLayer):
                     print("Broadcasting is not supported for add operation")
                     exit(1)
 
+        for tensor in node.input_tensors.values():
+            if len(tensor.shape) != 1:
+                print("ERROR: Only vectors can be added as constants, not shape {}".format(tensor.shape))
+                exit(1)
+
         operation = cls(node, graph)
         operation.attributes['name'] = node.name
         operation.attributes['input_buffers'] = input_buffers
-- 
2.43.0


From 417f9cabefdb5c9a7042ce123f21734147380973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 39/59] fix: dilations of convolutions were ignored

Networks with dilated convolutions were generated as if the kernel was
dense, and read past the end of the input.
---
 onnx_import/pico_cnn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index b66e0e3..2303b83 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -87,7 +87,9 @@ class Conv2D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        if any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("ERROR: Dilated convolution is not supported: {}".format(attrs["dilations"]))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
@@ -152,7 +154,9 @@ class Conv1D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        if any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("ERROR: Dilated convolution is not supported: {}".format(attrs["dilations"]))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
-- 
2.43.0


From d2a3195054364ed3d5244f93a513517879a582ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 40/59] fix: auto_pad, ceil_mode and dilations of pooling
 layers were ignored

The generated layers use the pads attribute, round down and have dense
kernels, so such networks computed something else.
---
 onnx_import/pico_cnn.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2303b83..1abbbb2 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -14,6 +14,24 @@ template_env = Environment(loader=FileSystemLoader(template_dir))
 __author__ = "Christoph Gerum, Alexander Jung (University of Tuebingen, Chair for Embedded Systems)"
 
 
+def check_pooling_attributes(node):
+    """
+    Abort code generation if a pooling operation uses attributes that are not supported.
+    :param node: ComputeNode object of a pooling layer
+    """
+    if node.attrs.get("auto_pad", b"NOTSET") != b"NOTSET":
+        print("ERROR: {} auto padding is currently not supported".format(node.name))
+        exit(1)
+
+    if node.attrs.get("ceil_mode", 0) != 0:
+        print("ERROR: {} ceil_mode is currently not supported".format(node.name))
+        exit(1)
+
+    if any(dilation != 1 for dilation in node.attrs.get("dilations", [])):
+        print("ERROR: {} dilated pooling is not supported".format(node.name))
+        exit(1)
+
+
 class BaseLayer(object):
     """
     Base layer class to inherit from. Operator implementations see below.
@@ -287,6 +305,8 @@ class MaxPool2D(BaseLayer):
         """
         attrs = node.attrs
 
+        check_pooling_attributes(node)
+
         # assert tuple(attrs["pads"]) == (0, 0)  # TODO Check if we need this assertion
 
         kernel_shape = attrs["kernel_shape"]
@@ -344,6 +364,8 @@ class MaxPool1D(BaseLayer):
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
 
+        check_pooling_attributes(node)
+
         kernel_shape = attrs["kernel_shape"]
         if not (len(kernel_shape) == 1):
             print("{} is not a 1DMaxPool".format(node.name))
@@ -597,6 +619,8 @@ class AveragePool2D(BaseLayer):
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
 
+        check_pooling_attributes(node)
+
         kernel_shape = attrs['kernel_shape']
 
         if not len(kernel_shape) == 2:
@@ -653,6 +677,8 @@ class AveragePool1D(BaseLayer):
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
 
+        check_pooling_attributes(node)
+
         kernel_shape = attrs["kernel_shape"]
 
         if not (len(kernel_shape) == 1 or (len(kernel_shape) == 2 and kernel_shape[1] == 1)):
-- 
2.43.0


From f67276e7e1ca0631ce88ef83ab065c6b9b965cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 41/59] fix: Softmax ignored its axis

The layer normalizes over all elements of its input. Models which normalize
parts of it separately are refused now.
---
 onnx_import/pico_cnn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 1abbbb2..19e8e1d 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1108,6 +1108,12 @@ class Softmax(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        # The layer normalizes over all elements, so there must be one distribution only
+        axis = attrs.get("axis", 1)
+        if reduce_mult(input_buffers[0].shape[:axis]) != 1:
+            print("ERROR: Softmax along axis {} is not supported for shape {}".format(axis, input_buffers[0].shape))
+            exit(1)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 5f9448ac7210dd31a482414813e181ae136ced44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 42/59] fix: LRN of even size was generated with a window of
 size + 1 channels

The layer sums up n/2 channels on both sides, which is one channel more than
the onnx operator for even sizes.
---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 19e8e1d..9530b43 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1153,6 +1153,11 @@ class LocalResponseNormalization(BaseLayer):
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        # For even sizes onnx sums up one channel less than the layer does
+        if attrs["size"] % 2 == 0:
+            print("ERROR: LRN is only supported for odd sizes, not for {}".format(attrs["size"]))
+            exit(1)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 19863942e8f0a91ec5eb5a14dfbba9316ae5b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 43/59] fix: layers with only some constant parameters were
 misread from the weights file

An entry of the weights file does not say which parameters it holds. With,
for example, a computed kernel and a constant bias the reader took the bias
for the kernel and wrote past the kernel array.
---
 onnx_import/backend.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 9e287b9..8dedb31 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -125,6 +125,13 @@ class BackendRep(backend_base.BackendRep):
 
         ops_to_ignore = ['Reshape', 'Mul']
 
+        # Dimensions of the parameters as stored in the weights file for each operation
+        layouts = {'Conv': [[3], [3, 1], [4], [4, 1]],
+                   'BatchNormalization': [[1, 1, 1, 1]],
+                   'Gemm': [[2], [2, 1]],
+                   'MatMul': [[2]],
+                   'Add': [[1]]}
+
         buffers_written = []
 
         packed_file = list(bytes())
@@ -155,6 +162,12 @@ class BackendRep(backend_base.BackendRep):
             # A tensor may serve as several inputs, each of them has its own entry in the file
             tensor_inputs = [input for input in node.inputs if input in node.input_tensors]
 
+            # The reader expects these dimensions, it cannot tell which of the parameters is missing
+            dimensions = [len(node.input_tensors[input].shape) for input in tensor_inputs]
+            if node.op_type in layouts and dimensions not in layouts[node.op_type]:
+                print("ERROR: Unsupported parameters for layer {}, operation {}".format(node.name, node.op_type))
+                exit(1)
+
             for num, input in enumerate(tensor_inputs):
 
                 if input in buffers_written:
-- 
2.43.0


From 5d8bd76d63256b42a2ec2f38e1d7627705a55bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 44/59] fix: generated programs overflowed a buffer with long
 paths

---
 onnx_import/code_templates/main_program/dummy_input.cpp  | 3 +--
 .../code_templates/main_program/reference_input.cpp      | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 9d50311..0112dce 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -24,8 +24,7 @@ int32_t main(int32_t argc, char** argv) {
 
     std::srand(std::time(0));
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
     int32_t RUNS = atoi(argv[2]);
 
diff --git a/onnx_import/code_templates/main_program/reference_input.cpp b/onnx_import/code_templates/main_program/reference_input.cpp
index 1a6bfa6..45289f0 100644
--- a/onnx_import/code_templates/main_program/reference_input.cpp
+++ b/onnx_import/code_templates/main_program/reference_input.cpp
@@ -20,14 +20,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
-    char sample_input_path[1024];
-    strcpy(sample_input_path, argv[2]);
+    const char *sample_input_path = argv[2];
 
-    char sample_output_path[1024];
-    strcpy(sample_output_path, argv[3]);
+    const char *sample_output_path = argv[3];
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From 2b4c7e177025116c9f5d2a091f20da8aca3f9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 45/59] fix: batch size was set on the first constant when
 constants are listed first

---
 onnx_import/onnx_to_pico_cnn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_import/onnx_to_pico_cnn.py b/onnx_import/onnx_to_pico_cnn.py
index e7a5494..859b1b6 100644
--- a/onnx_import/onnx_to_pico_cnn.py
+++ b/onnx_import/onnx_to_pico_cnn.py
@@ -13,8 +13,10 @@ __author__ = "Christoph Gerum, Alexander Jung (University of Tuebingen, Chair fo
 def onnx_to_pico_cnn(onnx_model, model_name):
 
     # print(onnx_model.graph)
-    # Set input batch size to 1
-    onnx_model.graph.input[0].type.tensor_type.shape.dim[0].dim_value = 1
+    # Set input batch size to 1. The constants may be listed among (and ahead of) the inputs.
+    constants = [tensor.name for tensor in onnx_model.graph.initializer]
+    data_inputs = [graph_input for graph_input in onnx_model.graph.input if graph_input.name not in constants]
+    data_inputs[0].type.tensor_type.shape.dim[0].dim_value = 1
     onnx_model.graph.output[0].type.tensor_type.shape.dim[0].dim_param = "?"
     # onnx_model.graph.output[0].type.tensor_type.shape.dim[0].dim_value = 1
     # inputs = onnx_model.graph.input
-- 
2.43.0


From acf434768921435378a399f7a51b94ce13154092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:52 +0000
Subject: [PATCH 46/59] fix: convolutions with 65536 groups lost output
 channels

---
 pico-cnn/layers/convolution.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 94bf94b..d22e3b8 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -67,15 +67,15 @@ namespace pico_cnn {
             for (uint32_t batch = 0; batch < num_batches; batch++) {
 
                 for (uint32_t g = 0; g < num_groups_; g++) {
-                    for (uint32_t i = g * num_output_channels / num_groups_;
-                         i < (g + 1) * num_output_channels / num_groups_; i++) {
+                    for (uint32_t i = g * (num_output_channels / num_groups_);
+                         i < (g + 1) * (num_output_channels / num_groups_); i++) {
 
                         if (input_tensor->num_dimensions() == 4) {
-                            this->convolve(input_tensor, output, g * num_input_channels / num_groups_, i, 0,
+                            this->convolve(input_tensor, output, g * (num_input_channels / num_groups_), i, 0,
                                            num_input_channels, input_height, input_width,
                                            num_output_channels, output_height, output_width, num_kernel_input_channel);
                         } else if (input_tensor->num_dimensions() == 3) {
-                            this->convolve_1d(input_tensor, output, g * num_input_channels / num_groups_, i, 0,
+                            this->convolve_1d(input_tensor, output, g * (num_input_channels / num_groups_), i, 0,
                                            num_input_channels, input_width,
                                            num_output_channels, output_width, num_kernel_input_channel);
                         }
@@ -84,7 +84,7 @@ namespace pico_cnn {
                         if (num_input_channels > num_groups_) {
                             uint32_t cnt = 1;
 
-                            for (uint32_t j = g * num_input_channels / num_groups_ + 1;
+                            for (uint32_t j = g * (num_input_channels / num_groups_) + 1;
                                  j < (g + 1) * (num_input_channels / num_groups_); j++) {
 
 
-- 
2.43.0


From 9d267ca7b4c277b4b9411f50342f3fa31766abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 47/59] fix: example programs overflowed their path buffers

---
 examples/alexnet.cpp                 | 13 ++++---------
 examples/lenet.cpp                   | 11 ++++-------
 examples/mnist_mlp.cpp               | 11 ++++-------
 examples/mnist_simple_perceptron.cpp | 11 ++++-------
 examples/vgg.cpp                     | 13 ++++---------
 5 files changed, 20 insertions(+), 39 deletions(-)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index 350fa1f..e2e7c84 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -55,15 +55,10 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char means_path[1024];
-    char labels_path[1024];
-    char jpeg_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(means_path, argv[2]);
-    strcpy(labels_path, argv[3]);
-    strcpy(jpeg_path, argv[4]);
+    const char* weights_path = argv[1];
+    const char* means_path = argv[2];
+    const char* labels_path = argv[3];
+    const char* jpeg_path = argv[4];
 
     uint32_t i;
 
diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index b3c7637..cd8fa9e 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -49,16 +49,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char mnist_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(mnist_path, argv[2]);
+    const char* weights_path = argv[1];
+    const char* mnist_path = argv[2];
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 20];
+    char t10k_images_path[strlen(mnist_path) + sizeof("/t10k-images.idx3-ubyte")];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -76,7 +73,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 20];
+    char t10k_labels_path[strlen(mnist_path) + sizeof("/t10k-labels.idx1-ubyte")];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index de4cf1b..ff585c2 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -48,16 +48,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char mnist_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(mnist_path, argv[2]);
+    const char* weights_path = argv[1];
+    const char* mnist_path = argv[2];
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 20];
+    char t10k_images_path[strlen(mnist_path) + sizeof("/t10k-images.idx3-ubyte")];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -75,7 +72,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 20];
+    char t10k_labels_path[strlen(mnist_path) + sizeof("/t10k-labels.idx1-ubyte")];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index b424eaf..dd27399 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -48,16 +48,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char mnist_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(mnist_path, argv[2]);
+    const char* weights_path = argv[1];
+    const char* mnist_path = argv[2];
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 20];
+    char t10k_images_path[strlen(mnist_path) + sizeof("/t10k-images.idx3-ubyte")];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -75,7 +72,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 20];
+    char t10k_labels_path[strlen(mnist_path) + sizeof("/t10k-labels.idx1-ubyte")];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index 631fd5a..d2cf8b9 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -55,15 +55,10 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char means_path[1024];
-    char labels_path[1024];
-    char jpeg_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(means_path, argv[2]);
-    strcpy(labels_path, argv[3]);
-    strcpy(jpeg_path, argv[4]);
+    const char* weights_path = argv[1];
+    const char* means_path = argv[2];
+    const char* labels_path = argv[3];
+    const char* jpeg_path = argv[4];
 
     uint32_t i;
 
-- 
2.43.0


From 5b75fcfd74a14114a5240130e5647643a87d898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 48/59] fix: MNIST examples evaluated 1000 images although
 fewer were read

---
 examples/lenet.cpp                   | 6 +++---
 examples/mnist_mlp.cpp               | 6 +++---
 examples/mnist_simple_perceptron.cpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index cd8fa9e..c283316 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -125,7 +125,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -160,7 +160,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
         free(t10k_images[i]);
     }
 
@@ -171,7 +171,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
 
     #ifdef INFO
 
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index ff585c2..1496983 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -124,7 +124,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -159,7 +159,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
         free(t10k_images[i]);
     }
 
@@ -170,7 +170,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
 
     #ifdef INFO
 
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index dd27399..4a5ca12 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -124,7 +124,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -159,7 +159,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
         free(t10k_images[i]);
     }
 
@@ -170,7 +170,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
 
     #ifdef INFO
 
-- 
2.43.0


From 77290a85cfb1d6df447decddeaaf635f45dc5684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 49/59] fix: MNIST examples printed one digit of the error rate

---
 examples/lenet.cpp                   | 2 ++
 examples/mnist_mlp.cpp               | 2 ++
 examples/mnist_simple_perceptron.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index c283316..cb65d35 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -146,11 +146,13 @@ int32_t main(int32_t argc, char** argv) {
         #ifdef DEBUG
         if(i == 0) {
 
+            const std::streamsize precision = std::cout.precision();
             std::cout << std::setprecision(1);
             PRINT_DEBUG(*output_tensor)
             PRINT_DEBUG(*input_tensor)
             std::cout << std::setprecision(0);
             PRINT_DEBUG("Prediction: " << label);
+            std::cout << std::setprecision(precision);
         }
         #endif
 
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index 1496983..7a3253a 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -145,11 +145,13 @@ int32_t main(int32_t argc, char** argv) {
         #ifdef DEBUG
         if(i == 0) {
 
+            const std::streamsize precision = std::cout.precision();
             std::cout << std::setprecision(1);
             PRINT_DEBUG(*output_tensor)
             PRINT_DEBUG(*input_tensor)
             std::cout << std::setprecision(0);
             PRINT_DEBUG("Prediction: " << label);
+            std::cout << std::setprecision(precision);
         }
         #endif
 
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index 4a5ca12..ec52a40 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -145,11 +145,13 @@ int32_t main(int32_t argc, char** argv) {
         #ifdef DEBUG
         if(i == 0) {
 
+            const std::streamsize precision = std::cout.precision();
             std::cout << std::setprecision(1);
             PRINT_DEBUG(*output_tensor)
             PRINT_DEBUG(*input_tensor)
             std::cout << std::setprecision(0);
             PRINT_DEBUG("Prediction: " << label);
+            std::cout << std::setprecision(precision);
         }
         #endif
 
-- 
2.43.0


From a4cba38f387ae889d8a3bdc053f0abff2ff73f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 50/59] fix: ImageNet examples overflowed or left input unset
 for images of other size

---
 examples/alexnet.cpp | 5 +++++
 examples/vgg.cpp     | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index e2e7c84..95898bd 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -108,6 +108,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
+        PRINT_ERROR("Image has to be " << IMAGE_SIZE << "x" << IMAGE_SIZE << " pixels but is " << width << "x" << height)
+        return 1;
+    }
+
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index d2cf8b9..c286f25 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -106,6 +106,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
+        PRINT_ERROR("Image has to be " << IMAGE_SIZE << "x" << IMAGE_SIZE << " pixels but is " << width << "x" << height)
+        return 1;
+    }
+
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
@@ -117,7 +122,7 @@ int32_t main(int32_t argc, char** argv) {
 
     for(i = 0; i < 3; i++) {
         for(row = 0; row < height; row++) {
-            for(column = 0; column < height; column++) {
+            for(column = 0; column < width; column++) {
                 input[i][row*width+column] = pre_mean_input[i][row*width+column] - means[i];
             }
         }
-- 
2.43.0


From f5bb1a88d7e4dd811e4e0ceae7cb936a30c28b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 51/59] fix: reference data of audio files had the wrong width
 in the header

---
 util/generate_reference_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 283997d..78587be 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -108,9 +108,9 @@ def main():
 
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
         packed_input.append(struct.pack('i', input_shape[0]))  # Number of batches
-        packed_input.append(struct.pack('i', input_shape[1]))  # Number of channels
-        packed_input.append(struct.pack('i', 1))  # Channel height
-        packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
+        packed_input.append(struct.pack('i', input_shape[1] if len(input_shape) > 2 else 1))  # Number of channels
+        packed_input.append(struct.pack('i', input_shape[2] if len(input_shape) > 3 else 1))  # Channel height
+        packed_input.append(struct.pack('i', input_shape[-1]))  # Channel width
         packed_input.append(struct.pack('f' * len(input_data), *input_data))  # Data
 
         tupac = bytes("end\n", "ascii")
-- 
2.43.0


From d408ee13c04e75602bc2bdebfa01b572c1a3bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 52/59] fix: reference data of JPEG files mixed up the colour
 channels

---
 util/generate_reference_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 78587be..09fc2b6 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -136,6 +136,9 @@ def main():
     elif file_type == 'image/jpeg':
         input_data = imageio.imread(input_file)
         input_data = np.array(input_data, dtype=float)
+        if input_data.ndim == 3:
+            # (height, width, channels) -> (channels, height, width)
+            input_data = input_data.transpose(2, 0, 1)
         input_data = input_data.astype(np.float32)
 
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
-- 
2.43.0


From 8fd4847627b8a829fdb30a6d24b9cb0075c829fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 53/59] Revert "fix: ImageNet examples overflowed or left input
 unset for images of other size"

This reverts commit a4cba38f387ae889d8a3bdc053f0abff2ff73f43.
---
 examples/alexnet.cpp | 5 -----
 examples/vgg.cpp     | 7 +------
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index 95898bd..e2e7c84 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -108,11 +108,6 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
-        PRINT_ERROR("Image has to be " << IMAGE_SIZE << "x" << IMAGE_SIZE << " pixels but is " << width << "x" << height)
-        return 1;
-    }
-
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index c286f25..d2cf8b9 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -106,11 +106,6 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
-        PRINT_ERROR("Image has to be " << IMAGE_SIZE << "x" << IMAGE_SIZE << " pixels but is " << width << "x" << height)
-        return 1;
-    }
-
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
@@ -122,7 +117,7 @@ int32_t main(int32_t argc, char** argv) {
 
     for(i = 0; i < 3; i++) {
         for(row = 0; row < height; row++) {
-            for(column = 0; column < width; column++) {
+            for(column = 0; column < height; column++) {
                 input[i][row*width+column] = pre_mean_input[i][row*width+column] - means[i];
             }
         }
-- 
2.43.0


From 12a2ecb949d0f6bb80eec7d194e901e57dae8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 54/59] Revert "fix: MNIST examples printed one digit of the
 error rate"

This reverts commit 77290a85cfb1d6df447decddeaaf635f45dc5684.
---
 examples/lenet.cpp                   | 2 --
 examples/mnist_mlp.cpp               | 2 --
 examples/mnist_simple_perceptron.cpp | 2 --
 3 files changed, 6 deletions(-)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index cb65d35..c283316 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -146,13 +146,11 @@ int32_t main(int32_t argc, char** argv) {
         #ifdef DEBUG
         if(i == 0) {
 
-            const std::streamsize precision = std::cout.precision();
             std::cout << std::setprecision(1);
             PRINT_DEBUG(*output_tensor)
             PRINT_DEBUG(*input_tensor)
             std::cout << std::setprecision(0);
             PRINT_DEBUG("Prediction: " << label);
-            std::cout << std::setprecision(precision);
         }
         #endif
 
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index 7a3253a..1496983 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -145,13 +145,11 @@ int32_t main(int32_t argc, char** argv) {
         #ifdef DEBUG
         if(i == 0) {
 
-            const std::streamsize precision = std::cout.precision();
             std::cout << std::setprecision(1);
             PRINT_DEBUG(*output_tensor)
             PRINT_DEBUG(*input_tensor)
             std::cout << std::setprecision(0);
             PRINT_DEBUG("Prediction: " << label);
-            std::cout << std::setprecision(precision);
         }
         #endif
 
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index ec52a40..4a5ca12 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -145,13 +145,11 @@ int32_t main(int32_t argc, char** argv) {
         #ifdef DEBUG
         if(i == 0) {
 
-            const std::streamsize precision = std::cout.precision();
             std::cout << std::setprecision(1);
             PRINT_DEBUG(*output_tensor)
             PRINT_DEBUG(*input_tensor)
             std::cout << std::setprecision(0);
             PRINT_DEBUG("Prediction: " << label);
-            std::cout << std::setprecision(precision);
         }
         #endif
 
-- 
2.43.0


From 5cfec81abed5c71532568f34d8b34c2453f07ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 55/59] Revert "fix: MNIST examples evaluated 1000 images
 although fewer were read"

This reverts commit 5b75fcfd74a14114a5240130e5647643a87d898e.
---
 examples/lenet.cpp                   | 6 +++---
 examples/mnist_mlp.cpp               | 6 +++---
 examples/mnist_simple_perceptron.cpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index c283316..cd8fa9e 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -125,7 +125,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -160,7 +160,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
         free(t10k_images[i]);
     }
 
@@ -171,7 +171,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
 
     #ifdef INFO
 
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index 1496983..ff585c2 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -124,7 +124,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -159,7 +159,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
         free(t10k_images[i]);
     }
 
@@ -170,7 +170,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
 
     #ifdef INFO
 
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index 4a5ca12..dd27399 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -124,7 +124,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -159,7 +159,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
         free(t10k_images[i]);
     }
 
@@ -170,7 +170,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
 
     #ifdef INFO
 
-- 
2.43.0


From ed77e1da99eedda25e342adf097c7c0e286129e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 56/59] Revert "fix: example programs overflowed their path
 buffers"

This reverts commit 9d267ca7b4c277b4b9411f50342f3fa31766abd9.
---
 examples/alexnet.cpp                 | 13 +++++++++----
 examples/lenet.cpp                   | 11 +++++++----
 examples/mnist_mlp.cpp               | 11 +++++++----
 examples/mnist_simple_perceptron.cpp | 11 +++++++----
 examples/vgg.cpp                     | 13 +++++++++----
 5 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index e2e7c84..350fa1f 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -55,10 +55,15 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* means_path = argv[2];
-    const char* labels_path = argv[3];
-    const char* jpeg_path = argv[4];
+    char weights_path[1024];
+    char means_path[1024];
+    char labels_path[1024];
+    char jpeg_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(means_path, argv[2]);
+    strcpy(labels_path, argv[3]);
+    strcpy(jpeg_path, argv[4]);
 
     uint32_t i;
 
diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index cd8fa9e..b3c7637 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -49,13 +49,16 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* mnist_path = argv[2];
+    char weights_path[1024];
+    char mnist_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(mnist_path, argv[2]);
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + sizeof("/t10k-images.idx3-ubyte")];
+    char t10k_images_path[strlen(mnist_path) + 20];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -73,7 +76,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + sizeof("/t10k-labels.idx1-ubyte")];
+    char t10k_labels_path[strlen(mnist_path) + 20];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index ff585c2..de4cf1b 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -48,13 +48,16 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* mnist_path = argv[2];
+    char weights_path[1024];
+    char mnist_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(mnist_path, argv[2]);
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + sizeof("/t10k-images.idx3-ubyte")];
+    char t10k_images_path[strlen(mnist_path) + 20];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -72,7 +75,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + sizeof("/t10k-labels.idx1-ubyte")];
+    char t10k_labels_path[strlen(mnist_path) + 20];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index dd27399..b424eaf 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -48,13 +48,16 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* mnist_path = argv[2];
+    char weights_path[1024];
+    char mnist_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(mnist_path, argv[2]);
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + sizeof("/t10k-images.idx3-ubyte")];
+    char t10k_images_path[strlen(mnist_path) + 20];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -72,7 +75,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + sizeof("/t10k-labels.idx1-ubyte")];
+    char t10k_labels_path[strlen(mnist_path) + 20];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index d2cf8b9..631fd5a 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -55,10 +55,15 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* means_path = argv[2];
-    const char* labels_path = argv[3];
-    const char* jpeg_path = argv[4];
+    char weights_path[1024];
+    char means_path[1024];
+    char labels_path[1024];
+    char jpeg_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(means_path, argv[2]);
+    strcpy(labels_path, argv[3]);
+    strcpy(jpeg_path, argv[4]);
 
     uint32_t i;
 
-- 
2.43.0


From d0b4844b17f1486774a23dadb1acb664eccae934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 57/59] fix: keep the operation computing the network output
 when constants are removed

Removing a constant node (such as the Shape of the output, which nothing else
needs) removed its parent as well if no other node reads the parent's output,
even if that is the output of the network, which was then never written.
---
 onnx_import/compute_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_import/compute_graph.py b/onnx_import/compute_graph.py
index 9c5a986..56ecfb5 100644
--- a/onnx_import/compute_graph.py
+++ b/onnx_import/compute_graph.py
@@ -172,7 +172,8 @@ class ComputeGraph(object):
 
         for parent in node.parents:
             parent.children.remove(node)
-            if not parent.children:
+            # An output of the network is needed, even if no other node reads it
+            if not parent.children and not any(self.is_output(output) for output in parent.outputs):
                 self.remove_node(parent)
 
         for child in node.children:
-- 
2.43.0


From 46810555d914d9ae3f053dda0359fc85a8d2f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 58/59] fix: refuse models whose output is a constant

The network generated for such a model ran without writing its output.
---
 onnx_import/backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 8dedb31..cbdbdcc 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -529,6 +529,12 @@ class BackendRep(backend_base.BackendRep):
         self._remove_constants(graph, constant_states)
         self._remove_nops(graph, constant_states)
 
+        # The generated network has no other way of writing its output
+        for output in graph.outputs:
+            if not any(output.name in node.outputs for node in graph.nodes):
+                print("ERROR: Output {} is not computed by any operation".format(output.name))
+                exit(1)
+
         # Add shape information from constant propagation:
         for var, res in constant_states.items():
             if var in graph.shape_dict:
-- 
2.43.0


From 520d09d49423d125a66fb6f441593a9334064505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 59/59] fix: a reshape without effect behind a computed reshape
 stopped the importer

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index cbdbdcc..9dc0f67 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -71,7 +71,7 @@ class BackendRep(backend_base.BackendRep):
                     for num, output in enumerate(graph.outputs):
                         if output.name == removed_output:
                             edge_type = output.type
-                            shape = graph.shape_dict[removed_input]
+                            shape = input_shape
                             new_output = EdgeInfo(removed_input, edge_type, shape)
                             graph.outputs[num] = new_output
 
-- 
2.43.0

