From c3ad1b8e646f832e974078492963a201d09c2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 01/69] fix: a three-operand tensor view uses its third operand

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..b248a37 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 63353a512e0ef5100ee3fb4bf52751d4431f0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 02/69] fix: matrix division multiplies rows by columns of the
 inverse

---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From ea695e4ca8f7f962b022ab616229091e58c9e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/69] fix: full 2d correlation pads by kernel size minus one,
 so kernels larger than 3 keep the input size in back-propagation

---
 .../full_2d_cross_correlation_tensor_view.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..cf4d962 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -15,24 +15,17 @@
 namespace happyml {
 // https://en.wikipedia.org/wiki/Cross-correlation
 // https://en.wikipedia.org/wiki/Two-dimensional_correlation_analysis
-// Having an even number of values in your filter is a little wierd, but I handle it
-// you'll see where I do the rounding, it's so that a 2x2 filter or a 4x4 filter would work.
-// I think most filters are odd numbers because even filters don't make much sense,
-// but I wanted the code to work. The center of your filter is at a halfway point,
-// which is why it's weird.
+// A full correlation places the kernel at every position where it overlaps the tensor at all, so the tensor is
+// padded by one less than the kernel size on each side.
     class Full2DCrossCorrelationTensorView : public Valid2DCrossCorrelationTensorView {
     public:
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                                           kernel->rowCount() - 1,
+                                                           kernel->rowCount() - 1,
+                                                           kernel->columnCount() - 1,
+                                                           kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From 88920848d03120f7d863ddf4a8f81c063f941f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 04/69] fix: wide concatenation refuses operands with different
 channel counts

---
 src/types/tensor_views/concat_wide_tensor_view.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/concat_wide_tensor_view.h b/src/types/tensor_views/concat_wide_tensor_view.h
index 122e68f..bba78b6 100644
--- a/src/types/tensor_views/concat_wide_tensor_view.h
+++ b/src/types/tensor_views/concat_wide_tensor_view.h
@@ -20,6 +20,9 @@ namespace happyml {
                      << endl;
                 throw runtime_error("You can only concatenate two tensors with the same number of rows.");
             }
+            if (tensor1->channelCount() != tensor2->channelCount()) {
+                throw runtime_error("You can only concatenate two tensors with the same number of channels.");
+            }
         }
 
         void printMaterializationPlan() override {
-- 
2.43.0


From fe3a1d939ed10803bfbf88daf98ea167b1f00c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 05/69] fix: outer product refuses operands that are not a
 column and a row vector

---
 src/types/tensor_views/outer_product_tensor_view.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/tensor_views/outer_product_tensor_view.hpp b/src/types/tensor_views/outer_product_tensor_view.hpp
index 2af906c..868eee9 100644
--- a/src/types/tensor_views/outer_product_tensor_view.hpp
+++ b/src/types/tensor_views/outer_product_tensor_view.hpp
@@ -12,7 +12,11 @@ namespace happyml {
     class OuterProductTensorView : public BaseTensorBinaryOperatorView {
     public:
         OuterProductTensorView(const shared_ptr<BaseTensor> &left, const shared_ptr<BaseTensor> &right)
-                : BaseTensorBinaryOperatorView(left, right) {}
+                : BaseTensorBinaryOperatorView(left, right) {
+            if (left->columnCount() != 1 || right->rowCount() != 1 || left->channelCount() != right->channelCount()) {
+                throw runtime_error("The outer product needs a column vector, a row vector and the same number of channels.");
+            }
+        }
 
         void printMaterializationPlan() override {
             cout << "OuterProductTensorView{" << rowCount() << "," << columnCount() << "," << channelCount()
-- 
2.43.0


From dffdb7fee5afb7afa1853d793b37abdad17b8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 06/69] fix: inverting a matrix that is not square is refused
 instead of reading out of bounds

---
 src/types/tensor_views/inverse_tensor_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/inverse_tensor_view.hpp b/src/types/tensor_views/inverse_tensor_view.hpp
index 5359561..b1035bb 100644
--- a/src/types/tensor_views/inverse_tensor_view.hpp
+++ b/src/types/tensor_views/inverse_tensor_view.hpp
@@ -12,6 +12,9 @@ namespace happyml {
 
     // Helper function to compute the inverse of a matrix using the Gauss-Jordan elimination method
     shared_ptr<BaseTensor> inverse_tensor(const shared_ptr<BaseTensor> &tensor) {
+        if (tensor->rowCount() != tensor->columnCount()) {
+            throw runtime_error("Matrix is not invertible: it is not square.");
+        }
         vector<vector<vector<float>>> result;
         for (size_t channel = 0; channel < tensor->channelCount(); channel++) {
             // Create a matrix from the tensor (only one channel
-- 
2.43.0


From daba07c703ac9c1c6a973e0b3faa3cc06f4e3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 07/69] fix: getRowValues reads the requested channel

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index b248a37..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From a7bc69ec1a16b5181be135568b2158d9417524fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 08/69] fix: saving or loading a tensor file reports a file
 that cannot be opened, written or read

---
 src/types/base_tensors.hpp                | 1 +
 src/types/tensor_impls/full_tensor.hpp    | 1 +
 src/types/tensor_impls/half_tensor.hpp    | 1 +
 src/types/tensor_impls/pixel_tensor.hpp   | 1 +
 src/types/tensor_impls/quarter_tensor.hpp | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..170f5ed 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -156,6 +156,7 @@ namespace happyml {
         bool save(const string &fileName) {
             try {
                 ofstream stream;
+                stream.exceptions(ofstream::failbit | ofstream::badbit);
                 stream.open(fileName, std::ofstream::out | ios::binary | ios::trunc);
                 save(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..7a0d15d 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -119,6 +119,7 @@ namespace happyml {
         explicit FullTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/half_tensor.hpp b/src/types/tensor_impls/half_tensor.hpp
index a2b3cb0..6ea4352 100644
--- a/src/types/tensor_impls/half_tensor.hpp
+++ b/src/types/tensor_impls/half_tensor.hpp
@@ -56,6 +56,7 @@ namespace happyml {
         explicit HalfTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/pixel_tensor.hpp b/src/types/tensor_impls/pixel_tensor.hpp
index b3530fd..a9a1eb3 100644
--- a/src/types/tensor_impls/pixel_tensor.hpp
+++ b/src/types/tensor_impls/pixel_tensor.hpp
@@ -78,6 +78,7 @@ namespace happyml {
         explicit PixelTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/quarter_tensor.hpp b/src/types/tensor_impls/quarter_tensor.hpp
index 3f05ab3..0729143 100644
--- a/src/types/tensor_impls/quarter_tensor.hpp
+++ b/src/types/tensor_impls/quarter_tensor.hpp
@@ -59,6 +59,7 @@ namespace happyml {
             this->bias = bias;
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
-- 
2.43.0


From 2e3e51477737d7b9f30c8cb4ba5d17c151cbd31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 09/69] fix: absolute-error losses hand back the sign of the
 error, not its negated value

---
 src/ml/losses/mae_loss.hpp  | 4 +++-
 src/ml/losses/smae_loss.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..6a8b2fe 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -32,7 +33,8 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            auto sign = [](float diff) { return diff > 0.0f ? 1.0f : (diff < 0.0f ? -1.0f : 0.0f); };
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, sign);
             return currentLossDerivative;
         }
     };
diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..2782a05 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,8 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            auto sign = [](float diff) { return diff > 0.0f ? 1.0f : (diff < 0.0f ? -1.0f : 0.0f); };
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, sign);
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From 2ee6a558d05e27299a3ac27b4721c2dac3aaaa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 10/69] fix: softmax passes the cross-entropy derivative
 through instead of scaling it by its input

---
 src/ml/activators/softmax_activation_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..4ec9d6a 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -9,6 +9,7 @@
 #include "../types/tensor_views/value_transform_with_double_tensor_view.hpp"
 #include "../../types/tensor_views/exponential_tensor_view.hpp"
 #include "../../types/tensor_views/scalar_subtract_tensor_view.hpp"
+#include "../../types/tensor_impls/uniform_tensor.hpp"
 
 
 namespace happyml {
@@ -28,7 +29,8 @@ namespace happyml {
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
             // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            // The derivative of that loss already is the derivative of the pair, so it is passed through unchanged.
+            return make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From 33b690fea754f594afebca5dcd4e57cd2ff87703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 11/69] fix: dropout scales predictions by the share of
 elements kept in training

---
 src/ml/layers/dropout_layer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..6591f6c 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -16,7 +16,8 @@ namespace happyml {
             if (dropout_rate < 0.0 || dropout_rate > 1.0) {
                 throw runtime_error("DropoutLayer: dropout rate must be between 0 and 1.");
             }
-            forward_scale_ = 1.0f / (1.0f - dropout_rate_);
+            // training keeps each element with probability (1 - dropout rate) without rescaling it
+            forward_scale_ = 1.0f - dropout_rate_;
             output_shape_ = input_shape_;
         }
 
-- 
2.43.0


From a6c7d3cd3a4fffa66b45df03ee713c2ee081c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 12/69] fix: convolution l2 regularization pulls on the weights
 instead of rescaling their error

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..f6cae00 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -143,7 +143,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From ec9ca711c86fdaf42280c8cbd9a3247e00d85971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 13/69] fix: convolution hands each input channel its own error

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index f6cae00..fa5ee2a 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From fdb9ea8590cf5ef4afa5ca5f3f16748cd97d4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 14/69] fix: flatten also flattens channels and hands the error
 back in the shape of its input

---
 src/ml/layers/flatten_layer.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..ff144f3 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -6,6 +6,7 @@
 #ifndef HAPPYML_FLATTEN_LAYER_HPP
 #define HAPPYML_FLATTEN_LAYER_HPP
 
+#include "../../types/tensor_impls/tensor_from_function.hpp"
 
 namespace happyml {
     class FlattenLayer : public BaseLayer {
@@ -18,7 +19,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +29,22 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount() &&
+                originalChannels == output_error->channelCount()) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            const size_t rows = originalRows;
+            const size_t cols = originalCols;
+            return {make_shared<TensorFromFunction>([output_error, rows, cols](size_t row, size_t col, size_t channel) {
+                return output_error->getValue(0, channel * rows * cols + row * cols + col, 0);
+            }, originalRows, originalCols, originalChannels)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
-- 
2.43.0


From 9c899c4a7bc9334647fdd258e10e92ab302e84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 15/69] fix: convolution filters do not share their optimizer
 state

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index fa5ee2a..a5924d9 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -163,12 +163,17 @@ namespace happyml {
             PROFILE_BLOCK(profileBlock);
 
             const size_t filters = outputShape[2];
+            // every filter is a parameter of its own, so the optimizer must not mix their state
+            while (filter_registration_ids.size() < filters) {
+                filter_registration_ids.push_back(filter_registration_ids.empty() ? registration_id
+                                                                                  : optimizer->registerForWeightChanges());
+            }
             while (!weight_changes.empty()) {
                 vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
                 weight_changes.pop();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
                     auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                    const auto adjustedWeights = optimizer->calculateWeightsChange(filter_registration_ids[outputLayer],
                                                                                    weights[outputLayer],
                                                                                    loss_gradient);
                     weights[outputLayer] = materializeTensor(adjustedWeights, bits);
@@ -194,6 +199,7 @@ namespace happyml {
 
     private:
         int registration_id;
+        vector<int> filter_registration_ids;
         queue<shared_ptr<BaseTensor>> lastInputs; // each input in a batch will queue in order during forward, and deque properly when back-propagating
         queue<vector<shared_ptr<BaseTensor>>> weight_changes;
         vector<shared_ptr<BaseTensor>> weights;
-- 
2.43.0


From 59b2b8be4777d7487fd7a2698c7c6d37d504b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 16/69] fix: the error of one successor is not counted twice
 when several are combined

---
 src/ml/neural_network_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..8374e70 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -244,7 +244,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
-- 
2.43.0


From 39408969ffaa920e357e997b179b62dd88e10a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 17/69] fix: a layer with several successors is applied once
 per batch instead of failing the second time

---
 src/ml/neural_network.hpp      | 3 ++-
 src/ml/neural_network_node.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..a17c2f9 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -488,8 +488,9 @@ namespace happyml {
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
                         size_t currentBatch = ceil(current_record / batchSize);
+                        std::unordered_set<void *> appliedNodes;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-                            outputNodes[outputIndex]->apply(optimizer);
+                            outputNodes[outputIndex]->apply(optimizer, appliedNodes);
                         }
                         batchLoss /= (float) batchOffset;
                         epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 8374e70..b38bb96 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -183,12 +183,16 @@ namespace happyml {
             return clipped;
         }
 
-        void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+        void apply(const shared_ptr<BaseOptimizer> &optimizer, std::unordered_set<void *> &visited) {
+            if (visited.find((void *) this) != visited.end()) {
+                return; // reached before through another successor
+            }
+            visited.insert((void *) this);
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
                 const auto from = conn->from.lock();
-                from->apply(optimizer);
+                from->apply(optimizer, visited);
             }
             saved = false;
         }
-- 
2.43.0


From b62c70f61d5f035b5136f21e294ddd6859856104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 18/69] fix: the maximum elapsed time limits the whole
 training, not one epoch

---
 src/ml/neural_network.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index a17c2f9..bfcd2ef 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -443,7 +443,6 @@ namespace happyml {
                 logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
             size_t epoch = 0;
-            ElapsedTimer epochTimer;
             float epochTrainingLoss;
             float epochTestingLoss;
             int64_t trainingElapsedTimeInMilliseconds;
@@ -556,7 +555,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = totalTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
-- 
2.43.0


From f9672e1eb1154350b98408689548b86fac573848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 19/69] fix: the last partial batch counts as a batch of its
 own in the epoch loss

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index bfcd2ef..7ec12d9 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -486,7 +486,7 @@ namespace happyml {
 
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
-                        size_t currentBatch = ceil(current_record / batchSize);
+                        size_t currentBatch = (current_record + batchSize - 1) / batchSize;
                         std::unordered_set<void *> appliedNodes;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
                             outputNodes[outputIndex]->apply(optimizer, appliedNodes);
-- 
2.43.0


From cf04224e2acec5af97a042a37657d67d4fa7e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 20/69] fix: training does not load a best checkpoint that was
 never saved

---
 src/ml/neural_network.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 7ec12d9..2a31ef8 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -577,7 +577,8 @@ namespace happyml {
             }
             // TODO: this is placeholder code until we actually save and formalize best loss,
             //  but it simulates the future results.
-            if (trainingRetentionPolicy == best) {
+            // without a finite loss there never was a best checkpoint
+            if (trainingRetentionPolicy == best && lowestLoss < INFINITY) {
                 loadKnowledge(knowledgeCheckpointLabel);
                 removeKnowledge(knowledgeCheckpointLabel);
                 return result;
-- 
2.43.0


From c0013a8101a3d8b41db055c558d7cc275be53918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 21/69] fix: standardizing a tensor by its own statistics uses
 the true mean and deviation

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..6b67367 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / (double) (element + 1);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From 66ac92b8567f0dee523a9e0d2b82e20a622b779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 22/69] fix: the normalization layer hands back the derivative
 of its own standardization

---
 src/ml/layers/normalization_layer.hpp         |  2 +-
 .../standardize_derivative_tensor_view.hpp    | 45 ++++++++++---------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/ml/layers/normalization_layer.hpp b/src/ml/layers/normalization_layer.hpp
index 199046c..96ecb28 100644
--- a/src/ml/layers/normalization_layer.hpp
+++ b/src/ml/layers/normalization_layer.hpp
@@ -48,7 +48,7 @@ namespace happyml {
                 throw runtime_error("No inputs to backpropagate through.");
             }
 
-            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_mean(), lastInput->get_std_dev());
+            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_std_dev());
 #ifdef DEBUG_TRAIN_NAN
             if (normDerivativeTensor->hasNaNOrInf()) {
                 normDerivativeTensor->print();
diff --git a/src/types/tensor_views/standardize_derivative_tensor_view.hpp b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
index df49a40..d8f7300 100644
--- a/src/types/tensor_views/standardize_derivative_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
@@ -14,32 +14,33 @@
 
 namespace happyml {
 
+    // d_output is the derivative of the error with respect to the standardized tensor, normalized is the standardized
+    // tensor itself, and std_dev is the standard deviation it was divided by.
     class StandardizeDerivativeTensorView : public BaseTensorUnaryOperatorView {
     public:
-        explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &input, float mean, float std_dev)
-                : BaseTensorUnaryOperatorView(d_output), mean_(mean), std_dev_(std_dev), input_(input) {
-            total_elements_ = input->size();
+        explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &normalized, float std_dev)
+                : BaseTensorUnaryOperatorView(d_output), std_dev_(std_dev), normalized_(normalized) {
+            double sum = 0.0;
+            double weighted_sum = 0.0;
+            size_t total_elements = normalized->size();
+            for (size_t element = 0; element < total_elements; ++element) {
+                double d_output_value = d_output->getValue(element);
+                sum += d_output_value;
+                weighted_sum += d_output_value * normalized->getValue(element);
+            }
+            d_output_mean_ = (float) (sum / (double) total_elements);
+            d_output_normalized_mean_ = (float) (weighted_sum / (double) total_elements);
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            // get corresponding values
             float d_output_value = child_->getValue(row, column, channel);
-            float input_value = input_->getValue(row, column, channel);
-
-            // calculate common part
-            float common = d_output_value / (std_dev_ * (float) total_elements_);
-
-            // calculate three parts of gradient
-            float dx1 = d_output_value / std_dev_;
-            float dx2 = -common * (input_value - mean_);
-
-            // Recompute common with square of difference
-            float diff = input_value - mean_;
-            common = d_output_value * diff / (std_dev_ * std_dev_ * std_dev_ * (float) total_elements_);
-            float dx3 = - (float) total_elements_ * diff * common;
+            float normalized_value = normalized_->getValue(row, column, channel);
+            // every element also moves the mean and the deviation that all the elements share
+            return (d_output_value - d_output_mean_ - normalized_value * d_output_normalized_mean_) / std_dev_;
+        }
 
-            // return total gradient
-            return dx1 + dx2 + dx3;
+        bool contains(const shared_ptr<BaseTensor> &other) override {
+            return BaseTensorUnaryOperatorView::contains(other) || normalized_->contains(other);
         }
 
         void printMaterializationPlan() override {
@@ -48,10 +49,10 @@ namespace happyml {
         }
 
     private:
-        float mean_;
         float std_dev_;
-        shared_ptr<BaseTensor> input_;
-        size_t total_elements_;
+        float d_output_mean_;
+        float d_output_normalized_mean_;
+        shared_ptr<BaseTensor> normalized_;
     };
 }
 
-- 
2.43.0


From 62c23f94eb57dc0e4168ff02b716b9b4c8bd8306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 23/69] fix: addDropoutLayer uses the dropout rate it is given

---
 src/ml/happyml_dsl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..7d7a2a6 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -339,6 +339,7 @@ namespace happyml {
                                                  this->outputShape,
                                                  false, false,
                                                  ActivationType::linear, parentObject->nextVertexId());
+                nnv->setDropoutRate(dropout_rate);
                 addEdge(nnv);
                 return nnv;
             }
-- 
2.43.0


From 7ae755ca20157cf32cd425773b72d48335b703f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 24/69] fix: concatenation splits errors by the inputs it was
 actually given

---
 src/ml/layers/concatenate_wide_layer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ml/layers/concatenate_wide_layer.hpp b/src/ml/layers/concatenate_wide_layer.hpp
index 35cfdd3..db11d79 100644
--- a/src/ml/layers/concatenate_wide_layer.hpp
+++ b/src/ml/layers/concatenate_wide_layer.hpp
@@ -49,6 +49,13 @@ namespace happyml {
 
             shared_ptr<BaseTensor> result = make_shared<ConcatWideTensorView>(input[0], input[1]);
 
+            if (forTraining) {
+                // inputs arrive in the order the network reaches them, which is what errors must be split by
+                for (size_t i = 0; i < input.size() && i < input_shapes_.size(); ++i) {
+                    input_shapes_[i] = input[i]->getShape();
+                }
+            }
+
             for (size_t i = 2; i < input.size(); ++i) {
                 result = make_shared<ConcatWideTensorView>(result, input[i]);
             }
-- 
2.43.0


From 41a695e7dc2e20d408c4451a94bcbc1ce5f27173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 25/69] fix: loading a model keeps vertex ids, connections and
 output order

---
 src/ml/happyml_dsl.hpp | 96 +++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 57 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 7d7a2a6..7f0e162 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -754,7 +754,13 @@ namespace happyml {
             return add_concatenated_layer(new_input_receptors);
         }
 
-        shared_ptr<NNVertex> add_concatenated_layer(const vector<shared_ptr<NNVertex>> &previous_layers) {
+        shared_ptr<NNVertex> add_concatenated_layer(const vector<shared_ptr<NNVertex>> &layers_to_concatenate) {
+            // a model description lists connections by vertex id, so that is the order of the operands
+            auto previous_layers = layers_to_concatenate;
+            std::sort(previous_layers.begin(), previous_layers.end(),
+                      [](const shared_ptr<NNVertex> &a, const shared_ptr<NNVertex> &b) {
+                          return a->getVertexUniqueId() < b->getVertexUniqueId();
+                      });
             size_t total_input_width = 0;
             vector<vector<size_t>> input_shapes;
             for (auto &layer: previous_layers) {
@@ -796,10 +802,8 @@ namespace happyml {
 
     void createVertexFromMetadata(const shared_ptr<HappymlDSL> &dsl,
                                   const vector<string> &vertexMetadata,
-                                  const shared_ptr<HappymlDSL::NNVertex> &parent,
                                   map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes,
-                                  map<uint32_t, vector<string>> &vertexes,
-                                  map<uint32_t, vector<uint32_t>> &edgeFromTo) {
+                                  const map<uint32_t, vector<uint32_t>> &edgeFromTo) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
         const uint32_t vertexId = stoul(vertexMetadata[1]);
@@ -863,34 +867,25 @@ namespace happyml {
                 }
             }
         } else {
-            if (!parent) {
+            // vertexes are created in the order they were originally created, so every parent exists by now
+            vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
+            for (const auto &edge_pair: edgeFromTo) {
+                for (auto edge_to_id: edge_pair.second) {
+                    if (edge_to_id != vertexId) {
+                        continue;
+                    }
+                    if (createdVertexes.count(edge_pair.first) == 0) {
+                        throw runtime_error("missing parent");
+                    }
+                    all_parents.push_back(createdVertexes[edge_pair.first]);
+                }
+            }
+            if (all_parents.empty()) {
                 throw runtime_error("missing parent");
             }
+            auto parent = all_parents[0];
 
             if (layerType == concatenate) {
-                // a concatenated layer has multiple parents.
-
-                // because layers are in the order they were originally created and the concatenation
-                // layer is last, if we are at this point, all parents should exist, we just need to find them
-                // I think the parent order should also be maintained
-                bool all_parents_exist = true;
-                vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
-                for (const auto &edge_pair: edgeFromTo) {
-                    auto edge_to_ids = edge_pair.second;
-                    // if edge_to_ids contains vertexId, then we need to add the parent to the concatenated layer
-                    if (std::find(edge_to_ids.begin(), edge_to_ids.end(), vertexId) != edge_to_ids.end()) {
-                        auto edge_from_id = edge_pair.first;
-                        if (createdVertexes.count(edge_from_id) == 0) {
-                            all_parents_exist = false;
-                            break;
-                        }
-                        auto edge_from_vertex = createdVertexes[edge_from_id];
-                        all_parents.push_back(edge_from_vertex);
-                    }
-                }
-                if (!all_parents_exist) {
-                    return;
-                }
                 createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
             } else if (filters > 0) {
                 createdVertexes[vertexId] = parent->addLayer(filters,
@@ -918,22 +913,6 @@ namespace happyml {
         createdVertexes[vertexId]->setNormClippingThreshold(clipping_threshold); // set this first because it would enable clipping
         createdVertexes[vertexId]->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
         createdVertexes[vertexId]->setDropoutRate(dropout_rate);
-
-        if (edgeFromTo.count(vertexId) > 0) {
-            auto edges = edgeFromTo[vertexId];
-            for (auto nextEdge: edges) {
-                if (vertexes.count(nextEdge) < 1) {
-                    throw runtime_error("Bad model definition. Edge not found!");
-                }
-                auto nextVertexMetadata = vertexes[nextEdge];
-                createVertexFromMetadata(dsl,
-                                         nextVertexMetadata,
-                                         createdVertexes[vertexId],
-                                         createdVertexes,
-                                         vertexes,
-                                         edgeFromTo);
-            }
-        }
     }
 
     shared_ptr<NeuralNetworkForTraining> loadNeuralNetworkForTraining(const string &modelName,
@@ -972,7 +951,6 @@ namespace happyml {
                 ->setLearningRate(learningRate)
                 ->setBiasLearningRate(biasLearningRate);
 
-        set<uint32_t> headVertexes;
         map<uint32_t, vector<string>> vertexes;
         map<uint32_t, vector<uint32_t>> edgeFromTo;
         while (configReader->hasNext()) {
@@ -980,10 +958,6 @@ namespace happyml {
             if (nextRecord[0] == "vertex") {
                 uint32_t vertexId = stoul(nextRecord[1]);
                 vertexes[vertexId] = nextRecord;
-                const auto acceptsInput = asBool(nextRecord[2]);
-                if (acceptsInput) {
-                    headVertexes.insert(vertexId);
-                }
             } else {
                 uint32_t fromLabel = stoul(nextRecord[1]);
                 vector<uint32_t> toLabels;
@@ -995,14 +969,22 @@ namespace happyml {
             }
         }
         map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
-        for (auto headVertexId: headVertexes) {
-            auto vertexMetadata = vertexes[headVertexId];
-            createVertexFromMetadata(dsl,
-                                     vertexMetadata,
-                                     nullptr,
-                                     createdVertexes,
-                                     vertexes,
-                                     edgeFromTo);
+        // creating the vertexes in their original order gives them their original ids and connections,
+        // which the saved knowledge and the order of outputs depend on.
+        uint32_t nextVertexId = 1;
+        for (const auto &vertex: vertexes) {
+            for (; nextVertexId < vertex.first; nextVertexId++) {
+                dsl->nextVertexId();
+            }
+            createVertexFromMetadata(dsl, vertex.second, createdVertexes, edgeFromTo);
+            nextVertexId++;
+        }
+        for (const auto &edge_pair: edgeFromTo) {
+            for (auto edge_to_id: edge_pair.second) {
+                if (createdVertexes.count(edge_to_id) == 0) {
+                    throw runtime_error("Bad model definition. Edge not found!");
+                }
+            }
         }
 
         auto resultNeuralNetwork = dsl->build();
-- 
2.43.0


From 6054356d148e06e113e50e4c124b723f58655431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 26/69] fix: a text file that cannot be opened for reading is
 reported

---
 src/util/file_reader.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..77b0370 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -35,17 +35,10 @@ namespace happyml {
                 filenames.push_back(path);
             }
             current_file = 0;
-            if (filenames.empty()) {
-                has_next = false;
-            } else {
-                stream.open(filenames[current_file]);
-                has_next = stream.is_open();
-                if (has_next) {
-                    if (skip_header) {
-                        skipHeader();
-                    }
-                    nextLine(); // Buffer one line and update has_next
-                }
+            has_next = !filenames.empty();
+            if (has_next) {
+                openCurrentFile();
+                nextLine(); // Buffer one line and update has_next
             }
         }
 
@@ -77,10 +70,7 @@ namespace happyml {
                         stream.close();
                         current_file++;
                         if (current_file < filenames.size()) {
-                            stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
-                            }
+                            openCurrentFile();
                             if (getline(stream, line)) {
                                 next_line = line;
                             } else {
@@ -102,6 +92,16 @@ namespace happyml {
         }
 
     private:
+        void openCurrentFile() {
+            stream.open(filenames[current_file]);
+            if (!stream.is_open()) {
+                throw runtime_error("Could not open file: " + filenames[current_file]);
+            }
+            if (skip_header) {
+                skipHeader();
+            }
+        }
+
         void skipHeader() {
             string line;
             if (!stream.is_open() || !getline(stream, line)) {
-- 
2.43.0


From 8e700d56d9a7ae24415c1043c5adf1c4592fa204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 27/69] fix: reading a folder of text files goes on after an
 empty file

---
 src/util/file_reader.hpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 77b0370..8134608 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -64,23 +64,19 @@ namespace happyml {
                     next_line = "";
                 } else {
                     string line;
-                    if (getline(stream, line)) {
+                    bool found = (bool) getline(stream, line);
+                    while (!found && current_file + 1 < filenames.size()) {
+                        stream.close();
+                        current_file++;
+                        openCurrentFile();
+                        found = (bool) getline(stream, line);
+                    }
+                    if (found) {
                         next_line = line;
                     } else {
                         stream.close();
-                        current_file++;
-                        if (current_file < filenames.size()) {
-                            openCurrentFile();
-                            if (getline(stream, line)) {
-                                next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
-                            }
-                        } else {
-                            has_next = false;
-                            next_line = "";
-                        }
+                        has_next = false;
+                        next_line = "";
                     }
                 }
             }
@@ -104,9 +100,7 @@ namespace happyml {
 
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
-            }
+            getline(stream, line);
         }
 
         vector<string> filenames;
-- 
2.43.0


From 0cbecf4d07840f0728d6833c5b0a4748d5ae6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 28/69] fix: a dataset file that cannot be opened for writing
 is reported

---
 src/util/file_writer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 5f3d66b..6f3342f 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -138,6 +138,9 @@ namespace happyml {
                 lru_cache_ = nullptr;
             }
             binaryFile_.open(path, ios::binary | ios::out);
+            if (!binaryFile_.is_open()) {
+                throw runtime_error("Could not open file: " + path);
+            }
             writeHeader();
         }
 
-- 
2.43.0


From 28367f86aa79c374f7186935ff0eb981e1f95a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 29/69] fix: loading the tokens or lines of a file that cannot
 be opened is reported

---
 src/util/data_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/data_util.hpp b/src/util/data_util.hpp
index 6ebc719..ee4eb68 100644
--- a/src/util/data_util.hpp
+++ b/src/util/data_util.hpp
@@ -143,6 +143,9 @@ namespace happyml {
 
     std::vector<std::string> load_file_to_tokens(const std::string &filename) {
         std::ifstream file(filename);
+        if (!file.is_open()) {
+            throw std::runtime_error("Could not open file: " + filename);
+        }
         std::vector<std::string> tokens;
         std::string token;
         char last_char = 0;
@@ -172,8 +175,7 @@ namespace happyml {
         std::ifstream file(filename);
 
         if (!file.is_open()) {
-            // handle error opening file
-            return lines;
+            throw std::runtime_error("Could not open file: " + filename);
         }
 
         std::string line;
-- 
2.43.0


From bf3bbdec5cc39f18c937c105cee82216f8f02921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 30/69] fix: a layer whose knowledge cannot be saved reports it

---
 src/ml/layers/bias_layer.hpp                 | 4 +++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 4 +++-
 src/ml/layers/fully_connected_layer.hpp      | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/bias_layer.hpp b/src/ml/layers/bias_layer.hpp
index 05c07c5..e536d7f 100644
--- a/src/ml/layers/bias_layer.hpp
+++ b/src/ml/layers/bias_layer.hpp
@@ -32,7 +32,9 @@ namespace happyml {
 
         void saveKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            bias->save(path);
+            if (!bias->save(path)) {
+                throw runtime_error("Failed to save: " + path);
+            }
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index a5924d9..7138407 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -38,7 +38,9 @@ namespace happyml {
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
-                weights[next_weight_layer]->save(path);
+                if (!weights[next_weight_layer]->save(path)) {
+                    throw runtime_error("Failed to save: " + path);
+                }
             }
         }
 
diff --git a/src/ml/layers/fully_connected_layer.hpp b/src/ml/layers/fully_connected_layer.hpp
index b41ce0f..aaffb76 100644
--- a/src/ml/layers/fully_connected_layer.hpp
+++ b/src/ml/layers/fully_connected_layer.hpp
@@ -38,7 +38,9 @@ namespace happyml {
 
         void saveKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            weights->save(path);
+            if (!weights->save(path)) {
+                throw runtime_error("Failed to save: " + path);
+            }
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
-- 
2.43.0


From 8bfe15393533a07a7073b7ad1d5f402b85309d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 31/69] fix: create_tokenizer reports that it could not read
 its input or save its result

---
 src/create_tokenizer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/create_tokenizer.cpp b/src/create_tokenizer.cpp
index a00405f..183a374 100644
--- a/src/create_tokenizer.cpp
+++ b/src/create_tokenizer.cpp
@@ -46,15 +46,19 @@ int main(int argc, char *argv[]) {
         }
 
         BytePairEncoderModel bpe;
+        bool trained;
         if (filesystem::is_directory(path)) {
-            bpe.train_on_folder(path);
+            trained = bpe.train_on_folder(path);
         } else if (filesystem::is_regular_file(path)) {
-            bpe.train_on_file(path);
+            trained = bpe.train_on_file(path);
         } else {
             cout << "USAGE: creat_tokenizer path" << endl;
             return 1;
         }
-        bpe.save("../happyml_repo", "default_token_encoder", true);
+        if (!trained || !bpe.save("../happyml_repo", "default_token_encoder", true)) {
+            cout << "Failed to create the tokenizer." << endl;
+            return 1;
+        }
     } catch (const exception &e) {
         cout << e.what() << endl;
         return 1;
-- 
2.43.0


From a4c9cac1d1e0849b515e348226f97cd29aa46441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 32/69] fix: a task log that cannot be opened is reported

---
 src/util/task_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..b627f24 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -401,6 +401,9 @@ namespace happyml {
             string log_file_path = task_folder_path + "/../logs/log.txt";
             filesystem::create_directories(task_folder_path + "/../logs");
             ofstream log_file(log_file_path, ios_base::app);
+            if (!log_file.is_open()) {
+                throw runtime_error("Could not open file: " + log_file_path);
+            }
 
             string task_full_path = task_folder_path + task_name;
             if (filesystem::exists(task_full_path)) {
-- 
2.43.0


From f0d092d4260fb486f52f972def6ce907a1ab1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 33/69] fix: a script that cannot be opened is reported

---
 src/lang/interpreter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..73e2fb0 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -50,6 +50,9 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
+                if (!stream.is_open()) {
+                    throw runtime_error("Failed to load: " + filePath);
+                }
                 stringstream fullText;
                 fullText << stream.rdbuf();
                 try {
-- 
2.43.0


From 6171913318258f4e4e3e23ed23983d5428c5d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 34/69] fix: sorting keeps its temporary chunks next to the
 result instead of overwriting chunk_N.txt

---
 src/util/text_file_sorter.hpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..e258ab8 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,8 +26,6 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
-
             std::ifstream input(file_name);
 
             if (!input.is_open()) {
@@ -52,7 +50,7 @@ namespace happyml {
                 if (lines.size() >= chunk_size) {
                     sort_chunk(lines);
 
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                    std::string chunk_path = result_file_name + ".chunk_" + std::to_string(chunk_counter);
                     std::ofstream chunk_output(chunk_path);
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
@@ -68,7 +66,7 @@ namespace happyml {
             if (!lines.empty()) {
                 sort_chunk(lines);
 
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                std::string chunk_path = result_file_name + ".chunk_" + std::to_string(chunk_counter);
                 std::ofstream chunk_output(chunk_path);
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
@@ -79,7 +77,7 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            merge_chunks(chunk_paths, result_file_name, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
@@ -91,16 +89,14 @@ namespace happyml {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static void merge_chunks(const std::vector<std::string> &chunk_paths, const std::string &output_file, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
-            std::vector<std::ifstream> chunk_files(num_chunks);
-
-            for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+            std::vector<std::ifstream> chunk_files(chunk_paths.size());
 
-                chunk_files[i].open(chunk_path);
+            for (size_t i = 0; i < chunk_paths.size(); ++i) {
+                chunk_files[i].open(chunk_paths[i]);
 
                 if (!chunk_files[i]) {
                     break;
-- 
2.43.0


From c47660cae3f77217c8e3160128fd9f531e292c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 35/69] fix: sorting reports the files it cannot open instead
 of dropping lines

---
 src/util/text_file_sorter.hpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index e258ab8..3a47ed9 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -52,6 +52,11 @@ namespace happyml {
 
                     std::string chunk_path = result_file_name + ".chunk_" + std::to_string(chunk_counter);
                     std::ofstream chunk_output(chunk_path);
+                    if (!chunk_output.is_open()) {
+                        std::cerr << "Error opening chunk file." << std::endl;
+                        remove_chunks(chunk_paths);
+                        return false;
+                    }
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
                         chunk_output << sorted_line << '\n';
@@ -68,6 +73,11 @@ namespace happyml {
 
                 std::string chunk_path = result_file_name + ".chunk_" + std::to_string(chunk_counter);
                 std::ofstream chunk_output(chunk_path);
+                if (!chunk_output.is_open()) {
+                    std::cerr << "Error opening chunk file." << std::endl;
+                    remove_chunks(chunk_paths);
+                    return false;
+                }
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
                     chunk_output << sorted_line << '\n';
@@ -77,19 +87,23 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(chunk_paths, result_file_name, header, has_header, delete_duplicates);
+            bool merged = merge_chunks(chunk_paths, result_file_name, header, has_header, delete_duplicates);
+            remove_chunks(chunk_paths);
+            return merged;
+        }
+
+    private:
+        static void remove_chunks(const std::vector<std::string> &chunk_paths) {
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
-            return true;
         }
 
-    private:
         static void sort_chunk(std::vector<std::string> &lines) {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::vector<std::string> &chunk_paths, const std::string &output_file, const std::string &header, bool has_header, bool delete_duplicates) {
+        static bool merge_chunks(const std::vector<std::string> &chunk_paths, const std::string &output_file, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
@@ -98,8 +112,9 @@ namespace happyml {
             for (size_t i = 0; i < chunk_paths.size(); ++i) {
                 chunk_files[i].open(chunk_paths[i]);
 
-                if (!chunk_files[i]) {
-                    break;
+                if (!chunk_files[i].is_open()) {
+                    std::cerr << "Error opening chunk file." << std::endl;
+                    return false;
                 }
 
                 std::string line;
@@ -112,6 +127,10 @@ namespace happyml {
 
             std::string previous_line;
             std::ofstream output(output_file);
+            if (!output.is_open()) {
+                std::cerr << "Error opening output file." << std::endl;
+                return false;
+            }
 
             if (has_header) {
                 output << header << '\n';
@@ -149,6 +168,7 @@ namespace happyml {
             for (auto &chunk_file: chunk_files) {
                 chunk_file.close();
             }
+            return true;
         }
     };
 }
-- 
2.43.0


From 4fa0b5744a44baa58740f5b1f2b4d3137c143187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:45 +0000
Subject: [PATCH 36/69] fix: a model saved to a new location takes its
 knowledge with it

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 2a31ef8..fde7961 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From 6106ee3098744e0782063e695f451b94c849623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:45 +0000
Subject: [PATCH 37/69] fix: saving a configuration file leaves the rest of its
 folder alone

---
 src/util/file_writer.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 6f3342f..eac41a3 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -263,9 +263,6 @@ namespace happyml {
     };
 
     void save_config(const string &directory, const string &filename, vector <vector<string>> &metadata) {
-        if (filesystem::is_directory(directory)) {
-            filesystem::remove_all(directory);
-        }
         filesystem::create_directories(directory);
         string modelProperties = directory + "/" + filename;
         auto writer = make_unique<DelimitedTextFileWriter>(modelProperties, ':');
-- 
2.43.0


From b9589dd8d1c55a45787f7be8e76976e9f9f84b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:45 +0000
Subject: [PATCH 38/69] fix: create dataset opens the txt or tsv file it was
 given, without the file:// prefix

---
 src/lang/statements/create_dataset_statement.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..fc77cba 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -101,16 +101,17 @@ namespace happyml {
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
             string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
+            string source_location = location_.substr(index_of_start_of_file_name);
             string current_location = base_file_path + ".csv";
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                if (!convert_txt_to_csv(source_location, current_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                if (!convert_tsv_to_csv(source_location, current_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
-- 
2.43.0


From 0fe37707c04834316b7fffc0113dfec4f02f4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 39/69] fix: create dataset keeps its working files in the new
 dataset's folder instead of overwriting files next to the source

---
 .../statements/create_dataset_statement.hpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index fc77cba..11629fb 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -104,6 +104,13 @@ namespace happyml {
             string source_location = location_.substr(index_of_start_of_file_name);
             string current_location = base_file_path + ".csv";
             bool has_header = has_header_;
+            // working files go to the folder of the new dataset, so that files next to the source are left alone.
+            string new_dataset_path = context->get_dataset_path(name_);
+            bool converted = file_extension == "txt" || file_extension == "tsv";
+            if (converted) {
+                current_location = new_dataset_path + "/converted.csv";
+                filesystem::create_directories(new_dataset_path);
+            }
             if (file_extension == "txt") {
                 has_header = false;
                 if (!convert_txt_to_csv(source_location, current_location, 4000)) {
@@ -157,16 +164,21 @@ namespace happyml {
             if(verbose_) {
                 cout << "Moving given columns before expected columns and dropping unused columns. This aids in deduping." << endl;
             }
-            auto organized_location = base_file_path + ".given-expected.csv";
+            filesystem::create_directories(new_dataset_path);
+            auto organized_location = new_dataset_path + "/given-expected.csv";
             if (!update_column_positions(current_location, organized_location, given_column_groups, expected_column_groups, has_header)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Empty dataset");
             }
+            if (converted && !filesystem::remove(current_location)) {
+                return make_shared<ExecutionResult>(false, false,
+                                                    "Could not remove the converted file.");
+            }
 
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
             }
-            auto sorted_location = base_file_path + ".sorted.csv";
+            auto sorted_location = new_dataset_path + "/sorted.csv";
             if (!FileSorter::sort(organized_location, sorted_location, false)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Could not sort the given-expected file.");
@@ -176,8 +188,6 @@ namespace happyml {
                                                     "Could not remove the given-expected file.");
             }
 
-            string new_dataset_path = context->get_dataset_path(name_);
-
             if(verbose_) {
                 cout << "Converting to binary and deduping." << endl;
             }
-- 
2.43.0


From 859e16621ff15770e6e7f4af84fec8b98207839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 40/69] fix: a record with too few columns is reported when a
 dataset is created

---
 src/training_data/training_dataset.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..a0cf4f0 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -342,6 +342,13 @@ namespace happyml {
         while (reader.hasNext()) {
             records_updated++;
             auto record = reader.nextRecord();
+            for (const auto &columns: {given_columns, expected_columns}) {
+                for (const auto &column: columns) {
+                    if (column->start_index_ + column->source_column_count_ > record.size()) {
+                        throw runtime_error("Record " + to_string(records_updated) + " has only " + to_string(record.size()) + " columns.");
+                    }
+                }
+            }
             vector<string> new_record;
             for (const auto &column: given_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
-- 
2.43.0


From f124e746a2da300dabe1b6c0effb332200bdb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:47 +0000
Subject: [PATCH 41/69] fix: statements after exit do not run

---
 src/lang/statements/code_block_statement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..f18270b 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,7 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 5f91aa5b88d073976a7bc2fc666dd474305bece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:47 +0000
Subject: [PATCH 42/69] fix: a failing script keeps its error message when it
 is passed on

---
 src/lang/interpreter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 73e2fb0..d7ab664 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -59,12 +59,12 @@ namespace happyml {
                     done = interpretCommands(fullText.str(), filePath);
                 } catch (const exception &e) {
                     cerr << "Failed to interpret: " << filePath << endl << e.what() << endl;
-                    throw e;
+                    throw;
                 }
                 stream.close();
             } catch (ofstream::failure &e) {
                 cerr << "Failed to load: " << filePath << endl << e.what() << endl;
-                throw e;
+                throw;
             }
             return done;
         }
-- 
2.43.0


From ef3386020970f916ae5ded7c643999be227193ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:47 +0000
Subject: [PATCH 43/69] fix: an empty line in the interactive interpreter is
 not looked into

---
 src/lang/interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index d7ab664..8d8ca1c 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -78,7 +78,7 @@ namespace happyml {
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
                 nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
+                if (!nextLine.empty() && nextLine.back() == '\\') {
                     // Remove the backslash and add the line to the buffer
                     nextLine.pop_back();
                     fullLine += nextLine + '\n';
-- 
2.43.0


From cdce1482b1e6264a26c916014d59aca3717f377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:47 +0000
Subject: [PATCH 44/69] fix: a truncated or malformed statement is reported as
 a parse error

---
 src/lang/parser/parser.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b3631b5..c8ed6a4 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -35,7 +35,13 @@ namespace happyml {
 
             // cout << "Lexer: " << lexResult->getMessage() << endl << lexResult->getMatchStream()->render() << endl;
             // then build parsed result.
-            return parseCodeBlock(lexResult->getMatchStream());
+            auto stream = lexResult->getMatchStream();
+            try {
+                return parseCodeBlock(stream);
+            } catch (const exception &e) {
+                auto last = stream->previous();
+                return make_shared<ParseResult>(string("Malformed statement: ") + e.what() + (last ? " " + last->render() : ""), false);
+            }
         }
 
     private:
-- 
2.43.0


From 408f4ced489e827cc121e844f2fb1d6486d6412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:47 +0000
Subject: [PATCH 45/69] fix: create task refuses names that are not words

---
 src/lang/parser/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index c8ed6a4..67674da 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -189,6 +189,9 @@ namespace happyml {
                     return generateError("create task requires a name: ", next);
                 }
                 auto taskName = stream->next();
+                if ("_word" != taskName->getLabel()) {
+                    return generateError("task name is invalid: ", taskName);
+                }
                 if (!stream->hasNext()) {
                     return generateError("create task requires a dataset: ", next);
                 }
-- 
2.43.0


From 8d855f3f1193efa13cf3ae721a76e3092019f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:47 +0000
Subject: [PATCH 46/69] fix: the search for training parameters counts its
 retries

---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index b627f24..69109e4 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -512,8 +512,8 @@ namespace happyml {
             int attempt = 0;
             float next_search_size = 640.0f;
 
+            int retries = 0;
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
-- 
2.43.0


From c1a4e5dcb239619723809cbc225335b795f68257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:55 +0000
Subject: [PATCH 47/69] fix: create dataset checks for a given column before
 converting files

---
 .../statements/create_dataset_statement.hpp   | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 11629fb..7153e33 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -81,6 +81,21 @@ namespace happyml {
                 return make_shared<ExecutionResult>(false, false,
                                                     "create dataset's utilize columns that overlap.");
             }
+            vector<shared_ptr<ColumnGroup>>
+                    given_column_groups;
+            vector<shared_ptr<ColumnGroup>>
+                    expected_column_groups;
+            for (const auto &columnGroup: column_groups_) {
+                if (columnGroup->use_ == "expected") {
+                    expected_column_groups.push_back(columnGroup);
+                } else {
+                    given_column_groups.push_back(columnGroup);
+                }
+            }
+            if (given_column_groups.empty()) {
+                return make_shared<ExecutionResult>(false, false,
+                                                    "create dataset must have at least one given column.");
+            }
 
             if (has_text) {
                 shared_ptr<BytePairEncoderModel> defaultBytePairEncoder = context->getBpeEncoder();
@@ -130,21 +145,6 @@ namespace happyml {
                 return make_shared<ExecutionResult>(false, false,
                                                     "create dataset could not find the file: " + current_location);
             }
-            vector<shared_ptr<ColumnGroup>>
-                    given_column_groups;
-            vector<shared_ptr<ColumnGroup>>
-                    expected_column_groups;
-            for (const auto &columnGroup: column_groups_) {
-                if (columnGroup->use_ == "expected") {
-                    expected_column_groups.push_back(columnGroup);
-                } else {
-                    given_column_groups.push_back(columnGroup);
-                }
-            }
-            if (given_column_groups.empty()) {
-                return make_shared<ExecutionResult>(false, false,
-                                                    "create dataset must have at least one given column.");
-            }
             vector<shared_ptr<ColumnGroup>>
                     updatedColumnGroups;
             size_t current_index = 0;
-- 
2.43.0


From 385e8a97b4c92cdd1c97307f89e823a200c8c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:55 +0000
Subject: [PATCH 48/69] fix: create task checks that the test dataset exists

---
 src/lang/statements/create_task_statement.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/statements/create_task_statement.hpp b/src/lang/statements/create_task_statement.hpp
index e577c74..cc53e3a 100644
--- a/src/lang/statements/create_task_statement.hpp
+++ b/src/lang/statements/create_task_statement.hpp
@@ -33,6 +33,10 @@ namespace happyml {
                 string message = "Dataset " + dataset_name_ + " does not exist.";
                 return make_shared<ExecutionResult>(false, false, message);
             }
+            if (!test_dataset_name_.empty() && !context->dataset_exists(test_dataset_name_)) {
+                string message = "Dataset " + test_dataset_name_ + " does not exist.";
+                return make_shared<ExecutionResult>(false, false, message);
+            }
             if ("label" != task_type_) {
                 string message = "Unsupported task type " + task_type_ + ".";
                 return make_shared<ExecutionResult>(false, false, message);
-- 
2.43.0


From 1c7e9fa0c56790aba5daf976aca097d22aa3c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:55 +0000
Subject: [PATCH 49/69] fix: column groups that share one column overlap

---
 src/util/dataset_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..ab2044a 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -29,7 +29,7 @@ namespace happyml {
             const shared_ptr<ColumnGroup> &prev = sorted_groups[i - 1];
             const shared_ptr<ColumnGroup> &curr = sorted_groups[i];
 
-            size_t prev_endIndex = prev->start_index_ + prev->source_column_count_ - 1;
+            size_t prev_endIndex = prev->start_index_ + prev->source_column_count_;
 
             if (prev_endIndex > curr->start_index_) {
                 return true;
-- 
2.43.0


From f327ab9a3f96766ea14da46bc84dff80c2b56ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:55 +0000
Subject: [PATCH 50/69] fix: print and create task refuse dataset names that
 are not words

---
 src/lang/parser/parser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 67674da..8865072 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -71,6 +71,9 @@ namespace happyml {
             }
             bool raw = "raw" == next->getValue();
             next = stream->next();
+            if ("_word" != next->getLabel()) {
+                return generateError("dataset name is invalid: ", next);
+            }
             auto dataset_name = next->getValue();
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
                 return make_shared<ParseResult>(make_shared<PrintStatement>(dataset_name, raw));
@@ -207,7 +210,11 @@ namespace happyml {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        test_dataset_name = stream->next()->getValue();
+                        auto testDatasetName = stream->next();
+                        if ("_word" != testDatasetName->getLabel()) {
+                            return generateError("dataset name is invalid: ", testDatasetName);
+                        }
+                        test_dataset_name = testDatasetName->getValue();
                     } else if ("goal" == parameterToken->getValue()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
@@ -225,6 +232,9 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
+                if ("_word" != datasetName->getLabel()) {
+                    return generateError("dataset name is invalid: ", datasetName);
+                }
                 auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
                                                                          taskName->getValue(),
                                                                          goal,
-- 
2.43.0


From 9c5b827822b8d10aa30fc3aa3449810f3dbe86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:31 +0000
Subject: [PATCH 51/69] fix: keywords are recognised in any letter case

---
 src/lang/parser/parser.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 8865072..e9633f5 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -58,7 +58,7 @@ namespace happyml {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-            return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
+            return make_shared<ParseResult>(make_shared<HelpStatement>(asLower(next->getValue())));
         }
 
         static shared_ptr<ParseResult> parsePrintStatement(const shared_ptr<TokenStream> &stream) {
@@ -66,10 +66,10 @@ namespace happyml {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
             auto next = stream->next();
-            if ("raw" != next->getValue() && "pretty" != next->getValue()) {
+            if ("_raw" != next->getLabel() && "_pretty" != next->getLabel()) {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
-            bool raw = "raw" == next->getValue();
+            bool raw = "_raw" == next->getLabel();
             next = stream->next();
             if ("_word" != next->getLabel()) {
                 return generateError("dataset name is invalid: ", next);
@@ -102,7 +102,7 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return generateError("with statement data type missing ", stream->previous());
             }
-            columnGroup->data_type_ = stream->next()->getValue();
+            columnGroup->data_type_ = asLower(stream->next()->getValue());
             if (!stream->hasNext()) {
                 return generateError("with statement label missing ", stream->previous());
             }
@@ -164,7 +164,7 @@ namespace happyml {
             //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
             //  manually allow "raw" to pass, but all of the keywords should be allowed. The problem is
             //  if we didn't do this check, we'd keep going for the rest of the file.
-            while ("raw" == stream->peek()->getValue() || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
+            while ("_raw" == nextLabel || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
                    || "_dot" == nextLabel || "_colon" == nextLabel || "_number" == nextLabel
                    || "_underscore" == nextLabel) {
                 url << stream->next()->getValue();
@@ -206,7 +206,7 @@ namespace happyml {
                         return generateError("create task with statement malformed: ", next);
                     }
                     auto parameterToken = stream->next();
-                    if ("test" == parameterToken->getValue()) {
+                    if ("_test" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
@@ -215,11 +215,11 @@ namespace happyml {
                             return generateError("dataset name is invalid: ", testDatasetName);
                         }
                         test_dataset_name = testDatasetName->getValue();
-                    } else if ("goal" == parameterToken->getValue()) {
+                    } else if ("_goal" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        goal = stream->next()->getValue();
+                        goal = asLower(stream->next()->getValue());
                     } else {
                         return generateError("create task with statement malformed: ", parameterToken);
                     }
@@ -235,7 +235,7 @@ namespace happyml {
                 if ("_word" != datasetName->getLabel()) {
                     return generateError("dataset name is invalid: ", datasetName);
                 }
-                auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
+                auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
                                                                          datasetName->getValue(),
@@ -274,7 +274,7 @@ namespace happyml {
                     if (!stream->hasNext()) {
                         return generateError("with statement is incomplete ", stream->previous());
                     }
-                    string withType = stream->next()->getValue();
+                    string withType = asLower(stream->next()->getValue());
                     if ("header" == withType) {
                         has_header = true;
                     } else {
-- 
2.43.0


From 88e01ba90fe6173c0e4f590145d5bb6f8deb2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:56 +0000
Subject: [PATCH 52/69] fix: a lone period is a dot and nothing is not a number

---
 src/lang/lexer/lexer_patterns.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lang/lexer/lexer_patterns.hpp b/src/lang/lexer/lexer_patterns.hpp
index 0919926..9711ea9 100644
--- a/src/lang/lexer/lexer_patterns.hpp
+++ b/src/lang/lexer/lexer_patterns.hpp
@@ -354,8 +354,12 @@ namespace happyml {
         const auto periodToken = make_shared<TextSequencePatternMatcher>(".");
         const auto optionalPeriod = make_shared<FrequencyPatternMatcher>(periodToken, FrequencyQualifier::zeroOrOne);
         const auto repeatTokens = make_shared<FrequencyPatternMatcher>(numberToken, FrequencyQualifier::zeroOrMore);
-        vector<shared_ptr<PatternMatcher>> patterns{repeatTokens, optionalPeriod, repeatTokens};
-        const auto numberPatternMatcher = make_shared<AllPatternMatchers>(patterns);
+        // a number has at least one digit, before or after the period: a lone period is not a number.
+        vector<shared_ptr<PatternMatcher>> leadingDigit{numberToken, repeatTokens, optionalPeriod, repeatTokens};
+        vector<shared_ptr<PatternMatcher>> leadingPeriod{periodToken, numberToken, repeatTokens};
+        vector<shared_ptr<PatternMatcher>> patterns{make_shared<AllPatternMatchers>(leadingDigit),
+                                                    make_shared<AllPatternMatchers>(leadingPeriod)};
+        const auto numberPatternMatcher = make_shared<AnyPatternMatchers>(patterns);
         auto pattern = make_shared<Pattern>("_number", false, numberPatternMatcher);
         return pattern;
     }
-- 
2.43.0


From 67e0dbac157d41bc496db3595fe1ec36e566bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 53/69] fix: renormalizing a dataset uses each column's own
 metadata

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 8134608..3936b5d 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -260,19 +260,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From abd11ef2228b7f3bca6005ac47bacf9a7fc9eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:33 +0000
Subject: [PATCH 54/69] fix: a loaded byte pair encoding is the saved one

---
 src/ml/byte_pair_encoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..40610fb 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -557,6 +557,7 @@ namespace happyml {
             uint16_t delimiter_code = 0;
             file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
             setDelimiterCode(delimiter_code);
+            ordered_bpe_codes_.clear();
 
             while (!file.eof()) {
                 pair<u16string, u16string> code_pair;
@@ -574,6 +575,9 @@ namespace happyml {
                 }
 
                 if (!file.eof()) {
+                    uint16_t const next = std::max(find_max_16bit_value(code_pair.first),
+                                                   find_max_16bit_value(code_pair.second)) + 1;
+                    next_code_ = std::max(next, next_code_);
                     ordered_bpe_codes_.push_back(std::move(code_pair));
                 }
             }
-- 
2.43.0


From 2d000f222aed442e5b13ded59d9e4a8ae105d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 55/69] fix: quotes inside a delimited field are kept as they
 are

---
 src/util/file_reader.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 3936b5d..31e62f4 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -176,13 +176,8 @@ namespace happyml {
         }
 
         string decode(string &current_word) const {
+            // the enclosing quotes are gone and doubled quotes are single by now: any that are left belong to the text
             auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
             stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
             return stripped_column;
         }
-- 
2.43.0


From 18413b246a1b128b2e732cb0709c1f5f69629c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 56/69] fix: a field of a single quote is not a quoted field

---
 src/util/file_writer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index eac41a3..56b293e 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -74,7 +74,8 @@ namespace happyml {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
                 if (stripped_column_length > 0) {
-                    if (stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
+                    if (stripped_column_length > 1 && stripped_column[0] == '\"' &&
+                        stripped_column[stripped_column_length - 1] == '\"') {
                         stripped_column = stripped_column.substr(1, stripped_column_length - 2);
                         string_replace_all(stripped_column, "\"", "\"\"");
                         auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-- 
2.43.0


From db1d050e6c4f0de0b107c36860c89f091d8c87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 57/69] fix: a field that only starts like a number is written
 in quotes

---
 src/training_data/data_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..0403239 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -64,7 +64,7 @@ namespace happyml {
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
-- 
2.43.0


From bb1da85e2a043ccf40556595444db543faf0d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:49 +0000
Subject: [PATCH 58/69] fix: values to predict from are laid out by row, as in
 the dataset

---
 src/training_data/data_encoder.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 0403239..81f1d45 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -81,11 +81,11 @@ namespace happyml {
                 std::vector<std::vector<std::vector<float>>> floats;
                 floats.resize(metadata->channels);
                 for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                    floats[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        floats[channel][row].resize(metadata->columns);
+                        for (size_t column = 0; column < metadata->columns; column++) {
+                            floats[channel][row][column] = text[channel * metadata->rows * metadata->columns + row * metadata->columns + column].as_float();
                         }
                     }
                 }
@@ -96,11 +96,11 @@ namespace happyml {
                 std::vector<std::vector<std::vector<float>>> floats;
                 floats.resize(metadata->channels);
                 for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                    floats[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        floats[channel][row].resize(metadata->columns);
+                        for (size_t column = 0; column < metadata->columns; column++) {
+                            floats[channel][row][column] = text[channel * metadata->rows * metadata->columns + row * metadata->columns + column].as_float();
                         }
                     }
                 }
@@ -130,11 +130,11 @@ namespace happyml {
                     vector<vector<vector<float>>> result;
                     result.resize(metadata->channels);
                     for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
-                        for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
+                        result[channel].resize(metadata->rows);
+                        for (size_t row = 0; row < metadata->rows; row++) {
+                            result[channel][row].resize(metadata->columns);
+                            for (size_t column = 0; column < metadata->columns; column++) {
+                                result[channel][row][column] = column == column_offset ? 1.f : 0.f;
                             }
                         }
                     }
-- 
2.43.0


From 2ea183d92794b9bf66ffc6da53957de237ad69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:49 +0000
Subject: [PATCH 59/69] fix: pixels to predict from are scaled as in the
 dataset

---
 src/training_data/data_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 81f1d45..648f355 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -85,7 +85,7 @@ namespace happyml {
                     for (size_t row = 0; row < metadata->rows; row++) {
                         floats[channel][row].resize(metadata->columns);
                         for (size_t column = 0; column < metadata->columns; column++) {
-                            floats[channel][row][column] = text[channel * metadata->rows * metadata->columns + row * metadata->columns + column].as_float();
+                            floats[channel][row][column] = text[channel * metadata->rows * metadata->columns + row * metadata->columns + column].as_float() / 255.f;
                         }
                     }
                 }
-- 
2.43.0


From 4e9107d65a04e6bb877cb9eeef832e8274367ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:03 +0000
Subject: [PATCH 60/69] fix: one-hot encoding of a code outside the encoding
 stays in bounds

---
 src/util/one_hot_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 0caf61a..30ff25e 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -39,7 +39,7 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(largest_bpe_code, 0.0);
-                if (c <= largest_bpe_code) {
+                if (c < largest_bpe_code) {
                     encoded_chars[c] = 1.0;
                 }
                 encoded_tokens.push_back(encoded_chars);
-- 
2.43.0


From 45d3de43ad792bc10e8c8039bdc4fe7b7eec6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:03 +0000
Subject: [PATCH 61/69] fix: one-hot encoding of characters above 127 stays in
 bounds

---
 src/util/one_hot_encoder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 30ff25e..f8d1035 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -56,7 +56,10 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(255, 0.0);
-                encoded_chars[c] = 1.0;
+                const auto index = static_cast<unsigned char>(c);
+                if (index < encoded_chars.size()) {
+                    encoded_chars[index] = 1.0;
+                }
                 encoded_tokens.push_back(encoded_chars);
             }
         }
-- 
2.43.0


From cf52b17998d1fd86a9afbec713c1f072135b46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:03 +0000
Subject: [PATCH 62/69] fix: the best categories are within the labels

---
 src/training_data/data_decoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index a3ed2d9..285527a 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -128,6 +128,10 @@ namespace happyml {
             vector<string> result;
             result.reserve(categoryIndex.size());
             for (const auto &index: categoryIndex) {
+                if (index.getIndex() >= categoryLabels_.size()) {
+                    string message = "Category index out of bounds: " + to_string(index.getIndex());
+                    throw runtime_error(message);
+                }
                 result.push_back(categoryLabels_[index.getIndex()]);
             }
             return result;
-- 
2.43.0


From d33cb02ba1c3b62b71a01c9ea8c9d826f253f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:40 +0000
Subject: [PATCH 63/69] fix: a number column of one value is not normalized by
 a range of zero

---
 src/util/dataset_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index ab2044a..2e35416 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -236,7 +236,7 @@ namespace happyml {
                     given_metadata[i]->is_standardized = is_numeric_value && given_standardization_values[i]->standard_deviation > 1.0;
                     given_metadata[i]->mean = (float) given_standardization_values[i]->mean_result;
                     given_metadata[i]->standard_deviation = (float) given_standardization_values[i]->standard_deviation;
-                    given_metadata[i]->is_normalized = is_numeric_value;
+                    given_metadata[i]->is_normalized = is_numeric_value && given_standardization_values[i]->max_value > given_standardization_values[i]->min_value;
                     given_metadata[i]->min_value = (float) given_standardization_values[i]->min_value;
                     given_metadata[i]->max_value = (float) given_standardization_values[i]->max_value;
                 }
@@ -247,7 +247,7 @@ namespace happyml {
                     expected_metadata[i]->is_standardized = is_numeric_value && expected_standardization_values[i]->standard_deviation > 1.0;
                     expected_metadata[i]->mean = (float) expected_standardization_values[i]->mean_result;
                     expected_metadata[i]->standard_deviation = (float) expected_standardization_values[i]->standard_deviation;
-                    expected_metadata[i]->is_normalized = is_numeric_value;
+                    expected_metadata[i]->is_normalized = is_numeric_value && expected_standardization_values[i]->max_value > expected_standardization_values[i]->min_value;
                     expected_metadata[i]->min_value = (float) expected_standardization_values[i]->min_value;
                     expected_metadata[i]->max_value = (float) expected_standardization_values[i]->max_value;
                 }
-- 
2.43.0


From a7f84680bfcf28e20e3e2924d96adc76e5ede4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:41 +0000
Subject: [PATCH 64/69] fix: scaling a dataset keeps the number of source
 columns

---
 src/util/dataset_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 2e35416..082a1c3 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -187,6 +187,7 @@ namespace happyml {
                                                                                         binaryDatasetReader.getGivenTensorPurpose(i),
                                                                                         binaryDatasetReader.getGivenTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_given_name(i));
+            next_metadata->source_column_count = binaryDatasetReader.get_given_metadata(i)->source_column_count;
             given_metadata.emplace_back(next_metadata);
             given_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (given_metadata[i]->purpose == 'N') {
@@ -202,6 +203,7 @@ namespace happyml {
                                                                                         binaryDatasetReader.getExpectedTensorPurpose(i),
                                                                                         binaryDatasetReader.getExpectedTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_expected_name(i));
+            next_metadata->source_column_count = binaryDatasetReader.get_expected_metadata(i)->source_column_count;
             expected_metadata.emplace_back(next_metadata);
             expected_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (expected_metadata[i]->purpose == 'N') {
-- 
2.43.0


From ca0ff57bdc13b3d60b2f6f9b9bdd147f243e25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:13 +0000
Subject: [PATCH 65/69] fix: hyperband eliminates the worse configurations, not
 the better ones

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..81e3827 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2: the front is kept
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From 63dd58a88d7c8a1f839b705d8c2a483eb89a5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:29 +0000
Subject: [PATCH 66/69] fix: hyperband elimination leaves at least one
 configuration

---
 src/ml/hyperband/hyperband.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 81e3827..45bb8a5 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -44,7 +44,6 @@ namespace happyml {
 
                     eliminateConfigurations(configurations, num_configurations);
 
-                    num_configurations /= reduction_factor;
                     configurations.resize(num_configurations);
                 }
                 auto best_model = configuration_evaluator_->getBestModel();
@@ -71,15 +70,15 @@ namespace happyml {
         }
 
         void eliminateConfigurations(std::vector<shared_ptr<Hyperparameters>> &configurations, size_t &num_configurations) const {
-
-            std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
+            num_configurations = std::max((size_t) 1, num_configurations / reduction_factor);
+            std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations), configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
                                   // return true if config1 is better than config2: the front is kept
                                   return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
                                          (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
-            configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
+            configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations), configurations.end());
         }
 
         shared_ptr<HyperparameterSpace> hyperparameter_space_;
-- 
2.43.0


From 92475978b16dfab090d91f2b47905241893fa5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:30 +0000
Subject: [PATCH 67/69] fix: merging tensor statistics keeps bags that one
 piece did not touch

---
 src/util/tensor_stats.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index 639ee72..6bfbdd3 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -304,7 +304,7 @@ namespace happyml {
             size_t index = 0;
             for (const auto &[val, count]: local->bagCounts14) {
                 const double original = bagCounts->bagCounts14[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts14[index][0] = val;
                 }
                 bagCounts->bagCounts14[index][1] += count;
@@ -313,7 +313,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts8) {
                 const double original = bagCounts->bagCounts8[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts8[index][0] = val;
                 }
                 bagCounts->bagCounts8[index][1] += count;
@@ -322,7 +322,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts4) {
                 const double original = bagCounts->bagCounts4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts4[index][0] = val;
                 }
                 bagCounts->bagCounts4[index][1] += count;
@@ -331,7 +331,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts1) {
                 const double original = bagCounts->bagCounts1[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts1[index][0] = val;
                 }
                 bagCounts->bagCounts1[index][1] += count;
@@ -340,7 +340,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCountsNegative4) {
                 const double original = bagCounts->bagCountsNegative4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCountsNegative4[index][0] = val;
                 }
                 bagCounts->bagCountsNegative4[index][1] += count;
@@ -361,7 +361,7 @@ namespace happyml {
             size_t index = 0;
             for (const auto &[val, count]: local->bagCounts14) {
                 const double original = bagCounts->bagCounts14[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts14[index][0] = val;
                 }
                 bagCounts->bagCounts14[index][1] += count;
@@ -370,7 +370,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts8) {
                 const double original = bagCounts->bagCounts8[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts8[index][0] = val;
                 }
                 bagCounts->bagCounts8[index][1] += count;
@@ -379,7 +379,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts4) {
                 const double original = bagCounts->bagCounts4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts4[index][0] = val;
                 }
                 bagCounts->bagCounts4[index][1] += count;
@@ -388,7 +388,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts1) {
                 const double original = bagCounts->bagCounts1[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCounts1[index][0] = val;
                 }
                 bagCounts->bagCounts1[index][1] += count;
@@ -397,7 +397,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCountsNegative4) {
                 const double original = bagCounts->bagCountsNegative4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if ((val == 0 && count > 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
                     bagCounts->bagCountsNegative4[index][0] = val;
                 }
                 bagCounts->bagCountsNegative4[index][1] += count;
-- 
2.43.0


From bb1ef2796c9313d21cd28fc56d1aff4838d81ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:30 +0000
Subject: [PATCH 68/69] fix: one bag of tensor statistics can hold several
 percentiles

---
 src/util/tensor_stats.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index 6bfbdd3..a5ee087 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -485,15 +485,15 @@ namespace happyml {
             unsigned long current_element = 0;
             for (auto it = bagElements.begin(); it != bagElements.end(); ++it) {
                 current_element += (unsigned long) it->at(1);
-                if (eightyValues.size() == 3 && current_element >= ninety_percent) {
+                if (eightyValues.size() == 1 && current_element > ten_percent) {
                     eightyValues.push_back((float) it->at(0));
-                    break;
                 }
                 if (eightyValues.size() == 2 && current_element >= fifty_percent) {
                     eightyValues.push_back((float) it->at(0));
                 }
-                if (eightyValues.size() == 1 && current_element > ten_percent) {
+                if (eightyValues.size() == 3 && current_element >= ninety_percent) {
                     eightyValues.push_back((float) it->at(0));
+                    break;
                 }
             }
             while (eightyValues.size() < 5) {
-- 
2.43.0


From cdd886ae9dd493afe81130ee52a3e580826a93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:30 +0000
Subject: [PATCH 69/69] fix: empty bags do not count for the minimum and
 maximum of tensor statistics

---
 src/util/tensor_stats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index a5ee087..30220b2 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -418,10 +418,10 @@ namespace happyml {
             maxValue = -HUGE_VAL;
             for (auto &it: bagCounts) {
                 double val = it.at(0);
-                if (val < minValue) {
+                if (it.at(1) > 0 && val < minValue) {
                     minValue = val;
                 }
-                if (val > maxValue) {
+                if (it.at(1) > 0 && val > maxValue) {
                     maxValue = val;
                 }
                 elementCount += (unsigned long) it.at(1);
-- 
2.43.0

