From 2788fcf09732f56cee1116b5b272f10c3eacdf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 01/28] fix: write the swapped bytes back when reading
 big-endian npy data

---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From 56f1a184b7bd377a9a488d0be3207f24c0b9e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:06 +0000
Subject: [PATCH 02/28] fix: reject truncated, malformed and negative-shape npy
 input instead of misreading it

---
 include/ldaplusplus/NumpyFormat.hpp | 92 +++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 25 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..089c7eb 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -236,8 +236,9 @@ namespace numpy_format {
             template <int Rows, int Cols, int Options>
             operator Eigen::Matrix<Scalar, Rows, Cols, Options>() const {
                 // get the needed rows, cols
-                int rows = shape_[0];
-                int cols = 1;
+                // (a 0-dimensional array holds a single element)
+                Eigen::Index rows = shape_.empty() ? 1 : shape_[0];
+                Eigen::Index cols = 1;
                 for (size_t i=1; i<shape_.size(); i++) {
                     cols *= shape_[i];
                 }
@@ -248,9 +249,9 @@ namespace numpy_format {
                 );
 
                 // copy the data by hand for simplicity
-                for (int i=0; i<cols; i++) {
-                    for (int j=0; j<rows; j++) {
-                        int idx = (fortran_) ? i*rows + j : j*cols + i;
+                for (Eigen::Index i=0; i<cols; i++) {
+                    for (Eigen::Index j=0; j<rows; j++) {
+                        Eigen::Index idx = (fortran_) ? i*rows + j : j*cols + i;
 
                         matrix(j, i) = data_[idx];
                     }
@@ -279,11 +280,6 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
-                    throw std::runtime_error(
-                        "Only version 1 of the numpy format is supported"
-                    );
-                }
 
                 // if the file is empty (aka we read nothing) just throw a
                 // runtime error
@@ -292,9 +288,22 @@ namespace numpy_format {
                         "The file is empty and cannot be read"
                     );
                 }
+                if (
+                    is.gcount() != 8 ||
+                    std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY"
+                ) {
+                    throw std::runtime_error(
+                        "The data are not in the numpy format"
+                    );
+                }
+                if (MAGIC_AND_VERSION[6] != 1) {
+                    throw std::runtime_error(
+                        "Only version 1 of the numpy format is supported"
+                    );
+                }
 
                 // read the header len
-                uint16_t header_len;
+                uint16_t header_len = 0;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
                 if (is_big_endian()) {
                     swap_endianess(&header_len, 1);
@@ -305,6 +314,11 @@ namespace numpy_format {
                 is.read(&buffer[0], header_len);
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
+                if (!is || header.size() < 35) {
+                    throw std::runtime_error(
+                        "The header of the numpy array is truncated"
+                    );
+                }
 
                 // we can parse the header efficiently using the fact that the
                 // specification requires the dictionary to be passed by
@@ -326,35 +340,63 @@ namespace numpy_format {
                 data.fortran_ = header[34] == 'T';
 
                 // parse shape
+                const size_t shape_begin = header.find_last_of('(');
+                const size_t shape_end = header.find_last_of(')');
+                if (
+                    shape_begin == std::string::npos ||
+                    shape_end == std::string::npos ||
+                    shape_end < shape_begin
+                ) {
+                    throw std::runtime_error(
+                        "The shape of the numpy array cannot be parsed"
+                    );
+                }
                 std::string shape = header.substr(
-                    header.find_last_of('(')+1,
-                    header.find_last_of(')')
+                    shape_begin + 1,
+                    shape_end - shape_begin - 1
                 );
-                try {
-                    while (true) {
-                        size_t processed;
-                        data.shape_.push_back(std::stoi(shape, &processed));
-
-                        // +2 to account for the comma and the space
-                        shape = shape.substr(processed + 2);
+                // stoi throws if anything but numbers is found in the tuple,
+                // between numbers we expect commas, spaces and (from python 2)
+                // the suffix of long integers
+                while (shape.find_first_not_of(" ") != std::string::npos) {
+                    size_t processed;
+                    int extent = std::stoi(shape, &processed);
+                    if (extent < 0) {
+                        throw std::runtime_error(
+                            "The shape of the numpy array is negative"
+                        );
                     }
-                } catch (const std::invalid_argument&) {
-                    // that's ok it means we finished parsing the tuple
+                    data.shape_.push_back(extent);
+
+                    shape.erase(0, shape.find_first_not_of("L, ", processed));
                 }
 
                 // compute the total size of the data
-                int N = 1;
+                const size_t max_size = data.data_.max_size();
+                size_t N = 1;
+                size_t max_N = 1;
                 for (auto c : data.shape_) {
+                    if (c > 0 && max_N > max_size / c) {
+                        throw std::runtime_error(
+                            "The shape of the numpy array is too large"
+                        );
+                    }
                     N *= c;
+                    max_N *= (c > 0) ? c : 1;
                 }
 
                 // read the data
                 data.data_.resize(N);
-                is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                is.read(reinterpret_cast<char *>(data.data_.data()), N*sizeof(Scalar));
+                if (static_cast<size_t>(is.gcount()) != N*sizeof(Scalar)) {
+                    throw std::runtime_error(
+                        "The data of the numpy array are truncated"
+                    );
+                }
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-                    swap_endianess(&data.data_[0], N);
+                    swap_endianess(data.data_.data(), N);
                 }
 
                 return is;
-- 
2.43.0


From c3941908f71f37672b30839074a8f207eb8697bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 03/28] fix: do not write out of bounds for unlabeled documents
 in the class priors

---
 src/ldaplusplus/Document.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..a89608b 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -97,13 +98,16 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    priors_(std::max(y.maxCoeff(), -1)+1)
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        // negative classes mean that the document is not labeled
+        if (y_[i] >= 0) {
+            priors_[y_[i]] ++;
+        }
     }
-    priors_.array() /= priors_.sum();
+    priors_.array() /= y_.rows();
 }
 
 size_t EigenClassificationCorpus::size() const {
@@ -127,7 +131,7 @@ void EigenClassificationCorpus::shuffle() {
 }
 
 float EigenClassificationCorpus::get_prior(int y) const {
-    return priors_[y];
+    return (y >= 0 && y < priors_.rows()) ? priors_[y] : 0;
 }
 
 }  // namespace corpus
-- 
2.43.0


From d767f682c7954e8df67a9d6f7c0d7512bf1fdbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 04/28] fix: avoid overflow in the logistic regression
 objectives

---
 .../optimization/MultinomialLogisticRegression.cpp   | 10 +++++-----
 .../SecondOrderLogisticRegressionApproximation.cpp   | 12 ++++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
index 6dc9d2c..30c7282 100644
--- a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
+++ b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
@@ -45,11 +45,10 @@ Scalar MultinomialLogisticRegression<Scalar>::value(const MatrixX &eta) const {
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(t.array().exp().sum());
 
-        // This will be used in case we have overflow issues
-        //Scalar a = t.maxCoeff();
-        //likelihood -= a + std::log((t.array() - a).exp().sum());
+        // Subtract the maximum to avoid overflow
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log((t.array() - a).exp().sum()));
     }
     
     // Add suitable normalization to the final likelihood
@@ -68,7 +67,8 @@ void MultinomialLogisticRegression<Scalar>::gradient(const MatrixX &eta, Eigen::
     for (int d=0; d<y_.rows(); d++) {
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
-        t = (eta.transpose() * X_.col(d)).array().exp();
+        t = eta.transpose() * X_.col(d);
+        t = (t.array() - t.maxCoeff()).exp().eval();
         grad += Cy_[y_[d]] * (X_.col(d) * t.transpose()) / t.sum();
     }
 
diff --git a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
index 0b20155..6a68a0d 100644
--- a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
+++ b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
@@ -47,9 +47,12 @@ Scalar SecondOrderLogisticRegressionApproximation<Scalar>::value(const MatrixX &
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(
-            (t.array().exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
-        );
+
+        // Subtract the maximum to avoid overflow
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log(
+            ((t.array() - a).exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
+        ));
     }
     
     // Add suitable normalization to the final likelihood
@@ -73,7 +76,8 @@ void SecondOrderLogisticRegressionApproximation<Scalar>::gradient(const MatrixX
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
         // compute everything needed to assemble the gradients
-        eta_Ez = (eta.transpose() * X_.col(d)).array().exp();
+        eta_Ez = eta.transpose() * X_.col(d);
+        eta_Ez = (eta_Ez.array() - eta_Ez.maxCoeff()).exp().eval();
         eta_Vz = eta.transpose() * X_var_[d];
         eta_Vz_eta = (eta_Vz * eta).diagonal();
         eta_Vz += eta.transpose() * X_var_[d].transpose();
-- 
2.43.0


From 42fcec7a6f57a0a67e50e3454399626505285cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 05/28] fix: always evaluate the step taken by the Armijo line
 search

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index e4a8107..675b86f 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -119,16 +119,17 @@ class ArmijoLineSearch : public LineSearch<ProblemType, ParameterType>
             ParameterType x_copy(x0.rows(), x0.cols());
             Scalar value_x0 = problem.value(x0);
             Scalar decrease = beta_ * (grad_x0.array() * direction.array()).sum();
-            Scalar value = value_x0;
-            Scalar a = 1.0/tau_;
+            Scalar a = 1;
 
+            x_copy = x0 - a * direction;
+            Scalar value = problem.value(x_copy);
             while (value > value_x0 - a * decrease) {
                 a *= tau_;
                 x_copy = x0 - a * direction;
                 value = problem.value(x_copy);
             }
 
-            x0 -= a * direction;
+            x0 = x_copy;
 
             return value;
         }
-- 
2.43.0


From 8aeabdaeaef167a2184a2c2bc7e8e38b72531f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 06/28] fix: report the gradient norm of the current point
 instead of uninitialised memory

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index 675b86f..9a87097 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -190,14 +190,15 @@ class GradientDescent
 
             // Keep the value in this variable
             Scalar value = problem.value(x0);
+            problem.gradient(x0, grad);
 
             // And the iterations in this one
             size_t iterations = 0;
 
             // Whether we stop or not is decided by someone else
             while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
-                problem.gradient(x0, grad);
                 value = line_search_->search(problem, x0, grad, grad);
+                problem.gradient(x0, grad);
             }
         }
 
-- 
2.43.0


From 62c398ab6300c34b00cf6fe8d9e806dd21c02255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 07/28] fix: fast_exp must not index its table with NaN

---
 include/ldaplusplus/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/utils.hpp b/include/ldaplusplus/utils.hpp
index ab772c7..f721ee8 100644
--- a/include/ldaplusplus/utils.hpp
+++ b/include/ldaplusplus/utils.hpp
@@ -362,7 +362,8 @@ static inline Scalar fast_exp(Scalar x) {
     if (x < 0)
         return 1/fast_exp(-x);
 
-    if (x > 100)
+    // the negation makes sure that NaN never indexes the table
+    if (!(x <= 100))
         return std::exp(x);
 
     int cnt = 0;
-- 
2.43.0


From 8a2bc7074a9a0f7d5caa23e9b969252c7f77de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:29 +0000
Subject: [PATCH 08/28] fix: multinomial expectation step must stop on its
 tolerance, not on compute_likelihood

---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From b73c832604c6c320cb26e66c11d2468a5e3813e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:29 +0000
Subject: [PATCH 09/28] fix: count repeated words in every term of the
 variational bound

---
 src/ldaplusplus/e_step_utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..d744efb 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -19,8 +19,9 @@ Scalar compute_unsupervised_likelihood(
 
     Scalar likelihood = 0;
 
-    // Make sure we ignore phi for words that are not in the document
-    MatrixX<Scalar> phi2 = phi.array().rowwise() * (X.array() != 0).cast<Scalar>().transpose();
+    // Weight phi by the number of times each word appears in the document
+    // (words that are not in the document are ignored)
+    MatrixX<Scalar> phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
 
     // \Psi(\gamma) - \Psi(\sum_j \gamma)
     VectorX<Scalar> t1 = gamma.unaryExpr(cwise_digamma).array() - math_utils::digamma(gamma.sum());
@@ -30,16 +31,15 @@ Scalar compute_unsupervised_likelihood(
     likelihood += std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();
 
     // E_q[log p(z | \theta)]
-    likelihood += (phi2.transpose() * t1).sum();
+    likelihood += (phi_scaled.transpose() * t1).sum();
 
     // E_q[log p(w | z, \beta)]
-    auto phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
-    likelihood += (phi_scaled * (beta.array() + 1e-44).log()).sum();
+    likelihood += (phi_scaled.array() * (beta.array() + 1e-44).log()).sum();
 
     // H(q)
     likelihood += -((gamma.array() - 1).matrix().transpose() * t1).value();
     likelihood += -std::lgamma(gamma.sum()) + gamma.unaryExpr(cwise_lgamma).sum();
-    likelihood += -(phi2.array() * (phi2.array() + 1e-44).log()).sum();
+    likelihood += -(phi_scaled.array() * (phi.array() + 1e-44).log()).sum();
     
     return likelihood;
 }
-- 
2.43.0


From 6c595bbd357c5737535899515493f203b99ebfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:29 +0000
Subject: [PATCH 10/28] fix: keep the assignments of words unknown to every
 topic finite in the supervised step

---
 src/ldaplusplus/e_step_utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index d744efb..2abd69c 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -261,7 +261,13 @@ void compute_supervised_phi_gamma(
             //    psi_gamma + X_ratio[n]*eta.col(y) - h * t
             //).array().exp();
 
-            phi.col(n).array() /= phi.col(n).sum();
+            // No topic can generate this word so keep what we had
+            Scalar phi_n_sum = phi.col(n).sum();
+            if (phi_n_sum == 0) {
+                phi.col(n) = old_phi_n;
+                break;
+            }
+            phi.col(n).array() /= phi_n_sum;
         }
 
         // Recompute the products with the updated phi
-- 
2.43.0


From f082b328390c0542171f999d01ca8bedc53965c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:29 +0000
Subject: [PATCH 11/28] fix: supervised likelihood of empty documents and
 without inference iterations

---
 src/ldaplusplus/e_step_utils.cpp       | 6 ++++++
 src/ldaplusplus/em/SupervisedEStep.cpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 2abd69c..09bbe3d 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -81,6 +81,12 @@ Scalar compute_supervised_likelihood(
         gamma
     );
 
+    // There are no topic assignments in an empty document so every class is
+    // equally likely
+    if (X.sum() == 0) {
+        return likelihood - std::log(static_cast<Scalar>(eta.cols()));
+    }
+
     // E_q[log p(y | z,n)] approximated using Jensens inequality
     int n;
     for (n=X.rows()-1; n>=0; n--) {
diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..35ce2ad 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -79,7 +79,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
         this->get_event_dispatcher()->
             template dispatch<events::ExpectationProgressEvent<Scalar> >(
                 e_step_utils::compute_supervised_likelihood<Scalar>(
-                    X, y, alpha, beta, eta, phi, gamma, h
+                    X, y, alpha, beta, eta, phi, gamma
                 )
             );
     } else {
-- 
2.43.0


From 964f9a79e0ca1f0184b7e756b6ec9e23bdbfc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 12/28] fix: topics without any mass keep their distribution
 instead of becoming NaN

---
 src/ldaplusplus/em/UnsupervisedMStep.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/UnsupervisedMStep.cpp b/src/ldaplusplus/em/UnsupervisedMStep.cpp
index 37d6832..927861d 100644
--- a/src/ldaplusplus/em/UnsupervisedMStep.cpp
+++ b/src/ldaplusplus/em/UnsupervisedMStep.cpp
@@ -9,8 +9,14 @@ void UnsupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
     // we maximized w.r.t \beta during each doc_m_step
-    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta = 
-        b_.array().colwise() / b_.array().rowwise().sum();
+    MatrixX &beta = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta;
+    for (int k=0; k<b_.rows(); k++) {
+        // A topic that no word was assigned to keeps its distribution
+        Scalar mass = b_.row(k).sum();
+        if (mass > 0) {
+            beta.row(k) = b_.row(k) / mass;
+        }
+    }
 
     b_.fill(0);
 }
-- 
2.43.0


From 79a70d4f4e8542467ba5cd32d16046ee8551bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 13/28] fix: multinomial and correspondence maximization keep
 topics without mass and survive empty passes

---
 .../em/CorrespondenceSupervisedMStep.cpp           | 14 ++++++++++++--
 src/ldaplusplus/em/MultinomialSupervisedMStep.cpp  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
index 484c175..723287b 100644
--- a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
@@ -10,11 +10,21 @@ template <typename Scalar>
 void CorrespondenceSupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
+    // There are no statistics before the first document
+    if (b_.rows() == 0) {
+        return;
+    }
+
     // Normalize according to the statistics
     auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters);
-    model->beta = b_;
+    for (int k=0; k<b_.rows(); k++) {
+        // A topic that no word was assigned to keeps its distribution
+        Scalar mass = b_.row(k).sum();
+        if (mass > 0) {
+            model->beta.row(k) = b_.row(k) / mass;
+        }
+    }
     model->eta = h_.array() + mu_ - 1;
-    math_utils::normalize_rows(model->beta);
     math_utils::normalize_rows(model->eta);
 
     // Report the log_py
diff --git a/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
index 7fdadec..e7ad0b6 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
@@ -10,11 +10,21 @@ template <typename Scalar>
 void MultinomialSupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
+    // There are no statistics before the first document
+    if (b_.rows() == 0) {
+        return;
+    }
+
     // Normalize according to the statistics
     auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters);
-    model->beta = b_;
+    for (int k=0; k<b_.rows(); k++) {
+        // A topic that no word was assigned to keeps its distribution
+        Scalar mass = b_.row(k).sum();
+        if (mass > 0) {
+            model->beta.row(k) = b_.row(k) / mass;
+        }
+    }
     model->eta = h_.array() + mu_ - 1;
-    math_utils::normalize_rows(model->beta);
     math_utils::normalize_rows(model->eta);
 
     // Report the log_py
-- 
2.43.0


From e031bb6c9d5da77cd2ea834bf7151a63dce83492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 14/28] fix: empty and very long documents in the supervised
 maximization step

---
 src/ldaplusplus/em/SupervisedMStep.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..b3754b7 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -52,12 +52,16 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // get the expected_z_bar
     expected_z_bar_.col(docs_) = gamma - alpha;
-    expected_z_bar_.col(docs_).array() /= N;
 
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+
+    // empty documents have no topic proportions to normalize
+    if (N > 0) {
+        expected_z_bar_.col(docs_).array() /= N;
+        variance_z_bar_[docs_] /= static_cast<Scalar>(N) * N;
+    }
 
     docs_ += 1;
 }
-- 
2.43.0


From faa4c9ffd2e8b7d5f701de2f6a123205b5844f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 15/28] fix: leave the class parameters alone in a pass without
 labeled documents

---
 src/ldaplusplus/em/FastSupervisedMStep.cpp | 5 +++++
 src/ldaplusplus/em/SupervisedMStep.cpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/ldaplusplus/em/FastSupervisedMStep.cpp b/src/ldaplusplus/em/FastSupervisedMStep.cpp
index 5a52e78..ad6a15c 100644
--- a/src/ldaplusplus/em/FastSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedMStep.cpp
@@ -62,6 +62,11 @@ void FastSupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // without any labeled documents there is nothing to fit \eta to
+    if (docs_ == 0) {
+        return;
+    }
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index b3754b7..7f38774 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -77,6 +77,11 @@ void SupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // without any labeled documents there is nothing to fit \eta to
+    if (docs_ == 0) {
+        return;
+    }
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
-- 
2.43.0


From 9dcd7495d4f23043f0c835d0139f2c3b295d44e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 16/28] fix: empty documents and topics without mass in the
 online maximization step

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..86759f1 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -74,7 +74,10 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    Scalar words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0) {
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
+    }
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
@@ -103,10 +106,13 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     // update the topic distributions
     // TODO: Change the update to something more formal like the online update
     //       of Hoffman et al.
-    beta.array() = (
-        beta_weight_ * beta.array() +
-        (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
-    );
+    for (int k=0; k<b_.rows(); k++) {
+        // A topic that no word was assigned to keeps its distribution
+        Scalar mass = b_.row(k).sum();
+        if (mass > 0) {
+            beta.row(k) = beta_weight_ * beta.row(k) + (1-beta_weight_) * b_.row(k) / mass;
+        }
+    }
 
     // update the eta
     optimization::MultinomialLogisticRegression<Scalar> mlr(
-- 
2.43.0


From ad2920d97147272435fcf24cc6ba3b3a4fbc7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 17/28] fix: use the class weights given to the online
 maximization step

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 86759f1..fcbe410 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -118,6 +118,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From 12ebec2d4aa196da3666dbf0dfe8ffdeb79c54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 18/28] fix: online topic updates must use the word counts of
 their own minibatch only

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index fcbe410..fc8c5ab 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -114,6 +114,9 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
         }
     }
 
+    // the statistics of this minibatch should not be part of the next
+    b_.fill(0);
+
     // update the eta
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
-- 
2.43.0


From fff08f1df748d8cd74ae3ef6f1aff4cbb3105e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:59 +0000
Subject: [PATCH 19/28] fix: decision scores of empty documents are zero
 instead of NaN

---
 src/ldaplusplus/LDA.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 606e8b0..916e5ed 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -193,7 +193,13 @@ typename LDA<Scalar>::MatrixX LDA<Scalar>::decision_function(const MatrixX &X) {
     // the linear model is trained on
     // E_q[\bar z] = \fraction{\gamma - \alpha}{\sum_i \gamma_i}
     MatrixX expected_z_bar = X.colwise() - model->alpha;
-    expected_z_bar.array().rowwise() /= expected_z_bar.array().colwise().sum();
+    for (int d=0; d<expected_z_bar.cols(); d++) {
+        // An empty document has no topics assigned to it
+        Scalar words_in_doc = expected_z_bar.col(d).sum();
+        if (words_in_doc != 0) {
+            expected_z_bar.col(d).array() /= words_in_doc;
+        }
+    }
 
     // finally return the linear scores like a boss
     return model->eta.transpose() * expected_z_bar;
-- 
2.43.0


From eff9dcee81445f5085b9effe34fd41e235690606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:07 +0000
Subject: [PATCH 20/28] fix: a listener removed and added again before events
 are processed must stay registered

---
 src/ldaplusplus/events/Events.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..19c5e12 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -49,9 +49,16 @@ void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
 void ThreadSafeEventDispatcher::add_listener(
     std::shared_ptr<EventListenerInterface> listener
 ) {
-    std::lock_guard<std::mutex> l(listeners_mutex_);
+    std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
+    std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);
 
-    listeners_.push_back(listener);
+    std::lock(l1, l2);
+
+    // a listener that is added again before its removal took place is still in
+    // the list and just must not be removed
+    if (deleted_listeners_.erase(listener) == 0) {
+        listeners_.push_back(listener);
+    }
 }
 
 void ThreadSafeEventDispatcher::remove_listener(
-- 
2.43.0


From 5c5b7b781e3517e2bfb5966d9ffc717b25d5bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:07 +0000
Subject: [PATCH 21/28] fix: do not decrement the iterator past the first
 listener when removing listeners

---
 src/ldaplusplus/events/Events.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index 19c5e12..a741a56 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -84,10 +84,11 @@ void ThreadSafeEventDispatcher::process_events() {
 
         std::lock(l1, l2);
 
-        for (auto l=listeners_.begin(); l!=listeners_.end(); l++) {
+        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
             if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                 l = listeners_.erase(l);
-                l--;
+            } else {
+                l++;
             }
         }
 
-- 
2.43.0


From 0b44f235f778306a93131b0141757a41a9e4d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:25 +0000
Subject: [PATCH 22/28] fix: listeners can be removed while an event is being
 dispatched

---
 src/ldaplusplus/events/Events.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index a741a56..a873070 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -40,7 +40,10 @@ void EventDispatcher::remove_listener(std::shared_ptr<EventListenerInterface> li
 
 
 void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
-    for (auto l : listeners_) {
+    // iterate over a copy because the listeners are allowed to add and remove
+    // listeners
+    auto listeners = listeners_;
+    for (auto l : listeners) {
         l->on_event(event);
     }
 }
-- 
2.43.0


From 78dec192e96f34f9bc97f3844f290fcb8100ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 23/28] fix: report the per document likelihood without
 truncating it to integers

---
 include/applications/EpochProgress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/applications/EpochProgress.hpp b/include/applications/EpochProgress.hpp
index 3bd247f..064fe16 100644
--- a/include/applications/EpochProgress.hpp
+++ b/include/applications/EpochProgress.hpp
@@ -20,7 +20,7 @@ class EpochProgress : public events::EventListenerInterface
 
     private:
        int em_iterations_;
-       int likelihood_;
+       double likelihood_;
        int cnt_likelihoods_;
        int is_first_time_;
 };
-- 
2.43.0


From ffe4a6de0d806cc6dbd8028501608fc1bdc045bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 24/28] fix: --continue_from_unsupervised must load the model
 it names

---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From e784ca5d278393067a02a800686455c768d1b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 25/28] fix: report models and results that could not be
 written

---
 include/ldaplusplus/NumpyFormat.hpp | 6 ++++++
 src/applications/lda_io.cpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 089c7eb..401e3a6 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <fstream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -428,6 +429,11 @@ namespace numpy_format {
         );
 
         save(out_stream, matrix);
+
+        out_stream.close();
+        if (!out_stream) {
+            throw std::runtime_error("The data could not be written to " + save_path);
+        }
     }
 
 
diff --git a/src/applications/lda_io.cpp b/src/applications/lda_io.cpp
index 4b66a23..5f5ce82 100644
--- a/src/applications/lda_io.cpp
+++ b/src/applications/lda_io.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 
 #include "ldaplusplus/NumpyFormat.hpp"
 
@@ -68,6 +69,11 @@ void save_lda(
     model << numpy_format::NumpyOutput<double>(model_parameters->alpha);
     model << numpy_format::NumpyOutput<double>(model_parameters->beta);
     model << numpy_format::NumpyOutput<double>(model_parameters->eta);
+
+    model.close();
+    if (!model) {
+        throw std::runtime_error("The model could not be written to " + model_path);
+    }
 }
 
 std::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda(
-- 
2.43.0


From a008ae84e12190ffb4d1bd7cbfc0eac81fea9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 26/28] fix: reject npy headers with another layout instead of
 misreading the memory order

---
 include/ldaplusplus/NumpyFormat.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 401e3a6..b224cdc 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -323,7 +323,20 @@ namespace numpy_format {
 
                 // we can parse the header efficiently using the fact that the
                 // specification requires the dictionary to be passed by
-                // pprint.pformat()
+                // pprint.pformat(), so anything laid out in another way is
+                // rejected instead of being misread
+                if (
+                    header.compare(0, 11, "{'descr': '") != 0 ||
+                    header.compare(14, 20, "', 'fortran_order': ") != 0 ||
+                    (
+                        header.compare(34, 4, "True") != 0 &&
+                        header.compare(34, 5, "False") != 0
+                    )
+                ) {
+                    throw std::runtime_error(
+                        "The header of the numpy array cannot be parsed"
+                    );
+                }
 
                 // parse dtype info
                 std::string dtype = header.substr(11, 3);
-- 
2.43.0


From 4cbc034ff82f8faed671e062a7f51d46b74d341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 27/28] fix: a labeled corpus can be empty

---
 src/ldaplusplus/Document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index a89608b..a41ad91 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -98,7 +98,7 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(std::max(y.maxCoeff(), -1)+1)
+    priors_(y.rows() > 0 ? std::max(y.maxCoeff(), -1)+1 : 0)
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-- 
2.43.0


From 3b255ad055af7737a2e0ef190be4bb43ca4c6ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:22 +0000
Subject: [PATCH 28/28] fix: headers of saved arrays do not depend on the
 stream's format or the locale

---
 include/ldaplusplus/NumpyFormat.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index b224cdc..8020ebe 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <fstream>
+#include <locale>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -159,7 +160,9 @@ namespace numpy_format {
 
                 // We need to create the header for the data which is a python literal
                 // string
+                // (independently of the program's locale)
                 std::ostringstream header;
+                header.imbue(std::locale::classic());
                 header << "{'descr': '" << data.dtype() << "',"
                        << " 'fortran_order': " << (data.fortran_contiguous() ? "True" : "False") << ","
                        << " 'shape': (";
@@ -187,8 +190,9 @@ namespace numpy_format {
                     os.write(reinterpret_cast<const char *>(&header_len), 1);
                 }
 
-                // Write the header
-                os << header.str();
+                // Write the header as is no matter how the stream is formatted
+                const std::string header_str = header.str();
+                os.write(header_str.data(), header_str.size());
 
                 // Finally write the data
                 size_t N = 1;
-- 
2.43.0

