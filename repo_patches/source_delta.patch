From f749a02e963778e0beb3657501eb48cf95710e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 01/99] fix: HashId::fromHexString refuses text with
 non-hexadecimal characters

It threw std::invalid_argument from std::stoul or accepted signs, white space
and 0x prefixes, leaving a partially overwritten id.
---
 sm_common/include/sm/hash_id.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..2defa22 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <random>
 #include <mutex>
+#include <string>
 
 namespace sm {
 
@@ -77,6 +78,9 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 98d81ab7549863a4e60609ac8fadfc3d9d2b3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 02/99] fix: sm::replace and replace_reverse terminate and
 respect the skip count

Replacing a character by itself looped for ever, and replace_reverse wrapped
around after skipping an occurrence at the front of the string, replacing
occurrences that were to be skipped.
---
 sm_common/include/sm/string_routines.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..2ec8276 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -20,7 +20,7 @@ namespace sm
                 pos++;
             }
             else
-                str[pos] = replacement;
+                str[pos++] = replacement;
         }
         return str;
     }
@@ -33,12 +33,12 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From d392fca617f58095b3b05c298bf3db586b85604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/99] fix: ordering assertion macros throw for NaN operands

SM_ASSERT_LT and its relatives tested the opposite relation, which is false
too when an operand is not a number, so that the assertion passed silently.
---
 sm_common/include/sm/assert_macros.hpp | 44 +++++++++++++-------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 8453af2..4a14642 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -103,7 +103,7 @@ namespace sm {
 
 
 #define SM_ASSERT_GE_LT(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) >= (upperBound))							\
+  if(!((value) >= (lowerBound) && (value) < (upperBound)))							\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #lowerBound << " <= " << #value << " < " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " < " << (upperBound) << "]: " << message; \
@@ -111,7 +111,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_LE(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) <= (lowerBound) || (value) > (upperBound))             \
+  if(!((value) > (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #lowerBound << " < " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " < " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -119,7 +119,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE_LE(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) > (upperBound))             \
+  if(!((value) >= (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #lowerBound << " <= " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -127,7 +127,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_LT(exceptionType, value, upperBound, message)			\
-  if((value) >= (upperBound))												\
+  if(!((value) < (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " < " << #upperBound << ") failed [" << (value) << " < " << (upperBound) << "]: " <<  message; \
@@ -135,7 +135,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE(exceptionType, value, lowerBound, message)			\
-  if((value) < (lowerBound))												\
+  if(!((value) >= (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " >= " << #lowerBound << ") failed [" << (value) << " >= " << (lowerBound) << "]: " <<  message; \
@@ -145,7 +145,7 @@ namespace sm {
 
 
 #define SM_ASSERT_LE(exceptionType, value, upperBound, message)			\
-  if((value) > (upperBound))												\
+  if(!((value) <= (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " <= " << #upperBound << ") failed [" << (value) << " <= " << (upperBound) << "]: " <<  message; \
@@ -153,7 +153,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT(exceptionType, value, lowerBound, message)			\
-  if((value) <= (lowerBound))												\
+  if(!((value) > (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " > " << #lowerBound << ") failed [" << (value) << " > " << (lowerBound) << "]: " <<  message; \
@@ -161,7 +161,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_POSITIVE(exceptionType, value, message)     \
-  if((value) <= 0.0)                       \
+  if(!((value) > 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " > 0.0) failed [" << (value) << " > 0.0]: " <<  message; \
@@ -169,7 +169,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONNEGATIVE(exceptionType, value, message)     \
-  if((value) < 0.0)                       \
+  if(!((value) >= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -177,7 +177,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NEGATIVE(exceptionType, value, message)     \
-  if((value) >= 0.0)                       \
+  if(!((value) < 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " < 0.0) failed [" << (value) << " < 0.0]: " <<  message; \
@@ -185,7 +185,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONPOSITIVE(exceptionType, value, message)     \
-  if((value) > 0.0)                       \
+  if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -290,7 +290,7 @@ namespace sm {
 #define SM_ASSERT_DBG_RE( condition, message) SM_ASSERT_DBG(std::runtime_error, condition, message)
 
 #define SM_ASSERT_GE_LT_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) >= (upperBound))							\
+  if(!((value) >= (lowerBound) && (value) < (upperBound)))							\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #lowerBound << " <= " << #value << " < " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " < " << (upperBound) << "]: " << message; \
@@ -298,7 +298,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_LE_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) <= (lowerBound) || (value) > (upperBound))             \
+  if(!((value) > (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #lowerBound << " < " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " < " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -306,7 +306,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE_LE_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) > (upperBound))             \
+  if(!((value) >= (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #lowerBound << " <= " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -314,7 +314,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_POSITIVE_DBG(exceptionType, value, message)     \
-  if((value) <= 0.0)                       \
+  if(!((value) > 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " > 0.0) failed [" << (value) << " > 0.0]: " <<  message; \
@@ -322,7 +322,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONNEGATIVE_DBG(exceptionType, value, message)     \
-  if((value) < 0.0)                       \
+  if(!((value) >= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -330,7 +330,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NEGATIVE_DBG(exceptionType, value, message)     \
-  if((value) >= 0.0)                       \
+  if(!((value) < 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " < 0.0) failed [" << (value) << " < 0.0]: " <<  message; \
@@ -338,7 +338,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONPOSITIVE_DBG(exceptionType, value, message)     \
-  if((value) > 0.0)                       \
+  if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -362,7 +362,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_LT_DBG(exceptionType, value, upperBound, message)		\
-  if((value) >= (upperBound))												\
+  if(!((value) < (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " < " << #upperBound << ") failed [" << (value) << " < " << (upperBound) << "]: " <<  message; \
@@ -372,7 +372,7 @@ namespace sm {
 
 
 #define SM_ASSERT_GE_DBG(exceptionType, value, lowerBound, message)		\
-  if((value) < (lowerBound))												\
+  if(!((value) >= (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " >= " << #lowerBound << ") failed [" << (value) << " >= " << (lowerBound) << "]: " <<  message; \
@@ -382,7 +382,7 @@ namespace sm {
 
 
 #define SM_ASSERT_LE_DBG(exceptionType, value, upperBound, message)		\
-  if((value) > (upperBound))												\
+  if(!((value) <= (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " <= " << #upperBound << ") failed [" << (value) << " <= " << (upperBound) << "]: " <<  message; \
@@ -390,7 +390,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_DBG(exceptionType, value, lowerBound, message)		\
-  if((value) <= (lowerBound))												\
+  if(!((value) > (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " > " << #lowerBound << ") failed [" << (value) << " > " << (lowerBound) << "]: " <<  message; \
-- 
2.43.0


From 916ce9696f7f9e81c01e51ba7da1bfc82b7feef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/99] fix: solveQuadratic returns the double root at zero
 instead of NaN

---
 sm_common/include/sm/maths.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..b51ec78 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,6 +34,12 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    if(n == 0.0)
+      {
+	// b and c are zero: a double root at zero
+	return std::make_pair(0.0,0.0);
+      }
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From f88cc35e23cb42df0b9f2dd252a3fa37304998f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 05/99] fix: sm::round rounds to the nearest integer and lrint
 keeps 64 bits

Adding 0.5 before truncating rounds 0.49999999999999994 up and is off by one
for large odd numbers; lrint(double) truncated its result to an int.
---
 sm_common/include/sm/round.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..abcaad3 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,16 +1,18 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
@@ -25,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From c52a57acc9af8ccfad4ab1dfabbf75639fdae4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 06/99] fix: randLU never returns its excluded upper bound

For bounds that are close relative to their magnitude the sum rounded up to
the upper bound.
---
 sm_random/src/random.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..9b7d601 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -5,6 +5,7 @@
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/variate_generator.hpp>
 #include <boost/random/normal_distribution.hpp>
+#include <cmath>
 
 
 namespace sm {
@@ -77,7 +78,13 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  double value = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  if(value >= upperBoundExclusive && lowerBoundInclusive < upperBoundExclusive)
+  {
+    // rounding has reached the excluded bound
+    value = std::nextafter(upperBoundExclusive, lowerBoundInclusive);
+  }
+  return value;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
-- 
2.43.0


From f2a093e9f6a08ba05285dfc969fc1f4bee28fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 07/99] fix: randLUi supports ranges wider than INT_MAX

The difference of the bounds overflowed and values outside the range were
returned.
---
 sm_random/src/random.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 9b7d601..44a4ed4 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -89,7 +89,8 @@ double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  const double range = (double)upperBoundExclusive - (double)lowerBoundInclusive;
+  return (int)((boost::int64_t)floor(Random::instance().uniform() * range) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From 26400152a2faa53b0b9242ade9109672dc546fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 08/99] fix: compareRelative does not accept NaN as equal to
 anything

---
 sm_eigen/include/sm/eigen/gtest.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 9c13b4e..86319cc 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -106,6 +106,8 @@ namespace sm { namespace eigen {
     inline bool compareRelative(double a, double b, double percentTolerance, double * percentError = NULL)
     {
 	  // \todo: does anyone have a better idea?
+      if(a == b)
+		return true;
       double fa = fabs(a);
       double fb = fabs(b);
       if( (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
@@ -114,7 +116,7 @@ namespace sm { namespace eigen {
 		return true;
       
       double diff = fabs(a - b)/std::max(fa,fb);
-      if(diff > percentTolerance * 1e-2)
+      if(!(diff <= percentTolerance * 1e-2))
 		{
 		  if(percentError)
 			*percentError = diff * 100.0;
-- 
2.43.0


From 014b08c1b09a5e0498c075dfbebf625fb4b9c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 09/99] fix: computeMatrixSqrt is finite and accurate for
 singular matrices

With the LDLt decomposition, rounding left pivots slightly below zero, whose
square root made the result NaN, or stale pivots that lost half of the digits,
although semidefinite matrices are supported.
---
 sm_eigen/include/sm/eigen/matrix_sqrt.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
index 01048fa..5373e9c 100755
--- a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
+++ b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
@@ -2,13 +2,14 @@
 #define SM_EIGEN_MATRIX_SQRT_HPP
 
 #include <sm/assert_macros.hpp>
-#include <Eigen/Cholesky>
+#include <Eigen/Core>
+#include <Eigen/Eigenvalues>
 
 namespace sm {
     namespace eigen {
         
         /** 
-         * \brief Compute the square root of a matrix using the LDLt decomposition for square, positive semidefinite matrices
+         * \brief Compute the square root of a matrix using the eigendecomposition for square, symmetric, positive semidefinite matrices
          *
          * To reconstruct the input matrix, \f$ \mathbf A \f$, from the returned matrix, \f$ \mathbf S \f$,
          * use, \f$ \mathbf A = \mathbf S \mathbf S^T \f$.
@@ -30,12 +31,11 @@ namespace sm {
             // for example, the inMatrix is something like Eigen::Matrix3d::Identity(),
             // which is not an actual matrix. Using DERIVED1 as the template argument
             // in that case will cause a firestorm of compiler errors.
-            Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
-            result = ldlt.matrixL();
-            result = ldlt.transpositionsP().transpose() * result;
-            result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
+            Eigen::SelfAdjointEigenSolver< DERIVED2 > eig(inMatrix.derived());
+            // For a singular matrix rounding may leave slightly negative eigenvalues.
+            result = eig.eigenvectors() * eig.eigenvalues().cwiseMax(typename DERIVED2::Scalar(0)).cwiseSqrt().asDiagonal();
             
-            //return ldlt.info();
+            //return eig.info();
             
         }
 
-- 
2.43.0


From 93f6326d9cd8db991a1c3c123d27df1d419cf477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/99] fix: axisAngle2quat small-angle series has the right
 sign

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..4fe67c4 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From 38a4f0e8a6ebd80d0688e1d982eda4178ec05fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 11/99] fix: arcSinXOverX keeps its quadratic term

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 4fe67c4..a0c1929 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 27a3b41f15ab456a3d0610b288bd243f2269209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 12/99] fix: quat2AxisAngle is finite for the negative identity
 quaternion

---
 sm_kinematics/src/quaternion_algebra.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index a0c1929..da53e0a 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -267,7 +267,12 @@ namespace sm { namespace kinematics {
             }else{
               // (pi - asin(na))/ na has a pole at na == 0. So we cannot remove this singularity.
               // It is just the cut locus of the unit quaternion manifold at identity and thus the axis angle description becomes necessarily unstable there.
-              scale = (M_PI - asin(na)) / na;
+              if(na == Scalar_(0)){
+                // Minus the identity quaternion: a full turn about any axis.
+                return Eigen::Matrix<Scalar_, 3, 1>(Scalar_(2 * M_PI), Scalar_(0), Scalar_(0));
+              }
+              // Normalise first: 1 / na may overflow and na may have underflown.
+              return a.stableNormalized() * (Scalar_(2) * (Scalar_(M_PI) - asin(na)));
             }
           }
           return a * (Scalar_(2) * scale);
-- 
2.43.0


From e9fb00854a76ee2aba6fae8fe921f264f1357100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 13/99] fix: axisAngle2R accepts negative angles

---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..233073e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -98,7 +98,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From 729c345dc41b895caeee39686e0b19df78e5bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 14/99] fix: R2rph and C2rph are finite for matrices with
 roundoff

---
 sm_kinematics/src/rotations.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 233073e..1597a0e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -2,11 +2,17 @@
 
 #include <Eigen/Geometry>
 #include <sm/assert_macros.hpp>
+#include <algorithm>
 #include <boost/math/special_functions/fpclassify.hpp>
 #include <boost/math/special_functions/round.hpp>
 
 namespace sm { namespace kinematics {
 
+  // Because of roundoff an entry of a rotation matrix can be slightly larger than one.
+  static double clampedAsin(double x){
+    return asin(std::max(-1.0, std::min(x, 1.0)));
+  }
+
   // Euler angle rotations.
   Eigen::Matrix3d Rx(double radians){
     Eigen::Matrix3d C;
@@ -62,7 +68,7 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    double phi = clampedAsin(C(2,0));
     double theta = atan2(C(2,1),C(2,2));
     double psi = atan2(C(1,0), C(0,0));
     
@@ -194,7 +200,7 @@ namespace sm { namespace kinematics {
 
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = clampedAsin(C(2,0));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
@@ -205,7 +211,7 @@ namespace sm { namespace kinematics {
    {
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = clampedAsin(C(2,0));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
-- 
2.43.0


From 3e77ac15629f2e7a0a83d3224057d858ad8267cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 15/99] fix: RotationVector recovers half turns and tiny
 rotations from the matrix

---
 sm_kinematics/src/RotationVector.cpp | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..1ce8ff8 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -56,27 +56,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
         {
-            Eigen::Vector3d p;
-            // Sometimes, because of roundoff error, the value of tr ends up outside
-            // the valid range of arccos. Truncate to the valid range.
-            double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-            double a = acos( tr ) ;
-
-            if(fabs(a) < 1e-14){
-                return Eigen::Vector3d::Zero();
-            }
-      
-            p[0] = (C(2,1) - C(1,2));
-            p[1] = (C(0,2) - C(2,0));
-            p[2] = (C(1,0) - C(0,1));
-            double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
-      
-            double scale = -a/n2;
-            p = scale * p;
-
-            return p;
+            return R2AxisAngle(C);
         }
 
         Eigen::Matrix3d RotationVector::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From 55819824fdb021a5653776617e08370faa119d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 16/99] fix: RotationVector inverse S matrix is finite and
 accurate for small angles

---
 sm_kinematics/src/RotationVector.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index 1ce8ff8..33fcdd6 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/RotationVector.hpp>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -165,19 +166,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Matrix3d RotationVector::parametersToInverseSMatrix(const Eigen::Vector3d & parameters) const
         {
-            double phi = std::sqrt(parameters.transpose()*parameters);
-            Eigen::Matrix3d invS;
-            if(phi == 0)
-            {
-                invS = Eigen::Matrix3d::Identity();
-            }
-            else
-            {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
-                invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
-            }
-            return invS;
+            return logDiffMat<double>(parameters);
         }
 
 
-- 
2.43.0


From 066a12b32e84c23e30bd6766cb7db758ad53a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 17/99] fix: RotationVector angular velocity Jacobian is finite
 and accurate for small angles

---
 sm_kinematics/src/RotationVector.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index 33fcdd6..7c37bc0 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -115,6 +115,21 @@ namespace sm { namespace kinematics {
                 double t6 = t2*t2;
                 double t7 = t3*t3;
                 double t8 = t5+t6+t7;
+                if(t8 < 1e-4)
+                {
+                    // The expressions below cancel catastrophically for small angles. Differentiate
+                    // omega = pdot - b p x pdot + c p x (p x pdot), with the power series of
+                    // b = (1 - cos(t)) / t^2 and c = (t - sin(t)) / t^3 in t8 = t^2.
+                    const double b = 1.0/2.0 - t8/24.0 + t8*t8/720.0;
+                    const double c = 1.0/6.0 - t8/120.0 + t8*t8/5040.0;
+                    const double db = -1.0/12.0 + t8/180.0 - t8*t8/6720.0;
+                    const double dc = -1.0/60.0 + t8/1260.0;
+                    const Eigen::Vector3d pxd = p.cross(pdot);
+                    J.leftCols<3>() = b * crossMx(pdot) - db * pxd * p.transpose()
+                        + c * (p * pdot.transpose() + p.dot(pdot) * Eigen::Matrix3d::Identity() - 2.0 * pdot * p.transpose())
+                        + dc * p.cross(pxd) * p.transpose();
+                    return omega;
+                }
                 double t9 = pow(t8,3.0/2.0);
                 double t10 = sqrt(t8);
                 double t11 = sin(t10);
-- 
2.43.0


From da730c6378f02d279d1584fde968058f6f8253af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 18/99] fix: EulerRodriguez recovers small rotations from the
 matrix

---
 sm_kinematics/src/EulerRodriguez.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/sm_kinematics/src/EulerRodriguez.cpp b/sm_kinematics/src/EulerRodriguez.cpp
index ad19ee1..8b4249e 100755
--- a/sm_kinematics/src/EulerRodriguez.cpp
+++ b/sm_kinematics/src/EulerRodriguez.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerRodriguez.hpp>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -26,28 +27,15 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
-      Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
-
-      if(fabs(a) < 1e-14){
-	return Eigen::Vector3d::Zero();
-      }
-      
-      p[0] = (C(2,1) - C(1,2));
-      p[1] = (C(0,2) - C(2,0));
-      p[2] = (C(1,0) - C(0,1));
-      
-      double n2 = p.norm();
-      if(n2 < 1e-14)
+      // p = axis * tan(angle/2), taken from the quaternion to stay accurate near the identity.
+      const Eigen::Vector4d q = r2quat(C);
+      if(fabs(q[3]) < 1e-14)
 	{
+	  // Half turns have no Euler-Rodriguez parameters.
 	  return Eigen::Vector3d::Zero();
 	}
-            
-      double scale = -tan(0.5*a)/n2;
-      p = scale * p;
-
 
-      return p;
+      return q.head<3>() / q[3];
     }
 
     Eigen::Matrix3d EulerRodriguez::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From 0b95ee01229cffb326047025620175d8cf0a4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 19/99] fix: Euler angle extraction is finite for matrices with
 roundoff

---
 sm_kinematics/src/EulerAnglesYawPitchRoll.cpp | 3 ++-
 sm_kinematics/src/EulerAnglesZXY.cpp          | 4 +++-
 sm_kinematics/src/EulerAnglesZYX.cpp          | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index 15ef6b5..d61cbdf 100755
--- a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
+#include <algorithm>
 
 namespace sm { namespace kinematics {
 
@@ -36,7 +37,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
+      double phi = asin(std::max(-1.0, std::min(-rotationMatrix(2,0), 1.0)));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
diff --git a/sm_kinematics/src/EulerAnglesZXY.cpp b/sm_kinematics/src/EulerAnglesZXY.cpp
index 577c3b6..4e80b94 100644
--- a/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -18,6 +18,8 @@
 
 #include "sm/kinematics/EulerAnglesZXY.h"
 
+#include <algorithm>
+
 #include <sm/assert_macros.hpp>
 
 namespace sm {
@@ -67,7 +69,7 @@ namespace sm {
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
       const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
+      const double r_x = asin(std::max(-1.0, std::min(sx, 1.0)));
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
       const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
       return Eigen::Vector3d(r_z, r_x, r_y);
diff --git a/sm_kinematics/src/EulerAnglesZYX.cpp b/sm_kinematics/src/EulerAnglesZYX.cpp
index b56c9ec..2862bc5 100755
--- a/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerAnglesZYX.hpp>
+#include <algorithm>
 
 namespace sm { namespace kinematics {
 
@@ -36,7 +37,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
+      double phi = asin(std::max(-1.0, std::min(rotationMatrix(2,0), 1.0)));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
-- 
2.43.0


From 6194dcea873b02a1fbbb651ab32903006648f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 20/99] fix: quatLogJacobian is finite and accurate at and near
 the identity

---
 sm_kinematics/src/quaternion_algebra.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index da53e0a..eace7d7 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -436,13 +436,18 @@ namespace sm { namespace kinematics {
 
           double n = qeps(p).norm();
 
+          if(p(3) > 0 && n < 1e-8){
+            // The formulas below are singular at the identity. Their limit on the tangent space is 2 * [1 0].
+            J.leftCols<3>() = 2 * Eigen::Matrix3d::Identity();
+            return J;
+          }
 
           double de = n*n*n;//pow(n, 3);
           double u12 = p(1)*p(1) + p(2)*p(2);//pow(p(1), 2) + pow(p(2), 2);
           double u02 = p(0)*p(0) + p(2)*p(2);//pow(p(0), 2) + pow(p(2), 2);
           double u01 = p(0)*p(0) + p(1)*p(1);//pow(p(0), 2) + pow(p(1), 2);
-          double a = acos(p(3));
-          double uw = sqrt(-(p(3)*p(3) - 1)*n*n);
+          double a = atan2(n, p(3)); // acos(p(3)), but accurate near the identity
+          double uw = n*n; // sqrt(-(p(3)*p(3) - 1)*n*n), but accurate near the identity
 
           J(0,0) = 2*a*u12 / de;
           J(0,1) = -2*a*p(1)*p(0) / de;
-- 
2.43.0


From 4a19125ef0704b10fd55dce2daa312b2d684f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 21/99] fix: Transformation::oplus keeps the quaternion
 normalised over many updates

---
 sm_kinematics/src/Transformation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_kinematics/src/Transformation.cpp b/sm_kinematics/src/Transformation.cpp
index ba12982..5ecad29 100755
--- a/sm_kinematics/src/Transformation.cpp
+++ b/sm_kinematics/src/Transformation.cpp
@@ -137,6 +137,8 @@ namespace sm {
     void Transformation::oplus(const Eigen::Matrix<double,6,1> & dt)
     {
       _q_a_b = updateQuat( _q_a_b, dt.tail<3>() );
+      // Do not let roundoff accumulate over many updates.
+      _q_a_b.normalize();
       _t_a_b_a += dt.head<3>();
     }
 
-- 
2.43.0


From bd68880564b566a075b6f02581d45b3f35f3a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 22/99] fix: Transformation built from a matrix has a unit
 quaternion

---
 sm_kinematics/src/Transformation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/src/Transformation.cpp b/sm_kinematics/src/Transformation.cpp
index 5ecad29..1e60256 100755
--- a/sm_kinematics/src/Transformation.cpp
+++ b/sm_kinematics/src/Transformation.cpp
@@ -25,7 +25,7 @@ namespace sm {
       _q_a_b( r2quat(T_a_b.topLeftCorner<3,3>()) ),
       _t_a_b_a( T_a_b.topRightCorner<3,1>() )
     {
-
+        _q_a_b.normalize();
     }
 
     Transformation::Transformation(const Eigen::Vector4d & q_a_b, const Eigen::Vector3d & t_a_b_a) :
@@ -57,6 +57,7 @@ namespace sm {
       void Transformation::set( const Eigen::Matrix4d & T_a_b )
       {
           _q_a_b = r2quat(T_a_b.topLeftCorner<3,3>());
+          _q_a_b.normalize();
           _t_a_b_a = T_a_b.topRightCorner<3,1>();
       }
 
-- 
2.43.0


From 337b994e28e43f5242c93d3b676740c4d046f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 23/99] fix: covariances of sums and differences of uncertain
 homogeneous points follow the operation

---
 sm_kinematics/src/HomogeneousPoint.cpp        | 13 ++---------
 .../src/UncertainHomogeneousPoint.cpp         | 23 ++++++-------------
 2 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..f047466 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -47,12 +47,7 @@ namespace sm {
 
     UncertainHomogeneousPoint HomogeneousPoint::operator+(const UncertainHomogeneousPoint & rhs) const
     {
-      Eigen::Vector4d rval;
-      rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
-      rval[3] = _ph[3] * rhs._ph[3];
-      
-      return UncertainHomogeneousPoint(rval, rhs.U4());
-
+      return UncertainHomogeneousPoint(*this) + rhs;
     }
       
 
@@ -61,11 +56,7 @@ namespace sm {
       /// the equivelent vectors in R^3
     UncertainHomogeneousPoint HomogeneousPoint::operator-(const UncertainHomogeneousPoint & rhs) const
     {
-      Eigen::Vector4d rval;
-      rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
-      rval[3] = _ph[3] * rhs._ph[3];
-      
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      return UncertainHomogeneousPoint(*this) - rhs;
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..11bb8a5 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -156,13 +156,7 @@ namespace sm {
     /// the equivelent vectors in R^3
     UncertainHomogeneousPoint UncertainHomogeneousPoint::operator+(const HomogeneousPoint & rhs) const
     {
-      Eigen::Vector4d rval;
-      const Eigen::Vector4d & pr = rhs.toHomogeneous();
-      rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
-      rval[3] = _ph[3] * pr[3];
-      
-      return UncertainHomogeneousPoint(rval, U4());
-
+      return *this + UncertainHomogeneousPoint(rhs);
     }
     
       /// \brief Subtract one homogeneous point from another. 
@@ -170,13 +164,7 @@ namespace sm {
       /// the equivelent vectors in R^3
       UncertainHomogeneousPoint UncertainHomogeneousPoint::operator-(const HomogeneousPoint & rhs) const
       {
-	Eigen::Vector4d rval;
-	const Eigen::Vector4d & pr = rhs.toHomogeneous();
-	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
-	rval[3] = _ph[3] * pr[3];
-	
-	return UncertainHomogeneousPoint(rval, U4());
-
+        return *this - UncertainHomogeneousPoint(rhs);
       }
 
       /// \brief Add two homogeneous points. 
@@ -203,8 +191,11 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	// With respect to rhs, the Euclidean components have the opposite sign.
+	Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+	PL.topLeftCorner<3,3>() *= -1.0;
+	PL.topRightCorner<3,1>() *= -1.0;
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 14f0a057b0c8409e0af49978f2c3e0c832a80ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 24/99] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME can be
 combined with &&

---
 sm_common/include/sm/serialization_macros.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..0219748 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
         SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 003c459d96f1ff0ba7e4a3a75749be74c0c8b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 25/99] fix: SM_CHECKMEMBERSSAME accepts a verbosity argument

---
 sm_common/include/sm/serialization_macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index 0219748..5a7d781 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -352,7 +352,7 @@ struct VerboseChecker {
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
     (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
-- 
2.43.0


From 5eb5c857a6c3bc9e3e9d8063c34370c2effa8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 26/99] fix: empty matrices with dynamic columns can be
 deserialized

---
 sm_eigen/include/sm/eigen/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..57986c4 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From 5891661b7930dc234be908694d4f5d215191e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 27/99] fix: MatrixArchive::clear(name) removes strings too

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..70e8a12 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 283cfb551729603553f5f4b37c05b5f0cb6f25a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 28/99] fix: MatrixArchive holds one entry per name, and
 createMatrix checks the name

---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 1 +
 sm_matrix_archive/src/MatrixArchive.cpp        | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..b3c2162 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 70e8a12..53a06fe 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -73,6 +74,8 @@ namespace sm
       }
     }
 
+    validateName(matrixName, SM_SOURCE_FILE_POS);
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
     return val;
@@ -424,9 +427,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From f29dd55e6d12a7f37a36aa45a10d1dc827b59dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 29/99] fix: MatrixArchive::append writes the entries

---
 sm_matrix_archive/src/MatrixArchive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 53a06fe..797e05a 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -441,10 +441,14 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From e37a74449ad954ee10855eb380fb8127984fd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 30/99] fix: MatrixArchive::save reports entries that could not
 be written

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 797e05a..91ae188 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -369,6 +369,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
@@ -449,6 +450,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From bd4f2001ec498605ed2ec974d1a70173a22fc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 31/99] fix: MatrixArchive writes matrices larger than 4 GiB
 completely

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 91ae188..709b0b1 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -221,7 +221,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = matrix.size() * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
-- 
2.43.0


From 172832f1e3c5e7420ac5c5cf7cc0f9131aadc1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 32/99] fix: MatrixArchive::load reports truncated and
 oversized blocks

---
 sm_matrix_archive/src/MatrixArchive.cpp | 46 +++++++++++++++++++------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 709b0b1..42d5721 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -1,11 +1,36 @@
+#include <algorithm>
 #include <fstream>
 #include <cstdio>
+#include <vector>
 #include <boost/algorithm/string/trim.hpp>
 #include <sm/MatrixArchive.hpp>
 
 namespace sm 
 {
 
+  namespace 
+  {
+    void readBytes(std::istream & fin, char * data, std::streamsize size)
+    {
+      fin.read(data, size);
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.gcount() == size, "The archive ends in the middle of a block");
+    }
+
+    // Reads count elements. The memory needed is bounded by the number of bytes that are really there.
+    template<typename Container>
+    void readElements(std::istream & fin, boost::uint64_t count, Container & elements)
+    {
+      static const boost::uint64_t chunkSize = 1 << 17;
+      elements.clear();
+      while(elements.size() < count)
+      {
+        const size_t offset = elements.size();
+        elements.resize(offset + std::min(count - offset, chunkSize));
+        readBytes(fin, reinterpret_cast<char *>(&elements[offset]), (elements.size() - offset) * sizeof(elements[0]));
+      }
+    }
+  }
+
   const size_t MatrixArchive::s_fixedNameSize = 32;
   const char MatrixArchive::s_magicCharStartAMatrixBlock = 'A';
   const char MatrixArchive::s_magicCharStartAStringBlock = 'S';
@@ -239,17 +264,17 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t rows;
-    fin.read(reinterpret_cast<char *>(&rows),4);
+    readBytes(fin, reinterpret_cast<char *>(&rows),4);
     // 4 byte columns
     boost::uint32_t cols;
-    fin.read(reinterpret_cast<char *>(&cols),4);
+    readBytes(fin, reinterpret_cast<char *>(&cols),4);
     
     // data
 
+    std::vector<double> data;
+    readElements(fin, boost::uint64_t(rows) * cols, data);
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
-    //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
-    fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    std::copy(data.begin(), data.end(), matrix.data());
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -273,18 +298,17 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t stringSize;
-    fin.read(reinterpret_cast<char *>(&stringSize),4);
+    readBytes(fin, reinterpret_cast<char *>(&stringSize),4);
 
     // data
-    stringValue.resize(stringSize);
-    fin.read(&stringValue[0], stringSize);
+    readElements(fin, stringSize, stringValue);
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
   {
     char start, end;
     // start character
-    fin.read(&start,1);
+    readBytes(fin, &start,1);
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -297,7 +321,7 @@ namespace sm
     // 64 character name
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
-    fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    readBytes(fin, nameBuffer,(std::streamsize)s_fixedNameSize);
     name = nameBuffer;
     boost::trim(name);
 
@@ -311,7 +335,7 @@ namespace sm
     }
 
     // end character
-    fin.read(&end,1);
+    readBytes(fin, &end,1);
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From d9f53fa8a71b33d48d586eda9c8d012aed914b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 33/99] fix: children of property trees are found below keys
 containing a dot

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..fbeef5d 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -268,8 +268,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(boost::property_tree::ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From b551331237591081643dbd4fc72cbf83b0a7ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 34/99] fix: doesKeyExist considers the whole key

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index fbeef5d..3b2f393 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -95,7 +95,7 @@ namespace sm {
   bool BoostPropertyTreeImplementation::doesKeyExist(const std::string & key) const
   {
     std::string keyNoLeadingSlash = (key.empty() || key[0] != '/') ? key : key.substr(1); // Note: _ptree.get_optional does not seem to like leading slashes
-    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(keyNoLeadingSlash.c_str(),'/'));
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(keyNoLeadingSlash,'/'));
 
     return (bool)val;
   }
-- 
2.43.0


From e3c42470981ff474a0f72802985a57f06478844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 35/99] fix: updating property trees keeps keys containing
 separators intact

---
 .../src/BoostPropertyTreeImplementation.cpp   | 66 ++++++++++---------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 3b2f393..c9bdf09 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -277,43 +277,47 @@ namespace sm {
   }
 
 
-  /*
-   * copied from http://stackoverflow.com/questions/8154107/how-do-i-merge-update-a-boostproperty-treeptree :
-   */
-
-  template<typename T>
-  void traverse_recursive(const boost::property_tree::ptree::path_type &childPath, const boost::property_tree::ptree &child, T method)
-  {
-    using boost::property_tree::ptree;
-
-    method(childPath, child);
-    for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
-      traverse_recursive(curPath, it->second, method);
+  namespace {
+    typedef std::vector<std::string> KeyPath;
+
+    // The keys are used as they are: they may contain any character, also path separators.
+    boost::property_tree::ptree * findNode(boost::property_tree::ptree & root, const KeyPath & path, bool createIfNecessary) {
+      using boost::property_tree::ptree;
+      ptree * node = &root;
+      for(auto & key : path) {
+        ptree::assoc_iterator it = node->find(key);
+        if(it != node->not_found()) {
+          node = &it->second;
+        } else if(createIfNecessary) {
+          node = &node->push_back(ptree::value_type(key, ptree()))->second;
+        } else {
+          return nullptr;
+        }
+      }
+      return node;
     }
-  }
 
-  void updateOnly(boost::property_tree::ptree &dest, bool ignoreEmptyUpdates, const boost::property_tree::ptree::path_type &childPath, const boost::property_tree::ptree &child) {
-    if(ignoreEmptyUpdates && (child.data().empty() || child.data().find_first_not_of(" \n\t\r") == std::string::npos)) return;
-    if(!dest.get_optional<std::string>(childPath)) {
-      throw PropertyTree::KeyNotFoundException(std::string("Could not find the destination '") + childPath.dump() + "' to update with '" + child.data() + "'.");
+    void updateRecursive(boost::property_tree::ptree & dest, const boost::property_tree::ptree & with, KeyPath & path, bool createIfNecessary, bool ignoreEmptyUpdates) {
+      if(!ignoreEmptyUpdates || with.data().find_first_not_of(" \n\t\r") != std::string::npos) {
+        auto node = findNode(dest, path, createIfNecessary);
+        if(!node) {
+          std::string pathString;
+          for(auto & key : path) { pathString += (pathString.empty() ? "" : "/") + key; }
+          throw PropertyTree::KeyNotFoundException("Could not find the destination '" + pathString + "' to update with '" + with.data() + "'.");
+        }
+        node->data() = with.data();
+      }
+      for(auto & child : with) {
+        path.push_back(child.first);
+        updateRecursive(dest, child.second, path, createIfNecessary, ignoreEmptyUpdates);
+        path.pop_back();
+      }
     }
-    dest.put(childPath, child.data());
-  }
-  void merge(boost::property_tree::ptree &dest, bool ignoreEmptyUpdates, const boost::property_tree::ptree::path_type &childPath, const boost::property_tree::ptree &child) {
-    if(ignoreEmptyUpdates && (child.data().empty() || child.data().find_first_not_of(" \n\t\r") == std::string::npos)) return;
-    dest.put(childPath, child.data());
-  }
-
-  template<typename T>
-  void traverse(const boost::property_tree::ptree &parent, T method)
-  {
-    traverse_recursive("", parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-    using namespace boost;
-    traverse(with._ptree, createIfNecessary ? bind(merge, boost::ref(_ptree), ignoreEmptyUpdates, _1, _2) : bind(updateOnly, boost::ref(_ptree), ignoreEmptyUpdates, _1, _2));
+    KeyPath path;
+    updateRecursive(_ptree, with._ptree, path, createIfNecessary, ignoreEmptyUpdates);
   }
 
   int BoostPropertyTreeImplementation::getXmlReadOptions() {
-- 
2.43.0


From d2bd59614057abdc15374a913fafdf17092b21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 36/99] fix: values in one-line property trees may contain
 slashes and equal signs

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index c9bdf09..561a32c 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -173,7 +173,9 @@ namespace sm {
     countBraceOpen.resize(1);
 
     const char * specilaChars = ",/={}";
-    for(size_t oldPos = 0, pos = string.find_first_of(specilaChars); oldPos <= string.size(); (oldPos = pos, pos = string.find_first_of(specilaChars, pos))){
+    const char * valueEndChars = ",{}"; // a value may contain '/' and '='
+    bool inValue = false;
+    for(size_t oldPos = 0, pos = string.find_first_of(specilaChars); oldPos <= string.size(); (oldPos = pos, pos = string.find_first_of(inValue ? valueEndChars : specilaChars, pos))){
       char c;
       if(pos == string.npos){
         pos = string.size();
@@ -182,6 +184,7 @@ namespace sm {
         c = string[pos];
       }
       s << string.substr(oldPos, pos - oldPos);
+      inValue = c == '=';
       switch(c){
         case '=':
           s << ' ';
-- 
2.43.0


From 193357d80509b57b54c41b976b670473de9103c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 37/99] fix: the configuration loader asks fileExists for every
 candidate and never looks in the root directory for relative files

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index a6128f6..a9967ee 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -121,7 +121,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
       return path;
     } else {
       std::string dir = boost::filesystem::path(relativeToFile).remove_filename().string();
-      std::string candidate = dir + '/' + path;
+      std::string candidate = dir.empty() ? path : dir + '/' + path;
       if (fileExists(candidate)) {
         return candidate;
       }
@@ -135,7 +135,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
   for( auto & bp : getSearchPaths()){
     for(auto & infix : getFileNameInfixes()){
       candidate = bp + "/" + (infix.empty() ? "" : infix + "/") + path;
-      if(boost::filesystem::exists(candidate)){
+      if(fileExists(candidate)){
         return candidate;
       }
     }
-- 
2.43.0


From e673c69c6f451782105b188a3f21fbe5ac386c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 38/99] fix: property trees set keys with a trailing separator
 instead of aborting

---
 .../include/sm/BoostPropertyTreeImplementation.hpp   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
index 04e7bc2..77f0822 100644
--- a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
+++ b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
@@ -140,7 +140,17 @@ namespace sm {
   template<typename T>
   void BoostPropertyTreeImplementation::set(const std::string & key, const T & value)
   {
-    _ptree.put<T>(boost::property_tree::ptree::path_type(key.substr(1),'/'), value);
+    // Walk like get does; ptree::put refuses paths with a trailing separator by assertion.
+    using boost::property_tree::ptree;
+    ptree::path_type path(key.substr(1),'/');
+    ptree * node = &_ptree;
+    while(!path.empty())
+      {
+	const std::string name = path.reduce();
+	ptree::assoc_iterator child = node->find(name);
+	node = child != node->not_found() ? &child->second : &node->push_back(ptree::value_type(name, ptree()))->second;
+      }
+    node->put_value(value);
   }
 } // namespace sm
 
-- 
2.43.0


From 98b1928654779dcea2829e53465a1ecaf789862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 39/99] fix: PrefixedValueStore in ADD mode does not read an
 uninitialised flag

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From e6b0cc072b0b93cd84c981fcb8df03c860076b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 40/99] fix: PrefixedValueStore in REMOVE mode treats paths
 without the prefix as missing keys

---
 sm_value_store/src/PrefixedValueStore.cpp | 28 +++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 4a49d90..618e9b5 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -4,21 +4,41 @@
 #include <string>
 
 #include <sm/assert_macros.hpp>
+#include <sm/PropertyTree.hpp>
 
 namespace sm {
 namespace value_store {
 
+namespace {
+/// The answer for a path the prefix excludes: as for any other key that does not exist.
+template <typename T>
+ValueHandle<T> missing(const std::string & path, const boost::optional<T> & def) {
+  if(!def){
+    SM_THROW(PropertyTree::InvalidKeyException, "The key \"" << path << "\" does not have the required prefix");
+  }
+  return ValueHandle<T>(*def);
+}
+}
+
 ValueHandle<bool> PrefixedValueStore::getBool(const std::string & path, boost::optional<bool> def) const {
-  return vs_->getBool(applyPrefix(path), def);
+  bool isPossible;
+  auto && prefixedPath = applyPrefix(path, &isPossible);
+  return isPossible ? vs_->getBool(prefixedPath, def) : missing(path, def);
 }
 ValueHandle<int> PrefixedValueStore::getInt(const std::string & path, boost::optional<int> def) const {
-  return vs_->getInt(applyPrefix(path), def);
+  bool isPossible;
+  auto && prefixedPath = applyPrefix(path, &isPossible);
+  return isPossible ? vs_->getInt(prefixedPath, def) : missing(path, def);
 }
 ValueHandle<double> PrefixedValueStore::getDouble(const std::string & path, boost::optional<double> def) const {
-  return vs_->getDouble(applyPrefix(path), def);
+  bool isPossible;
+  auto && prefixedPath = applyPrefix(path, &isPossible);
+  return isPossible ? vs_->getDouble(prefixedPath, def) : missing(path, def);
 }
 ValueHandle<std::string> PrefixedValueStore::getString(const std::string & path, boost::optional<std::string> def) const {
-  return vs_->getString(applyPrefix(path), def);
+  bool isPossible;
+  auto && prefixedPath = applyPrefix(path, &isPossible);
+  return isPossible ? vs_->getString(prefixedPath, def) : missing(path, def);
 }
 bool PrefixedValueStore::hasKey(const std::string& path) const {
   bool isPossible;
-- 
2.43.0


From bf182547e80be85658f9e51c2574e751458f3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 41/99] fix: children of PrefixedValueStore in REMOVE mode
 agree with lookup

---
 sm_value_store/src/PrefixedValueStore.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 618e9b5..c2fd583 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -47,16 +47,21 @@ bool PrefixedValueStore::hasKey(const std::string& path) const {
 }
 
 KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
-  bool isPossible;
-  auto && prefixedKey = applyPrefix(key, &isPossible);
-  if(isPossible){
-    if(PrefixMode::REMOVE == mode_ && (prefixedKey.empty() || prefixedKey == "/")){
-      return KeyValueStorePair(key, vs_);
-    }
-    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
-  } else {
-    return KeyValueStorePair(key, ValueStoreRef());
+  const std::string keyPrefix = key + "/";
+  if(PrefixMode::ADD == mode_){
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefix_ + key));
+  }
+  if(keyPrefix == prefix_){
+    return KeyValueStorePair(key, vs_);
+  }
+  if(keyPrefix.compare(0, prefix_.size(), prefix_) == 0){ // below the prefix
+    return KeyValueStorePair(key, ValueStoreRef(vs_).getChild(key.substr(prefix_.size())));
+  }
+  if(prefix_.compare(0, keyPrefix.size(), keyPrefix) == 0){ // above the prefix
+    const std::string remainingPrefix = prefix_.substr(keyPrefix.size());
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, remainingPrefix.substr(0, remainingPrefix.size() - 1)));
   }
+  return KeyValueStorePair(key, ValueStoreRef());
 }
 std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
   SM_THROW(std::runtime_error, "Not implemented, yet");
-- 
2.43.0


From f009a11a12f06bc287343f8b7adeea0bbf4d28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 42/99] fix: LayeredValueStore without layers returns the
 default or raises the missing-key error

---
 sm_value_store/src/ValueStore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..fb1f700 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,11 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ // there is no layer
+ if(!def) {
+   SM_THROW(PropertyTree::InvalidKeyException, "The key \"" << path << "\" was not found because there are no layers");
+ }
+ return ValueHandle<V>(*def);
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From 378a96e2b7b95cdeeda33287be5b4d5ada165cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 43/99] fix: the message of an absent deprecated path is not
 taken for a path

---
 sm_value_store/src/ValueStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index fb1f700..317966c 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -132,8 +132,8 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
     const std::string & p = pathsAndDeprecationWarnings[i];
     if(!p.empty() && p[0] == '!') {
       std::string pp = p.substr(1);
+      i++; // skip deprecation message in the input
       if (hasKey(pp)) {
-        i++; // skip deprecation message in the input
         std::string message = i < pathsAndDeprecationWarnings.size() ?
             pathsAndDeprecationWarnings[i] :
             "Property name '" + pp + "' is deprecated! Use "
-- 
2.43.0


From 45065bd6e6f89e027113ce8baba32d1cab8817f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 44/99] fix: property-tree value stores without their namespace
 have no children

---
 sm_value_store/src/PropertyTreeValueStore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_value_store/src/PropertyTreeValueStore.cpp b/sm_value_store/src/PropertyTreeValueStore.cpp
index 16cd2e1..0a12d23 100644
--- a/sm_value_store/src/PropertyTreeValueStore.cpp
+++ b/sm_value_store/src/PropertyTreeValueStore.cpp
@@ -87,6 +87,7 @@ bool PropertyTreeValueStore::hasKey(const std::string& path) const {
 }
 
 std::vector<KeyValueStorePair> PropertyTreeValueStore::getChildren() const {
+  if(!hasKey("")) { return {}; } // e.g. a layer without this namespace
   auto children = PropertyTree::getChildren();
   std::vector<KeyValueStorePair> ret;
   ret.reserve(children.size());
@@ -125,6 +126,7 @@ ExtendibleKeyValueStorePair PropertyTreeValueStore::getExtendibleChild(const std
 }
 
 std::vector<ExtendibleKeyValueStorePair> PropertyTreeValueStore::getExtendibleChildren() const {
+  if(!hasKey("")) { return {}; } // e.g. a layer without this namespace
   auto children = PropertyTree::getChildren();
   std::vector<ExtendibleKeyValueStorePair> ret;
   ret.reserve(children.size());
-- 
2.43.0


From 25b770f5b3cd25e4427c77cce9cf721e995f247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 45/99] fix: verbose value stores enumerate every child, also
 those with the same key

---
 sm_value_store/src/VerboseValueStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_value_store/src/VerboseValueStore.cpp b/sm_value_store/src/VerboseValueStore.cpp
index 4ecb4d7..6794100 100644
--- a/sm_value_store/src/VerboseValueStore.cpp
+++ b/sm_value_store/src/VerboseValueStore.cpp
@@ -80,7 +80,8 @@ std::vector<KeyValueStorePair> VerboseValueStoreT<Base>::getChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<KeyValueStorePair> verboseChildren;
   for (const auto& c : vs_->getChildren()){
-    verboseChildren.push_back(this->getChild(c.getKey()));
+    const auto key = c.getKey(); // wrap the child itself: there may be several with this key
+    verboseChildren.emplace_back(key, std::make_shared<VerboseValueStore>(c.getValueStoreSharedPtr(), [log=log_, key](const std::string &text){ log("child(" + key + "):" + text);}));
   }
   return verboseChildren;
 }
@@ -118,7 +119,8 @@ std::vector<ExtendibleKeyValueStorePair> VerboseExtendibleValueStore::getExtendi
   log_(std::string(__func__) + "()");
   std::vector<ExtendibleKeyValueStorePair> verboseChildren;
   for (const auto& c : vs_->getExtendibleChildren()){
-    verboseChildren.push_back(this->getExtendibleChild(c.getKey()));
+    const auto key = c.getKey(); // wrap the child itself: there may be several with this key
+    verboseChildren.emplace_back(key, std::make_shared<VerboseExtendibleValueStore>(c.getValueStoreSharedPtr(), [log=log_, key](const std::string &text){ log("EC(" + key + "):" + text);}));
   }
   return verboseChildren;
 }
-- 
2.43.0


From 3e384c8430fe48d23fa84ddd5182403ae5e85afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 46/99] fix: user-supplied log format tokens are printed in
 full when their value contains a NUL byte

---
 sm_logging/include/sm/logging/Tokens.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_logging/include/sm/logging/Tokens.hpp b/sm_logging/include/sm/logging/Tokens.hpp
index 16cce0f..6bca214 100644
--- a/sm_logging/include/sm/logging/Tokens.hpp
+++ b/sm_logging/include/sm/logging/Tokens.hpp
@@ -64,10 +64,10 @@ namespace sm {
                     std::map<std::string, std::string>::iterator it = smap_.find(str_);
                     if (it == smap_.end())
                     {
-                        return ("${" + str_ + "}").c_str();
+                        return "${" + str_ + "}";
                     }
 
-                    return it->second.c_str();
+                    return it->second;
                 }
 
             std::string str_;
-- 
2.43.0


From c7798e9e4365c5fb14bd8f9fd082c6cd5f73ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 47/99] fix: copies of a log formatter do not refer to the
 extra tokens of the original

---
 sm_logging/include/sm/logging/Formatter.hpp |  3 +++
 sm_logging/src/Formatter.cpp                | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/sm_logging/include/sm/logging/Formatter.hpp b/sm_logging/include/sm/logging/Formatter.hpp
index c6b82eb..4b8b8ae 100644
--- a/sm_logging/include/sm/logging/Formatter.hpp
+++ b/sm_logging/include/sm/logging/Formatter.hpp
@@ -12,6 +12,9 @@ namespace sm {
         {
 
             Formatter();
+            // The tokens of a formatter refer to its own extra_fixed_tokens_, so a copy parses the format anew.
+            Formatter(const Formatter & other);
+            Formatter & operator=(const Formatter & other);
             virtual ~Formatter();
 
 
diff --git a/sm_logging/src/Formatter.cpp b/sm_logging/src/Formatter.cpp
index d90ec13..8acd939 100644
--- a/sm_logging/src/Formatter.cpp
+++ b/sm_logging/src/Formatter.cpp
@@ -191,5 +191,22 @@ namespace sm {
             }
 
 
+        Formatter::Formatter(const Formatter & other) :
+            doColor_(other.doColor_), extra_fixed_tokens_(other.extra_fixed_tokens_)
+            {
+                init(other.format_.c_str());
+            }
+
+        Formatter & Formatter::operator=(const Formatter & other)
+            {
+                if (this != &other)
+                {
+                    doColor_ = other.doColor_;
+                    extra_fixed_tokens_ = other.extra_fixed_tokens_;
+                    init(other.format_.c_str());
+                }
+                return *this;
+            }
+
     } // namespace logging
 } // namespace sm
-- 
2.43.0


From 950e3f9ba2bc4ba52f341c1a822c1e2c2c727e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 48/99] fix: the job queue joins its threads before it is
 destroyed, and stopping it wakes them under the lock

---
 sm_boost/src/JobQueue.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..bb29469 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,7 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        join(); // all threads must exit
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
@@ -19,6 +15,7 @@ namespace sm {
     }
 
     void JobQueue::start(int nThreads) {
+        boost::mutex::scoped_lock lck(mutex_);
         if(!work_)
         {
             work_.reset(new boost::thread_group);
@@ -30,14 +27,23 @@ namespace sm {
     }
 
     void JobQueue::stop() {
-        killWorkers_ = true;
+        boost::mutex::scoped_lock lck(mutex_);
+        killWorkers_ = true; // flag to tell thread to die
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        boost::shared_ptr<boost::thread_group> work;
+        {
+            boost::mutex::scoped_lock lck(mutex_);
+            work = work_;
+        }
+        if(work) // there are no threads before start()
+        {
+            work->join_all();
+        }
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 0be0cc5f2adcf440b95bba6e3a693dd322805953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 49/99] fix: a job that throws does not terminate the program

---
 sm_boost/src/JobQueue.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index bb29469..07c1f3c 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -1,5 +1,8 @@
 #include <sm/boost/JobQueue.hpp>
 
+#include <exception>
+#include <iostream>
+
 namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
@@ -78,7 +81,18 @@ namespace sm {
             // unlock the queue while we exec the job
             lck.unlock(); 
             // call the work function
-            f(); 
+            try
+            {
+                f();
+            }
+            catch(const std::exception & e)
+            {
+                std::cerr << "JobQueue: a job threw an exception: " << e.what() << std::endl;
+            }
+            catch(...)
+            {
+                std::cerr << "JobQueue: a job threw an exception" << std::endl;
+            }
             lck.lock();
             --activeThreads_;
             workCondition_.notify_all();
-- 
2.43.0


From 383f609415e7dd8b706a3dec7fdf0a926184f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 50/99] fix: the job queue destroys a finished job without
 holding its lock

---
 sm_boost/src/JobQueue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 07c1f3c..364c794 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -93,6 +93,7 @@ namespace sm {
             {
                 std::cerr << "JobQueue: a job threw an exception" << std::endl;
             }
+            f.clear(); // the job may use the queue when it is destroyed
             lck.lock();
             --activeThreads_;
             workCondition_.notify_all();
-- 
2.43.0


From adc74369449f514387b0b6f6a717d595f14d7609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 51/99] fix: enabling or disabling a log stream does not
 deadlock with a statement that is logged for the first time

---
 sm_logging/src/LoggingGlobals.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..9d1c073 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -105,19 +105,20 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            // The notification takes the locations mutex, under which other threads ask for the named streams.
             notifyLoggerLevelsChanged();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
             {
-                _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.erase(name);
             }
+            notifyLoggerLevelsChanged();
         }
 
 
-- 
2.43.0


From 5c43f0139b0ff3d13a0d45a023cbb8271b5c2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 52/99] fix: once and throttled log statements appear once also
 when several threads reach them together

---
 sm_logging/include/sm/logging/console.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index a3ee496..62cd595 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -32,6 +32,7 @@
 #ifndef SMCONSOLE_SMCONSOLE_H
 #define SMCONSOLE_SMCONSOLE_H
 
+#include <atomic>
 #include <cstdio>
 #include <sstream>
 
@@ -139,10 +140,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
     } while(0)
@@ -157,10 +157,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
     } while(0)
@@ -176,11 +175,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
+        double previous_hit = last_hit.load();                          \
         double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
     } while(0)
@@ -196,11 +195,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
+        double previous_hit = last_hit.load();                          \
         double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
     } while(0)
-- 
2.43.0


From 8cd97988091727ec83440ba76d116cb495013f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 53/99] fix: a log statement is not lost after one whose logger
 threw something else than a std::exception

---
 sm_logging/src/LoggingGlobals.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 9d1c073..f98c67d 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -6,7 +6,15 @@ namespace sm {
 
         LoggingGlobals g_logging_globals;
 
-
+        namespace {
+            /// Marks a thread as the one that prints, until it leaves the scope by returning or by an exception.
+            struct PrintingThread
+            {
+                explicit PrintingThread(boost::thread::id & id) : _id(id) { _id = boost::this_thread::get_id(); }
+                ~PrintingThread() { _id = boost::thread::id(); }
+                boost::thread::id & _id;
+            };
+        }
 
         LoggingGlobals::LoggingGlobals()
         {
@@ -176,7 +184,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThread printing(_printing_thread_id);
 
             va_list args;
             va_start(args, fmt);
@@ -193,9 +201,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-
-            _printing_thread_id = boost::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -217,7 +222,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThread printing(_printing_thread_id);
             try
             {
                 _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
@@ -226,8 +231,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-            _printing_thread_id = boost::thread::id();
         }
 
 
-- 
2.43.0


From 0141945579e0711736d4afd39ca55432c2b98b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 54/99] fix: replacing the logger while another thread logs
 does not destroy the logger in use

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  1 +
 sm_logging/include/sm/logging/console.hpp        |  4 ++--
 sm_logging/src/LoggingGlobals.cpp                | 12 +++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index ea232f1..16874fb 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -89,6 +89,7 @@ namespace sm {
 
             Level _level;
             
+            boost::mutex _logger_mutex;
             boost::shared_ptr<Logger> _logger;
 
             bool _shutting_down;
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 62cd595..77bab1f 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static std::atomic<double> last_hit(0.0);                       \
         double previous_hit = last_hit.load();                          \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
         {                                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
@@ -197,7 +197,7 @@ namespace sm
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static std::atomic<double> last_hit(0.0);                       \
         double previous_hit = last_hit.load();                          \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
         {                                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index f98c67d..fdcfdc7 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -195,7 +195,9 @@ namespace sm {
 
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                // Keeps the logger alive if it is replaced while it logs.
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -225,7 +227,8 @@ namespace sm {
             PrintingThread printing(_printing_thread_id);
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -254,11 +257,14 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                // The previous logger is released after the lock, with the parameter.
+                boost::mutex::scoped_lock lock(_logger_mutex);
+                _logger.swap(logger);
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
+            boost::mutex::scoped_lock lock(_logger_mutex);
             return _logger;
         }
 
-- 
2.43.0


From 9c788824b81a8f741fc3ff61d65c655fb4a04697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 55/99] fix: corrected integer timestamps keep their resolution
 for epoch times

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..c1200b6 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -139,9 +139,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::getLocalTime(
 
   // Look up the local timestamp.
   const double helper = static_cast<double>(l2.y - l1.y) / static_cast<double>(l2.x - l1.x);
-  const time_t local_time = static_cast<time_t>(
-          static_cast<double>(l1.y) + helper * static_cast<double>(remoteTime - l1.x));
-  return local_time;
+  // Only the difference to a stamp goes through double: integer epoch times have more digits than a double.
+  return l1.y + static_cast<time_t>(helper * static_cast<double>(remoteTime - l1.x));
 }
 
 template<typename T>
-- 
2.43.0


From 6eafff4f58dc49d16b214ff3dec34bd3e2f5907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 56/99] fix: the middle of a history of epoch timestamps is
 found exactly

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index c1200b6..314c98e 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -34,7 +34,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
 
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3u) {
-    T midpoint = static_cast<T>((_convexHull[0u].x + remoteTime) / 2.0);
+    const T midpoint = _convexHull[0u].x + (remoteTime - _convexHull[0u].x) / 2;
 
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(),
                                                              _convexHull.end(), midpoint);
-- 
2.43.0


From 5a213fc6e6bd0b723fd7d5670ed383cd4664134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 57/99] fix: the local time of a remote one is found after the
 hull shrank to one segment

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 314c98e..28e069e 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -51,6 +51,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
                      "The computed midpoint is not within the midpoint segment");
   }
   else {
+    // The hull may have had more points before this one.
+    _midpointSegmentIndex = 0u;
     // and if there aren't enough data points, just return the sampled local time.
     return localTime;
   }
-- 
2.43.0


From 2beb36a20bf6b90de1d496e9147634674b92c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 58/99] fix: comparing long integer timestamp histories does
 not overflow

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 28e069e..1b2d5f9 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -161,9 +161,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  // The products of two integer nanosecond differences exceed the range of the integers after a few seconds.
+  const long double determinant = static_cast<long double>(v1.x) * static_cast<long double>(v2.y)
+      - static_cast<long double>(v1.y) * static_cast<long double>(v2.x);
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= 0.0L;
 }
 
 } // namespace timing
-- 
2.43.0


From 837e7ac4e8e9850a10e3c93d1d15aa6df3f8d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 59/99] fix: resetting a switching timestamp corrector drops
 the corrector that is to take over

---
 sm_timing/include/sm/timing/TimestampCorrector.hpp         | 4 ++--
 .../sm/timing/implementation/TimestampCorrector.hpp        | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index 6572044..e34431f 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -92,9 +92,9 @@ namespace sm {
       time_t span() const;
 
       /**
-       * Clear the points of the convex hull
+       * Clear the points of the convex hull, and of the one that is to take over from it
        */
-      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; }
+      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; _pendingCorrector.reset(); }
 
       double getSlope() const;
       double getOffset() const;
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 1b2d5f9..3e6a9bb 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -76,10 +76,9 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
 
   if (this->span() > switchingPeriod)
   {
-    reset();
-    _pendingCorrector->_pendingCorrector = _pendingCorrector;
-    std::swap(*_pendingCorrector, *this);
-    _pendingCorrector->_pendingCorrector.reset();
+    _convexHull.swap(_pendingCorrector->_convexHull);
+    _midpointSegmentIndex = _pendingCorrector->_midpointSegmentIndex;
+    _pendingCorrector->reset();
   }
 
   return correctedTime;
-- 
2.43.0


From 0e8b3ece144d4d981517b794ec043ddaa0df9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 60/99] fix: copies of a switching timestamp corrector do not
 share the corrector that is to take over

---
 .../include/sm/timing/TimestampCorrector.hpp     |  3 +++
 .../timing/implementation/TimestampCorrector.hpp | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index e34431f..81df5a1 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -33,8 +33,11 @@ namespace sm {
 
       
       TimestampCorrector();
+      TimestampCorrector(const TimestampCorrector & other);
       virtual ~TimestampCorrector();
 
+      TimestampCorrector & operator=(const TimestampCorrector & other);
+
       /** 
        * Get an estimate of the local time of a given measurement
        * from the remote timestamp, the local timestamp, and the 
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 3e6a9bb..afba719 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -4,6 +4,22 @@ namespace timing {
 template<typename T>
 TimestampCorrector<T>::TimestampCorrector() : _midpointSegmentIndex(0u) {}
 
+// A copy has a pending corrector of its own.
+template<typename T>
+TimestampCorrector<T>::TimestampCorrector(const TimestampCorrector & other) :
+    _convexHull(other._convexHull),
+    _pendingCorrector(other._pendingCorrector ? new TimestampCorrector<T>(*other._pendingCorrector) : nullptr),
+    _midpointSegmentIndex(other._midpointSegmentIndex) {}
+
+template<typename T>
+TimestampCorrector<T> & TimestampCorrector<T>::operator=(const TimestampCorrector & other) {
+  TimestampCorrector<T> copy(other);
+  _convexHull.swap(copy._convexHull);
+  _pendingCorrector.swap(copy._pendingCorrector);
+  _midpointSegmentIndex = copy._midpointSegmentIndex;
+  return *this;
+}
+
 template<typename T>
 TimestampCorrector<T>::~TimestampCorrector() {}
 
-- 
2.43.0


From d656aa4329d9b7c558c949cd1c00d27a4e64821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 61/99] fix: the variance of long timed durations is not lost
 to cancellation, and never negative

---
 sm_timing/src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..da8c5fa 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -19,7 +19,7 @@ namespace timing {
     boost::accumulators::accumulator_set<
         double,
         boost::accumulators::features<
-          boost::accumulators::tag::lazy_variance,
+          boost::accumulators::tag::variance,
           boost::accumulators::tag::sum,
           boost::accumulators::tag::min,
           boost::accumulators::tag::max,
-- 
2.43.0


From 0d56116e3b9b13e9c4d755074f453c0b4e745c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 62/99] fix: durations timed across a change of daylight saving
 time are not off by an hour

---
 sm_timing/src/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index da8c5fa..6917770 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -121,7 +121,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = boost::posix_time::microsec_clock::universal_time();
 #endif
   }
   
@@ -134,7 +134,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
+    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
     boost::posix_time::time_duration t = now - m_time;
     dt = ((double)t.total_nanoseconds() * 1e-9);
 #endif
-- 
2.43.0


From d9baeb3894ef2ed2b4b52f633a4ef482c96f0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 63/99] fix: querying and printing timers while other threads
 use them does not read their registry without the lock

---
 sm_timing/include/sm/timing/Timer.hpp |  4 +++
 sm_timing/src/Timer.cpp               | 52 +++++++++++++++++++++------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 61790eb..5912f8c 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -104,6 +104,10 @@ namespace timing {
     
     typedef std::unordered_map<std::string,size_t> map_t;
     typedef std::vector<TimerMapValue> list_t;
+
+    // Copies of the shared state, taken under the lock.
+    static TimerMapValue getTimer(size_t handle);
+    static map_t getTagMap();
     
     // Static members
     list_t m_timers;
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6917770..4461eea 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -76,6 +76,7 @@ namespace timing {
     std::string tag;
     bool found = false;
     
+    boost::mutex::scoped_lock lock(m_mutex);
     // Perform a linear search for the tag
     map_t::iterator i = instance().m_tagMap.begin();
     for( ; i != instance().m_tagMap.end(); i++) {
@@ -97,7 +98,10 @@ namespace timing {
     m_handle(handle)
     
   {
-    SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    {
+      boost::mutex::scoped_lock lock(Timing::m_mutex);
+      SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    }
     if(!constructStopped)
       start();
   }
@@ -153,7 +157,19 @@ namespace timing {
     m_timers[handle].m_acc(seconds);
   }
   
+  TimerMapValue Timing::getTimer(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
+    SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
+    return instance().m_timers[handle];
+  }
+
+  Timing::map_t Timing::getTagMap() {
+    boost::mutex::scoped_lock lock(m_mutex);
+    return instance().m_tagMap;
+  }
+
   double Timing::getTotalSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);
   }
@@ -161,6 +177,7 @@ namespace timing {
     return getTotalSeconds(getHandle(tag));
   }
   double Timing::getMeanSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::mean(instance().m_timers[handle].m_acc);
   }
@@ -168,6 +185,7 @@ namespace timing {
     return getMeanSeconds(getHandle(tag));
   }
   size_t Timing::getNumSamples(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle , instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::count(instance().m_timers[handle].m_acc);
   }
@@ -175,6 +193,7 @@ namespace timing {
     return getNumSamples(getHandle(tag));
   }
   double Timing::getVarianceSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::variance(instance().m_timers[handle].m_acc);
   }
@@ -182,6 +201,7 @@ namespace timing {
     return getVarianceSeconds(getHandle(tag));
   }
   double Timing::getMinSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::min(instance().m_timers[handle].m_acc);
   }
@@ -189,6 +209,7 @@ namespace timing {
     return getMinSeconds(getHandle(tag));
   }
   double Timing::getMaxSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::max(instance().m_timers[handle].m_acc);		
   }
@@ -198,6 +219,7 @@ namespace timing {
   
   double Timing::getHz(size_t handle)
   {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);		
   }
@@ -236,27 +258,35 @@ namespace timing {
   
   template <typename TMap, typename Accessor>
   void Timing::print(const TMap & tagMap, const Accessor & accessor, std::ostream & out) {
+    size_t maxTagLength;
+    {
+      boost::mutex::scoped_lock lock(m_mutex);
+      maxTagLength = instance().m_maxTagLength;
+    }
     out << "SM Timing\n";
     out << "-----------\n";
     for(typename TMap::const_iterator t = tagMap.begin(); t != tagMap.end(); t++) {
       size_t i = accessor.getIndex(t);
-      out.width((std::streamsize)instance().m_maxTagLength);
+      // One consistent copy for the row: other threads go on timing.
+      const TimerMapValue timer = getTimer(i);
+      const size_t numSamples = boost::accumulators::extract::count(timer.m_acc);
+      out.width((std::streamsize)maxTagLength);
       out.setf(std::ios::left,std::ios::adjustfield);
       out << accessor.getTag(t) << "\t";
       out.width(7);
       
       out.setf(std::ios::right,std::ios::adjustfield);
-      out << getNumSamples(i) << "\t";
-      if(getNumSamples(i) > 0) 
+      out << numSamples << "\t";
+      if(numSamples > 0) 
       {
-        out << secondsToTimeString(getTotalSeconds(i)) << "\t";
-        double meansec = getMeanSeconds(i);
-        double stddev = sqrt(getVarianceSeconds(i));
+        out << secondsToTimeString(boost::accumulators::extract::sum(timer.m_acc)) << "\t";
+        double meansec = boost::accumulators::extract::mean(timer.m_acc);
+        double stddev = sqrt(boost::accumulators::extract::variance(timer.m_acc));
         out << "(" << secondsToTimeString(meansec) << " +- ";
         out << secondsToTimeString(stddev) << ")\t";
 
-        double minsec = getMinSeconds(i);
-        double maxsec = getMaxSeconds(i);
+        double minsec = boost::accumulators::extract::min(timer.m_acc);
+        double maxsec = boost::accumulators::extract::max(timer.m_acc);
 
         // The min or max are out of bounds.
         out << "[" << secondsToTimeString(minsec) << "," << secondsToTimeString(maxsec) << "]";
@@ -276,11 +306,11 @@ namespace timing {
       }
     };
 
-    print(instance().m_tagMap, Accessor(), out);
+    print(getTagMap(), Accessor(), out);
   }
 
   void Timing::print(std::ostream & out, const SortType sort) {
-    map_t & tagMap = instance().m_tagMap;
+    map_t tagMap = getTagMap();
 
     typedef std::multimap<double, std::string, std::greater<double> > SortMap_t;
     SortMap_t sorted;
-- 
2.43.0


From 5785a06bda96c631f2fc27c294f611625dd87904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 64/99] fix: ptimeToTimeval returns its result, and can be
 included more than once

---
 sm_boost/include/sm/boost/ptime.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..7b47690 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -5,18 +5,18 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
         // \todo: check for special values.
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
         timeval tv;
-        tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        // Rounded down, so that the microseconds are not negative before the epoch.
+        const boost::posix_time::time_duration::tick_type usecs = duration.total_microseconds();
+        tv.tv_usec = (usecs % 1000000 + 1000000) % 1000000;
+        tv.tv_sec = (usecs - tv.tv_usec) / 1000000;
+        return tv;
     }
 
     
-- 
2.43.0


From f86ca6b6c292beac40f9d6b70cf49eca016654e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 65/99] fix: getInvalidTime can be called outside of its
 library

---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 4 ----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..fb231ce 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,10 +35,6 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
    return getInvalidTime() == time;
 }
-- 
2.43.0


From 10bde49e3a9efb633081b1f4a2e2f4386e5259a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 66/99] fix: isValid tells valid times from the invalid one,
 not the other way round

---
 sm_timing/src/NsecTimeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index fb231ce..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -36,7 +36,7 @@ NsecTime secToNsec( const double & time ) {
 }
 
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From 213231849ae49cb6f78eeabaafe484664fde92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 67/99] fix: durations just below a full minute are not printed
 with sixty seconds or an hour too few

---
 sm_timing/src/Timer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 4461eea..83011c9 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -243,15 +243,20 @@ namespace timing {
   std::string Timing::secondsToTimeString(double seconds) {
     
     double secs = fmod(seconds,60);
-    int minutes = (long)(seconds/60);
-    int hours = (long)(seconds/3600);
+    // The seconds are rounded first, so that they and the minutes do not disagree on a full minute.
+    long long minutes = (long long)floor((seconds - secs)/60 + 0.5);
+    if(secs >= 59.9999995) {
+      secs = 0;
+      minutes++;
+    }
+    long long hours = minutes/60;
     minutes = minutes - (hours*60);
     
     char buffer[256];
 #ifdef WIN32
-    sprintf_s(buffer,256,"%02d:%02d:%09.6f",hours,minutes,secs);
+    sprintf_s(buffer,256,"%02lld:%02lld:%09.6f",hours,minutes,secs);
 #else
-    sprintf(buffer,"%02d:%02d:%09.6f",hours,minutes,secs);
+    sprintf(buffer,"%02lld:%02lld:%09.6f",hours,minutes,secs);
 #endif
     return buffer;
   }
-- 
2.43.0


From f82dbfa94f90d107a2d2860ae850d315e5dbee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 68/99] fix: convert ids to and from Python integers by value,
 also with Python 3

---
 sm_python/include/sm/python/Id.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sm_python/include/sm/python/Id.hpp b/sm_python/include/sm/python/Id.hpp
index 2a3b902..66a0c20 100755
--- a/sm_python/include/sm/python/Id.hpp
+++ b/sm_python/include/sm/python/Id.hpp
@@ -20,7 +20,7 @@ namespace sm { namespace python {
 
       // The "Convert from C to Python" API
       static PyObject * convert(id_t const & id){
-	PyObject * i = PyInt_FromLong(id.getId());
+	PyObject * i = PyLong_FromUnsignedLongLong(id.getId());
     // It seems that the call to "incref(.)" caused a memory leak!
     // I will check this in hoping it doesn't cause any instability.
 	return i;//boost::python::incref(i);
@@ -30,7 +30,11 @@ namespace sm { namespace python {
       // Two functions: convertible() and construct()
       static void * convertible(PyObject* obj_ptr)
       {
-          if (!(PyInt_Check(obj_ptr) || PyLong_Check(obj_ptr)))
+#if PY_MAJOR_VERSION < 3
+          if (PyInt_Check(obj_ptr))
+              return obj_ptr;
+#endif
+          if (!PyLong_Check(obj_ptr))
               return 0;
           
           return obj_ptr;
@@ -43,10 +47,16 @@ namespace sm { namespace python {
 
 	// Get the value.
           boost::uint64_t value;
+#if PY_MAJOR_VERSION < 3
           if ( PyInt_Check(obj_ptr) ) {
               value = PyInt_AsUnsignedLongLongMask(obj_ptr);
-          } else {
+          } else
+#endif
+          {
               value = PyLong_AsUnsignedLongLong(obj_ptr);
+              // the integer is negative or too big for an id
+              if (PyErr_Occurred())
+                  boost::python::throw_error_already_set();
           }
         
           void* storage = ((boost::python::converter::rvalue_from_python_storage<id_t>*)
-- 
2.43.0


From 56c4aad65f47297e555f55e0f893adc120ecb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 69/99] fix: keep the covariance of the right operand in
 products from Python

---
 sm_python/src/exportTransformation.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 5fe95ec..b6ea46a 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -47,10 +47,12 @@ void exportTransformation()
       // the list in reverse order looking for a match. If the
       // Eigen export is first, the others are disabled.
       //.def(self * Eigen::Vector4d())
-    .def(self * UncertainTransformation())
+      // The overloads with an uncertain right-hand side come last in order to be
+      // tried first: the others match its base class and would drop the uncertainty.
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
+    .def(self * UncertainTransformation())
     .def(self * HomogeneousPoint())
+    .def(self * UncertainHomogeneousPoint())
       .def(self * Eigen::Vector3d())
       //.def(self * Eigen::Vector4d())
       .def("checkTransformationIsValid", &Transformation::checkTransformationIsValid)
@@ -72,10 +74,11 @@ void exportTransformation()
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
       .def("load", &loadobj<UncertainTransformation>)
+      // As above, the uncertain right-hand sides are to be tried first.
+    .def(self * Transformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
     .def(self * HomogeneousPoint())
-    .def(self * Transformation())
+    .def(self * UncertainHomogeneousPoint())
     //.def(self * Eigen::Vector3d())
     //.def(self * Eigen::Vector4d())
     .def("inverse",&UncertainTransformation::inverse)
-- 
2.43.0


From 630d8d18152a78774ed3794cfcd95ed53f7c26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 70/99] fix: the inverse of an uncertain transformation keeps
 its covariance in Python

---
 sm_python/src/exportTransformation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index b6ea46a..b90459e 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -90,7 +90,6 @@ void exportTransformation()
     .def("t", &Transformation::t, return_value_policy<copy_const_reference>())
     .def("q", &Transformation::q, return_value_policy<copy_const_reference>())
     .def("T3x4", &Transformation::T3x4)
-    .def("inverse", &Transformation::inverse)
     .def("setIdentity", &Transformation::setIdentity)
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
-- 
2.43.0


From aa11ff25aad4891a9de411aeb11de99ca257d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 71/99] fix: copies of uncertain objects made in Python keep
 their covariance

---
 sm_python/src/exportHomogeneousPoint.cpp | 1 +
 sm_python/src/exportTransformation.cpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sm_python/src/exportHomogeneousPoint.cpp b/sm_python/src/exportHomogeneousPoint.cpp
index c937b79..eb72993 100755
--- a/sm_python/src/exportHomogeneousPoint.cpp
+++ b/sm_python/src/exportHomogeneousPoint.cpp
@@ -28,6 +28,7 @@ void exportHomogeneousPoint()
     .def(init<const Eigen::Vector3d &>())
     .def(init<const Eigen::Vector4d &>())
     .def(init<const HomogeneousPoint &>())
+    .def(init<const UncertainHomogeneousPoint &>())
     .def(init<const Eigen::Vector3d &, const Eigen::Matrix3d &>())
     .def(init<const Eigen::Vector4d &, const Eigen::Matrix4d &>())
     .def(init<const HomogeneousPoint &, const Eigen::Matrix4d &>())
diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index b90459e..038c136 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -70,6 +70,7 @@ void exportTransformation()
     .def(init<const Transformation &, const covariance_t &>())
     .def(init<const Transformation &, double, double>())
     .def(init<const Transformation &>())
+    .def(init<const UncertainTransformation &>())
     .def(init<const Eigen::Matrix4d &>())
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
-- 
2.43.0


From 4f0a7278a594c4787216c5b04a6b429e18d9daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 72/99] fix: pickles of uncertain transformations keep their
 covariance

---
 sm_python/src/exportTransformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 038c136..53914a0 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -95,7 +95,7 @@ void exportTransformation()
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
     .def("S", &Transformation::S)
-
+    .def_pickle( sm::python::pickle_suite<UncertainTransformation>() )
     ;
 
 }
-- 
2.43.0


From f2cad068362f7b38816fd81c023fb7ff12e36ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 73/99] fix: getChild of constant property trees can be called
 from Python

---
 sm_python/src/exportPropertyTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportPropertyTree.cpp b/sm_python/src/exportPropertyTree.cpp
index d769dad..4924bd5 100755
--- a/sm_python/src/exportPropertyTree.cpp
+++ b/sm_python/src/exportPropertyTree.cpp
@@ -39,7 +39,7 @@ void exportPropertyTree() {
   using namespace sm;
 
   class_<ConstPropertyTree>("ConstPropertyTree", init<const ConstPropertyTree &, const std::string &>("ConstPropertyTree(ConstPropertyTree parent, string childNamespace)"))
-      .def("getChild", &PropertyTree::getChild)
+      .def("getChild", &ConstPropertyTree::getChild)
       .def("getInt", &getInt).def("getIntDefault", &getIntDefault)
       .def("getString", &getString)
       .def("getStringDefault", &getStringDefault)
-- 
2.43.0


From 391156daa7eaab6d6a4a2fd647e5da3bf81ca801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 74/99] fix: logVerbose names a level that exists

---
 sm_python/python/sm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/python/sm/__init__.py b/sm_python/python/sm/__init__.py
index 8841ffa..64efc28 100755
--- a/sm_python/python/sm/__init__.py
+++ b/sm_python/python/sm/__init__.py
@@ -29,7 +29,7 @@ def logFinest(message):
     log(LoggingLevel.Finest, message, stackdepth=2)
     
 def logVerbose(message):
-    log(LoggingLevel.FineVerbose, message, stackdepth=2)
+    log(LoggingLevel.Verbose, message, stackdepth=2)
     
 def logFiner(message):
     log(LoggingLevel.Finer, message, stackdepth=2)
-- 
2.43.0


From e4e8f3cf67a1086e373a64008d6987f12ab437b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 75/99] fix: Progress2 rewrites its line instead of printing
 the result of the flush

---
 sm_python/python/sm/Progress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_python/python/sm/Progress.py b/sm_python/python/sm/Progress.py
index 17887be..852c9b5 100644
--- a/sm_python/python/sm/Progress.py
+++ b/sm_python/python/sm/Progress.py
@@ -65,8 +65,8 @@ class Progress2(object):
             if h > 0: t_remaining_str = "%d h " % h
             if m > 0: t_remaining_str = t_remaining_str + "%dm " % m
             if s > 0: t_remaining_str = t_remaining_str + "%ds" % s
-            print("\r  Progress {0} / {1} \t Time remaining: {2}                 ".format(self.iteration, self.numIterations, t_remaining_str),
-            sys.stdout.flush())
+            print("\r  Progress {0} / {1} \t Time remaining: {2}                 ".format(self.iteration, self.numIterations, t_remaining_str), end='')
+            sys.stdout.flush()
         else:
             self.startTime = time.time()
             self.iteration = 0
-- 
2.43.0


From 1f4f37cd497d35058ddae3d82296f143b0549fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 76/99] fix: a MATLAB engine that is not started has no engine
 handle

---
 sm_matlab/src/Engine.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index dfbd21f..b5b06e0 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -18,13 +18,9 @@ namespace sm {
 		// make sure the output buffer is NULL terminated
         _outputBuffer[OUTPUT_BUFFER_SIZE] = '\0';
 
+		_engine = NULL;
 		if (startMatlabAtInitialization)
-		{
-			_engine = engOpen(NULL);
-
-			// tell Matlab where to store the output
-			engOutputBuffer(_engine, _outputBuffer, OUTPUT_BUFFER_SIZE);
-		}
+			initialize();
     }
 
 #ifdef UNIX
@@ -51,11 +47,13 @@ namespace sm {
 			return true;
 
 		_engine = engOpen(NULL);
+		if (_engine == NULL)
+			return false;
 
 		// tell Matlab where to store the output
 		engOutputBuffer(_engine, _outputBuffer, OUTPUT_BUFFER_SIZE);
 
-		return (_engine!=NULL);
+		return true;
 	}
 
 	bool Engine::stop()
-- 
2.43.0


From 83e1c9dadeaf79fcaab2b95ece078a6a370e2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 77/99] fix: executeCommand only removes a line break

---
 sm_matlab/src/Engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index b5b06e0..090fd61 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -99,7 +99,7 @@ namespace sm {
         // return the result
         std::string output(_outputBuffer);
 		// remove line break
-		if(output.size()>0)
+		if(output.size()>0 && output[output.size() - 1] == '\n')
 			output.resize(output.size() - 1);
 		
 		return output;
-- 
2.43.0


From 6b5a65b4f0b3d0c3002d115795169620bcbb7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 78/99] fix: the MATLAB command line reads whole lines

---
 sm_matlab/src/Engine.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 090fd61..ef6dbf6 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -122,14 +122,20 @@ namespace sm {
             // Prepare input line
             std::cout<<">> ";
             
-            // Read from console
-            if (!fgets(_inputBuffer, INPUT_BUFFER_SIZE, stdin))
+            // Read from console, until the line is complete
+            std::string command;
+            while (fgets(_inputBuffer, INPUT_BUFFER_SIZE, stdin))
+            {
+                command += _inputBuffer;
+                if (command[command.size() - 1] == '\n')
+                    break;
+            }
+            if (command.empty())
                 break;
-            
-            // Convert to string
-            std::string command(_inputBuffer);
+
 			// remove line break
-			command.resize(command.size() - 1);
+			if (command[command.size() - 1] == '\n')
+				command.resize(command.size() - 1);
 			
             // Check if user wants to exit
             // this intentionally blocks the MATLAB commands "exit" and "quit"
-- 
2.43.0


From 7276c21d0bc437302de97203ebc47b8661e6375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 79/99] fix: changeWorkingDirectory quotes the directory

---
 sm_matlab/src/Engine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index ef6dbf6..ee16e67 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -107,7 +107,11 @@ namespace sm {
     
     std::string Engine::changeWorkingDirectory(const std::string& directory)
     {
-        return executeCommand("cd ('" + directory + "');");
+        // a quote inside a Matlab string is written twice
+        std::string quoted;
+        for (size_t i = 0; i < directory.size(); ++i)
+            quoted += directory[i] == '\'' ? std::string("''") : std::string(1, directory[i]);
+        return executeCommand("cd ('" + quoted + "');");
     };
     
     void Engine::openCommandLine()
-- 
2.43.0


From 90d919a4e507f536831e1e0b4e078cab2a65171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 80/99] fix: exists checks that the MATLAB engine is
 initialized

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index ee16e67..fee666e 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -156,6 +156,7 @@ namespace sm {
 
 	  bool Engine::exists(const std::string& name)
 	  {
+		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
-- 
2.43.0


From 204c555c57bb93b48ef59de4fd8e2f0c6ff34bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 81/99] fix: the destructor of the MATLAB engine does not throw

---
 sm_matlab/src/Engine.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index fee666e..02d4f2d 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -34,11 +34,8 @@ namespace sm {
 
     Engine::~Engine()
     {
-		if (_engine!=NULL)
-		{
-			int success = engClose(_engine);
-			SM_ASSERT_EQ_DBG(EngineCloseException, success, 0, "Closing Matlab was not possible. Maybe already closed.");
-		}
+		// a destructor must not throw, even if Matlab cannot be closed (maybe already closed)
+		stop();
     }
 
 	bool Engine::initialize()
-- 
2.43.0


From ee22c4093ddf95c7d719eab2798fff52ea066911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 82/99] fix: MATLAB arrays are destroyed on every path

---
 sm_matlab/include/sm/matlab/Engine.hpp | 10 +++++---
 sm_matlab/src/Engine.cpp               | 34 ++++++++++++--------------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index cef7ec3..5f8b138 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -1,6 +1,7 @@
 #ifndef SM_MATLAB_ENGINE_HPP
 #define SM_MATLAB_ENGINE_HPP
 
+#include <memory>
 #include <string>
 #include <iostream>
 
@@ -18,6 +19,9 @@ namespace sm {
         INPUT_BUFFER_SIZE = 256
     };
 
+	// Destroys an array when it goes out of scope
+	typedef std::unique_ptr<mxArray, void (*)(mxArray*)> ArrayGuard;
+
 	// Exceptions
 	SM_DEFINE_EXCEPTION(Exception, std::runtime_error);
 	SM_DEFINE_EXCEPTION(MatlabException, Exception);
@@ -194,6 +198,7 @@ namespace sm {
 		Eigen::MatrixXd matrix = matrixBase.template cast<double>();
     
         mxArray* mxArray = mxCreateDoubleMatrix(matrix.rows(), matrix.cols(), mxREAL);
+        ArrayGuard guard(mxArray, mxDestroyArray);
         
         SM_ASSERT_EQ(InvalidSizeException, mxGetElementSize(mxArray), sizeof(double), "Data types do not match");
         
@@ -207,8 +212,6 @@ namespace sm {
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 	template <typename Scalar>
@@ -219,12 +222,11 @@ namespace sm {
     
         // Matlab stores all variables as doubles so we can just type cast here
         mxArray* mxArray = mxCreateDoubleScalar(static_cast<double>(value));
+        ArrayGuard guard(mxArray, mxDestroyArray);
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 
diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 02d4f2d..bd51d84 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -1,5 +1,6 @@
 #include <sm/matlab/Engine.hpp>
 #include <cctype>
+#include <vector>
 #include <stdio.h>
 
 namespace sm {
@@ -157,6 +158,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 		// Check if variable exists
 		return (mxArray!=NULL);
 	  }
@@ -167,6 +169,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -179,6 +182,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -191,6 +195,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -203,6 +208,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 		// Check if variable exists
 		if(!mxArray)
 			return false;
@@ -224,12 +230,11 @@ namespace sm {
     
         // Matlab stores all variables as doubles so we can just type cast here
         mxArray* mxArray = mxCreateString(value.c_str());
+        ArrayGuard guard(mxArray, mxDestroyArray);
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 	
@@ -240,12 +245,11 @@ namespace sm {
     
         // Matlab stores all variables as doubles so we can just type cast here
         mxArray* mxArray = mxCreateLogicalScalar(value);
+        ArrayGuard guard(mxArray, mxDestroyArray);
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 
@@ -259,6 +263,7 @@ namespace sm {
     
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -271,9 +276,6 @@ namespace sm {
 		
 		// read data
 		rValue = mxGetScalar(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -285,6 +287,7 @@ namespace sm {
     
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayGuard guard(mxArray, mxDestroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -297,12 +300,9 @@ namespace sm {
 		// read data
 		// lenght + 1 because of 0 terminated string
 		size_t lenght = mxGetNumberOfElements(mxArray)+1;
-		char* buffer = new char[lenght];
-		mxGetString(mxArray, buffer, lenght);
-		rValue = buffer;
-          
-		// delete array
-        mxDestroyArray(mxArray);
+		std::vector<char> buffer(lenght);
+		mxGetString(mxArray, &buffer[0], lenght);
+		rValue = &buffer[0];
 
 		return true;
     }
@@ -314,6 +314,7 @@ namespace sm {
     
         // Get variable from matlab
         mxArray* mxArray = engGetVariable(_engine, name.c_str());
+        ArrayGuard guard(mxArray, mxDestroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -326,9 +327,6 @@ namespace sm {
 		
 		// read data
 		rValue = mxIsLogicalScalarTrue(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -340,6 +338,7 @@ namespace sm {
 
 		// Get variable from matlab
         mxArray* mxArray = engGetVariable(_engine, name.c_str());
+        ArrayGuard guard(mxArray, mxDestroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -359,9 +358,6 @@ namespace sm {
 		SM_ASSERT_EQ(InvalidTypeException, sizeof(rValue(0,0)), mxGetElementSize(mxArray), "Datatype does not match");
 		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
 
-		// delete array
-        mxDestroyArray(mxArray);
-
 		return true;
 	}
 	
-- 
2.43.0


From ad5114ceefb48b0f41883a46002c2303c15ad954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 83/99] fix: putEigen of an empty matrix copies nothing

---
 sm_matlab/include/sm/matlab/Engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index 5f8b138..bab08b9 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -207,7 +207,8 @@ namespace sm {
     
         // get pointer to mxArray and copy over data
         double* mxArrayData = mxGetPr(mxArray);
-        memcpy(mxArrayData, matrixD.data(), matrixD.size()*sizeof(double));
+        if (matrixD.size() > 0)
+            memcpy(mxArrayData, matrixD.data(), matrixD.size()*sizeof(double));
         
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
-- 
2.43.0


From ed91436e36cb8e6f54d549aa9f7dc540baad3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 84/99] fix: getEigen refuses matrices of another class than
 double

---
 sm_matlab/src/Engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index bd51d84..9e6422b 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -344,7 +344,7 @@ namespace sm {
 		if (!mxArray)
 			return false;
 
-		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray), 1, "Variable is not numeric");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsDouble(mxArray), 1, "Variable is not a matrix of doubles");
 		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
 		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray), 2, "Variable is 2-dimensional");
 
-- 
2.43.0


From 7d2c7b836b91cef9d0d572bfaa1b59d6677940fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 85/99] fix: saving a view of one row of a matrix saves that
 row only

---
 sm_opencv/include/sm/opencv/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 9134e96..4a5ae78 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -123,7 +123,8 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      // not step * rows: the step of a view of a single row is that of the viewed matrix
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
     }
  
     template<class Archive>
-- 
2.43.0


From 308a44e0ed9e375f97008ca025918fa7cabc69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 86/99] fix: loading a matrix into a view keeps to the view

---
 sm_opencv/include/sm/opencv/serialization.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 4a5ae78..24ffe97 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -135,7 +135,11 @@ namespace boost
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
       mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
+      // create() keeps a view of the right size: its rows are not adjacent
+      cv::Mat mat_ = mat.isContinuous() ? mat : cv::Mat(rows, cols, type);
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
+      if (mat_.data != mat.data)
+        mat_.copyTo(mat);
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From 4fc538f4e66e2922d7511c165594762813c2d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 87/99] fix: SM_ASSERT_CMD negates the whole condition

---
 sm_logging/include/sm/logging/assert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/assert.h b/sm_logging/include/sm/logging/assert.h
index 46c2c68..a4766d0 100644
--- a/sm_logging/include/sm/logging/assert.h
+++ b/sm_logging/include/sm/logging/assert.h
@@ -134,7 +134,7 @@
 
 #define SM_ASSERT_CMD(cond, cmd) \
   do { \
-    if (!cond) { \
+    if (!(cond)) { \
       cmd; \
     } \
   } while (0)
-- 
2.43.0


From 3105269f469101c50bff08de7bb86a9ac8f10e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 88/99] fix: the logger can be passed to and from Python

---
 sm_python/src/Logging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_python/src/Logging.cpp b/sm_python/src/Logging.cpp
index cbe65dd..ab3f3fe 100644
--- a/sm_python/src/Logging.cpp
+++ b/sm_python/src/Logging.cpp
@@ -55,6 +55,8 @@ void exportLogging()
     // void setLevel( sm::logging::levels::Level level );        
     def("setLoggingLevel", &setLevel);
     def("loggingLevelFromString", &levels::fromString);
+    // what getLogger returns and setLogger accepts
+    class_<Logger, boost::shared_ptr<Logger>, boost::noncopyable>("Logger", no_init);
     // void setLogger( boost::shared_ptr<Logger> logger );
     def("setLogger", &setLogger);
     // boost::shared_ptr<Logger> getLogger();z
-- 
2.43.0


From 193c6aed72fdb480fbb8864aec73cb672ed16d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 89/99] fix: showProgress leaves the number format of std::cout
 as it was

---
 sm_common/src/progress_info.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm_common/src/progress_info.cpp b/sm_common/src/progress_info.cpp
index c8a1859..c89a092 100644
--- a/sm_common/src/progress_info.cpp
+++ b/sm_common/src/progress_info.cpp
@@ -17,6 +17,10 @@ void showProgress(double progress)
 	SM_ASSERT_GE_DBG(std::runtime_error, progress, 0.0, "negative progress! shame on you!");
 	SM_ASSERT_LE_DBG(std::runtime_error, progress, 1.0, "progress out of bounds!");
 
+	// leave the number format of std::cout as it was
+	const std::ios_base::fmtflags flags = std::cout.flags();
+	const std::streamsize precision = std::cout.precision();
+
 	std::cout << std::fixed << std::setprecision(2) << std::showpoint;
 	if(progress >= 1.0)
 	{
@@ -26,6 +30,9 @@ void showProgress(double progress)
 		std::cout << "\r" << 100 * progress << "% complete ";
 		std::cout.flush();
 	}
+
+	std::cout.flags(flags);
+	std::cout.precision(precision);
 }
 
 } /* namespace sm */
-- 
2.43.0


From c54cf1dd929004e49e55c32711cb5e53ae87775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 90/99] fix: the matrix size assertion looks at the columns for
 the columns

---
 sm_eigen/include/sm/eigen/static_assert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/static_assert.hpp b/sm_eigen/include/sm/eigen/static_assert.hpp
index db596f5..9ad236b 100644
--- a/sm_eigen/include/sm/eigen/static_assert.hpp
+++ b/sm_eigen/include/sm/eigen/static_assert.hpp
@@ -10,7 +10,7 @@
 
 // static assertion failing if the type \a TYPE is not a vector type of the given size
 #define EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE_OR_DYNAMIC(TYPE, ROWS, COLS) \
-  EIGEN_STATIC_ASSERT( (TYPE::RowsAtCompileTime==ROWS || TYPE::RowsAtCompileTime==Eigen::Dynamic) && (TYPE::ColsAtCompileTime==COLS || TYPE::RowsAtCompileTime==Eigen::Dynamic), \
+  EIGEN_STATIC_ASSERT( (TYPE::RowsAtCompileTime==ROWS || TYPE::RowsAtCompileTime==Eigen::Dynamic) && (TYPE::ColsAtCompileTime==COLS || TYPE::ColsAtCompileTime==Eigen::Dynamic), \
 					   THIS_METHOD_IS_ONLY_FOR_MATRICES_OF_A_SPECIFIC_SIZE)
 
 
-- 
2.43.0


From 90248164f763e32f7e1707791b447e5a304b9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:27 +0000
Subject: [PATCH 91/99] fix: loadMatrixArchive.m took an archive cut short
 before its end character

---
 sm_matrix_archive/matlab/loadMatrixArchive.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/matlab/loadMatrixArchive.m b/sm_matrix_archive/matlab/loadMatrixArchive.m
index 8f62140..494d51a 100644
--- a/sm_matrix_archive/matlab/loadMatrixArchive.m
+++ b/sm_matrix_archive/matlab/loadMatrixArchive.m
@@ -54,7 +54,7 @@ try
     
         % Read the end magic character
         endchar = fread(fid,1,'uint8=>char');
-        if endchar ~= endMagic
+        if isempty(endchar) || endchar ~= endMagic
             error('The end of a matrix block for matrix named %s did not have the expected character. Wanted %s, got %s', name, endMagic, endchar);
         end
     
-- 
2.43.0


From 67e62baf34b7123a265f2b7e2c2fd7fc899b8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:27 +0000
Subject: [PATCH 92/99] fix: saveMatrixArchive.m wrote text of several rows as
 a broken block

---
 sm_matrix_archive/matlab/saveMatrixArchive.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/matlab/saveMatrixArchive.m b/sm_matrix_archive/matlab/saveMatrixArchive.m
index 8adf46e..5bcb639 100644
--- a/sm_matrix_archive/matlab/saveMatrixArchive.m
+++ b/sm_matrix_archive/matlab/saveMatrixArchive.m
@@ -55,7 +55,7 @@ try
         
         
         
-        if ~(islogical(M) || isnumeric(M) || ischar(M)) | isempty(M)
+        if ~(islogical(M) || isnumeric(M) || (ischar(M) && size(M,1) == 1)) | isempty(M)
             error('Matrix Archives can only save double matrices or strings (char vectors). Field %s failed', name);
         end
         
-- 
2.43.0


From 38bef8f20528822ce0960da44f95e49b142fd31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:58 +0000
Subject: [PATCH 93/99] fix: the child outside of a removed prefix does not
 shadow the value of another layer

---
 sm_value_store/src/PrefixedValueStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index c2fd583..962ad49 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -61,7 +61,7 @@ KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
     const std::string remainingPrefix = prefix_.substr(keyPrefix.size());
     return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, remainingPrefix.substr(0, remainingPrefix.size() - 1)));
   }
-  return KeyValueStorePair(key, ValueStoreRef());
+  return KeyValueStorePair(key, ValueStoreRef().getChild(key)); // not even its own value exists
 }
 std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
   SM_THROW(std::runtime_error, "Not implemented, yet");
-- 
2.43.0


From ee7c28673e602f196dd309e1813c3cd8f85892b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:00 +0000
Subject: [PATCH 94/99] fix: saving an object to a full disk is reported
 instead of leaving a truncated file

---
 sm_boost/include/sm/boost/serialization.hpp | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..00b404d 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -21,9 +21,12 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
     
-            oa << object;
+                oa << object;
+            }
+            SM_ASSERT_TRUE(std::runtime_error,ofs.flush().good(), "Unable to write to file " << filename);
         }
 
         template<typename T>
@@ -44,9 +47,12 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
+            {
+                ::boost::archive::text_oarchive oa(ofs);
     
-            oa << object;
+                oa << object;
+            }
+            SM_ASSERT_TRUE(std::runtime_error,ofs.flush().good(), "Unable to write to file " << filename);
         }
 
         template<typename T>
@@ -67,13 +73,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            {
+                // The archive is completed by its destructor.
+                ::boost::archive::xml_oarchive oa(ofs);
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            SM_ASSERT_TRUE(std::runtime_error,ofs.flush().good(), "Unable to write to file " << filename);
 
         }
 
-- 
2.43.0


From 6a700261541ce217defdf6f1d959fbd7d2d9eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:35 +0000
Subject: [PATCH 95/99] fix: saving a property tree to a full disk is reported
 instead of leaving a truncated file

---
 .../src/BoostPropertyTreeImplementation.cpp   | 49 ++++++++++++++-----
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 561a32c..a4e18dc 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -1,6 +1,7 @@
 #include <sm/BoostPropertyTree.hpp>
 #include <sm/BoostPropertyTreeImplementation.hpp>
 
+#include <fstream>
 #include <sstream>
 #include <boost/make_shared.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -13,6 +14,26 @@ using boost::property_tree::json_parser::read_json;
 
 namespace sm {
 
+  namespace {
+    /// Writes a file through its stream, so that what could not be written is noticed.
+    template <typename ParserError, typename Write>
+    void writeFile(const boost::filesystem::path & fileName, Write write)
+    {
+      std::ofstream stream(fileName.string().c_str());
+      if(!stream){
+        throw ParserError("cannot open file", fileName.string(), 0);
+      }
+      try {
+        write(stream);
+      } catch(const ParserError & e) {
+        throw ParserError(e.message(), fileName.string(), e.line());
+      }
+      if(!stream.flush()){
+        throw ParserError("write error", fileName.string(), 0);
+      }
+    }
+  }
+
   BoostPropertyTreeImplementation::BoostPropertyTreeImplementation()
   {
 
@@ -123,18 +144,20 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveXml(const boost::filesystem::path & fileName) const
   {
-    if(BoostPropertyTree::isHumanReadableInputOutput()){
+    writeFile<boost::property_tree::xml_parser_error>(fileName, [this](std::ostream & stream){
+      if(BoostPropertyTree::isHumanReadableInputOutput()){
 #if BOOST_VERSION >= 105600
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(),
-                                      boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
+        boost::property_tree::write_xml(stream, _ptree,
+                                        boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
 #else
-      boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(), settings);
+        boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
+        boost::property_tree::write_xml(stream, _ptree, settings);
 #endif
-    }
-    else {
-      boost::property_tree::write_xml(fileName.string(), _ptree);
-    }
+      }
+      else {
+        boost::property_tree::write_xml(stream, _ptree);
+      }
+    });
   }
 
   void BoostPropertyTreeImplementation::loadIni(const boost::filesystem::path & fileName)
@@ -144,7 +167,9 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveIni(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_ini(fileName.string(), _ptree);
+    writeFile<boost::property_tree::ini_parser_error>(fileName, [this](std::ostream & stream){
+      boost::property_tree::write_ini(stream, _ptree);
+    });
   }
 
 
@@ -155,7 +180,9 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveInfo(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_info(fileName.string(), _ptree);
+    writeFile<boost::property_tree::info_parser_error>(fileName, [this](std::ostream & stream){
+      boost::property_tree::write_info(stream, _ptree);
+    });
   }
 
   std::string BoostPropertyTreeImplementation::asInfoString() const {
-- 
2.43.0


From cf7b02c08f398e9a21c8270e1a4d363d792d766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:14 +0000
Subject: [PATCH 96/99] fix: numbers in property trees are written and read in
 the same way whatever the global locale

---
 .../sm/BoostPropertyTreeImplementation.hpp    | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
index 77f0822..dc28a47 100644
--- a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
+++ b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
@@ -4,10 +4,25 @@
 #include "PropertyTreeImplementation.hpp"
 #include "PropertyTree.hpp"
 #include <boost/property_tree/ptree.hpp>
+#include <boost/property_tree/stream_translator.hpp>
 #include <boost/filesystem/path.hpp>
+#include <locale>
 #include <typeinfo>
 namespace sm {
   
+  namespace detail {
+    /// Converts between values and their text in the same way in every locale, as files are exchanged between them.
+    template<typename T>
+    struct PropertyTreeTranslator : boost::property_tree::stream_translator<char, std::char_traits<char>, std::allocator<char>, T>
+    {
+      PropertyTreeTranslator() : boost::property_tree::stream_translator<char, std::char_traits<char>, std::allocator<char>, T>(std::locale::classic()) {}
+    };
+    template<>
+    struct PropertyTreeTranslator<std::string> : boost::property_tree::id_translator<std::string>
+    {
+    };
+  }
+
   class BoostPropertyTreeImplementation : public PropertyTreeImplementation
   {
   public:
@@ -94,7 +109,7 @@ namespace sm {
     T rval;
     try 
       {
-	rval = _ptree.get<T>(ptree::path_type(key.substr(1),'/'));
+	rval = _ptree.get<T>(ptree::path_type(key.substr(1),'/'), detail::PropertyTreeTranslator<T>());
       }
     catch(const ptree_bad_data & e)
       {
@@ -111,7 +126,7 @@ namespace sm {
   template<typename T>
   T BoostPropertyTreeImplementation::get(const std::string & key, const T & defaultValue) const
   {
-   boost::optional<T> val = _ptree.get_optional<T>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
+   boost::optional<T> val = _ptree.get_optional<T>(boost::property_tree::ptree::path_type(key.substr(1),'/'), detail::PropertyTreeTranslator<T>());
     if(val)
       {
 	return *val;
@@ -125,7 +140,7 @@ namespace sm {
   template<typename T>
   T BoostPropertyTreeImplementation::get(const std::string & key, const T & defaultValue)
   {
-    boost::optional<T> val = _ptree.get_optional<T>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
+    boost::optional<T> val = _ptree.get_optional<T>(boost::property_tree::ptree::path_type(key.substr(1),'/'), detail::PropertyTreeTranslator<T>());
     if(val)
       {
 	return *val;
@@ -150,7 +165,7 @@ namespace sm {
 	ptree::assoc_iterator child = node->find(name);
 	node = child != node->not_found() ? &child->second : &node->push_back(ptree::value_type(name, ptree()))->second;
       }
-    node->put_value(value);
+    node->put_value(value, detail::PropertyTreeTranslator<T>());
   }
 } // namespace sm
 
-- 
2.43.0


From b3784d3be473da44c02f959c896a7fc5a72cc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:59 +0000
Subject: [PATCH 97/99] fix: the time, thread and line of a log message do not
 depend on the global locale

---
 sm_logging/include/sm/logging/Tokens.hpp | 3 +++
 sm_logging/src/Logger.cpp                | 1 +
 2 files changed, 4 insertions(+)

diff --git a/sm_logging/include/sm/logging/Tokens.hpp b/sm_logging/include/sm/logging/Tokens.hpp
index 6bca214..272022b 100644
--- a/sm_logging/include/sm/logging/Tokens.hpp
+++ b/sm_logging/include/sm/logging/Tokens.hpp
@@ -2,6 +2,7 @@
 #define SM_TOKENS_HPP
 
 #include <sm/logging/LoggingEvent.hpp>
+#include <locale>
 #include <boost/shared_ptr.hpp>
 #include <map>
 #include <boost/thread.hpp>
@@ -191,6 +192,7 @@ namespace sm {
             std::string getString(const ::sm::logging::LoggingEvent&) override
                 {
                     std::stringstream ss;
+                    ss.imbue(std::locale::classic());
                     ss << boost::this_thread::get_id();
                     return ss.str();
                 }
@@ -226,6 +228,7 @@ namespace sm {
             std::string getString(const ::sm::logging::LoggingEvent& event) override
                 {
                     std::stringstream ss;
+                    ss.imbue(std::locale::classic());
                     ss << event.line;
                     return ss.str();
                 }
diff --git a/sm_logging/src/Logger.cpp b/sm_logging/src/Logger.cpp
index c815bc3..8dcf825 100644
--- a/sm_logging/src/Logger.cpp
+++ b/sm_logging/src/Logger.cpp
@@ -19,6 +19,7 @@ namespace sm {
         {
             double cts = currentTimeSecondsUtc();
             std::stringstream ss;
+            ss.imbue(std::locale::classic());
             ss.fill(' ');
             ss.setf(std::ios::fixed,std::ios::floatfield);   // floatfield set to fixed
             ss.precision(6);
-- 
2.43.0


From 4dd0d2624573d21abd7922b3a86e9cc795418cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:01 +0000
Subject: [PATCH 98/99] fix: source positions do not depend on the global
 locale

---
 sm_common/include/sm/assert_macros.hpp   | 1 +
 sm_common/include/sm/source_file_pos.hpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 4a14642..6624f88 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -36,6 +36,7 @@ namespace sm {
     inline void sm_throw_exception(std::string const & exceptionType, sm::source_file_pos sfp, std::string const & message)
     {
       std::stringstream sm_assert_stringstream;
+      sm_assert_stringstream.imbue(std::locale::classic());
 #ifdef _WIN32
       // I have no idea what broke this on Windows but it doesn't work with the << operator.
       sm_assert_stringstream << exceptionType <<  sfp.toString() << " " << message;
diff --git a/sm_common/include/sm/source_file_pos.hpp b/sm_common/include/sm/source_file_pos.hpp
index d4fe91f..96277a7 100755
--- a/sm_common/include/sm/source_file_pos.hpp
+++ b/sm_common/include/sm/source_file_pos.hpp
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <iostream>
+#include <locale>
 #include <sstream>
 // A class and macro that gives you the current file position.
 
@@ -26,6 +27,7 @@ namespace sm {
     std::string toString() const
     {
       std::stringstream s;
+      s.imbue(std::locale::classic());
       s << file << ":" << line << ": " << function << "()";
       return s.str();
     }
-- 
2.43.0


From 03a2fafaeba929276a9ec3f4165a2a4671cde43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:19 +0000
Subject: [PATCH 99/99] fix: the state of the logging that statements read
 without a lock is atomic

---
 sm_logging/include/sm/logging/LogLocation.hpp    |  9 ++++++---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  8 +++++---
 sm_logging/src/LoggingGlobals.cpp                | 12 +++++-------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/sm_logging/include/sm/logging/LogLocation.hpp b/sm_logging/include/sm/logging/LogLocation.hpp
index 6ebb9f3..78fc62b 100644
--- a/sm_logging/include/sm/logging/LogLocation.hpp
+++ b/sm_logging/include/sm/logging/LogLocation.hpp
@@ -1,6 +1,8 @@
 #ifndef SM_LOGGING_LOG_LOCATION_HPP
 #define SM_LOGGING_LOG_LOCATION_HPP
 
+#include <atomic>
+
 namespace sm {
     namespace logging {
         struct LogLocation
@@ -8,9 +10,10 @@ namespace sm {
             LogLocation() : _initialized(false), _loggerEnabled(false),
                             _level(::sm::logging::levels::Count) {}
 
-            bool _initialized;
-            bool _loggerEnabled;
-            ::sm::logging::Level _level;
+            // Statements read these without a lock.
+            std::atomic<bool> _initialized;
+            std::atomic<bool> _loggerEnabled;
+            std::atomic< ::sm::logging::Level> _level;
             std::string _streamName;
         };
 
diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index 16874fb..0d489f0 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -5,6 +5,8 @@
 #include <boost/thread/mutex.hpp>
 
 #include <stdarg.h>
+#include <atomic>
+#include <thread>
 #include <vector>
 #include <set>
 
@@ -87,12 +89,12 @@ namespace sm {
             void print(const char * streamName,  Level level, 
                        vectorstream & ss, const char* file, int line, const char* function);
 
-            Level _level;
+            std::atomic<Level> _level;
             
             boost::mutex _logger_mutex;
             boost::shared_ptr<Logger> _logger;
 
-            bool _shutting_down;
+            std::atomic<bool> _shutting_down;
 
             boost::mutex _init_mutex;
 
@@ -105,7 +107,7 @@ namespace sm {
             
             std::vector<char> _globalCharBuffer;
             boost::mutex _print_mutex;
-            boost::thread::id _printing_thread_id;
+            std::atomic<std::thread::id> _printing_thread_id;
 
 
         };
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index fdcfdc7..8966b2c 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -10,9 +10,9 @@ namespace sm {
             /// Marks a thread as the one that prints, until it leaves the scope by returning or by an exception.
             struct PrintingThread
             {
-                explicit PrintingThread(boost::thread::id & id) : _id(id) { _id = boost::this_thread::get_id(); }
-                ~PrintingThread() { _id = boost::thread::id(); }
-                boost::thread::id & _id;
+                explicit PrintingThread(std::atomic<std::thread::id> & id) : _id(id) { _id = std::this_thread::get_id(); }
+                ~PrintingThread() { _id = std::thread::id(); }
+                std::atomic<std::thread::id> & _id;
             };
         }
 
@@ -176,7 +176,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -211,7 +211,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -239,13 +239,11 @@ namespace sm {
 
         sm::logging::levels::Level LoggingGlobals::getLevel()
         {
-            // \todo is this thread safe?
             return _level;
         }
 
         void LoggingGlobals::setLevel( sm::logging::levels::Level level )
         {
-            // \todo is this thread safe?
             if(level != _level)
             {
                 _level = level;
-- 
2.43.0

