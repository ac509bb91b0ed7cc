From 6d6f332a94661fa738df5c52db1307cb980ea0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/26] fix: sign of quotient and remainder when BigInteger
 divides large negative numbers

---
 src/big_integer.cpp             | 15 ++-------------
 src/big_integer_arithmetics.cpp | 14 ++++++++++----
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..ee10f9b 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -90,20 +90,15 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
 {
    if ( isMagnitudeSmallerThan(second) )
    {
-      BigInteger remainder = *this;
+      BigInteger remainder = abs(*this);
       *this = BigInteger(0);
       return remainder;
    }
-   if ( *this == second )
+   if ( data == second.data )
    {
       *this = BigInteger(1);
       return BigInteger(0);
    }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +114,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..02167dc 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -89,9 +89,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      const auto original_sign = sign;
-      auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      const auto signs_differ = (sign != second.sign);
+      divideMagnitudesWithRemainder(second);
+      if ( signs_differ )
       {
          flipSign();
       }
@@ -172,7 +172,12 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
+      const auto is_negative = isNegative();
       *this = divideMagnitudesWithRemainder(second);
+      if ( is_negative && !isZero() ) // the result of modulo is never negative
+      {
+         *this = second - *this;
+      }
       return *this;
    }
 }
@@ -273,7 +278,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger((remainder < 0) ? remainder + b : remainder);
       return first;
    }
 }
-- 
2.43.0


From f87fd59808e79448feaf8ed76fc4740dae203d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/26] fix: BigInteger multiplication of a large number with
 itself yielded zero

---
 src/big_integer_arithmetics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 02167dc..ad072a6 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -49,8 +49,9 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       auto copy = *this;
+      const auto factor = second; // second may be the same object as *this
       data = {0};
-      for ( const auto& entry : second.data )
+      for ( const auto& entry : factor.data )
       {
          DataType mask = 1;
          for ( int j = 0; j < std::numeric_limits<DataType>::digits; ++j, copy <<= 1, mask <<= 1 )
@@ -61,7 +62,7 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
             }
          }
       }
-      if ( second.sign == Sign::Negative )
+      if ( factor.sign == Sign::Negative )
       {
          flipSign();
       }
-- 
2.43.0


From d6289ebc6f0442dad036cec41f7f40832bd0ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 03/26] fix: BigInteger comparison with and conversion to the
 smallest int

---
 src/big_integer_comparisons.cpp  | 24 +++++++++++++++++++++---
 src/big_integer_constructors.cpp |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..ca8cdfa 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -11,6 +11,12 @@
 
 using namespace panda;
 
+namespace
+{
+   /// Magnitude of an int (the absolute value of the smallest int is not representable as int).
+   uint_fast32_t magnitude(const int) noexcept;
+}
+
 bool panda::BigInteger::operator==(const int value) const noexcept
 {
    if ( data.size() > 1 )
@@ -21,7 +27,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == magnitude(value);
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +47,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > magnitude(value));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +64,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < magnitude(value));
    }
    return (data[0] > static_cast<DataType>(value));
 }
@@ -118,3 +124,15 @@ bool panda::BigInteger::operator>=(const BigInteger& second) const noexcept
    return !(*this < second);
 }
 
+namespace
+{
+   uint_fast32_t magnitude(const int value) noexcept
+   {
+      if ( value >= 0 )
+      {
+         return static_cast<uint_fast32_t>(value);
+      }
+      return static_cast<uint_fast32_t>(-(value + 1)) + 1;
+   }
+}
+
diff --git a/src/big_integer_constructors.cpp b/src/big_integer_constructors.cpp
index 046e606..d125161 100644
--- a/src/big_integer_constructors.cpp
+++ b/src/big_integer_constructors.cpp
@@ -145,7 +145,7 @@ panda::BigInteger::operator int() const
    }
    else
    {
-      return -static_cast<int>(data[0]);
+      return -static_cast<int>(data[0] - 1) - 1; // data[0] > 0 as zero is never negative
    }
 }
 
-- 
2.43.0


From 16d9d4f1dbdd70c0dc529849bb1ef2e9b1258bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/26] fix: insert termination mark into the pool only while
 holding its lock

---
 src/list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..bd689d2 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -85,8 +85,8 @@ Row<Integer> panda::List<Integer, TagType>::get() const
 {
    if ( empty() ) // abort
    {
-      const auto it = rows.insert(Row<Integer>{}).first;
       std::unique_lock<std::mutex> lock(mutex);
+      const auto it = rows.insert(Row<Integer>{}).first;
       iterators.push_back(it);
       condition.notify_all();
    }
-- 
2.43.0


From e655b138a18d77d8289646594dd3a220b1970000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 05/26] fix: asynchronous pool initialization referred to a
 destroyed temporary

---
 src/method_adjacency_decomposition_implementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..ae13905 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,9 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays");
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From 75d72db505ad29ae02ff0ae1b1694fe302ee58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 06/26] fix: do not discard an exception thrown while adding
 known data

---
 src/method_adjacency_decomposition_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index ae13905..64a3228 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -77,7 +77,7 @@ void panda::implementation::adjacencyDecomposition(int argc, char** argv, const
          }
       });
    }
-   future.wait();
+   future.get();
 }
 
 namespace
-- 
2.43.0


From 0aa50888b81c31dc94586af22f39a56ed4c570a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 07/26] fix: image of a map was replaced while iterating over
 it

---
 src/algorithm_map_operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..910df70 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -142,8 +142,8 @@ namespace
             {
                new_image.push_back(term);
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
-- 
2.43.0


From 743a42ee856c3e7753d9b5984cb17d33f750a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 08/26] fix: index underflow when terms of a map cancel out

---
 src/algorithm_map_operations.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 910df70..6b3cd55 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -176,9 +176,8 @@ namespace
                if ( image[i].second == 0 )
                {
                   image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
                }
-               --i; // decrement i because we erased the next item
+               --i; // decrement i because the current i needs to be revisited
             }
          }
       }
-- 
2.43.0


From 6d05a7a82bc2deb939f22b527240ab7f1fdda142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 09/26] fix: moving a delayed action performed the action twice

---
 src/delayed_action.h   |  4 ++--
 src/delayed_action.tpp | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/delayed_action.h b/src/delayed_action.h
index d73c43a..e871f0a 100644
--- a/src/delayed_action.h
+++ b/src/delayed_action.h
@@ -42,8 +42,8 @@ namespace panda
          ~DelayedAction();
          /// Deleted copy constructor.
          DelayedAction(const DelayedAction&) = delete;
-         /// Default move constructor.
-         DelayedAction(DelayedAction&&) = default;
+         /// Move constructor. The moved-from object is dismissed, i.e. the action is performed at most once.
+         DelayedAction(DelayedAction&&);
          /// If the delayed action is dismissed, the action will not be performed
          /// no matter how the scope is exited.
          void dismiss() noexcept;
diff --git a/src/delayed_action.tpp b/src/delayed_action.tpp
index e98d551..e3d3d70 100644
--- a/src/delayed_action.tpp
+++ b/src/delayed_action.tpp
@@ -38,6 +38,17 @@ panda::DelayedAction<Runnable>::DelayedAction(Runnable&& runnable_, std::chrono:
 {
 }
 
+template <typename Runnable>
+panda::DelayedAction<Runnable>::DelayedAction(DelayedAction&& other)
+:
+   dismissed(other.dismissed),
+   runnable(std::forward<Runnable>(other.runnable)),
+   start(other.start),
+   minimum_waiting_time(other.minimum_waiting_time)
+{
+   other.dismissed = true;
+}
+
 template <typename Runnable>
 panda::DelayedAction<Runnable>::~DelayedAction()
 {
-- 
2.43.0


From cea09cbe996555a735c90c815fdbf6287f9e061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 10/26] fix: reading past the end of a short argument to option
 -s

---
 src/input_detection.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..a8a984a 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -178,7 +178,12 @@ namespace
       {
          return InputOrder::LexicographicAscending;
       }
-      const auto offset = (std::strncmp(argument, "lex_", 4) == 0) ? 4 : 14;
+      const auto is_short = (std::strncmp(argument, "lex_", 4) == 0);
+      if ( !is_short && std::strncmp(argument, "lexicographic_", 14) != 0 )
+      {
+         return InputOrder::LexicographicAscending; // argument might be too short to contain a direction.
+      }
+      const auto offset = is_short ? 4 : 14;
       if ( ascending(argument + offset) )
       {
          return InputOrder::LexicographicAscending;
@@ -195,7 +200,12 @@ namespace
       {
          return InputOrder::NonZeroEntriesAscending;
       }
-      const int offset = (std::strncmp(argument, "nz_", 3) == 0) ? 3 : 8;
+      const auto is_short = (std::strncmp(argument, "nz_", 3) == 0);
+      if ( !is_short && std::strncmp(argument, "nonzero_", 8) != 0 )
+      {
+         return InputOrder::NonZeroEntriesAscending; // argument might be too short to contain a direction.
+      }
+      const int offset = is_short ? 3 : 8;
       if ( ascending(argument + offset) )
       {
          return InputOrder::NonZeroEntriesAscending;
-- 
2.43.0


From 2b4e83cc5d7c72e894c369abb21430f2884c3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 11/26] fix: file name following an option of the form -x=value
 was ignored

---
 src/input_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index a8a984a..b7db7ed 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -127,7 +127,8 @@ namespace
    bool requiresParameter(char* argument) noexcept
    {
       return (std::strcmp(argument, "-c") != 0 && // --check
-              std::strcmp(argument, "-f") != 0);  // --filter
+              std::strcmp(argument, "-f") != 0 && // --filter
+              std::strchr(argument, '=') == nullptr); // option of the form "-s=<arg>"
    }
 
    std::set<Keyword> keywords(const PositionGuardedFile& pg)
-- 
2.43.0


From 4a3f978a15931f156352d5dea30816cec204709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 12/26] fix: dimension field of the documented form DIM=N was
 not recognized

---
 src/input.cpp          | 5 +++++
 src/input_keywords.cpp | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..25bb570 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -334,6 +334,11 @@ namespace
       }
       std::string token;
       input::advanceToNextKeyword(file, token);
+      if ( input::implementation::isKeywordDimension(token) )
+      {
+         std::getline(file, token);
+         input::advanceToNextKeyword(file, token);
+      }
       if ( input::implementation::isKeywordInequalities(token) )
       {
          return readInequalities(argc, argv, file, names, {});
diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..e54be90 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -108,13 +108,13 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
 bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
 {
    return (string == "DIM" ||
-           string == "DIM=" ||
            string == "DIMENSION" ||
-           string == "DIMENSION=" ||
            string == "Dim" ||
-           string == "Dim=" ||
            string == "Dimension" ||
-           string == "Dimension=");
+           string.compare(0, 4, "DIM=") == 0 || // the field is followed by its value: "DIM=N"
+           string.compare(0, 10, "DIMENSION=") == 0 ||
+           string.compare(0, 4, "Dim=") == 0 ||
+           string.compare(0, 10, "Dimension=") == 0);
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 2f4f6583f4423e5f110b295d3c1b6af9b5073639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 13/26] fix: malformed coordinates of vertices and rays were
 silently dropped or altered

---
 src/input_vertex.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..ef86191 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -103,6 +103,11 @@ ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
       {
          conv.push_back(vertex);
       }
+      skipEndOfLine(stream);
+      if ( isEndOfFile(stream) )
+      {
+         break;
+      }
    }
    return conv;
 }
@@ -117,14 +122,22 @@ namespace
       skipWhitespace(stream);
       Row<int> numerator;
       Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) )
       {
+         int tmp;
+         if ( !(stream >> tmp) )
+         {
+            errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+         }
          numerator.push_back(tmp);
          skipWhitespace(stream);
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
+            if ( !(stream >> tmp) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
+            }
             if ( tmp == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
@@ -136,10 +149,6 @@ namespace
             denominator.push_back(1);
          }
          skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
-         {
-            break;
-         }
       }
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
-- 
2.43.0


From c8f2b6db0e1f1a9ac6122146ff4d1a7c7e54f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 14/26] fix: reject maps whose number of images does not match
 the number of names

---
 src/input_map.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..e40e483 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -138,6 +138,11 @@ namespace
          stream >> token;
          result[index] = image(token, names);
          ++index;
+         skipWhitespace(stream);
+      }
+      if ( index < result.size() || (stream && !isEndOfLine(stream) && !isEndOfFile(stream)) )
+      {
+         throw std::invalid_argument("The number of images does not match the number of names.");
       }
       return result;
    }
-- 
2.43.0


From 11b8f59b3fa6da0217fef35bcd2c8e899697556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 15/26] fix: coefficients such as 5+3 were silently truncated

---
 src/input_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..0408850 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -245,7 +245,7 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
-- 
2.43.0


From 561f926ba70e2a97b531561c7c7dc9d5e8c14e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 16/26] fix: check dimensions of equations, maps and known data
 before using them

---
 src/algorithm_map_operations.cpp |  6 +++++-
 src/input.cpp                    |  8 ++++++++
 src/input_consistency.cpp        | 10 ++++++++++
 src/input_consistency.h          |  4 ++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 6b3cd55..4168753 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <stdexcept>
 
 #include "algorithm_row_operations.h"
 
@@ -59,7 +60,10 @@ namespace
 template <typename Integer, typename TagType>
 Row<Integer> algorithm::apply(const Map& map, const Row<Integer>& row, TagType tag)
 {
-   assert( row.size() == map.size() );
+   if ( row.size() != map.size() )
+   {
+      throw std::invalid_argument("Invalid input data: Inconsistent dimensions (the length of a map does not match the length of a row).");
+   }
    Row<Integer> result(row.size(), Integer(0));
    for ( std::size_t i = 0; i < map.size(); ++i )
    {
diff --git a/src/input.cpp b/src/input.cpp
index 25bb570..89ac5ce 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -105,6 +105,10 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
+      for ( const auto& equation : equations )
+      {
+         input::implementation::checkMapLengths(maps, equation.size());
+      }
       const auto tmp_maps = algorithm::normalize(maps, equations);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
@@ -172,6 +176,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
    auto known_facets = knownFacets(argc, argv, names);
+   implementation::checkRowLengths(known_facets, vertices.front().size());
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -229,6 +234,8 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
    }
    implementation::checkConsistency(inequalities, names, dimension);
+   implementation::checkRowLengths(equations, inequalities.front().size());
+   implementation::checkMapLengths(maps, inequalities.front().size());
    inequalities.reserve(inequalities.size() + 2 * equations.size());
    for ( const auto& equation : equations )
    {
@@ -239,6 +246,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   implementation::checkRowLengths(known_vertices, inequalities.front().size());
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
diff --git a/src/input_consistency.cpp b/src/input_consistency.cpp
index 699891a..a5f1c75 100644
--- a/src/input_consistency.cpp
+++ b/src/input_consistency.cpp
@@ -75,6 +75,16 @@ void panda::input::implementation::checkConsistency(const ConvexHull<int>& conv,
    }
 }
 
+void panda::input::implementation::checkRowLengths(const Matrix<int>& rows, const std::size_t length)
+{
+   rangeDimensionCheck(rows, length, "Invalid input data: Inconsistent dimensions (a row is invalid).");
+}
+
+void panda::input::implementation::checkMapLengths(const Maps& maps, const std::size_t length)
+{
+   rangeDimensionCheck(maps, length, "Invalid input data: Inconsistent dimensions (a map is invalid).");
+}
+
 namespace
 {
    template <typename Range>
diff --git a/src/input_consistency.h b/src/input_consistency.h
index ab80e58..5c775ed 100644
--- a/src/input_consistency.h
+++ b/src/input_consistency.h
@@ -22,6 +22,10 @@ namespace panda
          void checkConsistency(const ConvexHull<int>&, const ConicalHull<int>&, const Names&, const Maps&, const std::size_t);
          /// Checks the consistency of an inequality description.
          void checkConsistency(const Inequalities<int>&, const Names&, const std::size_t);
+         /// Checks that each row has the given length.
+         void checkRowLengths(const Matrix<int>&, const std::size_t);
+         /// Checks that each map has the given length.
+         void checkMapLengths(const Maps&, const std::size_t);
          /// Checks the consistency of a polytope.
          void checkConsistency(const ConvexHull<int>&, const ConicalHull<int>&, const Inequalities<int>&, const Names&, const Maps&, const std::size_t);
       }
-- 
2.43.0


From dd5433ba2a165cef1ad94b8185753dc983ecf977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 17/26] fix: normalize maps also if the leading coefficient of
 an equation is not one

An eliminated index was replaced using the equation as if its leading coefficient
was one, which produced images (and inequalities) that are not valid.
---
 src/algorithm_map_operations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 4168753..058f7fa 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -122,7 +122,9 @@ namespace
       }
    }
 
-   /// Use equation to get eliminated index back to zero.
+   /// Use equation to get eliminated index back to zero. As the coefficient of the
+   /// equation at that index isn't necessarily one, the whole map is multiplied by it
+   /// (it is positive, and a map may be scaled as its results are divided by their gcd).
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
@@ -144,7 +146,7 @@ namespace
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, term.second * equation[index]));
             }
          }
          image = new_image;
-- 
2.43.0


From e71e80535ccca91fdc9f9323d955a619bf8ab82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 18/26] fix: don't change values silently when casting rows to
 a narrower integer type

With 16 bit integers, input values outside of the range were wrapped; with 64 bit
integers, the output was wrapped to 32 bits.
---
 src/cast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cast.cpp b/src/cast.cpp
index e8df187..abccde4 100644
--- a/src/cast.cpp
+++ b/src/cast.cpp
@@ -9,6 +9,7 @@
 #undef COMPILE_TEMPLATE_CAST
 
 #include <cstddef>
+#include <stdexcept>
 
 using namespace panda;
 
@@ -32,6 +33,10 @@ Row<Integer> panda::cast(const Row<OriginalType>& input)
    for ( const auto& element : input )
    {
       output.push_back(Integer(element));
+      if ( OriginalType(output.back()) != element )
+      {
+         throw std::invalid_argument("Integer value doesn't fit into the requested integer type.");
+      }
    }
    return output;
 }
-- 
2.43.0


From d98fba02a83dd3cd72fa56b339a094d38366489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 19/26] fix: accept the documented option names known-data,
 known-facets, known-vertices and help-command in --help-command

---
 src/help.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/help.cpp b/src/help.cpp
index 4e4bed1..8a18596 100644
--- a/src/help.cpp
+++ b/src/help.cpp
@@ -189,7 +189,7 @@ namespace
       {
          printHelpCommandCheck();
       }
-      else if ( command == "h" || command == "-h" || command == "--h" || command == "help" || command == "-help" || command == "--help" || command == "?" )
+      else if ( command == "h" || command == "-h" || command == "--h" || command == "help" || command == "-help" || command == "--help" || command == "help-command" || command == "--help-command" || command == "?" )
       {
          printHelpCommandHelp();
       }
@@ -197,7 +197,8 @@ namespace
       {
          printHelpCommandIntegerType();
       }
-      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" )
+      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" ||
+                command == "known-facets" || command == "--known-facets" || command == "known-vertices" || command == "--known-vertices" || command == "known-data" || command == "--known-data" )
       {
          printHelpCommandKnownData();
       }
-- 
2.43.0


From f3ca377b182fdeb635eaa119adb54a5061b1956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 20/26] fix: refuse a sign without a variable or an integer in
 a map

---
 src/input_map.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index e40e483..9133ff2 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -104,10 +104,16 @@ namespace
       std::size_t position = 0;
       while ( position != std::string::npos && position < token.size() )
       {
+         const auto start = position;
          const auto factor = extractFactor(token, position);
+         const auto has_digits = token.find_first_of("0123456789", start) < position;
          const auto variable = extractName(token, position);
          if ( variable.empty() )
          {
+            if ( !has_digits )
+            {
+               throw std::invalid_argument("In \"" + token + "\" of a map, there is a sign without a variable or an integer.");
+            }
             // not referring to a name => index == number of names
             result.push_back(std::make_pair(names.size(), factor));
          }
-- 
2.43.0


From e45473bafb2636b3389bbae65e4a2a4252b18721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 21/26] fix: do not take the denominator of a coordinate from
 the next line

---
 src/input_vertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index ef86191..a034e13 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -134,7 +134,8 @@ namespace
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            if ( !(stream >> tmp) )
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> tmp) )
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
             }
-- 
2.43.0


From 6badfa44efded2c4ddaa460417f84562fa595839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 22/26] fix: refuse variables on the right hand side of a
 constraint in front of the constant

---
 src/input_constraint_named_variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..e461ebb 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -123,7 +123,7 @@ namespace
             errorWithLineInformation<std::invalid_argument>("Multiple terms for variable \"" + names[index] + "\"", id);
          }
          ieq[index] = coefficient;
-         if ( has_rhs )
+         if ( has_rhs || (relation != RelationOperator::Undecided && index + 1 < ieq.size()) )
          {
             const std::string message = ( index + 1 < ieq.size() )
                                         ? "No variables are allowed on the right hand side"
-- 
2.43.0


From 0fd07beba29d73e4cadfa25d640095c2ab69fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 23/26] fix: refuse a sign at the end of a constraint

---
 src/input_constraint_named_variables.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index e461ebb..05489a3 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -48,6 +48,10 @@ namespace
    {
       assert( !token.empty() );
       const auto end_of_factor = token.find_first_not_of("+-0123456789");
+      if ( end_of_factor == std::string::npos && token.find_first_of("0123456789") == std::string::npos )
+      {
+         errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+      }
       const auto factor = toInt(token.substr(0, end_of_factor));
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
@@ -103,6 +107,11 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || isEndOfFile(stream) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+            }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
             if ( coefficient < 0 )
-- 
2.43.0


From 766c6e7a78c599fccb636269a9b9f7d69cf728d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 24/26] fix: facets and vertices lost across the ridge at
 infinity, trivial inequality reported

---
 ...algorithm_fourier_motzkin_elimination.beti |  1 +
 src/algorithm_fourier_motzkin_elimination.cpp | 53 ++++++++++---------
 src/algorithm_fourier_motzkin_elimination.h   |  6 ++-
 src/algorithm_rotation.cpp                    | 24 ++++++++-
 src/method_double_description.cpp             |  1 +
 5 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.beti b/src/algorithm_fourier_motzkin_elimination.beti
index c97a68e..5fd3e2a 100644
--- a/src/algorithm_fourier_motzkin_elimination.beti
+++ b/src/algorithm_fourier_motzkin_elimination.beti
@@ -18,6 +18,7 @@ namespace panda
    {
       EXTERN template Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
       EXTERN template Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
+      EXTERN template void removeTrivialInequality(Matrix<Integer>&);
    }
 }
 
diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..6d74c93 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -35,9 +35,9 @@ namespace
    /// The actual FME, named phase Two in Christof.
    template <typename Bitset, typename Integer>
    void phaseTwo(Matrix<Integer>&, const Vertices<Integer>&);
-   /// Abortable phase Two.
+   /// Abortable phase Two. Reinserts the zero columns.
    template <typename Bitset, typename Integer>
-   void phaseTwoHeuristic(Matrix<Integer>&, const Vertices<Integer>&);
+   void phaseTwoHeuristic(Matrix<Integer>&, const Vertices<Integer>&, const std::vector<ColumnIndex>&);
    /// Identifies indices of positive, zero and negative entries.
    template <typename Integer>
    std::tuple<Indices, Indices, Indices> getIndicesNZP(const Row<Integer>&);
@@ -125,11 +125,28 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
       input.erase(input.begin() + static_cast<typename Matrix<Integer>::difference_type>(*it));
    }
    input.insert(input.begin(), used.cbegin(), used.cend());
-   phaseTwoHeuristic<BitsetVariableSize>(matrix, input);
-   reinsertZeroColumns(matrix, zero_columns);
+   phaseTwoHeuristic<BitsetVariableSize>(matrix, input, zero_columns);
    return matrix;
 }
 
+template <typename Integer>
+void panda::algorithm::removeTrivialInequality(Matrix<Integer>& matrix)
+{
+   for ( std::size_t j = 0; j < matrix.size(); ++j )
+   {
+      const auto& row = matrix[j];
+      bool possible = true;
+      for ( std::size_t k = 0; k + 1 < row.size() && possible; ++k )
+      {
+         possible = (row[k] == 0);
+      }
+      if ( possible && row.back() == -1 )
+      {
+         matrix.erase(matrix.begin() + static_cast<typename Matrix<Integer>::difference_type>(j));
+      }
+   }
+}
+
 namespace
 {
    /// Phase 2 of Fourier Motzkin Elimination needs an efficient encoding of sets.
@@ -314,24 +331,6 @@ namespace
       std::tie(matrix, R) = updateSystem(matrix, R, index, indices, s, pnrs);
    }
 
-   template <typename Integer>
-   void detectBadRow(Matrix<Integer>& matrix)
-   {
-      for ( std::size_t j = 0; j < matrix.size(); ++j )
-      {
-         const auto& row = matrix[j];
-         bool possible = true;
-         for ( std::size_t k = 0; k + 1 < row.size() && possible; ++k )
-         {
-            possible = (row[k] == 0);
-         }
-         if ( possible && row.back() == -1 )
-         {
-            matrix.erase(matrix.begin() + static_cast<typename Matrix<Integer>::difference_type>(j));
-         }
-      }
-   }
-
    template <typename Bitset, typename Integer>
    void phaseTwo(Matrix<Integer>& matrix, const Vertices<Integer>& vertices)
    {
@@ -348,11 +347,10 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
-   void phaseTwoHeuristic(Matrix<Integer>& matrix, const Vertices<Integer>& vertices)
+   void phaseTwoHeuristic(Matrix<Integer>& matrix, const Vertices<Integer>& vertices, const std::vector<ColumnIndex>& zero_columns)
    {
       const auto d = matrix.size();
       auto R = initializeR<Bitset>(matrix, vertices);
@@ -360,14 +358,17 @@ namespace
       for ( std::size_t i = d; i < vertices.size(); ++i )
       {
          auto facets = extractFacets(matrix, vertices, i);
-         detectBadRow(facets);
+         reinsertZeroColumns(facets, zero_columns);
+         algorithm::removeTrivialInequality(facets);
          if ( !facets.empty() )
          {
             matrix = facets;
-            break;
+            return;
          }
          projection(matrix, R, vertices[i], i);
       }
+      reinsertZeroColumns(matrix, zero_columns);
+      algorithm::removeTrivialInequality(matrix);
    }
 
    template <typename Integer>
diff --git a/src/algorithm_fourier_motzkin_elimination.h b/src/algorithm_fourier_motzkin_elimination.h
index 56f7f6f..170cbc9 100644
--- a/src/algorithm_fourier_motzkin_elimination.h
+++ b/src/algorithm_fourier_motzkin_elimination.h
@@ -19,7 +19,8 @@ namespace panda
    {
       /// Full Fourier-Motzkin elimination: For vertices/rays as input (homogenized),
       /// it returns the set of facets, for a set of inequalities, the set of
-      /// extremal vertices/rays is returned.
+      /// extremal vertices/rays is returned. The facets may include the facet at
+      /// infinity, i.e. the trivial inequality 0 <= 1.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
       /// Heuristic using Fourier-Motzkin elimination to identify some facets.
@@ -27,6 +28,9 @@ namespace panda
       /// that it is not the complete set of facets.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
+      /// Removes the trivial inequality 0 <= 1 from a set of facets.
+      template <typename Integer>
+      void removeTrivialInequality(Matrix<Integer>&);
    }
 }
 
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..b42c96d 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -30,6 +30,12 @@ namespace
    /// Returns all vertices that lie on the facet (satisfy the inequality with equality).
    template <typename Integer>
    Vertices<Integer> verticesWithZeroDistance(const Vertices<Integer>&, const Facet<Integer>&);
+   /// Identifies the facet at infinity, which is no facet of the polyhedron.
+   template <typename Integer>
+   bool isTrivial(const Facet<Integer>&, tag::facet);
+   /// Vertices and rays are never trivial.
+   template <typename Integer>
+   bool isTrivial(const Vertex<Integer>&, tag::vertex);
 }
 
 template <typename Integer, typename TagType>
@@ -46,7 +52,10 @@ Matrix<Integer> panda::algorithm::rotation(const Matrix<Integer>& matrix,
    for ( const auto& ridge : ridges )
    {
       const auto new_row = rotate(matrix, furthest_vertex, input, ridge);
-      output.insert(new_row);
+      if ( !isTrivial(new_row, tag) )
+      {
+         output.insert(new_row);
+      }
    }
    return classes(output, maps, tag);
 }
@@ -100,5 +109,16 @@ namespace
       });
       return selection;
    }
-}
 
+   template <typename Integer>
+   bool isTrivial(const Facet<Integer>& facet, tag::facet)
+   {
+      return facet.back() == -1 && std::count(facet.cbegin(), facet.cend(), Integer(0)) + 1 == static_cast<std::ptrdiff_t>(facet.size());
+   }
+
+   template <typename Integer>
+   bool isTrivial(const Vertex<Integer>&, tag::vertex)
+   {
+      return false;
+   }
+}
diff --git a/src/method_double_description.cpp b/src/method_double_description.cpp
index 0315197..ae240a7 100644
--- a/src/method_double_description.cpp
+++ b/src/method_double_description.cpp
@@ -145,6 +145,7 @@ namespace
       }
       // computation part 2: identifying inequalities
       auto inequalities = algorithm::fourierMotzkinElimination(vertices);
+      algorithm::removeTrivialInequality(inequalities);
       inequalities = algorithm::classes(inequalities, reduced_maps, tag::facet{});
       // output
       const auto is_reduced = !maps.empty();
-- 
2.43.0


From 3981b7e92c0d6c982ab02d4fce0cb6c984b0e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 25/26] fix: crash if no input row is tight or all tight input
 rows are zero

---
 src/algorithm_fourier_motzkin_elimination.cpp | 8 ++++++++
 src/algorithm_rotation.cpp                    | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index 6d74c93..2f3ebd9 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -85,6 +85,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> inpu
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // all rows are zero
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
@@ -115,6 +119,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // all rows are zero
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index b42c96d..580baee 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -95,7 +95,10 @@ namespace
    Inequalities<Integer> getRidges(const Vertices<Integer>& vertices, const Facet<Integer>& facet)
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
-      assert( !vertices_on_facet.empty() );
+      if ( vertices_on_facet.empty() )
+      {
+         return {};
+      }
       return algorithm::fourierMotzkinElimination(vertices_on_facet);
    }
 
-- 
2.43.0


From e9cac95449a9c0eb14c67933d03895abd9ec24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:13 +0000
Subject: [PATCH 26/26] fix: a name that is the beginning of a name listed
 before it was not recognized as name

---
 src/input_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 0408850..c8faf57 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -213,7 +213,7 @@ bool panda::input::containsNames(const Names& names, std::istream& stream)
          const auto character = static_cast<char>(stream.get());
          word.append(1, character);
          position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
+         if ( std::find(position, names.cend(), word) != names.cend() ) // match!
          {
             return true;
          }
-- 
2.43.0

