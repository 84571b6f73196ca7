From 81632ba42451a3de3c4d87e95808c2655601a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 01/30] fix: remainder of the most negative value by itself is
 zero

---
 include/boost/safe_numerics/checked_integer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..24378fe 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -550,7 +550,8 @@ struct checked_operation<R, F,
                 return t % u;
             checked_result<R> ux = checked::minus(u);
             if(ux.exception())
-                return t;
+                // u is the most negative value.  It divides only itself
+                return t == u ? R(0) : t;
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From 93f158e44a89bddffc3e6df2e3955599b3c15506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 02/30] fix: shifting an unsigned value right by its full width
 is an error

---
 include/boost/safe_numerics/checked_integer.hpp      | 2 +-
 include/boost/safe_numerics/safe_base_operations.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 24378fe..3d6cc3c 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -741,7 +741,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(u >= utility::bits_type<R>::value){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..d293046 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1493,8 +1493,8 @@ struct right_shift_result {
         constexpr const r_type_interval_t ui = u_interval();
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
-            ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+            ui.u >= checked_result<result_base_type>(
+                utility::bits_type<result_base_type>::value
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
-- 
2.43.0


From 143ba5a153edb4859e8d82c550707c365f30a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 03/30] fix: range of a remainder must include every possible
 remainder

---
 include/boost/safe_numerics/automatic.hpp | 20 +--------
 include/boost/safe_numerics/interval.hpp  | 53 ++++++++++++++++++-----
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..563c92d 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,7 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval = t_interval % u_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..1594b5b 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -139,18 +139,51 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
 }
 
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// The remainder has the sign of the dividend.  Its magnitude is less than that
+// of the divisor and not greater than that of the dividend.
+// note: a denominator of 0 doesn't produce any value.
+namespace modulus_detail {
+
+// largest magnitude of a remainder given a divisor - as a positive value
+template<typename T>
+constexpr inline T upper(const T & u){
+    if(static_cast<bool>(u < T(0)))
+        return - (u + T(1));
+    if(static_cast<bool>(u > T(0)))
+        return u - T(1);
+    return T(0);
+}
+// largest magnitude of a remainder given a divisor - as a negative value
+template<typename T>
+constexpr inline T lower(const T & u){
+    if(static_cast<bool>(u < T(0)))
+        return u + T(1);
+    if(static_cast<bool>(u > T(0)))
+        return T(1) - u;
+    return T(0);
+}
+template<typename T>
+constexpr inline T least(const T & t, const T & u){
+    return static_cast<bool>(t < u) ? t : u;
+}
+template<typename T>
+constexpr inline T greatest(const T & t, const T & u){
+    return static_cast<bool>(t < u) ? u : t;
+}
+
+} // modulus_detail
+
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
-    );
+    using namespace modulus_detail;
+    return interval<T>{
+        static_cast<bool>(t.l < T(0))
+            ? greatest<T>(t.l, least<T>(lower<T>(u.l), lower<T>(u.u)))
+            : T(0),
+        static_cast<bool>(t.u > T(0))
+            ? least<T>(t.u, greatest<T>(upper<T>(u.l), upper<T>(u.u)))
+            : T(0)
+    };
 }
 
 template<typename T>
-- 
2.43.0


From 2831b14baeac729005d4a16d24a6487b7dd889a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 04/30] fix: divide and take remainders in a type which can
 hold the operands

---
 .../safe_numerics/safe_base_operations.hpp    | 129 +++++++++---------
 1 file changed, 61 insertions(+), 68 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index d293046..7eee9fe 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -752,14 +752,6 @@ private:
     using result_base_type =
         typename promotion_policy::template division_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            / static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -772,17 +764,25 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // type large enough to hold the operands as well as the result
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+    using t_type = checked_result<temp_base>;
 
+    // if exception not possible
     constexpr static result_base_type
-    return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
-        using t_type = checked_result<temp_base>;
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            / static_cast<temp_base>(base_value(u))
+        );
+    }
 
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::true_type){
         const std::pair<t_type, t_type> r = casting_helper<
             exception_policy,
             temp_base
@@ -798,19 +798,19 @@ private:
             ? r.first / r.second
             : rx;
     }
-    using r_type_interval_t = interval<r_type>;
+    using r_type_interval_t = interval<t_type>;
 
     constexpr static r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
@@ -818,17 +818,17 @@ private:
         constexpr const r_type_interval_t t = t_interval();
         constexpr const r_type_interval_t u = u_interval();
 
-        if(u.u < r_type(0) || u.l > r_type(0))
+        if(u.u < t_type(0) || u.l > t_type(0))
             return t / u;
         return utility::minmax(
-            std::initializer_list<r_type> {
+            std::initializer_list<t_type> {
                 t.l / u.l,
-                t.l / r_type(-1),
-                t.l / r_type(1),
+                t.l / t_type(-1),
+                t.l / t_type(1),
                 t.l / u.u,
                 t.u / u.l,
-                t.u / r_type(-1),
-                t.u / r_type(1),
+                t.u / t_type(-1),
+                t.u / t_type(1),
                 t.u / u.u,
             }
         );
@@ -847,9 +847,14 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            static_cast<bool>(ui.includes(t_type(0)))
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
@@ -910,14 +915,6 @@ private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
     using result_base_type = typename promotion_policy::template modulus_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -930,17 +927,25 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // type large enough to hold the operands as well as the result
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+    using t_type = checked_result<temp_base>;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            % static_cast<temp_base>(base_value(u))
+        );
+    }
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
-        using t_type = checked_result<temp_base>;
-        
         const std::pair<t_type, t_type> r = casting_helper<
             exception_policy,
             temp_base
@@ -957,41 +962,24 @@ private:
             : rx;
     }
 
-    using r_type_interval_t = interval<r_type>;
+    using r_type_interval_t = interval<t_type>;
 
     constexpr static const r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static const r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
     constexpr static const r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t = t_interval();
-        constexpr const r_type_interval_t u = u_interval();
-
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return t_interval() % u_interval();
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1007,9 +995,14 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            static_cast<bool>(ui.includes(t_type(0)))
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From 24da5ee2e0c3619376589bcbf9931c19acf139ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 05/30] fix: left shift must check every operand which might be
 invalid

---
 .../safe_numerics/safe_base_operations.hpp    | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 7eee9fe..9b4e72c 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1306,17 +1306,22 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
+        );
+    }
 
-        constexpr const r_type_interval_t u_interval{
+    constexpr static r_type_interval_t u_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return (t_interval() << u_interval());
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1331,6 +1336,17 @@ private:
     };
 
     constexpr static bool exception_possible(){
+        constexpr const r_type_interval_t ti = t_interval();
+        constexpr const r_type_interval_t ui = u_interval();
+        if(ti.l.exception() || ti.u.exception())
+            return true;
+        if(ui.l.exception() || ui.u.exception())
+            return true;
+        // shifting a negative value or by a negative amount is an error
+        if(ti.l < r_type(0) || ui.l < r_type(0))
+            return true;
+        if(ui.u >= r_type(utility::bits_type<result_base_type>::value))
+            return true;
         if(r_type_interval.l.exception())
             return true;
         if(r_type_interval.u.exception())
-- 
2.43.0


From 476da644ff6e4ecd82b4b649b22ea99fb19f04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 06/30] fix: range of a right shift must include a shift of
 zero

---
 .../boost/safe_numerics/safe_base_operations.hpp    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 9b4e72c..481acf8 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1481,8 +1481,13 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    constexpr static r_type_interval_t get_r_type_interval(){
+        // a negative shift is an error and doesn't contribute to the result
+        constexpr const r_type_interval_t ui = u_interval();
+        return t_interval() >> r_type_interval_t(
+            static_cast<bool>(ui.l > r_type(0)) ? ui.l : r_type(0),
+            static_cast<bool>(ui.u > r_type(0)) ? ui.u : r_type(0)
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1507,6 +1512,10 @@ struct right_shift_result {
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception()
         );
-- 
2.43.0


From e544f1e7abd97253175508abfa4e34615f3dfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 07/30] fix: converting an unsigned value which is too small is
 a negative overflow

---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 3d6cc3c..41c06e9 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From be5c5c15dfe64c1da4d6ab1e34013b75f89f95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 08/30] fix: range of a bitwise operation must allow for
 negative operands

---
 .../safe_numerics/safe_base_operations.hpp    | 122 +++++++++++++-----
 1 file changed, 92 insertions(+), 30 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 481acf8..beb4520 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1608,22 +1608,39 @@ private:
     // sense that these are signed numbers.
 
     using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // a negative operand sets every one of the higher order bits
+    constexpr static bool negative_operand(){
+        return base_value(std::numeric_limits<T>::min()) < 0
+            || base_value(std::numeric_limits<U>::min()) < 0;
+    }
+
+    constexpr static result_base_type result_min(){
+        return negative_operand()
+            ? std::numeric_limits<result_base_type>::min()
+            : result_base_type(0);
+    }
+
+    constexpr static result_base_type result_max(){
+        return negative_operand()
+            ? std::numeric_limits<result_base_type>::max()
+            : static_cast<result_base_type>(
+                utility::round_out(
+                    std::max(
+                        static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                        static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    )
+                )
+            );
+    }
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        result_min(),
+        result_max(),
         promotion_policy,
         exception_policy
     >;
@@ -1672,22 +1689,50 @@ private:
     // sense that these are signed numbers.
 
     using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // a negative operand sets every one of the higher order bits. So
+    // the result is limited only by those operands which aren't negative.
+    constexpr static bool negative_t(){
+        return base_value(std::numeric_limits<T>::min()) < 0;
+    }
+
+    constexpr static bool negative_u(){
+        return base_value(std::numeric_limits<U>::min()) < 0;
+    }
+
+    constexpr static r_type limit_t(){
+        return negative_t()
+            ? std::numeric_limits<r_type>::max()
+            : static_cast<r_type>(base_value(std::numeric_limits<T>::max()));
+    }
+
+    constexpr static r_type limit_u(){
+        return negative_u()
+            ? std::numeric_limits<r_type>::max()
+            : static_cast<r_type>(base_value(std::numeric_limits<U>::max()));
+    }
+
+    constexpr static result_base_type result_min(){
+        return negative_t() && negative_u()
+            ? std::numeric_limits<result_base_type>::min()
+            : result_base_type(0);
+    }
+
+    constexpr static result_base_type result_max(){
+        return negative_t() && negative_u()
+            ? std::numeric_limits<result_base_type>::max()
+            : static_cast<result_base_type>(
+                utility::round_out(std::min(limit_t(), limit_u()))
+            );
+    }
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        result_min(),
+        result_max(),
         promotion_policy,
         exception_policy
     >;
@@ -1735,22 +1780,39 @@ struct bitwise_xor_result {
     // sense that these are signed numbers.
 
     using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // a negative operand sets every one of the higher order bits
+    constexpr static bool negative_operand(){
+        return base_value(std::numeric_limits<T>::min()) < 0
+            || base_value(std::numeric_limits<U>::min()) < 0;
+    }
+
+    constexpr static result_base_type result_min(){
+        return negative_operand()
+            ? std::numeric_limits<result_base_type>::min()
+            : result_base_type(0);
+    }
+
+    constexpr static result_base_type result_max(){
+        return negative_operand()
+            ? std::numeric_limits<result_base_type>::max()
+            : static_cast<result_base_type>(
+                utility::round_out(
+                    std::max(
+                        static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                        static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    )
+                )
+            );
+    }
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        result_min(),
+        result_max(),
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From f18639035ccab2bbacd8f3595a8e750e69149fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 09/30] fix: subtraction whose error is ignored must still
 subtract

---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index beb4520..737c84e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From 1c86eb79b3248d79247509850d7adc7c9c818383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 10/30] fix: conversion whose error is ignored must give the
 converted value

---
 include/boost/safe_numerics/safe_base_operations.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 737c84e..f0ad8cd 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,10 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            // if the error was ignored, fall back to the C++ conversion
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
-- 
2.43.0


From 6b15dc18198043d383a7fa0ae7ddbe74e533bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 11/30] fix: failed stream input must not change the variable

---
 .../safe_numerics/safe_base_operations.hpp    | 65 ++++++++++---------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index f0ad8cd..0e1a79a 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1893,40 +1893,41 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
-    || std::is_same<T, unsigned char>::value
-    || std::is_same<T, wchar_t>::value
-    ){
-        int x;
-        is >> x;
-        m_t = validated_cast(x);
-    }
-    else{
-        if(std::is_unsigned<T>::value){
-            // reading a negative number into an unsigned variable cannot result in
-            // a correct result.  But, C++ reads the absolute value, multiplies
-            // it by -1 and stores the resulting value.  This is crazy - but there
-            // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-            is >> std::ws;
-            int x = is.peek();
-            // if the input string starts with a '-', we know its an error
-            if(x == '-'){
-                // set fail bit
-                is.setstate(std::ios_base::failbit);
-            }
-        }
-        is >> m_t;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
+    // read into a temporary so that a failure leaves the current value alone.
+    // Note that character types are written as numbers.
+    using temp_type = typename std::conditional<
+        std::is_same<T, char>::value
+        || std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, wchar_t>::value,
+        int,
+        T
+    >::type;
+    if(std::is_unsigned<temp_type>::value){
+        // reading a negative number into an unsigned variable cannot result in
+        // a correct result.  But, C++ reads the absolute value, multiplies
+        // it by -1 and stores the resulting value.  This is crazy - but there
+        // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
+        is >> std::ws;
+        int x = is.peek();
+        // if the input string starts with a '-', we know its an error
+        if(x == '-'){
+            // set fail bit
+            is.setstate(std::ios_base::failbit);
         }
-        else
-            validated_cast(m_t);
     }
+    temp_type temp = 0;
+    is >> temp;
+    if(is.fail()){
+        boost::safe_numerics::dispatch<
+            E,
+            boost::safe_numerics::safe_numerics_error::domain_error
+        >(
+            "error in file input"
+        );
+    }
+    else
+        m_t = validated_cast(temp);
 }
 
 } // safe_numerics
-- 
2.43.0


From 4d0e22fbb1e3878cf69c5bc07b5892a40b89b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 12/30] fix: disjoint intervals do not intersect

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index 1594b5b..b094554 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -231,7 +231,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From c162f1b9099d448a1a72ab607c70335befbf818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 13/30] fix: a precision overflow is an arithmetic error

---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..970f3cb 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -170,6 +170,7 @@ public:
         case safe_numerics_actions::arithmetic_error:
             return code == safe_numerics_error::positive_overflow_error
                 || code == safe_numerics_error::negative_overflow_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
                 || code == safe_numerics_error::domain_error;
-- 
2.43.0


From 7ea673186d8d785d2ebcf140694af42dded67648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 14/30] fix: usual arithmetic conversions end with an unsigned
 type

---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..8377bb9 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From 9b4d0ca72e4ba5e5f23ed7de7b5838c975ccbdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 15/30] fix: type of a shift is that of the promoted left
 operand

---
 include/boost/safe_numerics/cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 8377bb9..07c747c 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -171,11 +171,11 @@ public:
     };
     template<typename T, typename U>
     struct left_shift_result {
-       using type = result_type<T, U>;
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct right_shift_result {
-       using type = result_type<T, U>;
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct bitwise_and_result {
-- 
2.43.0


From bf76495ec40be4d527d9f7c1368c106c5226bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 16/30] fix: automatic result type must be able to hold the
 operands

---
 include/boost/safe_numerics/automatic.hpp | 75 ++++++++++++-----------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 563c92d..4f3b9b0 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -11,6 +11,7 @@
 // to avoid overflows.
 
 #include <limits>
+#include <algorithm> // min, max
 #include <cstdint>     // (u)intmax_t,
 #include <type_traits> // conditional
 #include <boost/integer.hpp>
@@ -49,6 +50,36 @@ private:
         >::type::template type<Min, Max>;
     };
 
+    // the type of a result has to be able to hold the operands as well as
+    // the result itself since the operation is carried out in that type.
+    template<typename R>
+    constexpr static R lower(
+        const interval<checked_result<R>> & r,
+        const interval<checked_result<R>> & t,
+        const interval<checked_result<R>> & u
+    ){
+        return r.l.exception() || t.l.exception() || u.l.exception()
+            ? std::numeric_limits<R>::min()
+            : std::min(
+                static_cast<R>(r.l),
+                std::min(static_cast<R>(t.l), static_cast<R>(u.l))
+            );
+    }
+
+    template<typename R>
+    constexpr static R upper(
+        const interval<checked_result<R>> & r,
+        const interval<checked_result<R>> & t,
+        const interval<checked_result<R>> & u
+    ){
+        return r.u.exception() || t.u.exception() || u.u.exception()
+            ? std::numeric_limits<R>::max()
+            : std::max(
+                static_cast<R>(r.u),
+                std::max(static_cast<R>(t.u), static_cast<R>(u.u))
+            );
+    }
+
 public:
     ///////////////////////////////////////////////////////////////////////
     template<typename T, typename U>
@@ -78,17 +109,10 @@ public:
 
         constexpr static const r_interval_type r_interval = t_interval + u_interval;
 
-        constexpr static auto rl = r_interval.l;
-        constexpr static auto ru = r_interval.u;
-
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower<temp_base_type>(r_interval, t_interval, u_interval),
+            upper<temp_base_type>(r_interval, t_interval, u_interval)
         >::type;
     };
 
@@ -113,17 +137,10 @@ public:
 
         constexpr static const r_interval_type r_interval = t_interval - u_interval;
 
-        constexpr static auto rl = r_interval.l;
-        constexpr static auto ru = r_interval.u;
-
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower<temp_base_type>(r_interval, t_interval, u_interval),
+            upper<temp_base_type>(r_interval, t_interval, u_interval)
         >::type;
     };
 
@@ -155,17 +172,10 @@ public:
 
         constexpr static const r_interval_type r_interval = t_interval * u_interval;
 
-        constexpr static const auto rl = r_interval.l;
-        constexpr static const auto ru = r_interval.u;
-
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower<temp_base_type>(r_interval, t_interval, u_interval),
+            upper<temp_base_type>(r_interval, t_interval, u_interval)
         >::type;
     };
 
@@ -416,17 +426,10 @@ public:
 
         constexpr static const r_interval_type r_interval = t_interval >> u_interval;
 
-        constexpr static auto rl = r_interval.l;
-        constexpr static auto ru = r_interval.u;
-
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower<temp_base_type>(r_interval, t_interval, t_interval),
+            upper<temp_base_type>(r_interval, t_interval, t_interval)
         >::type;
 
     };
-- 
2.43.0


From c7c1bf5446dcc012158ada39fa7ae6a16c94c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:20 +0000
Subject: [PATCH 17/30] fix: remainder by -1 must not trap

---
 include/boost/safe_numerics/safe_base_operations.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 0e1a79a..15317dd 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -941,9 +941,12 @@ private:
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
+        // note that t % u would trap for the most negative value and -1
         return static_cast<result_base_type>(
-            static_cast<temp_base>(base_value(t))
-            % static_cast<temp_base>(base_value(u))
+            checked::modulus<temp_base>(
+                static_cast<temp_base>(base_value(t)),
+                static_cast<temp_base>(base_value(u))
+            ).m_contents.m_r
         );
     }
 
-- 
2.43.0


From 9c8864f67e1acb08ca88db03e7190ccad8d7709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 18/30] fix: conversion to a built-in type assumed the range of
 the stored type

A safe range type whose every value fits the target could not be
converted to it under a trapping exception policy.
---
 .../safe_numerics/safe_base_operations.hpp    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 15317dd..cdc726e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -237,12 +237,28 @@ operator R () const {
         ! r_interval.excludes(this_interval),
         "safe type cannot be constructed with this type"
     );
-    return validate_detail<
+    using validator = validate_detail<
         R,
         std::numeric_limits<R>::min(),
         std::numeric_limits<R>::max(),
         E
-    >::return_value(m_t);
+    >;
+    // the values of this type are those of the declared range, which may
+    // be narrower than the range of the type they are stored in
+    using r_type = checked_result<R>;
+    constexpr const interval<r_type> target{
+        r_type(std::numeric_limits<R>::min()),
+        r_type(std::numeric_limits<R>::max())
+    };
+    constexpr const interval<r_type> source{
+        checked::cast<R>(Min),
+        checked::cast<R>(Max)
+    };
+    return std::conditional<
+        static_cast<bool>(target.includes(source)),
+        typename validator::exception_not_possible,
+        typename validator::exception_possible
+    >::type::return_value(m_t);
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 9b5d2d26325f3b8fdc4127c5ef427513fc1127f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:57 +0000
Subject: [PATCH 19/30] fix: a negative range could be converted to an unsigned
 safe type

Such a conversion can never succeed: reject it at compile time as any
other conversion between ranges that don't overlap.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index cdc726e..a60ae6f 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -138,8 +138,14 @@ struct validate_detail {
         };
         constexpr const interval<r_type> r_interval{r_type(Min), r_type(Max)};
 
+        // note: casting a negative value to an unsigned type is a domain error,
+        // which can't be ordered.
         static_assert(
-            true != static_cast<bool>(r_interval.excludes(t_interval)),
+            true != static_cast<bool>(r_interval.excludes(t_interval))
+            && ! (
+                std::is_unsigned<R>::value
+                && base_value(std::numeric_limits<T>::max()) < 0
+            ),
             "can't cast from ranges that don't overlap"
         );
         return std::conditional<
-- 
2.43.0


From a51a316b7f06bf7434eba0dd1be94812181d7abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 20/30] fix: round_out shifted into the sign bit of a signed
 type

---
 include/boost/safe_numerics/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/utility.hpp b/include/boost/safe_numerics/utility.hpp
index ef7e1ef..1c32bc1 100644
--- a/include/boost/safe_numerics/utility.hpp
+++ b/include/boost/safe_numerics/utility.hpp
@@ -239,13 +239,13 @@ template<typename T>
 constexpr inline T round_out(const T & t){
     if(t >= 0){
         const std::uint8_t sb = utility::significant_bits(t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ((T)1 << sb) - 1
             : std::numeric_limits<T>::max();
     }
     else{
         const std::uint8_t sb = utility::significant_bits(~t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ~(((T)1 << sb) - 1)
             : std::numeric_limits<T>::min();
     }
-- 
2.43.0


From 3c003fd66ce1d9cd9909bc142ff6cba343095f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:53 +0000
Subject: [PATCH 21/30] fix: casting a floating point value to an integer was
 not checked

checked::cast of a floating point value out of the range of the integer type
executed undefined behaviour and returned a wrong value. It now reports
the error, as the casts between integer types do.
---
 .../boost/safe_numerics/checked_integer.hpp   | 48 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 41c06e9..00ae3be 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -172,9 +172,55 @@ struct heterogeneous_checked_operation<
         && std::is_floating_point<T>::value
     >::type
 >{
+    // 2 ^ (number of digits of R).  Always exact, unlike max() itself
+    constexpr static T limit(){
+        return static_cast<T>(std::numeric_limits<R>::max() / 2 + 1) * 2;
+    }
+    constexpr static T lowest(){
+        return std::is_signed<R>::value ? - limit() : static_cast<T>(0);
+    }
+    constexpr static checked_result<R>
+    too_small(){
+        return std::is_signed<R>::value ?
+            F::template invoke<safe_numerics_error::negative_overflow_error>(
+                "converted floating point value too small"
+            )
+        :
+            F::template invoke<safe_numerics_error::domain_error>(
+                "converted value to low or negative"
+            )
+        ;
+    }
+    // t can be truncated to R
+    constexpr static checked_result<R>
+    check_range(const R & t){
+        return
+            t > Max ?
+                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                    "converted floating point value too large"
+                )
+            : t < Min ?
+                too_small()
+            :
+                checked_result<R>(t)
+            ;
+    }
     constexpr static checked_result<R>
     cast(const T & t){
-        return static_cast<R>(t);
+        return
+            t != t ? // not a number
+                F::template invoke<safe_numerics_error::domain_error>(
+                    "converted value is not a number"
+                )
+            : t >= limit() ?
+                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                    "converted floating point value too large"
+                )
+            : t < lowest() && ! (t - lowest() > static_cast<T>(-1)) ?
+                too_small()
+            :
+                check_range(static_cast<R>(t))
+            ;
     }
 }; // heterogeneous_checked_operation
 
-- 
2.43.0


From bc0a95133febcdf9e101e23735ca07501a5635aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:29 +0000
Subject: [PATCH 22/30] fix: three headers did not include what they need

---
 include/boost/safe_numerics/checked_default.hpp | 2 ++
 include/boost/safe_numerics/native.hpp          | 2 ++
 include/boost/safe_numerics/range_value.hpp     | 1 +
 3 files changed, 5 insertions(+)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index d71921e..ca158e7 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -29,6 +29,8 @@
 
 // usage example: checked<int>::add(t, u) ...
 
+#include <limits>
+
 #include <boost/logic/tribool.hpp>
 #include "checked_result.hpp"
 
diff --git a/include/boost/safe_numerics/native.hpp b/include/boost/safe_numerics/native.hpp
index 147ac82..81ddb04 100644
--- a/include/boost/safe_numerics/native.hpp
+++ b/include/boost/safe_numerics/native.hpp
@@ -10,6 +10,8 @@
 #include <type_traits>
 #include <limits>
 
+#include "safe_common.hpp"
+
 // policy which creates results types and values equal to that of C++ promotions.
 // When used in conjunction with a desired exception policy, traps errors but
 // does not otherwise alter the results produced by the program using it.
diff --git a/include/boost/safe_numerics/range_value.hpp b/include/boost/safe_numerics/range_value.hpp
index 3c01c76..cee8f80 100644
--- a/include/boost/safe_numerics/range_value.hpp
+++ b/include/boost/safe_numerics/range_value.hpp
@@ -7,6 +7,7 @@
 // accompanying file LICENSE_1_0.txt or copy at
 // http://www.boost.org/LICENSE_1_0.txt)
 
+#include <ios>
 #include <iosfwd>
 
 // print range and value to a standard stream
-- 
2.43.0


From 65ac57f75807c22caea7d120f10b4339824d4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:29 +0000
Subject: [PATCH 23/30] fix: exception_policies.hpp did not compile without
 exceptions

---
 include/boost/safe_numerics/exception_policies.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/exception_policies.hpp b/include/boost/safe_numerics/exception_policies.hpp
index 5523a9c..ca2eea0 100644
--- a/include/boost/safe_numerics/exception_policies.hpp
+++ b/include/boost/safe_numerics/exception_policies.hpp
@@ -76,9 +76,9 @@ struct throw_exception {
     ){
         throw std::system_error(std::error_code(e), message);
     }
-    #else
-    constexpr trap_exception()(const safe_numerics_error & e, const char * message);
     #endif
+    // without exceptions, this is like trap_exception: error will occur on
+    // operator call.
 };
 
 // given an error code - return the action code which it corresponds to.
-- 
2.43.0


From b52f817feefa507fdcda5a8f8abf11a4b3b28699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:41 +0000
Subject: [PATCH 24/30] fix: error codes of different translation units were
 not equal

---
 include/boost/safe_numerics/exception.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 970f3cb..ca766cb 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,7 +81,16 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+// the address of a category is what distinguishes it from another one. So
+// there has to be one object only, however many translation units there are.
+template<class Category>
+struct error_category_instance {
+    static const Category value;
+};
+template<class Category>
+const Category error_category_instance<Category>::value{};
+
+class safe_numerics_error_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept{
         return "safe numerics error";
@@ -115,7 +124,10 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+
+static const std::error_category & safe_numerics_error_category
+    = error_category_instance<safe_numerics_error_category_type>::value;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,7 +158,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept {
         return "safe numerics error group";
@@ -188,7 +200,10 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+
+static const std::error_category & safe_numerics_actions_category
+    = error_category_instance<safe_numerics_actions_category_type>::value;
 
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
-- 
2.43.0


From bdb1ed0a4cfff110ab8f0acf1afc660769d9695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:41 +0000
Subject: [PATCH 25/30] fix: error codes could not be compared with
 safe_numerics_actions

---
 include/boost/safe_numerics/exception.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index ca766cb..f4deb46 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -205,6 +205,10 @@ public:
 static const std::error_category & safe_numerics_actions_category
     = error_category_instance<safe_numerics_actions_category_type>::value;
 
+inline std::error_condition make_error_condition(const safe_numerics_actions & e){
+    return std::error_condition(static_cast<int>(e), safe_numerics_actions_category);
+}
+
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
 // isn't being used and defining here it can lead duplicate symbol errors
-- 
2.43.0


From a334186658b68963ff0752ccc5e4060784bf0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 26/30] fix: safe types claimed to convert to types their
 values don't convert to

---
 include/boost/safe_numerics/safe_base.hpp            | 3 ++-
 include/boost/safe_numerics/safe_base_operations.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base.hpp b/include/boost/safe_numerics/safe_base.hpp
index 03c6edd..6278bbb 100644
--- a/include/boost/safe_numerics/safe_base.hpp
+++ b/include/boost/safe_numerics/safe_base.hpp
@@ -210,7 +210,8 @@ public:
     template<
         class R,
         typename std::enable_if<
-            ! boost::safe_numerics::is_safe<R>::value,
+            ! boost::safe_numerics::is_safe<R>::value
+            && std::is_convertible<Stored, R>::value,
             int
         >::type = 0
     >
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index a60ae6f..0ae672f 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -230,7 +230,8 @@ template< class Stored, Stored Min, Stored Max, class P, class E>
 template<
     class R,
     typename std::enable_if<
-        ! boost::safe_numerics::is_safe<R>::value,
+        ! boost::safe_numerics::is_safe<R>::value
+        && std::is_convertible<Stored, R>::value,
         int
     >::type
 >
-- 
2.43.0


From 09ae35143aef8385318e9623f056786fe75b657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 27/30] fix: operators of safe types replaced those of classes
 which aren't numbers

---
 include/boost/safe_numerics/safe_base_operations.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 0ae672f..86f9bfc 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -385,6 +385,12 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
 // Note: the following global operators will be found via
 // argument dependent lookup.
 namespace {
+// a class which isn't a number has operators of its own
+template<class T, bool = std::is_class<T>::value || std::is_union<T>::value>
+struct legal_operand : public std::true_type {};
+template<class T>
+struct legal_operand<T, true> : public Numeric<T> {};
+
 template<template<class...> class F, class T, class U >
 using legal_overload =
     boost::mp11::mp_and<
@@ -393,7 +399,9 @@ using legal_overload =
             F,
             typename base_type<T>::type,
             typename base_type<U>::type
-        >
+        >,
+        legal_operand<typename base_type<T>::type>,
+        legal_operand<typename base_type<U>::type>
     >;
 } // anon
 
-- 
2.43.0


From ab6a02c478e081d7e4860b3dd20918186e3bb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 28/30] fix: compound assignments returned a copy of the
 variable

---
 .../safe_numerics/safe_base_operations.hpp    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 86f9bfc..ba8cb02 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -520,7 +520,7 @@ constexpr inline operator+(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<addition_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator+=(T & t, const U & u){
     t = static_cast<T>(t + u);
@@ -643,7 +643,7 @@ constexpr inline operator-(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<subtraction_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator-=(T & t, const U & u){
     t = static_cast<T>(t - u);
@@ -768,7 +768,7 @@ constexpr inline operator*(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<multiplication_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator*=(T & t, const U & u){
     t = static_cast<T>(t * u);
@@ -933,7 +933,7 @@ constexpr inline operator/(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<division_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator/=(T & t, const U & u){
     t = static_cast<T>(t / u);
@@ -1085,7 +1085,7 @@ constexpr inline operator%(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<modulus_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator%=(T & t, const U & u){
     t = static_cast<T>(t % u);
@@ -1439,7 +1439,7 @@ typename std::enable_if<
     // exclude usage of << for file output here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<left_shift_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator<<=(T & t, const U & u){
     t = static_cast<T>(t << u);
@@ -1604,7 +1604,7 @@ typename std::enable_if<
     // exclude usage of << for file output here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<right_shift_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator>>=(T & t, const U & u){
     t = static_cast<T>(t >> u);
@@ -1706,7 +1706,7 @@ constexpr inline operator|(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_or_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator|=(T & t, const U & u){
     t = static_cast<T>(t | u);
@@ -1798,7 +1798,7 @@ constexpr inline operator&(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_and_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator&=(T & t, const U & u){
     t = static_cast<T>(t & u);
@@ -1878,7 +1878,7 @@ constexpr inline operator^(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_xor_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator^=(T & t, const U & u){
     t = static_cast<T>(t ^ u);
-- 
2.43.0


From fea24a038d7cd3482d0c4134b335bd5c07c3abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:41 +0000
Subject: [PATCH 29/30] fix: ranges of bitwise results of operands too large
 for the result type

---
 .../safe_numerics/safe_base_operations.hpp    | 68 ++++++++++---------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index ba8cb02..49b8f6f 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1647,20 +1647,24 @@ private:
     using r_type = typename std::make_unsigned<result_base_type>::type;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    // a negative operand sets every one of the higher order bits
-    constexpr static bool negative_operand(){
-        return base_value(std::numeric_limits<T>::min()) < 0
-            || base_value(std::numeric_limits<U>::min()) < 0;
+    // a negative operand sets every one of the higher order bits.  An operand
+    // which is too large for the result type loses them.
+    template<class V>
+    constexpr static bool unbounded(){
+        return base_value(std::numeric_limits<V>::min()) < 0
+            || checked::cast<result_base_type>(
+                base_value(std::numeric_limits<V>::max())
+            ).exception();
     }
 
     constexpr static result_base_type result_min(){
-        return negative_operand()
+        return unbounded<T>() || unbounded<U>()
             ? std::numeric_limits<result_base_type>::min()
             : result_base_type(0);
     }
 
     constexpr static result_base_type result_max(){
-        return negative_operand()
+        return unbounded<T>() || unbounded<U>()
             ? std::numeric_limits<result_base_type>::max()
             : static_cast<result_base_type>(
                 utility::round_out(
@@ -1728,39 +1732,35 @@ private:
     using r_type = typename std::make_unsigned<result_base_type>::type;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    // a negative operand sets every one of the higher order bits. So
-    // the result is limited only by those operands which aren't negative.
-    constexpr static bool negative_t(){
-        return base_value(std::numeric_limits<T>::min()) < 0;
+    // a negative operand sets every one of the higher order bits and one which
+    // is too large for the result type loses them. So the result is limited
+    // only by the other operands.
+    template<class V>
+    constexpr static bool unbounded(){
+        return base_value(std::numeric_limits<V>::min()) < 0
+            || checked::cast<result_base_type>(
+                base_value(std::numeric_limits<V>::max())
+            ).exception();
     }
 
-    constexpr static bool negative_u(){
-        return base_value(std::numeric_limits<U>::min()) < 0;
-    }
-
-    constexpr static r_type limit_t(){
-        return negative_t()
-            ? std::numeric_limits<r_type>::max()
-            : static_cast<r_type>(base_value(std::numeric_limits<T>::max()));
-    }
-
-    constexpr static r_type limit_u(){
-        return negative_u()
+    template<class V>
+    constexpr static r_type limit(){
+        return unbounded<V>()
             ? std::numeric_limits<r_type>::max()
-            : static_cast<r_type>(base_value(std::numeric_limits<U>::max()));
+            : static_cast<r_type>(base_value(std::numeric_limits<V>::max()));
     }
 
     constexpr static result_base_type result_min(){
-        return negative_t() && negative_u()
+        return unbounded<T>() && unbounded<U>()
             ? std::numeric_limits<result_base_type>::min()
             : result_base_type(0);
     }
 
     constexpr static result_base_type result_max(){
-        return negative_t() && negative_u()
+        return unbounded<T>() && unbounded<U>()
             ? std::numeric_limits<result_base_type>::max()
             : static_cast<result_base_type>(
-                utility::round_out(std::min(limit_t(), limit_u()))
+                utility::round_out(std::min(limit<T>(), limit<U>()))
             );
     }
 
@@ -1819,20 +1819,24 @@ struct bitwise_xor_result {
     using r_type = typename std::make_unsigned<result_base_type>::type;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    // a negative operand sets every one of the higher order bits
-    constexpr static bool negative_operand(){
-        return base_value(std::numeric_limits<T>::min()) < 0
-            || base_value(std::numeric_limits<U>::min()) < 0;
+    // a negative operand sets every one of the higher order bits.  An operand
+    // which is too large for the result type loses them.
+    template<class V>
+    constexpr static bool unbounded(){
+        return base_value(std::numeric_limits<V>::min()) < 0
+            || checked::cast<result_base_type>(
+                base_value(std::numeric_limits<V>::max())
+            ).exception();
     }
 
     constexpr static result_base_type result_min(){
-        return negative_operand()
+        return unbounded<T>() || unbounded<U>()
             ? std::numeric_limits<result_base_type>::min()
             : result_base_type(0);
     }
 
     constexpr static result_base_type result_max(){
-        return negative_operand()
+        return unbounded<T>() || unbounded<U>()
             ? std::numeric_limits<result_base_type>::max()
             : static_cast<result_base_type>(
                 utility::round_out(
-- 
2.43.0


From 098156c69d39eb9f87e2642297d043b7ed975268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:41 +0000
Subject: [PATCH 30/30] fix: quotients and remainders too large for the result
 type were truncated

---
 .../safe_numerics/safe_base_operations.hpp    | 74 ++++++++++++++-----
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 49b8f6f..abce42f 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -827,10 +827,20 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::divide(r.first, r.second);
 
-        return
-            rx.exception()
-            ? r.first / r.second
-            : rx;
+        // note: the promotion policy may ask for a type which is too small
+        // for the quotient
+        return validate_detail<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            exception_policy
+        >::exception_possible::return_value(
+            static_cast<temp_base>(
+                rx.exception()
+                ? r.first / r.second
+                : rx
+            )
+        );
     }
     using r_type_interval_t = interval<t_type>;
 
@@ -870,13 +880,20 @@ private:
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    // a limit of the quotient as a value of the result type
+    constexpr static checked_result<result_base_type> result_limit(const t_type & t){
+        return t.exception()
+            ? checked_result<result_base_type>(t.m_e, t.m_contents.m_msg)
+            : checked::cast<result_base_type>(static_cast<temp_base>(t));
+    }
+
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
+        result_limit(r_type_interval.l).exception()
             ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
+            : static_cast<result_base_type>(result_limit(r_type_interval.l)),
+        result_limit(r_type_interval.u).exception()
             ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+            : static_cast<result_base_type>(result_limit(r_type_interval.u))
     };
 
     constexpr static bool exception_possible(){
@@ -889,8 +906,8 @@ private:
             || ti.u.exception()
             || ui.l.exception()
             || ui.u.exception()
-            || ri.l.exception()
-            || ri.u.exception();
+            || result_limit(ri.l).exception()
+            || result_limit(ri.u).exception();
     }
 
     constexpr static auto rl = return_interval.l;
@@ -993,10 +1010,20 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::modulus(r.first, r.second);
 
-        return
-            rx.exception()
-            ? r.first % r.second
-            : rx;
+        // note: the promotion policy may ask for a type which is too small
+        // for the remainder
+        return validate_detail<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            exception_policy
+        >::exception_possible::return_value(
+            static_cast<temp_base>(
+                rx.exception()
+                ? r.first % r.second
+                : rx
+            )
+        );
     }
 
     using r_type_interval_t = interval<t_type>;
@@ -1021,13 +1048,20 @@ private:
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    // a limit of the remainder as a value of the result type
+    constexpr static checked_result<result_base_type> result_limit(const t_type & t){
+        return t.exception()
+            ? checked_result<result_base_type>(t.m_e, t.m_contents.m_msg)
+            : checked::cast<result_base_type>(static_cast<temp_base>(t));
+    }
+
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
+        result_limit(r_type_interval.l).exception()
             ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
+            : static_cast<result_base_type>(result_limit(r_type_interval.l)),
+        result_limit(r_type_interval.u).exception()
             ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+            : static_cast<result_base_type>(result_limit(r_type_interval.u))
     };
 
     constexpr static bool exception_possible(){
@@ -1040,8 +1074,8 @@ private:
             || ti.u.exception()
             || ui.l.exception()
             || ui.u.exception()
-            || ri.l.exception()
-            || ri.u.exception();
+            || result_limit(ri.l).exception()
+            || result_limit(ri.u).exception();
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0

