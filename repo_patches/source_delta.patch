From a24531bab38a952121dfac9cd586b59597198695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 01/12] fix: assign from a variant whose content is in a heap
 backup

assigner and move_assigner treated the backup_holder itself as the
value to copy, so assigning from (or swapping with) a variant left in
the heap-backup state by an earlier failed assignment hit
BOOST_ASSERT(false), or with NDEBUG produced a null backup read as T.
---
 include/boost/variant/variant.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..7e8404f 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1797,6 +1797,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        // [A rhs that keeps its content in a heap backup is assigned by value:]
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
@@ -1915,6 +1922,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        // [A rhs that keeps its content in a heap backup is assigned by value:]
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
-- 
2.43.0


From 408474b6c8313bc201206dd6cab27a7e3da85a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 02/12] fix: keep nothrow-copyable, throwing-move content in
 place on a failed assignment

The backup assigner put such content in a heap backup, but visitation
(and the documentation) assumes a type with has_nothrow_copy is never
held in one: the pointer was then read as the value, and leaked.
---
 include/boost/variant/variant.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 7e8404f..7bf063d 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -755,13 +755,20 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::true_ // is_nothrow_move_constructible
+        , mpl::true_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
+        // [Move if that cannot throw, else the copy cannot:]
+        typedef typename mpl::if_<
+              is_nothrow_move_constructible<LhsT>
+            , LhsT&&
+            , const LhsT&
+            >::type backup_ref;
+
         // Move lhs content to backup...
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              static_cast<backup_ref>(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -777,7 +784,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      static_cast<backup_ref>(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -833,10 +840,14 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // [Must be in line with the visitation, which never looks for the heap
+        //  backup of a type that can be copied or moved without throwing:]
+        typedef typename mpl::or_<
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_backup;
 
-        backup_assign_impl( lhs_content, nothrow_move(), 1L);
+        backup_assign_impl( lhs_content, nothrow_backup(), 1L);
     }
 
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
-- 
2.43.0


From 34e3497fc2956f9348cd714f80ab034a6b18f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 03/12] fix: value-initialize the fallback content after a
 failed assignment

A built-in fallback type such as int was left with an indeterminate
value, so comparing, hashing or printing the variant afterwards was
undefined.
---
 include/boost/variant/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 7bf063d..3fda837 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1737,7 +1737,7 @@ private: // helpers, for modifiers (below)
         void construct_fallback() const BOOST_NOEXCEPT {
             // In case of failure, default-construct fallback type in lhs's storage...
             new (lhs_.storage_.address())
-                fallback_type_; // nothrow
+                fallback_type_(); // nothrow
 
             // ...indicate construction of fallback type...
             lhs_.indicate_which(
-- 
2.43.0


From f79a0a1ce3eda42e60435a948c6dc8305d977104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 04/12] fix: do not move rvalue operands into temporaries in
 multi visitation

With three or more operands, unwrap() returned rvalue variants and
values by value: operands were moved from even if the visitor did not
take them, and apply_visitor could throw although the visitor did not.
Forward them as rvalue references, as unary and binary visitation do.
---
 include/boost/variant/detail/multivisitors_cpp11_based.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp11_based.hpp b/include/boost/variant/detail/multivisitors_cpp11_based.hpp
index bffd088..68dd155 100644
--- a/include/boost/variant/detail/multivisitors_cpp11_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp11_based.hpp
@@ -56,7 +56,7 @@ namespace detail { namespace variant {
     }
 
     template <typename Wrapper>
-    typename enable_if_c<Wrapper::MoveSemantics, typename Wrapper::T>::type
+    typename enable_if_c<Wrapper::MoveSemantics, typename Wrapper::T>::type &&
         unwrap(Wrapper& w)
     {
         return std::move(w.v);
-- 
2.43.0


From 24f3818dd89c6ea6623dfcffc5299b047b464917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:03 +0000
Subject: [PATCH 05/12] fix: construct the fallback content itself after a
 failed assignment

The search for a nothrow default-constructible bounded type yields an
iterator, and that iterator type was constructed in the storage instead of
the type it refers to: after a failed assignment the variant claimed to
hold a fallback object that had never been constructed.
---
 include/boost/variant/variant.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 3fda837..1da34bf 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1157,7 +1157,14 @@ private: // helpers, for representation (below)
     typedef typename fallback_type_result_::first
         fallback_type_index_;
     typedef typename fallback_type_result_::second
-        fallback_type_;
+        fallback_type_it_;
+
+    // [The search yields an iterator to the fallback type, if there is one:]
+    typedef typename mpl::eval_if<
+          is_same< fallback_type_it_, detail::variant::no_fallback_type >
+        , mpl::identity< detail::variant::no_fallback_type >
+        , mpl::deref< fallback_type_it_ >
+        >::type fallback_type_;
 
     struct has_fallback_type_
         : mpl::not_<
-- 
2.43.0


From a114762406c3791bdc67d6ffc8d437b2fce33d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:05 +0000
Subject: [PATCH 06/12] fix: prefer boost::blank as fallback content, as
 documented

The predicate that looks for boost::blank was applied to iterators, which
are never boost::blank, so that the preference had no effect.
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 1da34bf..bf503fa 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_type_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same<t_, boost::blank> > type;
+    };
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -199,7 +212,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_type_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From eacdefad9e1cc986fbb469f5301b27150490730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 07/12] fix: deduce the fourth and further operands of generic
 multi visitation

The pack of operands was followed by a defaulted parameter, so it was not
deduced and visiting four or more variants with a visitor without
result_type did not compile.
---
 .../detail/multivisitors_cpp14_based.hpp      | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp14_based.hpp b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
index 214fdc0..7d1f087 100644
--- a/include/boost/variant/detail/multivisitors_cpp14_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
@@ -103,12 +103,11 @@ namespace detail { namespace variant {
 
 }} // namespace detail::variant
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
-        typename boost::disable_if<
-            boost::detail::variant::has_result_type<Visitor>,
-            bool
-        >::type = true)
+    template <class Visitor, class T1, class T2, class T3, class... TN,
+        class = typename boost::disable_if<
+            boost::detail::variant::has_result_type<Visitor>
+        >::type>
+    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
@@ -125,12 +124,11 @@ namespace detail { namespace variant {
     }
 
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
-        typename boost::disable_if<
-            boost::detail::variant::has_result_type<Visitor>,
-            bool
-        >::type = true)
+    template <class Visitor, class T1, class T2, class T3, class... TN,
+        class = typename boost::disable_if<
+            boost::detail::variant::has_result_type<Visitor>
+        >::type>
+    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return ::boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
-- 
2.43.0


From bc2e019f71426d00b1024207484a60570ce87f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:22 +0000
Subject: [PATCH 08/12] fix: converting an rvalue variant of references does
 not move from the referred-to object

---
 include/boost/variant/variant.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index bf503fa..5e77f02 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1421,13 +1421,14 @@ private: // helpers, for structors, cont. (below)
         template <typename T>
         int internal_visit(boost::detail::reference_content<T>& operand, long) const
         {
-            return internal_visit( operand.get(), 1L );
+            // The referred-to object is not owned: never move from it.
+            return initializer::initialize(storage_, operand.get() );
         }
 
         template <typename T>
         int internal_visit(const boost::detail::reference_content<T>& operand, long) const
         {
-            return internal_visit( operand.get(), 1L );
+            return initializer::initialize(storage_, operand.get() );
         }
 
         template <typename T>
-- 
2.43.0


From 9fbf6a6618197ccc5e8323f6d534b922b3ff0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:57 +0000
Subject: [PATCH 09/12] fix: substitute recursive_variant_ inside cv-qualified
 template expressions

---
 include/boost/variant/detail/substitute.hpp | 31 +++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/boost/variant/detail/substitute.hpp b/include/boost/variant/detail/substitute.hpp
index 213259d..48c8997 100644
--- a/include/boost/variant/detail/substitute.hpp
+++ b/include/boost/variant/detail/substitute.hpp
@@ -135,6 +135,37 @@ struct substitute<
         >::type...> type;
 };
 
+//
+// cv-qualified template expression (i.e., cv F<...>) specializations
+//
+
+#define BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TYPEEXPR(CV_) \
+    template < \
+          template <typename...> class F \
+        , typename... Ts \
+        , typename Dest \
+        , typename Source \
+          BOOST_MPL_AUX_LAMBDA_ARITY_PARAM(typename Arity) \
+        > \
+    struct substitute< \
+          CV_ F<Ts...> \
+        , Dest \
+        , Source \
+          BOOST_MPL_AUX_LAMBDA_ARITY_PARAM(Arity) \
+        > \
+    { \
+        typedef CV_ typename substitute< \
+              F<Ts...>, Dest, Source \
+            >::type type; \
+    }; \
+    /**/
+
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TYPEEXPR(const)
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TYPEEXPR(volatile)
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TYPEEXPR(const volatile)
+
+#undef BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TYPEEXPR
+
 //
 // function specializations
 //
-- 
2.43.0


From a2cf32a8b7c375324a8c4875d9a4c94acb330fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:55 +0000
Subject: [PATCH 10/12] fix: take the address of assigned content with
 addressof, not an overloaded operator&

---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 5e77f02..a334123 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -53,6 +53,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -715,7 +716,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0


From c3cc7e36fca3f9082d58ba9b34df5411a2eaf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:57 +0000
Subject: [PATCH 11/12] fix: a default-constructed recursive_wrapper holds a
 value-initialized object

---
 include/boost/variant/recursive_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/recursive_wrapper.hpp b/include/boost/variant/recursive_wrapper.hpp
index f11418d..6c4ce02 100644
--- a/include/boost/variant/recursive_wrapper.hpp
+++ b/include/boost/variant/recursive_wrapper.hpp
@@ -107,7 +107,7 @@ recursive_wrapper<T>::~recursive_wrapper()
 
 template <typename T>
 recursive_wrapper<T>::recursive_wrapper()
-    : p_(new T)
+    : p_(new T())
 {
 }
 
-- 
2.43.0


From fa410820f1fe73e555ec0c4721365d9ded5a29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:09 +0000
Subject: [PATCH 12/12] fix: strict polymorphic_get accepts a base class of a
 reference alternative

---
 include/boost/variant/polymorphic_get.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/polymorphic_get.hpp b/include/boost/variant/polymorphic_get.hpp
index 1083f0f..54ff5de 100644
--- a/include/boost/variant/polymorphic_get.hpp
+++ b/include/boost/variant/polymorphic_get.hpp
@@ -68,7 +68,7 @@ struct element_polymorphic_iterator_impl :
         boost::mpl::or_<
             variant_element_functor<boost::mpl::_1, T>,
             variant_element_functor<boost::mpl::_1, typename boost::remove_cv<T>::type >,
-            boost::is_base_of<T, boost::mpl::_1>
+            boost::is_base_of<T, boost::remove_reference<boost::mpl::_1> >
         >
     >
 {};
-- 
2.43.0

