From 944e20ce650bf8f1fe30d56ec8b77a4905360dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 01/27] fix: collect all the transitive bases regardless of
 registration order

---
 include/boost/openmethod/initialize.hpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..76b2ce2 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -592,31 +592,28 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
             if (rtc != rtb) {
                 // At compile time we collected the class as its own
                 // improper base, as per std::is_base_of. Eliminate that.
-                ++class_mark;
-                collect_transitive_bases(rtc, rtb);
+                rtc->transitive_bases.push_back(rtb);
             }
         }
     }
 
-    // At this point bases may contain duplicates, and also indirect
-    // bases. Clean that up.
-
-    std::size_t mark = ++class_mark;
+    // At this point bases may contain duplicates, and some of the indirect
+    // bases may be missing: a class and its bases can be registered in any
+    // order. Now that all the registrations have been processed, collect all
+    // the bases, direct and indirect, exactly once.
 
     for (auto& rtc : classes) {
         decltype(rtc.transitive_bases) bases;
-        mark = ++class_mark;
+        bases.swap(rtc.transitive_bases);
+        rtc.mark = ++class_mark;
 
-        for (auto rtb : rtc.transitive_bases) {
-            if (rtb->mark != mark) {
-                bases.push_back(rtb);
-                rtb->mark = mark;
-            }
+        for (auto rtb : bases) {
+            collect_transitive_bases(&rtc, rtb);
         }
-
-        rtc.transitive_bases.swap(bases);
     }
 
+    std::size_t mark = class_mark;
+
     for (auto& rtc : classes) {
         // Sort base classes by number of transitive bases. This ensures that a
         // base class is never preceded by one if its own base classes.
-- 
2.43.0


From 3f38fc06b00892be84d05ffe123dec0add442649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 02/27] fix: remove all the dominated overriders, in any order

---
 include/boost/openmethod/initialize.hpp | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 76b2ce2..3d10bcd 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1420,18 +1420,31 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
+    // "Is more specific" is not transitive in presence of multiple inheritance.
+    // Find all the dominated overriders before removing any of them, otherwise
+    // the result depends on the order of the candidates.
+    std::vector<bool> dominated(candidates.size());
+    bool all_dominated = true;
+
     for (size_t i = 0; i < candidates.size(); ++i) {
         if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
+            for (size_t j = 0; j < candidates.size(); ++j) {
+                if (j != i && candidates[j] &&
+                    is_more_specific(candidates[j], candidates[i])) {
+                    dominated[i] = true;
+                    break;
                 }
             }
+
+            all_dominated = all_dominated && dominated[i];
+        }
+    }
+
+    for (size_t i = 0; i < candidates.size(); ++i) {
+        // If all the candidates dominate each other, in a circle, none of them
+        // is better than the others.
+        if (dominated[i] && !all_dominated) {
+            candidates[i] = nullptr;
         }
 
         if (candidates[i]) {
-- 
2.43.0


From 535dbbd9dc4c3fdcbb78e32465f6ff7bef23dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 03/27] fix: n2216: do not use a discarded overrider

---
 include/boost/openmethod/initialize.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 3d10bcd..ff7ab93 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1470,9 +1470,15 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
                     if (candidates[j]) {
                         BOOST_ASSERT(candidates[i] != candidates[j]);
 
+                        if (candidates[i]->covariant_return_type ==
+                            candidates[j]->covariant_return_type) {
+                            continue;
+                        }
+
                         if (candidates[i]->covariant_return_type->is_base_of(
                                 candidates[j]->covariant_return_type)) {
                             candidates[i] = nullptr;
+                            break; // this one is dead
                         } else if (candidates[j]
                                        ->covariant_return_type->is_base_of(
                                            candidates[i]
-- 
2.43.0


From 01db0fc1550b4765d72097bb1dbdbc85d0303765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 04/27] fix: missing_base: do not swap base and derived

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index ff7ab93..4ad3dc5 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -839,8 +839,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From 8f4498f48409f059cb11846b5fa50828cf46fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 05/27] fix: report only the virtual arguments of a bad call

---
 include/boost/openmethod/core.hpp | 50 ++++++++++++++-----------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..d18b0c9 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1967,35 +1967,31 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
+template<class Method, class Rtti, typename... Parameters>
 struct init_bad_call {
-    template<typename Arg, typename... Args>
-    static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
-
-        type_id arg_type_id;
+    template<typename... Args>
+    static auto fn(bad_call& error, const Args&... args) -> void {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = 0;
+        (add_type<Parameters>(error, args), ...);
+    }
+
+    // Only the virtual arguments are reported.
+    template<typename Parameter, typename Arg>
+    static auto add_type(bad_call& error, const Arg& arg) -> void {
+        if constexpr (is_virtual<Parameter>::value) {
+            if (error.arity < bad_call::max_types) {
+                if constexpr (is_virtual_ptr<Arg>) {
+                    error.types[error.arity] = Rtti::dynamic_type(*arg);
+                } else {
+                    error.types[error.arity] = Rtti::dynamic_type(arg);
+                }
+            }
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
+            ++error.arity;
         } else {
-            arg_type_id = Rtti::dynamic_type(arg);
+            (void)arg;
         }
-
-        error.types[Index] = arg_type_id;
-
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
-    }
-
-    static auto fn(bad_call&) {
-    }
-};
-
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
     }
 };
 
@@ -2586,7 +2582,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, Parameters...>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2604,7 +2600,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, Parameters...>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 59af0854ddc020a3780106386b0db2346ca66444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 06/27] fix: fast_perfect_hash: no trace when tracing is off

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..a272933 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -170,8 +170,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From 10ed4146c9f98266ed6a3b3909db3010ac7d864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 07/27] fix: initialize: do not ignore options passed as
 lvalues

---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 4ad3dc5..0e68f2b 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1637,7 +1637,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From 648d737f27f84297f41f354388340a1b3bf29b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 08/27] fix: registry::with: do not duplicate a policy that is
 already there

---
 include/boost/openmethod/preamble.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/preamble.hpp b/include/boost/openmethod/preamble.hpp
index 39b82c6..9c22d08 100644
--- a/include/boost/openmethod/preamble.hpp
+++ b/include/boost/openmethod/preamble.hpp
@@ -831,14 +831,12 @@ struct with_aux<Policies> {
 
 template<class Policies, class Policy, class... MorePolicies>
 struct with_aux<Policies, Policy, MorePolicies...> {
-    using replace = mp11::mp_replace_if_q<
-        Policies,
-        mp11::mp_bind_front_q<
-            mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>,
-        Policy>;
+    using same_category = mp11::mp_bind_front_q<
+        mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>;
     using replace_or_add = std::conditional_t<
-        std::is_same_v<replace, Policies>, mp11::mp_push_back<Policies, Policy>,
-        replace>;
+        mp11::mp_any_of_q<Policies, same_category>::value,
+        mp11::mp_replace_if_q<Policies, same_category, Policy>,
+        mp11::mp_push_back<Policies, Policy>>;
     using type = typename with_aux<replace_or_add, MorePolicies...>::type;
 };
 
-- 
2.43.0


From 8ad30f0301d10c92276ffa34e0e8d0c57e996032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 09/27] fix: dispatch on virtual parameters that follow a
 non-virtual one

---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index d18b0c9..773b746 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2543,13 +2543,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From 77b4ed569e1b499bdb3428800b50d208285bd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 10/27] fix: virtual_ptr assignment: leave both pointers alone
 if there is an error

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 773b746..67084d6 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +978,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From bb175077a83c08e037097daf1296a510ec559570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 11/27] fix: assign a null smart pointer to a virtual_ptr

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 67084d6..2885284 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1518,9 +1518,9 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From 843d622afcad6c6f3ba6e545f5f2325ac8ec69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 12/27] fix: initialize: no null v-table pointers in programs
 without methods

---
 include/boost/openmethod/initialize.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 0e68f2b..c5f5aba 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1302,7 +1302,10 @@ void registry<Policies...>::compiler<Options...>::write_global_data() {
         classes.begin(), classes.end(), dispatch_data_size,
         [](auto sum, const auto& cls) { return sum + cls.vtbl.size(); });
 
-    std::vector<detail::word> new_dispatch_data(dispatch_data_size);
+    // Always allocate: v-table pointers must not be null, even if there are no
+    // methods.
+    std::vector<detail::word> new_dispatch_data(
+        (std::max)(dispatch_data_size, std::size_t(1)));
     auto gv_first = new_dispatch_data.data();
     [[maybe_unused]] auto gv_last = gv_first + dispatch_data_size;
     auto gv_iter = gv_first;
-- 
2.43.0


From 339826b571bcb68d34107e310325d44ddcf3815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 13/27] fix: inplace_vptr: do not copy the v-table pointer of
 another object

---
 include/boost/openmethod/inplace_vptr.hpp | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..141af58 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -150,6 +150,17 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    //!
+    //! The vptr depends on the class of the object, it is never copied.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto operator=(const inplace_vptr_base&) noexcept -> inplace_vptr_base& {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -224,6 +235,14 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    auto
+    operator=(const inplace_vptr_derived&) -> inplace_vptr_derived& = default;
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -260,6 +279,14 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    auto
+    operator=(const inplace_vptr_derived&) -> inplace_vptr_derived& = default;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From 6c7ae9b1fa99b4f2346ea63dc903db0d24b8e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 14/27] fix: inplace_vptr: virtual_ptr to a temporary if vptrs
 are indirect

---
 include/boost/openmethod/core.hpp         |  4 ++--
 include/boost/openmethod/inplace_vptr.hpp | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 2885284..3480373 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -521,8 +521,8 @@ constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
 constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
+    std::decay_t<decltype(boost_openmethod_vptr(
+        std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
 template<class Registry, class ArgType>
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 141af58..fa31f2a 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -56,6 +56,12 @@ inline use_classes<Classes...> inplace_vptr_use_classes;
 
 class inplace_vptr_base_tag {};
 
+// If vptrs are indirect, return a reference to the static vptr: virtual_ptrs
+// take its address.
+template<class Registry>
+using inplace_vptr_result = std::conditional_t<
+    Registry::has_indirect_vptr, const vptr_type&, vptr_type>;
+
 } // namespace detail
 
 //! Embed a v-table pointer in a class.
@@ -134,8 +140,8 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
     std::conditional_t<Registry::has_indirect_vptr, const vptr_type*, vptr_type>
         boost_openmethod_vptr = nullptr;
 
-    friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    friend auto boost_openmethod_vptr(const Class& obj, Registry*) noexcept
+        -> detail::inplace_vptr_result<Registry> {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -266,7 +272,8 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
         const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        detail::inplace_vptr_registry<Base1>* registry)
+        -> detail::inplace_vptr_result<detail::inplace_vptr_registry<Base1>> {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From ab0e768d1c02ed07e715b2d2d961a5abdbf3e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 15/27] fix: methods with rvalue reference non-virtual
 parameters do not compile

---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 3480373..2245da2 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2007,7 +2007,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From e6bfbe141b4eab02f1700c4aef74d20caecd1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 16/27] fix: cast virtual pointer parameters with the rtti
 policy, as documented

---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 2245da2..643d560 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -331,7 +331,8 @@ struct virtual_traits<Class*, Registry> {
         static_assert(std::is_pointer_v<Derived>);
 
         if constexpr (detail::requires_dynamic_cast<Class*, Derived>) {
-            return dynamic_cast<Derived>(ptr);
+            return &Registry::rtti::template dynamic_cast_ref<
+                std::remove_pointer_t<Derived>&>(*ptr);
         } else {
             return static_cast<Derived>(ptr);
         }
-- 
2.43.0


From 8c4d5a5ef25631c697b1ca1a2f70bf8190a236cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 17/27] fix: do not require dynamic casts of smart pointers
 when not needed

---
 include/boost/openmethod/interop/std_shared_ptr.hpp | 5 ++++-
 include/boost/openmethod/interop/std_unique_ptr.hpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/interop/std_shared_ptr.hpp b/include/boost/openmethod/interop/std_shared_ptr.hpp
index d0ac4f9..9da5901 100644
--- a/include/boost/openmethod/interop/std_shared_ptr.hpp
+++ b/include/boost/openmethod/interop/std_shared_ptr.hpp
@@ -174,7 +174,10 @@ struct virtual_traits<const std::shared_ptr<Class>&, Registry> {
         } else {
             using namespace boost::openmethod::detail;
 
-            if constexpr (requires_dynamic_cast<Class*, Other>) {
+            if constexpr (requires_dynamic_cast<
+                              Class*,
+                              typename shared_ptr_cast_traits<
+                                  Other>::virtual_type*>) {
                 return std::dynamic_pointer_cast<
                     typename shared_ptr_cast_traits<Other>::virtual_type>(obj);
             } else {
diff --git a/include/boost/openmethod/interop/std_unique_ptr.hpp b/include/boost/openmethod/interop/std_unique_ptr.hpp
index bcda19f..bc0be82 100644
--- a/include/boost/openmethod/interop/std_unique_ptr.hpp
+++ b/include/boost/openmethod/interop/std_unique_ptr.hpp
@@ -40,7 +40,8 @@ struct virtual_traits<std::unique_ptr<Class>, Registry> {
     //! @return A `std::unique_ptr<Derived::element_type>`.
     template<typename Derived>
     static auto cast(std::unique_ptr<Class>&& ptr) {
-        if constexpr (detail::requires_dynamic_cast<Class&, Derived&>) {
+        if constexpr (detail::requires_dynamic_cast<
+                          Class&, typename Derived::element_type&>) {
             auto p = &Registry::rtti::template dynamic_cast_ref<
                 typename Derived::element_type&>(*ptr);
             // coverity[alloc_fn]
-- 
2.43.0


From 8e155cd776223ab72e0cd2849cdd95bc22cb781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 18/27] fix: override a const virtual_ptr& parameter with the
 same type

---
 include/boost/openmethod/core.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 643d560..46c01f3 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2668,6 +2668,15 @@ template<class T, class R>
 struct validate_overrider_parameter<virtual_ptr<T, R>, virtual_ptr<T, R>, void>
     : std::true_type {};
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void> : std::true_type {
+};
+
+template<class T, class R>
+struct validate_overrider_parameter<
+    virtual_ptr<T, R>&&, virtual_ptr<T, R>&&, void> : std::true_type {};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     virtual_ptr<T1, R>, virtual_ptr<T2, R2>, void> : std::true_type {
-- 
2.43.0


From 451a7217e776d1a92975692598d54533c4dd6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 19/27] fix: fast_perfect_hash: report the buckets of the last
 attempt

M has been incremented past the last attempt at this point, so
search_error::buckets was twice the number of buckets that were used.
---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index a272933..e17db9c 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -237,7 +237,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     search_error error;
     error.attempts = total_attempts;
-    error.buckets = std::size_t(1) << M;
+    error.buckets = buckets.size();
 
     if constexpr (Registry::has_error_handler) {
         Registry::error_handler::error(error);
-- 
2.43.0


From 3c36c8a37369218dd08174451b2ae27bdfa2d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 20/27] fix: trace output to streams that do not accept
 function pointers

LightweightOutputStream only requires operators for strings, pointers to
const void and sizes.
---
 include/boost/openmethod/initialize.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index c5f5aba..cb0b781 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -322,7 +322,13 @@ template<class Compiler, typename T>
 auto operator<<(trace_stream<Compiler>& tr, const T& value) -> auto& {
     if constexpr (Compiler::has_trace) {
         if (tr.on) {
-            Compiler::Registry::output::os << value;
+            if constexpr (std::is_same_v<T, void (*)()>) {
+                // LightweightOutputStream does not support function pointers
+                Compiler::Registry::output::os
+                    << reinterpret_cast<const void*>(value);
+            } else {
+                Compiler::Registry::output::os << value;
+            }
         }
     }
     return tr;
-- 
2.43.0


From 5014179510850f5c861319c066c05c73b09eef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 21/27] fix: final_virtual_ptr: accept lvalues of smart
 pointers

---
 include/boost/openmethod/core.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 46c01f3..46c67ed 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -583,8 +583,14 @@ inline vptr_type null_vptr = nullptr;
 template<class Registry, typename Arg>
 inline auto final_virtual_ptr(Arg&& obj) {
     using namespace detail;
-    using VirtualPtr = virtual_ptr<std::remove_reference_t<Arg>, Registry>;
-    using Traits = virtual_traits<Arg, Registry>;
+    using Value = std::remove_cv_t<std::remove_reference_t<Arg>>;
+    // A smart pointer is copied or moved, whatever its value category.
+    constexpr bool is_smart_ptr = IsSmartPtr<Value, Registry>;
+    using VirtualPtr = virtual_ptr<
+        std::conditional_t<is_smart_ptr, Value, std::remove_reference_t<Arg>>,
+        Registry>;
+    using Traits =
+        virtual_traits<std::conditional_t<is_smart_ptr, Value, Arg>, Registry>;
     using Class = typename Traits::virtual_type;
 
     static_assert(!std::is_const_v<Class>);
@@ -1171,12 +1177,6 @@ class virtual_ptr<
     std::conditional_t<use_indirect_vptrs, const vptr_type*, vptr_type> vp;
     SmartPtr obj;
 
-    template<
-        class Other,
-        typename = std::enable_if_t<std::is_constructible_v<SmartPtr*, Other*>>>
-    virtual_ptr(Other& other, decltype(vp) vp) : vp(vp), obj(&other) {
-    }
-
     template<typename Arg>
     virtual_ptr(Arg&& obj, decltype(vp) vp)
         : vp(vp), obj(std::forward<Arg>(obj)) {
-- 
2.43.0


From 7cff1571e1ffc80254bcee43f0a031a7d5f4f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 22/27] fix: make virtual_ptr to a non-polymorphic class from a
 pointer to a polymorphic one

---
 include/boost/openmethod/core.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 46c67ed..86c2eab 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -818,10 +818,9 @@ class virtual_ptr {
     //! @li @ref missing_class
     template<
         class Other,
-        typename = std::enable_if_t<
-            BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
-                IsPolymorphic<Class, Registry> &&
-            std::is_constructible_v<Class*, Other*>>>
+        typename = std::enable_if_t<std::is_constructible_v<Class*, Other*>>,
+        typename = std::enable_if_t<BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
+                                        IsPolymorphic<Other, Registry>>>
     virtual_ptr(Other* other)
         : vp(detail::box_vptr<use_indirect_vptrs>(
               detail::acquire_vptr<Registry>(*other))),
@@ -980,10 +979,9 @@ class virtual_ptr {
     //! @li @ref missing_class
     template<
         class Other,
-        typename = std::enable_if_t<
-            BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
-                IsPolymorphic<Class, Registry> &&
-            std::is_assignable_v<Class*&, Other*>>>
+        typename = std::enable_if_t<std::is_assignable_v<Class*&, Other*>>,
+        typename = std::enable_if_t<BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
+                                        IsPolymorphic<Other, Registry>>>
     virtual_ptr& operator=(Other* other) {
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
-- 
2.43.0


From edbfd4698304079c395b4c05cf97c8544d4c6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 23/27] fix: reject const virtual_ptr& parameters that use
 another registry than the method

---
 include/boost/openmethod/core.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 86c2eab..219984d 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2055,6 +2055,18 @@ struct validate_method_parameter<
     static_assert(
         false_t<Class, Registry, MethodRegistry>, "registry mismatch");
 };
+
+template<class Class, class Registry>
+struct validate_method_parameter<
+    const virtual_ptr<Class, Registry>&, Registry, void> : std::true_type {};
+
+template<class Class, class Registry, class MethodRegistry>
+struct validate_method_parameter<
+    const virtual_ptr<Class, Registry>&, MethodRegistry, void>
+    : std::false_type {
+    static_assert(
+        false_t<Class, Registry, MethodRegistry>, "registry mismatch");
+};
 } // namespace detail
 
 //! Implement a method
-- 
2.43.0


From 2ca3da630fd1caf1b3681e6544c8b6502b0d2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 24/27] fix: final_virtual_ptr: compare classes by type_index,
 a class may have several type ids

---
 include/boost/openmethod/core.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 219984d..5d59f82 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -608,7 +608,9 @@ inline auto final_virtual_ptr(Arg&& obj) {
         auto static_type = Registry::rtti::template static_type<Class>();
         auto dynamic_type = Registry::rtti::dynamic_type(Traits::peek(obj));
 
-        if (dynamic_type != static_type) {
+        // a class may have several type ids
+        if (!(Registry::rtti::type_index(dynamic_type) ==
+              Registry::rtti::type_index(static_type))) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 final_error error;
                 error.static_type = static_type;
-- 
2.43.0


From ffa79f81adfc724b4a7d11689060a3fb96a5375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 25/27] fix: errors and final_virtual_ptr: do not require the
 optional dynamic_type

---
 include/boost/openmethod/core.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 5d59f82..5dc93bc 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -526,6 +526,19 @@ constexpr bool has_vptr_fn = std::is_same_v<
         std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
+// 'dynamic_type' is optional in rtti policies
+template<class Rtti, class Class, typename = void>
+struct has_dynamic_type_aux : std::false_type {};
+
+template<class Rtti, class Class>
+struct has_dynamic_type_aux<
+    Rtti, Class,
+    std::void_t<decltype(Rtti::dynamic_type(std::declval<const Class&>()))>>
+    : std::true_type {};
+
+template<class Rtti, class Class>
+constexpr bool has_dynamic_type = has_dynamic_type_aux<Rtti, Class>::value;
+
 template<class Registry, class ArgType>
 decltype(auto) acquire_vptr(const ArgType& arg) {
     Registry::require_initialized();
@@ -602,7 +615,8 @@ inline auto final_virtual_ptr(Arg&& obj) {
 
     if constexpr (
         Registry::has_runtime_checks &&
-        Registry::rtti::template is_polymorphic<Class>) {
+        Registry::rtti::template is_polymorphic<Class> &&
+        has_dynamic_type<typename Registry::rtti, Class>) {
 
         // check that dynamic type == static type
         auto static_type = Registry::rtti::template static_type<Class>();
@@ -1983,9 +1997,9 @@ struct init_bad_call {
         if constexpr (is_virtual<Parameter>::value) {
             if (error.arity < bad_call::max_types) {
                 if constexpr (is_virtual_ptr<Arg>) {
-                    error.types[error.arity] = Rtti::dynamic_type(*arg);
+                    error.types[error.arity] = dynamic_type(*arg);
                 } else {
-                    error.types[error.arity] = Rtti::dynamic_type(arg);
+                    error.types[error.arity] = dynamic_type(arg);
                 }
             }
 
@@ -1994,6 +2008,16 @@ struct init_bad_call {
             (void)arg;
         }
     }
+
+    template<class Class>
+    static auto dynamic_type(const Class& obj) -> type_id {
+        if constexpr (has_dynamic_type<Rtti, Class>) {
+            return Rtti::dynamic_type(obj);
+        } else {
+            (void)obj;
+            return nullptr;
+        }
+    }
 };
 
 template<class Registry>
-- 
2.43.0


From 458709b4dc86310ffd63d840c8d6f1f4a10d18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 26/27] fix: fast_perfect_hash.hpp: include what it uses

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e17db9c..efebfd8 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -6,10 +6,19 @@
 #ifndef BOOST_OPENMETHOD_POLICY_FAST_PERFECT_HASH_HPP
 #define BOOST_OPENMETHOD_POLICY_FAST_PERFECT_HASH_HPP
 
+#include <boost/config.hpp>
+
 #include <boost/openmethod/preamble.hpp>
 
+#include <cstdint>
+#include <iterator>
 #include <limits>
 #include <random>
+#include <tuple>
+#include <utility>
+#include <variant>
+#include <vector>
+
 #ifdef _MSC_VER
 #pragma warning(push)
 #pragma warning(disable : 4702) // unreachable code
-- 
2.43.0


From 17d56a53b203573972cc53b46adbd54189e57d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 27/27] fix: intrusive_ptr arguments: never cast to another
 kind of smart pointer

---
 include/boost/openmethod/interop/boost_intrusive_ptr.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/openmethod/interop/boost_intrusive_ptr.hpp b/include/boost/openmethod/interop/boost_intrusive_ptr.hpp
index 5ab6829..8f9e906 100644
--- a/include/boost/openmethod/interop/boost_intrusive_ptr.hpp
+++ b/include/boost/openmethod/interop/boost_intrusive_ptr.hpp
@@ -49,7 +49,7 @@ struct virtual_traits<boost::intrusive_ptr<Class>, Registry> {
 
         if constexpr (detail::requires_dynamic_cast<Class*, element_type*>) {
             // make it work with custom RTTI
-            return OverriderType(
+            return boost::intrusive_ptr<element_type>(
                 &Registry::rtti::template dynamic_cast_ref<element_type&>(
                     *obj));
         } else {
@@ -102,8 +102,7 @@ struct virtual_traits<const boost::intrusive_ptr<Class>&, Registry> {
             if constexpr (detail::requires_dynamic_cast<
                               Class*, element_type*>) {
                 // make it work with custom RTTI
-                return std::remove_const_t<
-                    std::remove_reference_t<OverriderType>>(
+                return boost::intrusive_ptr<element_type>(
                     &Registry::rtti::template dynamic_cast_ref<element_type&>(
                         *obj));
             } else {
-- 
2.43.0

