From d5075032d5d0b8858cb7f2b23d9ba3c590500b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 01/11] fix: end the enumeration of subsets of size 0

GospersHack::operator++() mapped the empty set to itself, so that enumerating all subsets of size 0 (and
SubsetEnumerator with size 0) yielded the empty set forever.
---
 include/mutable/util/ADT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 6dc3ed0..dfb447c 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -858,6 +858,10 @@ struct GospersHack
     /** Advance to the next subset. */
     GospersHack & operator++() {
         const uint64_t s(set_);
+        if (s == 0) [[unlikely]] { // the empty set is the only subset of size 0
+            set_ = SmallBitset(limit_);
+            return *this;
+        }
 #ifdef __BMI__
         const uint64_t c = _blsi_u64(s); // BMI1: extract lowest set isolated bit -> c is a power of 2
 #else
-- 
2.43.0


From 56cd5fca213f34ff45342f0d13a3eabfab4941d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 02/11] fix: do not compute with the value of NULL operands

---
 src/backend/StackMachine.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..d6cff27 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1212,19 +1212,24 @@ NEXT;
 
 #define UNARY(OP, TYPE) { \
     M_insist(top_ >= 1); \
-    TYPE val = TOP.as<TYPE>(); \
-    TOP = OP(val); \
+    if (not TOP_IS_NULL) { /* NULL remains NULL, it has no value to compute with */ \
+        TYPE val = TOP.as<TYPE>(); \
+        TOP = OP(val); \
+    } \
 } \
 NEXT;
 
 #define BINARY(OP, TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
+    Value rhs_val = TOP; \
     bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
-    TYPE lhs = TOP.as<TYPE>(); \
-    TOP = OP(lhs, rhs); \
     TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (not TOP_IS_NULL) { /* a NULL operand has no value to compute with */ \
+        TYPE rhs = rhs_val.as<TYPE>(); \
+        TYPE lhs = TOP.as<TYPE>(); \
+        TOP = OP(lhs, rhs); \
+    } \
 } \
 NEXT;
 
@@ -1360,11 +1365,11 @@ Not_b: UNARY(not, bool);
 /* Logical and with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 And_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>();
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>();
     TOP = lhs and rhs;
     TOP_IS_NULL = (lhs or is_lhs_null) and (rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1373,11 +1378,11 @@ NEXT;
 /* Logical or with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 Or_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>();
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>();
     TOP = lhs or rhs;
     TOP_IS_NULL = (not lhs or is_lhs_null) and (not rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1436,13 +1441,15 @@ GE_s: BINARY(0 <= strcmp, char*);
 
 #define CMP(TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
+    Value rhs_val = TOP; \
     bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
-    TYPE lhs = TOP.as<TYPE>(); \
-    bool is_lhs_null = TOP_IS_NULL; \
-    TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
-    TOP_IS_NULL = is_lhs_null or is_rhs_null; \
+    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (not TOP_IS_NULL) { /* a NULL operand has no value to compare */ \
+        TYPE rhs = rhs_val.as<TYPE>(); \
+        TYPE lhs = TOP.as<TYPE>(); \
+        TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
+    } \
 } \
 NEXT;
 
-- 
2.43.0


From d1c3a752f5eb6bffad920caaa1c1f2b69a57509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 03/11] fix: keep NULL when cloning tuples, and sort by NULL
 keys

---
 src/IR/Tuple.cpp            |  1 +
 src/backend/Interpreter.cpp | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..4c8ad00 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,6 +125,7 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
+        if (is_null(i)) continue; // all attributes of `cpy` are initially NULL
         if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..ec9ad11 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1593,7 +1593,22 @@ void Interpreter::operator()(const SortingOperator &op)
     const auto &orderings = op.order_by();
 
     StackMachine comparator(data->pipeline.schema());
+    const auto zero = comparator.add(int64_t(0));
     for (auto o : orderings) {
+        /* Sort NULL before all other values, regardless of the sort direction. */
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit(o.first.get(), 2); // RHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cmp_b();
+        comparator.emit_Minus_i();
+        comparator.emit_St_Tup_i(0, 0);
+        comparator.emit_Stop_NZ();
+
+        /* Either both sides are NULL, and hence equal, or none is. */
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit_Ld_Ctx(zero);
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1624,6 +1639,7 @@ void Interpreter::operator()(const SortingOperator &op)
 
         if (not o.second)
             comparator.emit_Minus_i(); // sort descending
+        comparator.emit_Sel();
         comparator.emit_St_Tup_i(0, 0);
         comparator.emit_Stop_NZ();
     }
-- 
2.43.0


From 342070a17e93662667a3c226eb339dc78b69e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 04/11] fix: refill the block of joined tuples after it was
 consumed

---
 src/backend/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index ec9ad11..5a8b63e 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1009,6 +1009,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the parent may have dropped tuples
                         i = 0;
                     }
 
-- 
2.43.0


From 104310d8a826496abc93ee6a951ccb8c5ba8003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 05/11] fix: hash and compare join and grouping keys by value,
 and do not join on NULL

---
 src/backend/Interpreter.cpp | 94 ++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 5a8b63e..239b24e 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -603,6 +603,48 @@ struct ProjectionData : OperatorData
     }
 };
 
+/** Callable to compute the hash of the first `key_size` attributes of a tuple, as described by `schema`. */
+struct KeyHash
+{
+    const Schema &schema;
+    std::size_t key_size;
+
+    KeyHash(const Schema &schema, std::size_t key_size) : schema(schema), key_size(key_size) { }
+
+    uint64_t operator()(const Tuple &tup) const {
+        std::hash<Value> h;
+        uint64_t hash = 0xcbf29ce484222325;
+        for (std::size_t i = 0; i != key_size; ++i) {
+            if (not tup.is_null(i))
+                hash ^= schema[i].type->is_character_sequence() ? FNV1a(tup[i].as<const char*>()) : h(tup[i]);
+            hash *= 1099511628211;
+        }
+        return hash;
+    }
+};
+
+/** Callable to compare two tuples by their first `key_size` attributes, as described by `schema`. */
+struct KeyEqual
+{
+    const Schema &schema;
+    std::size_t key_size;
+
+    KeyEqual(const Schema &schema, std::size_t key_size) : schema(schema), key_size(key_size) { }
+
+    bool operator()(const Tuple &first, const Tuple &second) const {
+        for (std::size_t i = 0; i != key_size; ++i) {
+            if (first.is_null(i) != second.is_null(i)) return false;
+            if (first.is_null(i)) continue;
+            if (schema[i].type->is_character_sequence()) {
+                if (not streq(first.get(i).as<const char*>(), second.get(i).as<const char*>())) return false;
+            } else {
+                if (first.get(i) != second.get(i)) return false;
+            }
+        }
+        return true;
+    }
+};
+
 struct JoinData : OperatorData
 {
     Pipeline pipeline;
@@ -649,14 +691,14 @@ struct SimpleHashJoinData : JoinData
     std::vector<std::pair<const ast::Expr*, const ast::Expr*>> exprs;
     StackMachine build_key; ///< extracts the key of the build input
     StackMachine probe_key; ///< extracts the key of the probe input
-    RefCountingHashMap<Tuple, Tuple> ht; ///< hash table on build input
 
     Schema key_schema; ///< the `Schema` of the `key`
+    RefCountingHashMap<Tuple, Tuple, KeyHash, KeyEqual> ht; ///< hash table on build input
     Tuple key; ///< `Tuple` to hold the key
 
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
-        , ht(1024)
+        , ht(1024, KeyHash(key_schema, op.predicate().size()), KeyEqual(key_schema, op.predicate().size()))
     {
         auto &schema_lhs = op.child(0)->schema();
 #ifndef NDEBUG
@@ -704,6 +746,13 @@ struct SimpleHashJoinData : JoinData
         key = Tuple(key_schema);
     }
 
+    /** Returns `true` iff an attribute of the current `key` is `NULL`, in which case the key has no join partner. */
+    bool key_has_null() const {
+        for (std::size_t i = 0; i != key_schema.num_entries(); ++i)
+            if (key.is_null(i)) return true;
+        return false;
+    }
+
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
@@ -803,48 +852,13 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** Callable to compute the hash of the keys of a tuple. */
-    struct hasher
-    {
-        std::size_t key_size;
-
-        hasher(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &tup) const {
-            std::hash<Value> h;
-            uint64_t hash = 0xcbf29ce484222325;
-            for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
-                hash *= 1099511628211;
-            }
-            return hash;
-        }
-    };
-
-    /** Callable to compare two tuples by their keys. */
-    struct equals
-    {
-        std::size_t key_size;
-
-        equals(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &first, const Tuple &second) const {
-            for (std::size_t i = 0; i != key_size; ++i) {
-                if (first.is_null(i) != second.is_null(i)) return false;
-                if (not first.is_null(i))
-                    if (first.get(i) != second.get(i)) return false;
-            }
-            return true;
-        }
-    };
-
     /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
      * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    std::unordered_map<Tuple, unsigned, KeyHash, KeyEqual> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, KeyHash(op.schema(), op.group_by().size()), KeyEqual(op.schema(), op.group_by().size()))
     { }
 };
 
@@ -1005,6 +1019,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->key_has_null()) continue;
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
@@ -1039,6 +1054,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->key_has_null()) continue;
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
-- 
2.43.0


From 69c9400820b4b56b53c8e8ff6c8558bfd44f1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 06/11] fix: AVG divides by the number of values that are not
 NULL

---
 src/backend/Interpreter.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 239b24e..c690362 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -820,6 +820,7 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<uint64_t> num_values; ///< the number of values, that are not NULL, seen so far per aggregate
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
@@ -829,9 +830,8 @@ struct AggregationData : OperatorData
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
+        num_values.resize(op.aggregates().size(), 0);
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -852,9 +852,9 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, KeyHash, KeyEqual> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, for
+     * each aggregate, the count of values that are not NULL and belong to this group. */
+    std::unordered_map<Tuple, std::vector<uint64_t>, KeyHash, KeyEqual> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1199,7 +1199,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
+        auto &num_values = entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1257,7 +1257,7 @@ void Pipeline::operator()(const GroupingOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++num_values[i];
                     break;
                 }
 
@@ -1312,7 +1312,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<uint64_t>(op.aggregates().size(), 0));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1322,10 +1322,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1367,7 +1365,7 @@ void Pipeline::operator()(const AggregationOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++data->num_values[i];
                     break;
                 }
 
-- 
2.43.0


From 4cf2da1bea8f5f0479477dd2c62242efb8eee9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 07/11] fix: limit without overflow of offset + limit

---
 src/backend/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index c690362..7c2c5a1 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1179,7 +1179,7 @@ void Pipeline::operator()(const LimitOperator &op)
     auto data = as<LimitData>(op.data());
 
     for (auto it = block_.begin(); it != block_.end(); ++it) {
-        if (data->num_tuples < op.offset() or data->num_tuples >= op.offset() + op.limit())
+        if (data->num_tuples < op.offset() or data->num_tuples - op.offset() >= op.limit())
             block_.erase(it); /* discard this tuple */
         ++data->num_tuples;
     }
@@ -1187,7 +1187,7 @@ void Pipeline::operator()(const LimitOperator &op)
     if (not block_.empty())
         op.parent()->accept(*this);
 
-    if (data->num_tuples >= op.offset() + op.limit())
+    if (data->num_tuples >= op.offset() and data->num_tuples - op.offset() >= op.limit())
         throw LimitOperator::stack_unwind(); // all tuples produced, now unwind the stack
 }
 
-- 
2.43.0


From 723e0ef59edef9a55eecd8e3573b11ca1faeeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 08/11] fix: COUNT of non-numeric arguments; grouped SUM and
 AVG keep the casted argument

---
 src/backend/Interpreter.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7c2c5a1..87f6cab 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -805,10 +805,12 @@ struct GroupingData : OperatorData
             StackMachine sm(op.child(0)->schema());
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
+                /* COUNT only tests its argument for NULL.  All other functions compute with the type of the aggregate. */
+                const Type *ty = fe.get_function().fnid == Function::FN_COUNT ? arg->type() : agg.get().type();
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, arg->type());
-                arg_types.push_back(arg->type());
+                sm.emit_Cast(ty, arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                sm.emit_St_Tup(0, arg_idx++, ty); // store casted argument of aggregate type to tuple
+                arg_types.push_back(ty);
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
@@ -839,10 +841,12 @@ struct AggregationData : OperatorData
             StackMachine sm(op.child(0)->schema());
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
+                /* COUNT only tests its argument for NULL.  All other functions compute with the type of the aggregate. */
+                const Type *ty = fe.get_function().fnid == Function::FN_COUNT ? arg->type() : agg.get().type();
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
-                arg_types.push_back(agg.get().type());
+                sm.emit_Cast(ty, arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                sm.emit_St_Tup(0, arg_idx++, ty); // store casted argument of aggregate type to tuple
+                arg_types.push_back(ty);
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
-- 
2.43.0


From 682e3ee2737f2b6cf5a8c9387769704ec7c3a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 09/11] fix: sorting an empty input

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 87f6cab..65d6335 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1605,7 +1605,7 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
+    auto data = cast<SortingData>(op.data());
     if (not data) // no tuples produced
         return;
 
-- 
2.43.0


From 64b42aec7e1f7361929185f09653441e8c85be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 10/11] fix: joins on operands of different types, or on
 negated !=, aborted or matched nothing

---
 src/backend/Interpreter.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 65d6335..ddb4f79 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -711,10 +711,10 @@ struct SimpleHashJoinData : JoinData
         for (auto &clause : pred) {
             M_insist(clause.size() == 1, "invalid predicate for simple hash join");
             auto &literal = clause[0];
-            M_insist(not literal.negative(), "invalid predicate for simple hash join");
             auto &expr = literal.expr();
             auto binary = as<const ast::BinaryExpr>(&expr);
-            M_insist(binary->tok == TK_EQUAL);
+            M_insist(binary->tok == (literal.negative() ? TK_BANG_EQUAL : TK_EQUAL),
+                     "invalid predicate for simple hash join");
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
@@ -1464,9 +1464,21 @@ void Interpreter::operator()(const DisjunctiveFilterOperator &op)
     op.child(0)->accept(*this);
 }
 
+/** Returns `true` iff `predicate` can be evaluated by the simple hash join: the operands of each comparison must be of the
+ * same type, as keys are compared by value without any conversion. */
+static bool supports_simple_hash_join(const cnf::CNF &predicate)
+{
+    if (not predicate.is_equi()) return false;
+    for (auto &clause : predicate) {
+        auto binary = as<const ast::BinaryExpr>(&clause[0].expr());
+        if (binary->lhs->type() != binary->rhs->type()) return false;
+    }
+    return true;
+}
+
 void Interpreter::operator()(const JoinOperator &op)
 {
-    if (op.predicate().is_equi()) {
+    if (supports_simple_hash_join(op.predicate())) {
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-- 
2.43.0


From 098b5d5d8a1f1e6f325d185c623685a528185255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:41 +0000
Subject: [PATCH 11/11] fix: RefCountingHashMap: begin() skips free entries,
 bucket_iterator's postfix ++ returns a value

---
 src/util/container/RefCountingHashMap.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index e8f1f12..cc4c535 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -125,7 +125,7 @@ struct RefCountingHashMap
             return *this;
         }
 
-        the_bucket_iterator & operator++(int) {
+        the_bucket_iterator operator++(int) {
             the_bucket_iterator tmp = *this;
             operator++();
             return tmp;
@@ -203,9 +203,17 @@ struct RefCountingHashMap
     }
     size_type watermark_high() const { return watermark_high_; }
 
-    iterator begin() { return iterator(*this, table_); }
+    iterator begin() {
+        iterator it(*this, table_);
+        if (table_->probe_length == 0) ++it; // advance to first occupied entry
+        return it;
+    }
     iterator end()   { return iterator(*this, table_ + capacity()); }
-    const_iterator begin() const { return const_iterator(*this, table_); }
+    const_iterator begin() const {
+        const_iterator it(*this, table_);
+        if (table_->probe_length == 0) ++it; // advance to first occupied entry
+        return it;
+    }
     const_iterator end()   const { return const_iterator(*this, table_ + capacity()); }
     const_iterator cbegin() const { return begin(); }
     const_iterator cend()   const { return end(); }
-- 
2.43.0

