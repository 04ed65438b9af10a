From a21ceba42fdba217605ddb2336b162309863e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 01/92] fix: wake the upgrading reader even if other writers
 are waiting

The reader waiting for its upgrade shares a condition variable with the waiting
writers.  Notifying only one of them may wake a writer that cannot proceed, and
the lock deadlocks.
---
 include/mutable/util/reader_writer_lock.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..5513632 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -208,9 +208,10 @@ class reader_writer_mutex
         M_insist(not rw_.reader_wants_upgrade() or rw_.writers_waiting() != 0,
                  "if a reader wants to upgrade, it must be waiting to claim the write lock");
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
-            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
+            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it.  Since other
+             * writers, that cannot proceed now, may be waiting as well, we must notify all to not miss the upgrader. */
             lock.unlock();
-            notify_writer();
+            cv_writers_.notify_all();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From adfb5e59913a2089565d2500df6d3995af19d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 02/92] fix: upgrade_lock::upgrade() must give up the read lock
 on failure

---
 include/mutable/util/reader_writer_lock.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 5513632..7d34e90 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -395,6 +395,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From 250064ba585e57a08bdb15a177fa11b23b129186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 03/92] fix: move assignment of reader_writer_lock must hand
 over ownership

---
 include/mutable/util/reader_writer_lock.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 7d34e90..8ad2e4c 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -262,7 +262,11 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        std::swap(rw_mutex_, other.rw_mutex_);
+        std::swap(state_, other.state_);
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From a0278e42450b9b4ba7f10002af604a62c9ac36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 04/92] fix: find the last queued command of a transaction in
 SerialScheduler

---
 src/catalog/SerialScheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..14d716e 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -48,15 +48,15 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
 
     /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
      * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
     if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
+    else if (it == command_list_.rend())
         command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From ec7fa3dd998ee232e1fe2cb3eaae8e68e9d1413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 05/92] fix: allow to commit or abort a transaction that never
 ran

---
 src/catalog/SerialScheduler.cpp | 3 ++-
 src/catalog/SerialScheduler.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 14d716e..d159534 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -82,7 +82,8 @@ bool SerialScheduler::CommandQueue::is_closed()
 
 void SerialScheduler::CommandQueue::stop_transaction(Transaction &t) {
     std::unique_lock<std::mutex> lock(mutex_);
-    M_insist(&t == running_transaction_);
+    /* A transaction of which no command was taken from the queue, e.g. because the queue was closed, never ran. */
+    if (not running_transaction_ or *running_transaction_ != t) return;
     running_transaction_ = nullptr;
     lock.unlock();
     has_element_.notify_one();
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index d2dcc55..a02f1a6 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -37,7 +37,7 @@ struct SerialScheduler : Scheduler
         void push(Transaction &t, std::unique_ptr<ast::Command> command, Diagnostic &diag, std::promise<bool> promise);
         void close();    ///< empties and closes the queue without executing the remaining `ast::Command`s.
         bool is_closed();  ///< signals waiting threads that no more elements will be pushed
-        void stop_transaction(Transaction &t); ///< Marks `t` as no longer running.
+        void stop_transaction(Transaction &t); ///< Marks `t` as no longer running, if it is.
     };
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
-- 
2.43.0


From 969dc3cc45c29a61f6e1f556f0f87894f68dde5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 06/92] fix: concurrent clients must not start the worker
 thread twice

---
 src/catalog/SerialScheduler.cpp | 5 ++---
 src/catalog/SerialScheduler.hpp | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index d159534..a015117 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -106,9 +106,8 @@ std::future<bool> SerialScheduler::schedule_command(Transaction &t, std::unique_
     auto execution_completed_future = execution_completed.get_future();
     query_queue_.push(t, std::move(command), diag, std::move(execution_completed));
 
-    if (not schedule_thread_.joinable()) [[unlikely]]
-        // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
-        schedule_thread_ = std::thread(schedule_thread);
+    // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
+    std::call_once(schedule_thread_started_, [this]{ schedule_thread_ = std::thread(schedule_thread); });
     return execution_completed_future;
 }
 
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index a02f1a6..f400d88 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -4,6 +4,7 @@
 #include <condition_variable>
 #include <list>
 #include <future>
+#include <mutex>
 #include <thread>
 
 
@@ -42,6 +43,7 @@ struct SerialScheduler : Scheduler
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
     std::thread schedule_thread_; ///< the worker thread that executes all incoming queries.
+    std::once_flag schedule_thread_started_; ///< guards the creation of `schedule_thread_` by concurrent clients
 
     static std::atomic<int64_t> next_start_time; ///< stores the next transaction start time
 
-- 
2.43.0


From 972cade3e684311ba458e86ac0a4dbb0e4876675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 07/92] fix: GospersHack terminates after enumerating the empty
 set

Advancing from the empty set yielded the empty set again, hence enumerating all
subsets of size 0 never ended.
---
 include/mutable/util/ADT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 6dc3ed0..8b26e29 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -858,6 +858,10 @@ struct GospersHack
     /** Advance to the next subset. */
     GospersHack & operator++() {
         const uint64_t s(set_);
+        if (s == 0) { // the empty set is the only subset of size 0
+            set_ = SmallBitset(limit_);
+            return *this;
+        }
 #ifdef __BMI__
         const uint64_t c = _blsi_u64(s); // BMI1: extract lowest set isolated bit -> c is a power of 2
 #else
-- 
2.43.0


From 7a033f2e7edbe105bc17759bdc9fc0989bd5e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 08/92] fix: beam search: do not access the front of an empty
 candidate list

---
 include/mutable/util/HeuristicSearch.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/mutable/util/HeuristicSearch.hpp b/include/mutable/util/HeuristicSearch.hpp
index 81aebd3..1b35e12 100644
--- a/include/mutable/util/HeuristicSearch.hpp
+++ b/include/mutable/util/HeuristicSearch.hpp
@@ -750,18 +750,21 @@ struct genericAStar
     /* Try to add the successor state `s` to the beam.  If the weight of `s` is already higher than the highest weight
      * in the beam, immediately bypass the beam. */
     void beam(state_type state, double h, Context&... context) {
+        if (candidates.size() < beam_width) {
+            /* There is still space in the candidates, so simply add the state to the heap. */
+            candidates.emplace_back(std::move(state), h);
+            if (candidates.size() == beam_width) // heapify when filled
+                std::make_heap(candidates.begin(), candidates.end());
+            return;
+        }
+
         auto &top = candidates.front();
 #ifndef NDEBUG
         M_insist(std::is_heap(candidates.begin(), candidates.end()), "candidates must always be a max-heap");
         for (auto &elem : candidates)
             M_insist(top >= elem, "the top candidate at the front must be no less than any other candidate");
 #endif
-        if (candidates.size() < beam_width) {
-            /* There is still space in the candidates, so simply add the state to the heap. */
-            candidates.emplace_back(std::move(state), h);
-            if (candidates.size() == beam_width) // heapify when filled
-                std::make_heap(candidates.begin(), candidates.end());
-        } else if (state.g() + h >= top.state.g() + top.h) {
+        if (state.g() + h >= top.state.g() + top.h) {
             /* The state has higher g+h than the top of the candidates heap, so bypass the candidates immediately. */
             state_manager_.push_regular_queue(std::move(state), h, context...);
         } else {
-- 
2.43.0


From 95a3d25c2c4e90f2bac0661483914f287595ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 09/92] fix: beam search: moving a state to the beam must not
 raise its cost

---
 include/mutable/util/HeuristicSearch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/HeuristicSearch.hpp b/include/mutable/util/HeuristicSearch.hpp
index 1b35e12..f09c808 100644
--- a/include/mutable/util/HeuristicSearch.hpp
+++ b/include/mutable/util/HeuristicSearch.hpp
@@ -362,9 +362,10 @@ struct StateManager
                     /*----- The state is in the regular queue and needs to be moved to the beam queue. -----*/
                     if constexpr (HasRegularQueue)
                         it->second.queue->erase(it->second.handle); // erase from regular queue
-                    if (state.g() < it->first.g())
+                    if (state.g() < it->first.g()) {
                         inc_cheaper();
                         it->first.decrease_g(state.parent(), state.g()); // update *g* value
+                    }
                     it->second.handle = beam_queue_.push(&*it); // add to beam queue and update handle
                     it->second.queue = &beam_queue_; // update queue
                     inc_decrease_key();
-- 
2.43.0


From 1c6c79514514899055fe1e942b81e61a8fc9ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 10/92] fix: do not evaluate operations on the undefined values
 of NULL in the interpreter

The value below a NULL is undefined; a division or modulo by a NULL trapped with SIGFPE and conjunctions and
disjunctions read the undefined value.
---
 src/backend/StackMachine.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..e4d9622 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1212,6 +1212,7 @@ NEXT;
 
 #define UNARY(OP, TYPE) { \
     M_insist(top_ >= 1); \
+    if (TOP_IS_NULL) { NEXT; } /* NULL remains NULL, do not evaluate on undefined value */ \
     TYPE val = TOP.as<TYPE>(); \
     TOP = OP(val); \
 } \
@@ -1219,12 +1220,13 @@ NEXT;
 
 #define BINARY(OP, TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
-    bool is_rhs_null = TOP_IS_NULL; \
+    const bool is_rhs_null = TOP_IS_NULL; \
+    const Value rhs_val = TOP; \
     POP(); \
+    if (is_rhs_null or TOP_IS_NULL) { TOP_IS_NULL = true; NEXT; } /* do not evaluate on undefined values */ \
+    TYPE rhs = rhs_val.as<TYPE>(); \
     TYPE lhs = TOP.as<TYPE>(); \
     TOP = OP(lhs, rhs); \
-    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
 } \
 NEXT;
 
@@ -1360,11 +1362,11 @@ Not_b: UNARY(not, bool);
 /* Logical and with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 And_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>(); // the value of NULL is undefined
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>(); // the value of NULL is undefined
     TOP = lhs and rhs;
     TOP_IS_NULL = (lhs or is_lhs_null) and (rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1373,11 +1375,11 @@ NEXT;
 /* Logical or with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 Or_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>(); // the value of NULL is undefined
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>(); // the value of NULL is undefined
     TOP = lhs or rhs;
     TOP_IS_NULL = (not lhs or is_lhs_null) and (not rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1436,13 +1438,13 @@ GE_s: BINARY(0 <= strcmp, char*);
 
 #define CMP(TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
-    bool is_rhs_null = TOP_IS_NULL; \
+    const bool is_rhs_null = TOP_IS_NULL; \
+    const Value rhs_val = TOP; \
     POP(); \
+    if (is_rhs_null or TOP_IS_NULL) { TOP_IS_NULL = true; NEXT; } /* do not evaluate on undefined values */ \
+    TYPE rhs = rhs_val.as<TYPE>(); \
     TYPE lhs = TOP.as<TYPE>(); \
-    bool is_lhs_null = TOP_IS_NULL; \
     TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
-    TOP_IS_NULL = is_lhs_null or is_rhs_null; \
 } \
 NEXT;
 
-- 
2.43.0


From 5e516e98f36c1f80d241de89b5b5b39a362b4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 11/92] fix: keep NULLs when cloning tuples

Tuple::clone() marked every cloned attribute as not NULL and copied from undefined string pointers.
---
 src/IR/Tuple.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..9fb8e93 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,6 +125,7 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
+        if (is_null(i)) continue; // attributes of `cpy` are initially NULL
         if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
-- 
2.43.0


From 269ccb321229a789603cabe91d31ff130f458672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 12/92] fix: resolve the attributes of a table under its alias
 in the interpreter

Scanning a table under an alias aborted with 'identifier not found'.
---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..d98ccf4 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -903,7 +903,7 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From 8d91189135ccf1e3eaa13320724775edaaa690d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 13/92] fix: LIMIT 0 produces no rows

A limit of 0 was taken for the absence of a LIMIT clause, so that all rows were produced.
---
 include/mutable/IR/QueryGraph.hpp | 2 +-
 src/IR/Optimizer.cpp              | 2 +-
 src/IR/QueryGraph.cpp             | 3 ++-
 src/IR/QueryGraph2SQL.cpp         | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index fb3df20..f3204fc 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -187,7 +187,7 @@ struct M_EXPORT QueryGraph
     std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates_; ///< the aggregates to compute
     std::vector<projection_type> projections_; ///< the data to compute
     std::vector<order_type> order_by_; ///< the order
-    struct { uint64_t limit = 0, offset = 0; } limit_; ///< limit: limit and offset
+    struct { uint64_t limit = 0, offset = 0; bool is_limited = false; } limit_; ///< limit: limit and offset
 
     mutable std::unique_ptr<AdjacencyMatrix> adjacency_matrix_;
 
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 406e65b..a03509d 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -446,7 +446,7 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     /* Limit. */
-    if (G.limit().limit or G.limit().offset) {
+    if (G.limit().is_limited) {
         /* Compute `DataModel` after limit. */
         auto new_model = CE.estimate_limit(G, *entry.model, G.limit().limit, G.limit().offset);
         entry.model = std::move(new_model);
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 0d67996..f685367 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1877,6 +1877,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     if (stmt.limit) {
         auto LIMIT = as<ast::LimitClause>(stmt.limit.get());
         errno = 0;
+        graph_->limit_.is_limited = true; // also for `LIMIT 0`
         graph_->limit_.limit = strtoull(*(LIMIT->limit.text), nullptr, 0);
         M_insist(errno == 0);
         if (LIMIT->offset) {
@@ -1976,7 +1977,7 @@ void QueryGraph::dot_recursive(std::ostream &out) const
         << "<TABLE BORDER=\"0\" CELLPADDING=\"0\" CELLSPACING=\"0\">\n";
 
     /* Limit */
-    if (limit_.limit != 0 or limit_.offset != 0) {
+    if (limit_.is_limited) {
         out << "             <TR><TD ALIGN=\"LEFT\">\n"
             << "               <B>λ</B><FONT POINT-SIZE=\"9\">"
             << limit_.limit << ", " << limit_.offset
diff --git a/src/IR/QueryGraph2SQL.cpp b/src/IR/QueryGraph2SQL.cpp
index 7e084b8..a066c62 100644
--- a/src/IR/QueryGraph2SQL.cpp
+++ b/src/IR/QueryGraph2SQL.cpp
@@ -85,7 +85,7 @@ void QueryGraph2SQL::translate(const QueryGraph &graph)
         }
     }
 
-    if (auto limit = graph_->limit().limit, offset = graph_->limit().offset; limit != 0 or offset != 0 ) {
+    if (auto limit = graph_->limit().limit, offset = graph_->limit().offset; graph_->limit().is_limited) {
         out_ << " LIMIT " << limit;
         if (offset != 0)
             out_ << " OFFSET " << offset;
-- 
2.43.0


From 44807b0a306d34a1d3303eb451181b7a073f41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 14/92] fix: hash join on NULL keys, operands of different
 types, strings, and negated comparisons

The simple hash join of the interpreter compares its keys bitwise.  NULL keys matched each other, strings were compared
by their addresses, and operands of different types or the (CNF of the) predicate NOT (a != b) aborted.
---
 src/backend/Interpreter.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index d98ccf4..974e6df 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -654,6 +654,19 @@ struct SimpleHashJoinData : JoinData
     Schema key_schema; ///< the `Schema` of the `key`
     Tuple key; ///< `Tuple` to hold the key
 
+    /** Returns `true` iff the join `op` can be performed as simple hash join, i.e. its predicate is a conjunction of
+     * equality comparisons of operands of the same type, whose values are equal iff they are bitwise equal. */
+    static bool Is_Applicable(const JoinOperator &op) {
+        if (not op.predicate().is_equi()) return false;
+        for (auto &clause : op.predicate()) {
+            auto &binary = as<const ast::BinaryExpr>(clause[0].expr());
+            auto type = binary.lhs->type();
+            if (type != binary.rhs->type()) return false; // operands must be cast to a common type first
+            if (type->is_character_sequence() or type->is_floating_point()) return false; // not comparable bitwise
+        }
+        return true;
+    }
+
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
         , ht(1024)
@@ -669,10 +682,10 @@ struct SimpleHashJoinData : JoinData
         for (auto &clause : pred) {
             M_insist(clause.size() == 1, "invalid predicate for simple hash join");
             auto &literal = clause[0];
-            M_insist(not literal.negative(), "invalid predicate for simple hash join");
             auto &expr = literal.expr();
             auto binary = as<const ast::BinaryExpr>(&expr);
-            M_insist(binary->tok == TK_EQUAL);
+            M_insist(binary->tok == (literal.negative() ? TK_BANG_EQUAL : TK_EQUAL),
+                     "invalid predicate for simple hash join");
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
@@ -719,6 +732,13 @@ struct SimpleHashJoinData : JoinData
             probe_key.emit_St_Tup(0, i, expr->type()); // write result to index i
         }
     }
+
+    /** Returns `true` iff any part of the current `key` is NULL, i.e. the join predicate cannot be satisfied. */
+    bool key_has_null() const {
+        for (std::size_t i = 0; i != exprs.size(); ++i)
+            if (key.is_null(i)) return true;
+        return false;
+    }
 };
 
 struct LimitData : OperatorData
@@ -1005,10 +1025,13 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->key_has_null())
+                    continue; // NULL does not compare equal to any value
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the block may have been modified by succeeding operators
                         i = 0;
                     }
 
@@ -1038,6 +1061,8 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->key_has_null())
+                    continue; // NULL does not compare equal to any value
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
@@ -1447,7 +1472,7 @@ void Interpreter::operator()(const DisjunctiveFilterOperator &op)
 
 void Interpreter::operator()(const JoinOperator &op)
 {
-    if (op.predicate().is_equi()) {
+    if (SimpleHashJoinData::Is_Applicable(op)) {
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-- 
2.43.0


From 4e5c790fc484ad62074a8278b1a2f099b2c65f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 15/92] fix: group by the contents of strings

The interpreter hashed and compared strings in grouping keys by their addresses, so that every tuple was its own group.
---
 src/backend/Interpreter.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 974e6df..5565cbe 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -827,14 +827,20 @@ struct HashBasedGroupingData : GroupingData
     struct hasher
     {
         std::size_t key_size;
+        const Schema &schema;
 
-        hasher(std::size_t key_size) : key_size(key_size) { }
+        hasher(std::size_t key_size, const Schema &schema) : key_size(key_size), schema(schema) { }
 
         uint64_t operator()(const Tuple &tup) const {
             std::hash<Value> h;
             uint64_t hash = 0xcbf29ce484222325;
             for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
+                if (tup.is_null(i))
+                    hash ^= 0;
+                else if (schema[i].type->is_character_sequence())
+                    hash ^= std::hash<std::string_view>{}(tup[i].as<const char*>()); // hash the string, not its address
+                else
+                    hash ^= h(tup[i]);
                 hash *= 1099511628211;
             }
             return hash;
@@ -845,14 +851,19 @@ struct HashBasedGroupingData : GroupingData
     struct equals
     {
         std::size_t key_size;
+        const Schema &schema;
 
-        equals(std::size_t key_size) : key_size(key_size) { }
+        equals(std::size_t key_size, const Schema &schema) : key_size(key_size), schema(schema) { }
 
         uint64_t operator()(const Tuple &first, const Tuple &second) const {
             for (std::size_t i = 0; i != key_size; ++i) {
                 if (first.is_null(i) != second.is_null(i)) return false;
-                if (not first.is_null(i))
+                if (first.is_null(i)) continue;
+                if (schema[i].type->is_character_sequence()) {
+                    if (not streq(first[i].as<const char*>(), second[i].as<const char*>())) return false;
+                } else {
                     if (first.get(i) != second.get(i)) return false;
+                }
             }
             return true;
         }
@@ -864,7 +875,7 @@ struct HashBasedGroupingData : GroupingData
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, hasher(op.group_by().size(), op.schema()), equals(op.group_by().size(), op.schema()))
     { }
 };
 
-- 
2.43.0


From 47c8015857d86e25cf90019f09cd9f63e47a4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 16/92] fix: sort NULLs in the interpreter

Sorting by an expression with NULLs aborted or was not a strict weak order.  Order NULLs first, as the Wasm backend does.
---
 src/backend/Interpreter.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 5565cbe..995beb5 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1630,6 +1630,21 @@ void Interpreter::operator()(const SortingOperator &op)
 
     StackMachine comparator(data->pipeline.schema());
     for (auto o : orderings) {
+        /* Order NULL before all other values, independent of the direction of sorting (as does the Wasm backend). */
+        comparator.emit(o.first.get(), 2); // RHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cast_i_b();
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cast_i_b();
+        comparator.emit_Sub_i();
+        comparator.emit_St_Tup_i(0, 0);
+        comparator.emit_Stop_NZ();
+
+        /* Either none or both are NULL. */
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.add_and_emit_load(int64_t(0)); // two NULLs are considered equal
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1660,6 +1675,7 @@ void Interpreter::operator()(const SortingOperator &op)
 
         if (not o.second)
             comparator.emit_Minus_i(); // sort descending
+        comparator.emit_Sel();
         comparator.emit_St_Tup_i(0, 0);
         comparator.emit_Stop_NZ();
     }
-- 
2.43.0


From e0f581ec9631ea7acd2cb3e15f3181f90f1e9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 17/92] fix: NULLs in aggregates

AVG counted tuples whose argument is NULL, SUM and AVG without any value that is not NULL produced 0 rather than NULL, and
arguments of aggregates in groups were not stored with the type of the aggregate.
---
 src/backend/Interpreter.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 995beb5..b32a21a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -778,8 +778,8 @@ struct GroupingData : OperatorData
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
                 sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, arg->type());
-                arg_types.push_back(arg->type());
+                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
+                arg_types.push_back(agg.get().type());
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
@@ -791,18 +791,18 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<uint64_t> counts; ///< per aggregate, the number of arguments that are not NULL
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
     AggregationData(const AggregationOperator &op)
         : pipeline(op.schema())
+        , counts(op.aggregates().size(), 0)
     {
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -869,9 +869,9 @@ struct HashBasedGroupingData : GroupingData
         }
     };
 
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, per
+     * aggregate, the count of tuples of this group whose argument is not NULL. */
+    std::unordered_map<Tuple, std::vector<uint64_t>, hasher, equals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1218,8 +1218,6 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
-
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data.args[i];
@@ -1252,13 +1250,13 @@ void Pipeline::operator()(const GroupingOperator &op)
 
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (is_null) {
                         if (n->is_floating_point())
                             group.set(key_size + i, 0.); // double precision
                         else
                             group.set(key_size + i, 0); // int
                     }
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1267,13 +1265,14 @@ void Pipeline::operator()(const GroupingOperator &op)
                 }
 
                 case Function::FN_AVG: {
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (is_null) {
                         if (ty->is_floating_point())
                             group.set(key_size + i, 0.); // double precision
                         else
                             group.set(key_size + i, 0); // int
                     }
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    const uint64_t nth_tuple = ++entry.second[i];
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
                     val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
@@ -1331,7 +1330,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<uint64_t>(op.aggregates().size(), 0));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1341,10 +1340,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1375,6 +1372,7 @@ void Pipeline::operator()(const AggregationOperator &op)
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    data->aggregates.not_null(i);
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1384,6 +1382,8 @@ void Pipeline::operator()(const AggregationOperator &op)
 
                 case Function::FN_AVG: {
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    data->aggregates.not_null(i);
+                    const uint64_t nth_tuple = ++data->counts[i];
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
                     val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
@@ -1591,6 +1591,7 @@ void Interpreter::operator()(const AggregationOperator &op)
                     data->aggregates.set(i, 0.); // double precision
                 else
                     data->aggregates.set(i, 0L); // int64
+                data->aggregates.null(i); // NULL unless there is a value that is not NULL
                 break;
             }
 
@@ -1599,6 +1600,7 @@ void Interpreter::operator()(const AggregationOperator &op)
                     data->aggregates.set(i, 0.); // double precision
                 else
                     data->aggregates.set(i, 0L); // int64
+                data->aggregates.null(i); // NULL unless there is a value that is not NULL
                 break;
             }
 
-- 
2.43.0


From 013bd4307f1111d279f487c39ee98413c9a86a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 18/92] fix: nested scalar queries in WHERE

The result of an uncorrelated query nested in WHERE was not named $res and could not be found by the backend.
---
 src/IR/QueryGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index f685367..9a1f90c 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -427,6 +427,12 @@ ClauseInfo::ClauseInfo(const cnf::Clause &clause)
                 data_sources.emplace(D.get_table_name());
         },
         [this](const ast::QueryExpr &Q) {
+            auto &select = as<ast::SelectStmt>(*Q.query);
+            auto &select_clause = as<ast::SelectClause>(*select.select);
+            M_insist(not select_clause.select_all, "* can not yet be used in nested queries.");
+            M_insist(select_clause.select.size() == 1, "only a single projection allowed");
+            /* Replace the alias of the single projection by `$res`. */
+            select_clause.select.front().second.text = Catalog::Get().pool("$res");
             auto B = std::make_unique<GraphBuilder>();
             (*B)(*Q.query);
             nested_queries.emplace_back(Q, std::move(B), Q.alias());
-- 
2.43.0


From 048c334db772e82a497d0c46378f22243c3d8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 19/92] fix: nested queries in SELECT must not be moved out of
 the AST

cast() of a std::unique_ptr transfers ownership, so that the nested query was destructed before the query graph was built.
---
 src/IR/QueryGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 9a1f90c..a63788b 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1649,7 +1649,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
                                                                                  // directly add to projections
     /* Collect nested queries in SELECT clause. */
     for (auto &s : SELECT->select) {
-        if (auto query = cast<const ast::QueryExpr>(s.first)) // found nested query
+        if (auto query = cast<const ast::QueryExpr>(s.first.get())) // found nested query
             nested_queries_in_select.emplace_back(*query, s.second.text);
         else
             graph_->projections_.emplace_back(*s.first, s.second.text); // add to projections
-- 
2.43.0


From 93ec67f5ec6ca7c0a828a1212f54b5821ae9bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 20/92] fix: nested scalar queries in HAVING

The HAVING clauses with nested queries were evaluated before the nested query was joined.
---
 src/IR/QueryGraph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index a63788b..73d7b7b 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1783,7 +1783,10 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
         cnf_having = cnf::to_CNF(*having_clause->having);
         auto sub_graph = std::exchange(graph_, std::make_unique<QueryGraph>());
         auto &sub = graph_->add_source(ThreadSafePooledOptionalString{}, std::move(sub_graph));
-        sub.update_filter(cnf_having);
+        for (auto &clause : cnf_having) {
+            if (ClauseInfo(clause).nested_queries.empty())
+                sub.update_filter(cnf::CNF{clause}); // clauses with nested queries become joins, see below
+        }
         named_sources_.emplace(C.pool("HAVING"), sub);
         /* Reset former computation of projection and move it after the HAVING. */
         std::swap(graph_->projections_, sub.query_graph().projections_);
-- 
2.43.0


From 761ba9280e08bfb374b18f6ad1dcefab44fd0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 21/92] fix: Cartesian products

Queries with sources that are not connected by any join condition aborted in the optimizer, as most plan enumerators
require a connected query graph.
---
 include/mutable/IR/QueryGraph.hpp |  4 ++++
 src/IR/Optimizer.cpp              |  2 ++
 src/IR/QueryGraph.cpp             | 15 +++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index f3204fc..f1a660e 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -226,6 +226,10 @@ struct M_EXPORT QueryGraph
     /** Returns the number of `Join`s in this graph. */
     std::size_t num_joins() const { return joins_.size(); }
 
+    /** Connects the components of this graph by `Join`s without condition, i.e. Cartesian products, s.t. the entire graph
+     * becomes connected. */
+    void connect_components();
+
     void add_source(std::unique_ptr<DataSource> source) {
         source->id_ = sources_.size();
         sources_.emplace_back(source.release());
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index a03509d..1adb736 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -184,6 +184,8 @@ std::pair<std::unique_ptr<Producer>, PlanTableEntry> Optimizer::optimize(QueryGr
 template<typename PlanTable>
 std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantable(QueryGraph &G) const
 {
+    G.connect_components(); // sources that are not joined by any condition are combined by Cartesian products
+
     PlanTable PT(G);
     const auto num_sources = G.sources().size();
     auto &C = Catalog::Get();
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 73d7b7b..c9a14ab 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1937,6 +1937,21 @@ void QueryGraph::compute_adjacency_matrix() const
     }
 }
 
+void QueryGraph::connect_components()
+{
+    if (num_sources() < 2) return; // nothing to connect
+
+    SmallBitset connected = adjacency_matrix().reachable(SmallBitset::Singleton(0));
+    for (std::size_t i = 1; i != num_sources(); ++i) {
+        if (connected(i)) continue;
+        connected |= adjacency_matrix().reachable(SmallBitset::Singleton(i));
+        auto &J = *joins_.emplace_back(std::make_unique<Join>(cnf::CNF(), Join::sources_t{ *sources_[0], *sources_[i] }));
+        for (auto ds : J.sources())
+            ds.get().add_join(J);
+    }
+    adjacency_matrix_.reset(); // adjacency matrix must be recomputed
+}
+
 void QueryGraph::dot(std::ostream &out) const
 {
     out << "graph query_graph\n{\n"
-- 
2.43.0


From aa28062cc5b7ce2db6078a1e110b238f676e3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 22/92] fix: print negative decimals and short strings

The sign of a decimal was printed with its fraction or not at all, and strings were printed beyond their terminating NUL.
---
 src/IR/Tuple.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 9fb8e93..e976afd 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -18,7 +18,7 @@ void Value::print(std::ostream &out, const Type &ty) const
 {
     visit(overloaded {
         [this, &out](const Boolean&) { out << (as_b() ? "TRUE" : "FALSE"); },
-        [this, &out](const CharacterSequence &cs) { out << '"'; out.write(as<const char*>(), cs.length); out << '"'; },
+        [this, &out](const CharacterSequence &cs) { out << '"'; out.write(as<const char*>(), strnlen(as<const char*>(), cs.length)); out << '"'; },
         [this, &out](const Date&) {
             const int32_t date = as_i(); // signed because year is signed
             const auto oldfill = out.fill('0');
@@ -45,7 +45,8 @@ void Value::print(std::ostream &out, const Type &ty) const
                 case Numeric::N_Decimal: {
                     const int64_t div = powi(10L, n.scale);
                     const int64_t pre = as_i() / div;
-                    const int64_t post = as_i() % div;
+                    const int64_t post = std::abs(as_i() % div);
+                    if (as_i() < 0 and pre == 0) out << '-'; // sign is not represented by `pre`
                     out << pre << '.';
                     auto old_fill = out.fill('0');
                     out << std::setw(n.scale) << post;
-- 
2.43.0


From a6f62227dfd00eb9058b6a950fca83020bf42bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 23/92] fix: INSERT of DEFAULT after other tuples, into tables
 with hidden attributes, and with indexes

DEFAULT kept the value of the previous tuple, NULL ignored hidden attributes, and INSERT by execute_statement() ignored
hidden attributes and did not invalidate indexes.
---
 src/catalog/DatabaseCommand.cpp |  3 ++-
 src/mutable.cpp                 | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..88b1c88 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -149,13 +149,14 @@ void InsertRecords::execute(Diagnostic&)
 
     /* Write all tuples to the store. */
     for (auto &t : I.tuples) {
+        tup.clear(); // reset all values of the previous tuple to their default
         StackMachine get_tuple(Schema{});
         for (std::size_t i = 0; i != t.size(); ++i) {
             auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
             auto &v = t[i];
             switch (v.first) {
                 case ast::InsertStmt::I_Null:
-                    get_tuple.emit_St_Tup_Null(0, i);
+                    get_tuple.emit_St_Tup_Null(0, attr_id);
                     break;
 
                 case ast::InsertStmt::I_Default:
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 372fd31..fa433a1 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -196,12 +196,14 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
 
         /* Write all tuples to the store. */
         for (auto &t : I->tuples) {
+            tup.clear(); // reset all values of the previous tuple to their default
             StackMachine get_tuple(Schema{});
             for (std::size_t i = 0; i != t.size(); ++i) {
+                auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
                 auto &v = t[i];
                 switch (v.first) {
                     case ast::InsertStmt::I_Null:
-                        get_tuple.emit_St_Tup_Null(0, i);
+                        get_tuple.emit_St_Tup_Null(0, attr_id);
                         break;
 
                     case ast::InsertStmt::I_Default:
@@ -210,8 +212,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
 
                     case ast::InsertStmt::I_Expr:
                         get_tuple.emit(*v.second);
-                        get_tuple.emit_Cast(S[i].type, v.second->type());
-                        get_tuple.emit_St_Tup(0, i, S[i].type);
+                        get_tuple.emit_Cast(S[attr_id].type, v.second->type());
+                        get_tuple.emit_St_Tup(0, attr_id, S[attr_id].type);
                         break;
                 }
             }
@@ -219,6 +221,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
             get_tuple(args);
             W.append(tup);
         }
+        /* Invalidate all indexes on the table. */
+        DB.invalidate_indexes(T.name());
     } else if (auto S = cast<const ast::CreateDatabaseStmt>(&stmt)) {
         C.add_database(S->database_name.text.assert_not_none());
     } else if (auto S = cast<const ast::DropDatabaseStmt>(&stmt)) {
-- 
2.43.0


From 7229ef46ccc330ad4ba408471cc9a05401ab5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 24/92] fix: conversion of (in)equality of Booleans to CNF must
 not explode

---
 src/IR/CNF.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 8ce3c18..b2a377c 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -275,12 +275,17 @@ void CNFGenerator::operator()(Const<BinaryExpr> &e)
         } else if ((not is_negative_ and e.op() == TK_Or) or (is_negative_ and e.op() == TK_And)) {
             result_ = cnf_lhs or cnf_rhs;
         } else if (e.op() == TK_EQUAL or e.op() == TK_BANG_EQUAL) {
-            /* A ↔ B ⇔ (A → B) ^ (B → A) ⇔ (¬A v B) ^ (¬B v A) */
-            auto equiv = ((not cnf_lhs) or cnf_rhs) and ((not cnf_rhs) or cnf_lhs);
+            /* Convert the negated operands from scratch, negating a CNF grows exponentially. */
+            is_negative_ = not is_negative_;
+            (*this)(*e.lhs);
+            auto not_lhs = result_;
+            (*this)(*e.rhs);
+            auto not_rhs = result_;
+            is_negative_ = not is_negative_;
             if ((not is_negative_ and e.op() == TK_BANG_EQUAL) or (is_negative_ and e.op() == TK_EQUAL))
-                result_ = not equiv; // A ↮ B ⇔ ¬(A ↔ B)
+                result_ = (cnf_lhs or cnf_rhs) and (not_lhs or not_rhs); // A ↮ B ⇔ (A v B) ^ (¬A v ¬B)
             else
-                result_ = equiv;
+                result_ = (not_lhs or cnf_rhs) and (not_rhs or cnf_lhs); // A ↔ B ⇔ (A → B) ^ (B → A)
         } else {
             M_unreachable("unsupported boolean expression");
         }
-- 
2.43.0


From ba2124df8e206c46dcd2a8bdf5c9f0cd890a7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 25/92] fix: LIMIT of queries without data sources, and such
 queries in FROM

---
 src/IR/Optimizer.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 1adb736..e2886b5 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -194,7 +194,20 @@ std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantab
     if (num_sources == 0) {
         PT.get_final().cost = 0; // no sources → no cost
         PT.get_final().model = CE.empty_model(); // XXX: should rather be 1 (single tuple) than empty
-        return { std::make_unique<ProjectionOperator>(G.projections()), std::move(PT) };
+        auto make_info = []() {
+            auto info = std::make_unique<OperatorInformation>();
+            info->estimated_cardinality = 1; // exactly one row of constants
+            return info;
+        };
+        std::unique_ptr<Producer> plan = std::make_unique<ProjectionOperator>(G.projections());
+        plan->info(make_info());
+        if (G.limit().is_limited) {
+            auto limit = std::make_unique<LimitOperator>(G.limit().limit, G.limit().offset);
+            limit->add_child(plan.release());
+            limit->info(make_info());
+            plan = std::move(limit);
+        }
+        return { std::move(plan), std::move(PT) };
     }
 
     /*----- Initialize plan table and compute plans for data sources. -----*/
-- 
2.43.0


From 6122a830efb344b07668451095a26b9c1463c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 26/92] fix: expressions of the projection after sorting must
 outlive the optimizer

---
 include/mutable/IR/Operator.hpp  | 7 +++++--
 include/mutable/IR/Optimizer.hpp | 1 -
 src/IR/Operator.cpp              | 4 +++-
 src/IR/Optimizer.cpp             | 8 +++++---
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/mutable/IR/Operator.hpp b/include/mutable/IR/Operator.hpp
index bd05723..a7da136 100644
--- a/include/mutable/IR/Operator.hpp
+++ b/include/mutable/IR/Operator.hpp
@@ -361,13 +361,16 @@ struct M_EXPORT ProjectionOperator : Producer, Consumer
 
     private:
     std::vector<projection_type> projections_;
+    ///> expressions created for this operator that are not part of any AST
+    std::vector<std::shared_ptr<const ast::Expr>> owned_exprs_;
 
     public:
-    ProjectionOperator(std::vector<projection_type> projections);
+    ProjectionOperator(std::vector<projection_type> projections,
+                       std::vector<std::shared_ptr<const ast::Expr>> owned_exprs = {});
 
     /** Creates and returns a copy of this single operator node, i.e. only copies this operator without adding any
      * inherited member fields like the parent or children nodes in the returned copy. */
-    ProjectionOperator clone_node() const { return ProjectionOperator(projections_); }
+    ProjectionOperator clone_node() const { return ProjectionOperator(projections_, owned_exprs_); }
 
     /*----- Override child setters to *NOT* modify the computed schema! ----------------------------------------------*/
     virtual void add_child(Producer *child) override {
diff --git a/include/mutable/IR/Optimizer.hpp b/include/mutable/IR/Optimizer.hpp
index 7f0a100..ce99e47 100644
--- a/include/mutable/IR/Optimizer.hpp
+++ b/include/mutable/IR/Optimizer.hpp
@@ -24,7 +24,6 @@ struct M_EXPORT Optimizer
     private:
     const pe::PlanEnumerator &pe_;
     const CostFunction &cf_;
-    mutable std::vector<std::unique_ptr<const ast::Expr>> created_exprs_; ///< additionally created expressions
     mutable bool needs_projection_ = false; ///< flag to determine whether current query needs a projection as root
 
     public:
diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 3026f4e..3e34685 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -221,8 +221,10 @@ void Operator::dump(std::ostream &out) const { out << *this << std::endl; }
 void Operator::dump() const { dump(std::cerr); }
 M_LCOV_EXCL_STOP
 
-ProjectionOperator::ProjectionOperator(std::vector<projection_type> projections)
+ProjectionOperator::ProjectionOperator(std::vector<projection_type> projections,
+                                       std::vector<std::shared_ptr<const ast::Expr>> owned_exprs)
     : projections_(std::move(projections))
+    , owned_exprs_(std::move(owned_exprs))
 {
     /* Compute the schema of the operator. */
     auto &S = schema();
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index e2886b5..b70f4c8 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -484,18 +484,20 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
         /* Change aliased projections in designators with the alias as name since original projection is
          * performed beforehand. */
         std::vector<projection_type> adapted_projections;
+        std::vector<std::shared_ptr<const ast::Expr>> created_exprs; // to be kept alive by the projection
         for (auto [expr, alias] : G.projections()) {
             if (alias.has_value()) {
                 Token name(expr.get().tok.pos, alias.assert_not_none(), TK_IDENTIFIER);
-                auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
+                auto d = std::make_shared<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
                                                             std::move(name), expr.get().type(), &expr.get());
                 adapted_projections.emplace_back(*d, ThreadSafePooledOptionalString{});
-                created_exprs_.emplace_back(std::move(d));
+                created_exprs.emplace_back(std::move(d));
             } else {
                 adapted_projections.emplace_back(expr, ThreadSafePooledOptionalString{});
             }
         }
-        auto projection = std::make_unique<ProjectionOperator>(std::move(adapted_projections));
+        auto projection = std::make_unique<ProjectionOperator>(std::move(adapted_projections),
+                                                               std::move(created_exprs));
         projection->add_child(plan.release());
 
         /* Set operator information. */
-- 
2.43.0


From 9dd2e107e3c9c4b4eb9d281d05fb5b6f965da1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 27/92] fix: SELECT * lists the attributes in the order of the
 FROM clause

---
 src/parse/Sema.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff462a5..d9c934c 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1066,7 +1066,13 @@ void Sema::operator()(SelectClause &c)
             diag.w(c.select_all.pos) << "The '*' has no meaning in this query.  Did you forget the GROUP BY clause?.\n";
         } else {
             /* The '*' in the SELECT clause selects all attributes of all sources. */
-            for (auto &[src_name, src] : Ctx.sources) {
+            std::vector<std::reference_wrapper<SemaContext::source_table::value_type>> sources(Ctx.sources.begin(),
+                                                                                               Ctx.sources.end());
+            std::sort(sources.begin(), sources.end(), [](auto &left, auto &right) {
+                return left.get().second.second < right.get().second.second; // order of the FROM clause
+            });
+            for (auto &entry : sources) {
+                auto &[src_name, src] = entry.get();
                 if (auto ref = std::get_if<std::reference_wrapper<const Table>>(&src.first)) {
                     /* The source is a database table. */
                     auto &tbl = ref->get();
-- 
2.43.0


From 4beef7d5d66d87a3c2fbea56866548b3c5af6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 28/92] fix: an attribute used several times in ORDER BY is
 required only once

---
 src/IR/Optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index b70f4c8..aea1789 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -127,6 +127,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and d == expr.get())
                     return; // found
             }
+            /*----- Find `d` in already required projections. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (d == expr.get())
+                    return; // found
+            }
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
@@ -135,6 +140,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and fn == expr.get())
                     throw visit_skip_subtree(); // found
             }
+            /*----- Find `fn` in already required projections. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (fn == expr.get())
+                    throw visit_skip_subtree(); // found
+            }
             required_projections.emplace_back(fn, ThreadSafePooledOptionalString{});
             throw visit_skip_subtree();
         },
-- 
2.43.0


From cde655c7b77a171c8f851ef0a112cda4687caee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 29/92] fix: COUNT over strings, dates and times

---
 src/backend/Interpreter.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index b32a21a..7a5e39e 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -777,9 +777,12 @@ struct GroupingData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
-                arg_types.push_back(agg.get().type());
+                /* COUNT takes arguments of any type and only checks for NULL. */
+                auto arg_ty = fe.get_function().fnid == Function::FN_COUNT ? arg->type() : agg.get().type();
+                if (arg_ty != arg->type())
+                    sm.emit_Cast(arg_ty, arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                sm.emit_St_Tup(0, arg_idx++, arg_ty); // store casted argument of aggregate type to tuple
+                arg_types.push_back(arg_ty);
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
@@ -811,9 +814,12 @@ struct AggregationData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
-                arg_types.push_back(agg.get().type());
+                /* COUNT takes arguments of any type and only checks for NULL. */
+                auto arg_ty = fe.get_function().fnid == Function::FN_COUNT ? arg->type() : agg.get().type();
+                if (arg_ty != arg->type())
+                    sm.emit_Cast(arg_ty, arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                sm.emit_St_Tup(0, arg_idx++, arg_ty); // store casted argument of aggregate type to tuple
+                arg_types.push_back(arg_ty);
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
-- 
2.43.0


From f1483041dde897a979447a574b4cc6ec96eeaa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 30/92] fix: sorting no tuples

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7a5e39e..34bf03e 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1630,7 +1630,7 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
+    auto data = cast<SortingData>(op.data());
     if (not data) // no tuples produced
         return;
 
-- 
2.43.0


From ad98e46916fda9b850df6470b2b861c898090f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 31/92] fix: ORDER BY of functions that are not aggregates

---
 src/IR/Optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index aea1789..04ab886 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -115,6 +115,8 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
     /* Collect all required `Designator`s which are not included in the projection. */
     auto get_required_designator = overloaded {
         [&](const ast::Designator &d) -> void {
+            if (is<const FnType>(d.type()))
+                return; // name of a function
             if (auto t = std::get_if<const Expr*>(&d.target())) { // refers to another expression?
                 /*----- Find `t` in projections. -----*/
                 for (auto &[expr, _] : projections) {
@@ -135,6 +137,8 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
+            if (not fn.get_function().is_aggregate())
+                return; // evaluated while sorting, only its arguments are required
             /*----- Find `fn` in projections. -----*/
             for (auto &[expr, alias] : projections) {
                 if (not alias.has_value() and fn == expr.get())
-- 
2.43.0


From a1d8113c63c1a9ccc14cfe1195bbef6f046c2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 32/92] fix: row layout without reordering must align the
 attributes

---
 src/storage/DataLayoutFactory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 0454bf5..6c024b1 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -99,6 +99,8 @@ DataLayout RowLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
 
     for (std::size_t idx = 0; idx != types.size(); ++idx) {
         const auto mapped_idx = indices[idx];
+        if (uint64_t rem = offset_in_bits % types[mapped_idx]->alignment(); rem)
+            offset_in_bits += types[mapped_idx]->alignment() - rem; // only needed if attributes are not reordered
         offsets[mapped_idx] = offset_in_bits;
         offset_in_bits += types[mapped_idx]->size();
         alignment_in_bits = std::max(alignment_in_bits, types[mapped_idx]->alignment());
-- 
2.43.0


From 6dab2b03494ce49b9575712c1973a9f22db694f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 33/92] fix: group 0 and -0 together

---
 src/backend/Interpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 34bf03e..ea2ac5a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -764,6 +764,14 @@ struct GroupingData : OperatorData
             std::size_t key_idx = 0;
             for (auto [grp, alias] : op.group_by()) {
                 compute_key.emit(grp.get(), 1);
+                /* Keys are compared bitwise: turn -0 into 0. */
+                if (grp.get().type()->is_float()) {
+                    compute_key.add_and_emit_load(0.f);
+                    compute_key.emit_Add_f();
+                } else if (grp.get().type()->is_double()) {
+                    compute_key.add_and_emit_load(0.);
+                    compute_key.emit_Add_d();
+                }
                 compute_key.emit_St_Tup(0, key_idx++, grp.get().type());
             }
         }
-- 
2.43.0


From 997a1075d49094f851b990e3cf0e474d84ff1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 34/92] fix: dates and datetimes need their separators

---
 src/lex/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..f6beaa4 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -235,17 +235,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From 2dedb07d1ef8d8ba374223d1edfa214b5596f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 35/92] fix: a backslash at the end of the input is not
 followed by a character

---
 src/lex/Lexer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index f6beaa4..b123278 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -203,6 +203,11 @@ Token Lexer::read_string_literal()
                 case 't':
                     /* valid escape sequence */
                     push();
+                    break;
+
+                case EOF:
+                    /* unterminated string literal */
+                    break;
             }
         } else {
             push();
-- 
2.43.0


From fc15203cd2490506a2000c769c3107159a70bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 36/92] fix: the lexer must not put the end of the input back

---
 src/lex/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b123278..a1f4657 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -3,7 +3,7 @@
 #include <cctype>
 
 
-#define UNDO(CHR) { in.putback(c_); c_ = CHR; pos_.column--; }
+#define UNDO(CHR) { if (c_ != EOF) in.putback(c_); c_ = CHR; pos_.column--; }
 
 
 using namespace m;
-- 
2.43.0


From bb8b6c1e005a37f509c3a81b53ef25fcd27dac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 37/92] fix: print nested queries everywhere alike

---
 src/parse/ASTPrinter.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 1cd79e9..634f5f8 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -57,9 +57,12 @@ void ASTPrinter::operator()(Const<BinaryExpr> &e)
 void ASTPrinter::operator()(Const<QueryExpr> &e)
 {
     if (expand_nested_queries_) {
+        const bool was_nested = is_nested_;
+        is_nested_ = true;
         out << '(';
         (*this)(*e.query);
         out << ')';
+        is_nested_ = was_nested;
     } else {
         out << e.alias() << '.' << e.alias(); // name of artificial source followed by name of single result
     }
@@ -103,7 +106,8 @@ void ASTPrinter::operator()(Const<FromClause> &c)
 
 void ASTPrinter::operator()(Const<WhereClause> &c)
 {
-    out << "WHERE " << *c.where;
+    out << "WHERE ";
+    (*this)(*c.where);
 }
 
 void ASTPrinter::operator()(Const<GroupByClause> &c)
@@ -120,7 +124,8 @@ void ASTPrinter::operator()(Const<GroupByClause> &c)
 
 void ASTPrinter::operator()(Const<HavingClause> &c)
 {
-    out << "HAVING " << *c.having;
+    out << "HAVING ";
+    (*this)(*c.having);
 }
 
 void ASTPrinter::operator()(Const<OrderByClause> &c)
@@ -160,7 +165,9 @@ void ASTPrinter::operator()(Const<NotNullConstraint>&)
 
 void ASTPrinter::operator()(Const<CheckConditionConstraint> &c)
 {
-    out << "CHECK (" << *c.cond << ')';
+    out << "CHECK (";
+    (*this)(*c.cond);
+    out << ')';
 }
 
 void ASTPrinter::operator()(Const<ReferenceConstraint> &c)
@@ -320,7 +327,7 @@ void ASTPrinter::operator()(Const<InsertStmt> &s)
             switch (elem_it->first) {
                 case InsertStmt::I_Default: out << "DEFAULT";   break;
                 case InsertStmt::I_Null:    out << "NULL";      break;
-                case InsertStmt::I_Expr:    out << *elem_it->second;     break;
+                case InsertStmt::I_Expr:    (*this)(*elem_it->second); break;
             }
         }
         out << ')';
@@ -333,16 +340,23 @@ void ASTPrinter::operator()(Const<UpdateStmt> &s)
     out << "UPDATE " << s.table_name.text << "\nSET\n";
     for (auto it = s.set.cbegin(), end = s.set.cend(); it != end; ++it) {
         if (it != s.set.cbegin()) out << ",\n";
-        out << "    " << it->first.text << " = " << *it->second;
+        out << "    " << it->first.text << " = ";
+        (*this)(*it->second);
+    }
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
     }
-    if (s.where) out << '\n' << *s.where;
     out << ';';
 }
 
 void ASTPrinter::operator()(Const<DeleteStmt> &s)
 {
     out << "DELETE FROM " << s.table_name.text;
-    if (s.where) out << '\n' << *s.where;
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
+    }
     out << ';';
 }
 
-- 
2.43.0


From 309494478f36a677e96266e80d2cde845b0773b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 38/92] fix: print key fields of an index in parentheses unless
 they are identifiers

---
 src/parse/ASTPrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 634f5f8..845a25e 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -260,7 +260,13 @@ void ASTPrinter::operator()(Const<CreateIndexStmt> &s)
         auto &field = *it;
         if (it != s.key_fields.cbegin()) out << ',';
         out << "\n    ";
+        /* A key field is an identifier or parenthesized. Operators and nested queries bring their own parentheses. */
+        auto d = cast<const Designator>(field.get());
+        const bool parenthesize = (d and d->has_explicit_table_name()) or is<const Constant>(*field)
+                                  or is<const FnApplicationExpr>(*field);
+        if (parenthesize) out << '(';
         (*this)(*field);
+        if (parenthesize) out << ')';
     }
     out << "\n);";
 }
-- 
2.43.0


From 13b5a5aaf550e47b929b9fa42bde95e3f2aad05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 39/92] fix: ~ and NOT are no binary operators

---
 src/parse/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..9cc8760 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1046,6 +1046,7 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
         Token op = token();
         int p = get_precedence(op);
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
+        if (op == TK_TILDE or op == TK_Not) return lhs; // not a binary operator
         consume();
 
         auto rhs = parse_Expr(p + 1);
-- 
2.43.0


From 023ce2a3b02123c52703e1cc33f117de305b200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 40/92] fix: a decimal type may have scale 0, as printed

---
 doc/syntax-grammar.md | 2 +-
 src/parse/Parser.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doc/syntax-grammar.md b/doc/syntax-grammar.md
index d4722fa..9be8223 100644
--- a/doc/syntax-grammar.md
+++ b/doc/syntax-grammar.md
@@ -229,7 +229,7 @@ data-type ::= 'BOOL' |
               'INT' '(' DECIMAL-CONSTANT ')' |
               'FLOAT' |
               'DOUBLE' |
-              'DECIMAL' '(' DECIMAL-CONSTANT [ ',' DECIMAL-CONSTANT ] ')' ;
+              'DECIMAL' '(' DECIMAL-CONSTANT [ ',' ( DECIMAL-CONSTANT | OCTAL-CONSTANT ) ] ')' ;
 ```
 
 ## 🔥 DISCLAIMER 🔥
diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9cc8760..f11be9d 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1163,7 +1163,7 @@ const Type * Parser::parse_data_type()
             if (not expect(TK_DEC_INT)) goto error_recovery;
             if (accept(TK_COMMA)) {
                 scale = token();
-                if (not expect(TK_DEC_INT)) goto error_recovery;
+                if (not accept(TK_OCT_INT) and not expect(TK_DEC_INT)) goto error_recovery; // 0 is an octal constant
             }
             if (not expect(TK_RPAR)) goto error_recovery;
             errno = 0;
@@ -1173,7 +1173,7 @@ const Type * Parser::parse_data_type()
                 goto error_recovery;
             }
             errno = 0;
-            std::size_t s = scale.text.has_value() ? strtoul(*(scale.text), nullptr, 10) : 0;
+            std::size_t s = scale.text.has_value() ? strtoul(*(scale.text), nullptr, 0) : 0;
             if (errno) {
                 diag.e(scale.pos) << scale.text << " is not a valid scale for a DECIMAL\n";
                 goto error_recovery;
-- 
2.43.0


From ad8b9f7b0a7082be4f4387c1e6bb32b02a793d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 41/92] fix: a value to insert may be an expression that starts
 with NULL

---
 src/parse/Parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index f11be9d..8ca224e 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -576,9 +576,12 @@ std::unique_ptr<Stmt> Parser::parse_InsertStmt()
                     break;
 
                 case TK_Null:
-                    consume();
-                    tuple.emplace_back(InsertStmt::I_Null, nullptr);
-                    break;
+                    if (token<1>().type == TK_COMMA or token<1>().type == TK_RPAR) {
+                        consume();
+                        tuple.emplace_back(InsertStmt::I_Null, nullptr);
+                        break;
+                    }
+                    /* fallthrough */ // an expression that starts with NULL
 
                 default: {
                     auto e = parse_Expr();
-- 
2.43.0


From 7f6d4174c9e2e1af6ff3df5ad4b319e8f30d1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 42/92] fix: a column of a nested query without primitive type
 is an error

---
 src/parse/Sema.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index d9c934c..a7ac8b2 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -355,10 +355,9 @@ void Sema::operator()(Designator &e)
         const Type * operator()(const Attribute *attr) const { return attr->type; }
         const Type * operator()(const Expr *expr) const { return expr->type_; }
     };
-    const PrimitiveType *pt = cast<const PrimitiveType>(std::visit(get_type(), e.target_));
-    e.type_ = pt;
+    e.type_ = std::visit(get_type(), e.target_);
 
-    if (not is_result)
+    if (auto pt = cast<const PrimitiveType>(e.type()); pt and not is_result)
         e.type_ = pt->as_vectorial();
 
     /* Check if any context between current context and found context is in stage `S_FROM`. */
@@ -1227,8 +1226,15 @@ void Sema::operator()(FromClause &c)
             /* Add the results of the nested statement to the list of sources. */
             auto res = Ctx.sources.emplace(src.alias.text, std::make_pair(std::move(results), source_counter++));
             /* Convert scalar results to vectorials. */
-            for (auto &[_, result] : inner_ctx.results)
-                result.expr().type_ = as<const PrimitiveType>(result.expr().type())->as_vectorial();
+            for (auto &[name, result] : inner_ctx.results) {
+                auto &expr = result.expr();
+                if (auto pt = cast<const PrimitiveType>(expr.type())) {
+                    expr.type_ = pt->as_vectorial();
+                } else if (not expr.type()->is_error()) {
+                    diag.e(expr.tok.pos) << "Result " << name << " of nested query must be of primitive type.\n";
+                    expr.type_ = Type::Get_Error();
+                }
+            }
             /* Check if the table name is already in use in other contexts. */
             bool unique = true;
             for (std::size_t i = 0; i < contexts_.size() - 1; ++i) {
-- 
2.43.0


From a1507b259a198ff48eaa84da696f4f7c690ac74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 43/92] fix: only names denote functions

---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index a7ac8b2..5761a0f 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -506,8 +506,8 @@ void Sema::operator()(FnApplicationExpr &e)
     /* Analyze function name. */
     auto d = cast<Designator>(e.fn.get());
     if (not d or not d->is_identifier()) {
-        diag.e(d->attr_name.pos) << *d << " is not a valid function.\n";
-        d->type_ = e.type_ = Type::Get_Error();
+        diag.e(e.fn->tok.pos) << *e.fn << " is not a valid function.\n";
+        e.fn->type_ = e.type_ = Type::Get_Error();
         return;
     }
     M_insist(bool(d));
-- 
2.43.0


From 5bda633216b3d5da3708b6a69f6f43abbef0030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 44/92] fix: ORDER BY NULL is an error

---
 src/parse/Sema.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 5761a0f..67b45ce 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1361,7 +1361,13 @@ void Sema::operator()(OrderByClause &c)
         if (e->contains_free_variables())
             diag.e(e->tok.pos) << *e << " contains free variable(s) (not yet supported).\n";
 
-        auto pt = as<const PrimitiveType>(e->type());
+        auto pt = cast<const PrimitiveType>(e->type());
+
+        /* Can only order by expressions of primitive type. */
+        if (not pt) {
+            diag.e(c.tok.pos) << "Cannot order by " << *e << ", has invalid type.\n";
+            continue;
+        }
 
         if (Ctx.needs_grouping) { // w/ grouping
             /* If we grouped, the grouping keys now have scalar type. */
-- 
2.43.0


From 6baa2370a812a419874bc37b7f7f442ff8a0ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 45/92] fix: an expression of no type is no value to insert

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 67b45ce..b240747 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1865,7 +1865,7 @@ void Sema::operator()(InsertStmt &s)
                 case InsertStmt::I_Expr: {
                     (*this)(*v.second);
                     if (v.second->type()->is_error()) continue;
-                    auto ty = as<const PrimitiveType>(v.second->type());
+                    auto ty = v.second->type();
                     if (ty->is_boolean() and attr.type->is_boolean())
                         break;
                     if (ty->is_character_sequence() and attr.type->is_character_sequence())
-- 
2.43.0


From 61eaf0eb5fb18ba04552abb7e3afef0786779cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 46/92] fix: UPDATE and DELETE are reported as not supported

---
 src/parse/Sema.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index b240747..9bdd88d 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1903,16 +1903,14 @@ void Sema::operator()(UpdateStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "UPDATE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DeleteStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "DELETE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DSVImportStmt &s)
-- 
2.43.0


From bdaf205272eb473cb87abb836edc407754766f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 47/92] fix: invalid grouping keys and nested queries are
 errors, not crashes

---
 src/parse/AST.cpp  | 4 ++--
 src/parse/Sema.cpp | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/parse/AST.cpp b/src/parse/AST.cpp
index ce8ad3f..f20ccc9 100644
--- a/src/parse/AST.cpp
+++ b/src/parse/AST.cpp
@@ -261,7 +261,7 @@ bool QueryExpr::is_constant() const
     auto &stmt = as<const SelectStmt>(*query);
     if (stmt.from) return false;
     auto &select = as<const SelectClause>(*stmt.select);
-    M_insist(select.select.size() == 1);
+    if (select.select_all or select.select.size() != 1) return false; // invalid, reported by semantic analysis
     if (not select.select[0].first->is_constant())
         return false;
     return true;
@@ -271,7 +271,7 @@ bool QueryExpr::can_be_null() const
 {
     auto &stmt = as<const SelectStmt>(*query);
     auto &select = as<const SelectClause>(*stmt.select);
-    M_insist(select.select.size() == 1);
+    if (select.select_all or select.select.size() != 1) return true; // invalid, reported by semantic analysis
     if (select.select[0].first->can_be_null())
         return true;
     return false;
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 9bdd88d..f666c4d 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -184,10 +184,8 @@ void Sema::operator()(Designator &e)
         } else if (std::distance(begin, end) == 1) {
             auto &referenced_expr = begin->second.get();
             e.type_ = referenced_expr.type();
-            if (auto pt = cast<const PrimitiveType>(e.type()))
+            if (auto pt = cast<const PrimitiveType>(e.type())) // otherwise, an error has been reported already
                 e.type_ = pt->as_scalar();
-            else
-                M_insist(e.type()->is_error(), "grouping expression must be of primitive type");
             e.target_ = &referenced_expr;
             return;
         }
@@ -1050,10 +1048,8 @@ void Sema::operator()(SelectClause &c)
                     oss << *expr;
                     d = create_designator(C.pool(oss.str().c_str()), expr->tok, *expr);
                 }
-                if (auto ty = cast<const PrimitiveType>(d->type()))
+                if (auto ty = cast<const PrimitiveType>(d->type())) // otherwise, an error has been reported already
                     d->type_ = ty->as_scalar();
-                else
-                    M_insist(d->type()->is_error(), "grouping key must be of primitive type");
                 auto attr_name = d->attr_name.text.assert_not_none();
                 auto &ref = c.expanded_select_all.emplace_back(std::move(d));
                 (*this)(*ref);
-- 
2.43.0


From f5f11a6f182581a1fdca4b04d3aeba7ff34f3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 48/92] fix: functions in values to insert are errors, not
 crashes

---
 src/parse/Sema.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index f666c4d..a16df62 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -677,7 +677,10 @@ void Sema::operator()(FnApplicationExpr &e)
 
     switch (Ctx.stage) {
         case SemaContext::S_From:
-            M_unreachable("Function application in FROM clause is impossible");
+            /* There is no function application in the FROM clause, but in statements without clauses, e.g. INSERT. */
+            diag.e(d->attr_name.pos) << "Function " << d->attr_name.text << " must not be used here.\n";
+            e.type_ = Type::Get_Error();
+            return;
 
         case SemaContext::S_Where:
             if (e.func_->is_aggregate()) {
-- 
2.43.0


From 9a0305ad58df09707e42ca598800e14b26c4df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 49/92] fix: a decimal of one digit occupies a byte

---
 include/mutable/catalog/Type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..7d5e042 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <exception>
 #include <functional>
 #include <mutable/util/fn.hpp>
@@ -434,7 +435,7 @@ private:
         switch (kind) {
             case N_Int: return 8 * precision;
             case N_Float: return precision;
-            case N_Decimal: return ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision)));
+            case N_Decimal: return std::max<uint64_t>(8, ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision))));
         }
         M_unreachable("illegal kind");
     }
-- 
2.43.0


From 44c98c3447698a1038fa7fa6b20115c86bc01cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 50/92] fix: reject columns of numeric types that are not
 supported

---
 src/parse/Sema.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index a16df62..1519ba6 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1516,6 +1516,18 @@ void Sema::operator()(CreateTableStmt &s)
                                    << ".\n";
             return;
         }
+        if (auto n = cast<const Numeric>(ty)) {
+            const bool is_supported =
+                n->kind == Numeric::N_Int ? n->precision == 1 or n->precision == 2 or n->precision == 4 or n->precision == 8
+                                          : n->kind == Numeric::N_Float or
+                                            (n->precision >= 1 and n->precision <= Numeric::MAX_DECIMAL_PRECISION and
+                                             n->scale <= n->precision);
+            if (not is_supported) {
+                diag.e(attr->name.pos) << "Attribute " << attr->name.text << " cannot be defined with type "
+                                       << *attr->type << ".\n";
+                return;
+            }
+        }
         attr->type = ty->as_vectorial(); // convert potentially scalar type to vectorial
 
         /* Before we check the constraints, we must add this newly declared attribute to its table, and hence to the
-- 
2.43.0


From 906f90257c042bbbb21660d139e8f92a6a336a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 51/92] fix: the wildcards of LIKE match newlines, too

---
 include/mutable/util/fn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a349555..3d3ca70 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -349,10 +349,10 @@ inline std::regex pattern_to_regex(const char *pattern, const bool optimize = fa
                 ss << *c;
                 break;
             case '%':
-                ss << "(.*)";
+                ss << R"(([\s\S]*))";
                 break;
             case '_':
-                ss << '.';
+                ss << R"([\s\S])";
                 break;
             case '[':
             case ']':
-- 
2.43.0


From 42a8991f1c66f4368a8ca9daccd7844df64c38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 52/92] fix: insertion into sorted vectors

---
 include/mutable/util/ADT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 8b26e29..fe9c384 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -814,7 +814,7 @@ struct sorted_vector
     }
 
     /** Inserts `value` into this `sorted_vector`.  Returns an `iterator` pointing to the inserted element. */
-    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value), value, comp_); }
+    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value, comp_), value); }
 
     /** Inserts elements in the range from `first` (including) to `last` (excluding) into this `sorted_vector. */
     template<typename InsertIt>
-- 
2.43.0


From ba880fdff2e5e9cf3343178017bc83cc292ff44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 53/92] fix: erasing an element of a list must destroy it

---
 include/mutable/util/ADT.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index fe9c384..ea2e48b 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -601,6 +601,7 @@ struct doubly_linked_list
             next->ptrxor_ ^= reinterpret_cast<std::uintptr_t>(pos.node_) ^ reinterpret_cast<std::uintptr_t>(prev);
         else // erased last node
             tail_ = prev;
+        pos.node_->value_.~value_type();
         deallocate_node(pos.node_);
         --size_;
         return iterator(next, pos.prev_);
-- 
2.43.0


From e739be6508691c3d36c59dc2cc9639fc4fbc8c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 54/92] fix: iteration over a hash map starts at an occupied
 entry

---
 src/util/container/RefCountingHashMap.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index e8f1f12..afec3b0 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -203,9 +203,9 @@ struct RefCountingHashMap
     }
     size_type watermark_high() const { return watermark_high_; }
 
-    iterator begin() { return iterator(*this, table_); }
+    iterator begin() { return iterator(*this, first_occupied()); }
     iterator end()   { return iterator(*this, table_ + capacity()); }
-    const_iterator begin() const { return const_iterator(*this, table_); }
+    const_iterator begin() const { return const_iterator(*this, first_occupied()); }
     const_iterator end()   const { return const_iterator(*this, table_ + capacity()); }
     const_iterator cbegin() const { return begin(); }
     const_iterator cend()   const { return end(); }
@@ -402,6 +402,13 @@ M_LCOV_EXCL_STOP
         return p;
     }
 
+    /** Returns a pointer to the first occupied entry, or to the end of the table if there is none. */
+    entry_type * first_occupied() const {
+        entry_type *p = table_;
+        while (p != table_ + capacity_ and p->probe_length == 0) ++p;
+        return p;
+    }
+
     void initialize() {
         for (auto runner = table_, end = table_ + capacity_; runner != end; ++runner)
             new (runner) entry_type();
-- 
2.43.0


From f1387abfcadf8177fd4fb332faef51de38f4fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 55/92] fix: a shared pointer deletes its object as what it was
 created

---
 include/mutable/util/unsharable_shared_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/unsharable_shared_ptr.hpp b/include/mutable/util/unsharable_shared_ptr.hpp
index 4ba3598..155bb26 100644
--- a/include/mutable/util/unsharable_shared_ptr.hpp
+++ b/include/mutable/util/unsharable_shared_ptr.hpp
@@ -34,12 +34,13 @@ struct unsharable_shared_ptr : public std::shared_ptr<T>
     ///> parameter type to enable accessing the custom deleter even if the `this` was constructed/assigned from another
     ///> `unsharable_shared_ptr` of a *compatible* type, e.g. qualified without `const` or a derived class
     using deleter_func_type = void(*)(const void*);
-    static void default_deleter(const void *ptr) { delete (T*) ptr; }
+    template<typename Y>
+    static void default_deleter(const void *ptr) { delete (Y*) ptr; }
     static void noop_deleter(const void*) { }
 
     public:
     template<typename Y>
-    explicit unsharable_shared_ptr(Y *ptr) : super(ptr, &unsharable_shared_ptr::default_deleter) { }
+    explicit unsharable_shared_ptr(Y *ptr) : super(ptr, &unsharable_shared_ptr::template default_deleter<Y>) { }
 
     unsharable_shared_ptr() : super(nullptr) { }
     explicit unsharable_shared_ptr(std::nullptr_t) : super(nullptr) { }
-- 
2.43.0


From 83e5925f2c6e3de1b3012eafefdd3c8856bd2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 56/92] fix: an empty address space has no memory to unmap

---
 src/util/memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 2978054..e6afbdf 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -58,6 +58,7 @@ Memory Allocator::create_memory(void *addr, std::size_t size, std::size_t offset
  *====================================================================================================================*/
 
 AddressSpace::AddressSpace(std::size_t size)
+    : AddressSpace()
 {
     if (size != 0) {
         auto aligned_size = Ceil_To_Next_Page(size);
-- 
2.43.0


From 1fc6592a2ad1cf0c43b556c75715816251432cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 57/92] fix: PAX layouts of a single row per block

Leaves of a block of a single row must not have a stride, the padding of
tiny blocks must not underflow, and a row must be given as many blocks as
it needs including the padding of its columns.
---
 src/storage/DataLayoutFactory.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 6c024b1..7dce1b5 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -176,13 +176,17 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
         /* Compute number of rows within a PAX block. Consider worst case padding of 7 bits (because each column within
          * a PAX block must be byte aligned) for every possibly not byte-aligned attribute column. Null bitmap column is
          * ignored since it is the last column. */
-        num_rows_per_block = std::max<std::size_t>(1, (num_bytes_ * 8 - num_not_byte_aligned * 7) / row_size_in_bits);
+        const uint64_t padding_in_bits = std::min<uint64_t>(num_bytes_ * 8, num_not_byte_aligned * 7);
+        num_rows_per_block = std::max<std::size_t>(1, (num_bytes_ * 8 - padding_in_bits) / row_size_in_bits);
         if (num_rows_per_block > num_simd_lanes)
             num_rows_per_block =
                 (num_rows_per_block / num_simd_lanes) * num_simd_lanes; // floor to multiple of possible number of SIMD lanes
         if (options::pax_pack_one_tuple_less and num_rows_per_block > 1)
             --num_rows_per_block;
-        num_blocks_per_row = (row_size_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
+        /* A row spans multiple blocks only if a single row, including the padding of its columns, exceeds one block. */
+        const uint64_t single_row_size_in_bits = row_size_in_bits + num_not_byte_aligned * 7;
+        num_blocks_per_row =
+            num_rows_per_block > 1 ? 1UL : (single_row_size_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
     }
 
     /*----- Compute column offsets. -----*/
@@ -215,13 +219,13 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     DataLayout layout(num_tuples);
     auto &pax_block = layout.add_inode(num_rows_per_block, num_blocks_per_row * block_size_in_bits);
     for (std::size_t idx = 0; idx != types.size(); ++idx)
-        pax_block.add_leaf(types[idx], idx, offsets[idx], types[idx]->size());
+        pax_block.add_leaf(types[idx], idx, offsets[idx], num_rows_per_block > 1 ? types[idx]->size() : 0);
     if (not options::remove_null_bitmap) {
         pax_block.add_leaf( // add NULL bitmap
             /* type=           */ Type::Get_Bitmap(Type::TY_Vector, types.size()),
             /* idx=            */ types.size(),
             /* offset_in_bits= */ offsets[types.size()],
-            /* stride_in_bits= */ null_bitmap_size_in_bits
+            /* stride_in_bits= */ num_rows_per_block > 1 ? null_bitmap_size_in_bits : 0
         );
     }
 
-- 
2.43.0


From 266f2fc94ee149aa10bdafc37203d0cd3f0f278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 58/92] fix: operands of the stack machine are not limited to
 one byte

Programs with more than 256 context values, e.g. for loading and storing
rows of tables with many attributes, silently accessed wrong values.
---
 src/backend/StackMachine.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/backend/StackMachine.hpp b/src/backend/StackMachine.hpp
index 86b2bfe..994bd44 100644
--- a/src/backend/StackMachine.hpp
+++ b/src/backend/StackMachine.hpp
@@ -29,7 +29,7 @@ struct StackMachine
 
     static constexpr std::size_t SIZE_OF_MEMORY = 4 * 1024; // 4 KiB
 
-    enum class Opcode : uint8_t
+    enum class Opcode : uint32_t
     {
 #define M_OPCODE(CODE, ...) CODE,
 #include "tables/Opcodes.tbl"
@@ -129,14 +129,14 @@ struct StackMachine
      * the opcode `Pop`, we will define a function `emit_Pop()`, that appends the `Pop` opcode to the current opcode
      * sequence.  For opcodes that require an argument, a function with the respective parameter is defined and that
      * parameter is inserted into the opcode sequence.  For example, the opcode `Ld_Ctx` requires a single parameter
-     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint8_t idx)`, that first
+     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint32_t idx)`, that first
      * appends the `Ld_Ctx` opcode to the opcode sequence and then appends the `idx` parameter to the opcode sequence.
      */
 #define SELECT(XXX, _1, _2, _3, FN, ...) FN(__VA_ARGS__)
 #define ARGS_0(XXX, ...)
-#define ARGS_1(I, XXX, ARG0, ...) uint8_t ARG0
-#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint8_t ARG0, uint8_t ARG1
-#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint8_t ARG0, uint8_t ARG1, uint8_t ARG2
+#define ARGS_1(I, XXX, ARG0, ...) uint32_t ARG0
+#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint32_t ARG0, uint32_t ARG1
+#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint32_t ARG0, uint32_t ARG1, uint32_t ARG2
 #define ARGS(...) SELECT(__VA_ARGS__, ARGS_3, ARGS_2, ARGS_1, ARGS_0, __VA_ARGS__)
 #define PUSH_0(XXX, ...)
 #define PUSH_1(I, XXX, ARG0, ...) \
-- 
2.43.0


From 8cd7a50a7650f1f2b3882baa1d02ee615d53f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 59/92] fix: recursive model indexes answer correctly for any
 prediction

A prediction past the last entry dereferenced memory behind the entries,
and keys such as infinities lead to NaN predictions and thereby to
accesses out of bounds or exhausted memory.
---
 include/mutable/storage/Index.hpp | 17 +++++++++++------
 src/storage/Index.cpp             |  3 ++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 7c6deb3..c5b1da0 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -185,7 +185,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
             if (n == 0) return { 0.0, 0.0 };
             if (n == 1) return { 0.0, static_cast<double>(offset) * compression_factor };
             double numerator = static_cast<double>(n); // (offset + n) - offset
-            double denominator = static_cast<double>((*(last - 1)).first - (*first).first);
+            double denominator = static_cast<double>((*(last - 1)).first) - static_cast<double>((*first).first);
             double slope = denominator != 0 ? numerator/denominator * compression_factor : 0.0;
             double intercept = offset * compression_factor - slope * (*first).first;
             return { slope, intercept };
@@ -267,16 +267,21 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     void dump() const override { dump(std::cerr); }
 
     private:
+    /** Clamps the prediction \p pred of a `LinearModel` to the range from 0 to \p max.  Note that a model trained on
+     * extreme keys may predict NaN, which is mapped to 0. */
+    static std::size_t clamp_prediction(double pred, std::size_t max) {
+        if (not (pred > 0)) return 0;
+        return pred < static_cast<double>(max) ? static_cast<std::size_t>(pred) : max;
+    }
     std::size_t predict(const key_type key) const {
-        auto segment_id = std::clamp<double>(models_[0](key), 0, models_.size() - 2);
-        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, base_type::num_entries());
-        return static_cast<std::size_t>(pred);
+        auto segment_id = clamp_prediction(models_[0](key), models_.size() - 2);
+        return clamp_prediction(models_[segment_id + 1](key), base_type::num_entries());
     }
     const_iterator lower_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
         auto end = base_type::end();
         std::size_t bound = 1;
-        if (base_type::cmp(*pred, value)) { // search right side
+        if (pred != end and base_type::cmp(*pred, value)) { // search right side
             auto prev = pred;
             auto curr = prev + bound;
             while (curr < end and base_type::cmp(*curr, value)) {
@@ -300,7 +305,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
         auto begin = base_type::begin();
         auto end = base_type::end();
         std::size_t bound = 1;
-        if (not base_type::cmp(value, *pred)) { // search right side
+        if (pred != end and not base_type::cmp(value, *pred)) { // search right side
             auto prev = pred;
             auto curr = prev + bound;
             while (curr < end and not base_type::cmp(value, *curr)) {
diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index f16039b..3ebe7be 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -170,6 +170,7 @@ void RecursiveModelIndex<Key>::finalize()
     auto end = base_type::end();
     std::size_t n_keys = std::distance(begin, end);
     std::size_t n_models = std::max<std::size_t>(1, n_keys * options::rmi_model_entry_ratio);
+    models_.clear();
     models_.reserve(n_models + 1);
 
     /* Train first layer. */
@@ -183,7 +184,7 @@ void RecursiveModelIndex<Key>::finalize()
     );
 
     /* Train second layer. */
-    auto get_segment_id = [&](entry_type e) { return std::clamp<double>(models_[0](e.first), 0, n_models - 1);  };
+    auto get_segment_id = [&](entry_type e) { return clamp_prediction(models_[0](e.first), n_models - 1); };
     std::size_t segment_start = 0;
     std::size_t segment_id = 0;
     for (std::size_t i = 0; i != n_keys; ++i) {
-- 
2.43.0


From 307f1d7a1fb1544a541407a9aebd1276ff5e5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 60/92] fix: executing a CREATE TABLE statement with a CHECK
 constraint

execute_statement() aborted on CHECK constraints, which the CreateTable
command accepts.
---
 src/mutable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index fa433a1..5cc9cd0 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -255,6 +255,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                         auto &ref_attr = ref_table.at(ref.attr_name.text.assert_not_none());
                         T.at(attribute_name).reference = &ref_attr;
                     },
+                    [](const CheckConditionConstraint&) { /* not enforced, see `CreateTable` */ },
                     [](auto&&) { M_unreachable("constraint not implemented"); },
                 }, *c, tag<ConstASTConstraintVisitor>{});
             }
-- 
2.43.0


From f30186b827413c4ed049c8294c1ddd106f5aafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 61/92] fix: creating a table that exists by now is an error

The command dereferenced a null pointer if the table was created between
its analysis and its execution.
---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 88b1c88..132ff6c 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -269,6 +269,7 @@ void CreateTable::execute(Diagnostic &diag)
         table = &DB.add(std::move(table_));
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
+        return;
     }
 
     table->layout(C.data_layout());
-- 
2.43.0


From 00e52c42f6a87ec25aa5954f62a61efb232368a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 62/92] fix: an index that could not be bulkloaded is not added

The failed bulkload was reported but the empty index was added to the
database as a valid one.
---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 132ff6c..43d4b62 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -315,6 +315,7 @@ void CreateIndex::execute(Diagnostic &diag)
         M_TIME_EXPR(index_->bulkload(table, schema), "Bulkload index", C.timer());
     } catch (invalid_argument) {
         diag.err() << "Could not bulkload index." << '\n';
+        return;
     }
 
     /* Add index to database. */
-- 
2.43.0


From 0d9997e64900747a9cac880ec3ae7e1f04324381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 63/92] fix: importing rows invalidates the indexes of the
 table

---
 src/catalog/DatabaseCommand.cpp | 2 ++
 src/mutable.cpp                 | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 43d4b62..3983e63 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -213,6 +213,8 @@ void ImportDSV::execute(Diagnostic &diag)
             diag.err() << std::endl;
         } else {
             M_TIME_EXPR(R(file, path_.c_str()), "Read DSV file", C.timer());
+            /* Invalidate all indexes on the table. */
+            C.get_database_in_use().invalidate_indexes(table_.name());
         }
     } catch (m::invalid_argument e) {
         diag.err() << "Error reading DSV file: " << e.what() << "\n";
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 5cc9cd0..c689ffb 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -291,6 +291,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                 diag.err() << std::endl;
             } else {
                 M_TIME_EXPR(R(file, *S->path.text), "Read DSV file", timer);
+                /* Invalidate all indexes on the table. */
+                DB.invalidate_indexes(T.name());
             }
         } catch (m::invalid_argument e) {
             diag.err() << "Error reading DSV file: " << e.what() << "\n";
-- 
2.43.0


From 278e2dbaf2fdcd346e0847e781442ed1b78f20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 64/92] fix: an index method not available for a key type is an
 error

It was only printed, so that there was neither an error nor a command.
---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 1519ba6..ad3d8c1 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1735,7 +1735,7 @@ void Sema::operator()(CreateIndexStmt &s)
         if constexpr(requires { typename Index<Key>; }) {
             return std::make_unique<Index<Key>>();
         } else {
-            diag(s.method.pos) << "Index method not available for given key type.\n";
+            diag.e(s.method.pos) << "Index method not available for given key type.\n";
             return nullptr;
         }
     };
-- 
2.43.0


From d5e2b2f11119e6dc30a0aa4383fd203e43b95a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 65/92] fix: dropping a table removes the references to it

They dangled and were dereferenced for the schema of the referencing table.
---
 include/mutable/catalog/Schema.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..22efd77 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -929,6 +929,14 @@ struct M_EXPORT Database
         if (it == tables_.end())
             throw std::invalid_argument("Table of that name does not exist.");
         drop_indexes(name);
+        /* Remove references of other tables to the dropped table. */
+        for (auto &[_, table] : tables_) {
+            for (std::size_t i = 0; i != table->num_all_attrs(); ++i) {
+                auto &attr = (*table)[i];
+                if (attr.reference and attr.reference->table.name() == name)
+                    attr.reference = nullptr;
+            }
+        }
         tables_.erase(it);
     };
 
-- 
2.43.0


From a1ea242a0ff0565bae06f159bfa1b3cb31e584b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 66/92] fix: loading a CSV file invalidates the indexes of the
 table

---
 src/catalog/DatabaseCommand.cpp | 3 ++-
 src/mutable.cpp                 | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 3983e63..e0bfb41 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -214,7 +214,8 @@ void ImportDSV::execute(Diagnostic &diag)
         } else {
             M_TIME_EXPR(R(file, path_.c_str()), "Read DSV file", C.timer());
             /* Invalidate all indexes on the table. */
-            C.get_database_in_use().invalidate_indexes(table_.name());
+            if (auto &DB = C.get_database_in_use(); DB.has_table(table_.name()))
+                DB.invalidate_indexes(table_.name());
         }
     } catch (m::invalid_argument e) {
         diag.err() << "Error reading DSV file: " << e.what() << "\n";
diff --git a/src/mutable.cpp b/src/mutable.cpp
index c689ffb..a6699f5 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -408,6 +408,10 @@ void m::load_from_CSV(Diagnostic &diag, Table &table, const std::filesystem::pat
         diag.err() << std::endl;
     } else {
         R(file, path.c_str()); // read the file
+        /* Invalidate all indexes on the table. */
+        auto &C = Catalog::Get();
+        if (C.has_database_in_use() and C.get_database_in_use().has_table(table.name()))
+            C.get_database_in_use().invalidate_indexes(table.name());
     }
 
     if (diag.num_errors() != 0)
-- 
2.43.0


From f087a9398defd695d2f2f53421fc56e5a39c57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 67/92] fix: semantic analysis does not consume CHECK and
 REFERENCES constraints

The cast took them away from the statement, which then had null
constraints when executed by execute_statement().
---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ad3d8c1..8e4c085 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1567,7 +1567,7 @@ void Sema::operator()(CreateTableStmt &s)
                 T->at(attribute_name).not_nullable = true;
             }
 
-            if (auto check = cast<CheckConditionConstraint>(c)) {
+            if (auto check = cast<CheckConditionConstraint>(c.get())) {
                 /* Verify that the type of the condition is boolean. */
                 /* TODO if the condition uses already mentioned attributes, we must add them to the sema context before
                  * invoking semantic analysis of the condition! */
@@ -1577,7 +1577,7 @@ void Sema::operator()(CreateTableStmt &s)
                     diag.e(check->tok.pos) << "Condition " << *check->cond << " is an invalid CHECK constraint.\n";
             }
 
-            if (auto ref = cast<ReferenceConstraint>(c)) {
+            if (auto ref = cast<ReferenceConstraint>(c.get())) {
                 if (has_reference)
                     diag.e(ref->tok.pos) << "Attribute " << attr->name.text << " must not have multiple references.\n";
                 has_reference = true;
-- 
2.43.0


From 1a43327b6addcec8e2b7a8ade1ef918404f410af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:14 +0000
Subject: [PATCH 68/92] fix: the timer is reenabled if bulkloading an index
 fails

---
 src/storage/Index.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index 3ebe7be..1390a54 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -58,7 +58,11 @@ template<typename Key>
 void ArrayIndex<Key>::bulkload(const Table &table, const Schema &key_schema)
 {
     /* XXX: Disable timer during execution to not print times for query that is performed as part of bulkloading. */
-    const auto &old_timer = std::exchange(Catalog::Get().timer(), Timer());
+    struct TimerGuard
+    {
+        Timer old_timer = std::exchange(Catalog::Get().timer(), Timer());
+        ~TimerGuard() { Catalog::Get().timer() = std::move(old_timer); } // reenable timer, also on exceptions
+    } timer_guard;
 
     /* Check that key schema contains a single entry. */
     if (key_schema.num_entries() != 1)
@@ -138,9 +142,6 @@ void ArrayIndex<Key>::bulkload(const Table &table, const Schema &key_schema)
 
     /* Finalize index. */
     finalize();
-
-    /* XXX: Reenable timer. */
-    std::exchange(Catalog::Get().timer(), std::move(old_timer));
 }
 
 template<typename Key>
-- 
2.43.0


From 99b23dc667c448e8fa03541ab289f7c2ad379064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 69/92] fix: skipping an empty header does not skip the first
 row

---
 src/io/DSVReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..881190b 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -79,7 +79,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
+            if (c != '\n') // header is not empty
+                in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
             c = '\n';
             step(); // skip newline
         }
-- 
2.43.0


From 5b1b86db62fe46b2ada5dc8fb7fa732a27a04fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 70/92] fix: an empty last field at the end of a file is NULL

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 881190b..4c9401f 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -112,7 +112,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and (c == EOF or c == '\n')) or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
-- 
2.43.0


From be48350ee05faa628674ffd0f2c449faf1bd8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 71/92] fix: a row with too many fields is not appended

---
 src/io/DSVReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 4c9401f..9599d1a 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -126,6 +126,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the malformed row
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From 2c42d80b7bc0eb31a5181793676d26e019e63020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 72/92] fix: a malformed Boolean is imported as NULL

---
 src/io/DSVReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 9599d1a..93dfef8 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -164,8 +164,10 @@ void DSVReader::operator()(Const<Boolean>&)
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx);
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
-- 
2.43.0


From dd4e14ec187d0cbe3a893c96238afafbe9d0f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 73/92] fix: quoted cells are discarded entirely

---
 include/mutable/io/Reader.hpp | 19 ++++++++---
 src/io/DSVReader.cpp          | 63 ++++++++++++++++++++---------------
 2 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..1d0a789 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -120,17 +120,26 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
 
     bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
 
+    /** Discards the characters up to the end of the cell. */
+    void discard_remainder() { while (c != EOF and c != '\n' and c != config().delimiter) { step(); } }
+    /** Discards the characters up to the end of the quotation, which must be on the same line. */
+    void discard_quoted() {
+        while (c != EOF and c != '\n' and c != config().quote) { step(); }
+        accept(config().quote);
+    }
+    /** Discards an entire cell. */
     void discard_cell() {
         if (c == config().quote) {
-            step();
-            while (c != EOF and c != '\n' and c != config().quote) { step(); }
-            accept(config().quote);
-        } else
-            while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+            buf.clear();
+            read_quoted();
+        }
+        discard_remainder();
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
     int64_t read_unsigned_int();
+    /** Reads a quoted string, without its quotes, into `buf`. */
+    void read_quoted();
 };
 
 }
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 93dfef8..1ae2c19 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -118,7 +118,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 }
                 col_idx = col->id;
                 (*this)(*col->type); // dynamic dispatch based on column type
-                discard_cell(); // discard remainder of the cell
+                discard_remainder(); // discard remainder of the cell
             } else {
                 discard_cell();
             }
@@ -177,32 +177,8 @@ void DSVReader::operator()(Const<CharacterSequence>&)
      * supported.  Note that EOF implicitly closes quoted strings.
      * Source: https://tools.ietf.org/html/rfc4180#section-2 */
     buf.clear();
-    if (accept(config().quote)) {
-        if (config().escape == config().quote) { // RFC 4180
-            while (c != EOF) {
-                if (c != config().quote) {
-                    push();
-                } else {
-                    step();
-                    if (c == config().quote)
-                        push();
-                    else
-                        break;
-                }
-            }
-        } else {
-            while (c != EOF) {
-                if (c == config().quote) {
-                    step();
-                    break;
-                } else if (c == config().escape) {
-                    step();
-                    push();
-                } else {
-                    push();
-                }
-            }
-        }
+    if (c == config().quote) {
+        read_quoted();
     } else {
         while (c != EOF and c != '\n' and c != config().delimiter) {
             if (c == config().quote) {
@@ -249,6 +225,7 @@ void DSVReader::operator()(Const<Date>&)
 invalid:
     diag.e(pos) << "WARNING: Invalid date.\n";
     tup.null(col_idx);
+    if (has_quote) discard_quoted();
 }
 
 void DSVReader::operator()(Const<DateTime>&)
@@ -284,6 +261,7 @@ void DSVReader::operator()(Const<DateTime>&)
 invalid:
     diag.e(pos) << "WARNING: Invalid datetime.\n";
     tup.null(col_idx);
+    if (has_quote) discard_quoted();
 }
 
 void DSVReader::operator()(Const<Numeric> &ty)
@@ -387,3 +365,34 @@ int64_t DSVReader::read_unsigned_int()
     }
     return i;
 }
+
+void DSVReader::read_quoted()
+{
+    step(); // opening quote
+    if (config().escape == config().quote) { // RFC 4180
+        while (c != EOF) {
+            if (c != config().quote) {
+                push();
+            } else {
+                step();
+                if (c == config().quote)
+                    push();
+                else
+                    break;
+            }
+        }
+    } else {
+        while (c != EOF) {
+            if (c == config().quote) {
+                step();
+                break;
+            } else if (c == config().escape) {
+                step();
+                if (c != EOF)
+                    push();
+            } else {
+                push();
+            }
+        }
+    }
+}
-- 
2.43.0


From 8c19a7fc2b2de4c7f640e52107b513cfe5ebb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 74/92] fix: invalid dates are not imported

---
 src/io/DSVReader.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1ae2c19..770feb0 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -4,6 +4,8 @@
 #include "backend/StackMachine.hpp"
 #include <cctype>
 #include <cerrno>
+#include <cstdio>
+#include <cstring>
 #include <exception>
 #include <iterator>
 #include <limits>
@@ -20,6 +22,25 @@ using namespace m;
 using namespace m::storage;
 
 
+namespace {
+
+/** Returns `true` iff month and day of the date in \p str are valid. */
+bool is_valid_date(const char *str)
+{
+    int year, month, day;
+    return 3 == sscanf(str, "%d-%d-%d", &year, &month, &day) and 1 <= month and month <= 12 and 1 <= day and day <= 31;
+}
+
+/** Returns `true` iff date and time of the datetime in \p str are valid. */
+bool is_valid_datetime(const char *str)
+{
+    int hour, minute, second;
+    return is_valid_date(str) and 3 == sscanf(strchr(str, ' '), "%d:%d:%d", &hour, &minute, &second) and
+           hour < 24 and minute < 60 and second < 60;
+}
+
+}
+
 DSVReader::DSVReader(const Table &table, Config cfg, Diagnostic &diag, Scheduler::Transaction *transaction)
     : Reader(table, diag, transaction)
     , cfg_(cfg)
@@ -213,6 +234,10 @@ void DSVReader::operator()(Const<Date>&)
     if ('-' == c) push(); else goto invalid;
     DIGITS(2);
 #undef DIGITS
+    buf.push_back(0);
+    if (not is_valid_date(&buf[2]))
+        goto invalid;
+    buf.pop_back();
     if (has_quote and not accept(config().quote))
         goto invalid;
 
@@ -250,6 +275,10 @@ void DSVReader::operator()(Const<DateTime>&)
     if (':' == c) push(); else goto invalid;
     DIGITS(2);
 #undef DIGITS
+    buf.push_back(0);
+    if (not is_valid_datetime(&buf[2]))
+        goto invalid;
+    buf.pop_back();
     if (has_quote and not accept(config().quote))
         goto invalid;
 
-- 
2.43.0


From 91305b0de5b3cc8069eedd9c218e9d7181905bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 75/92] fix: malformed numbers and numbers out of range are not
 imported

---
 include/mutable/io/Reader.hpp |  3 +-
 src/io/DSVReader.cpp          | 52 +++++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index 1d0a789..2ec9e14 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -137,7 +137,8 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
-    int64_t read_unsigned_int();
+    /** Reads digits into \p i and returns `true` iff there is at least one digit and the number does not overflow. */
+    bool read_unsigned_int(uint64_t &i);
     /** Reads a quoted string, without its quotes, into `buf`. */
     void read_quoted();
 };
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 770feb0..cc01dc2 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -39,6 +39,12 @@ bool is_valid_datetime(const char *str)
            hour < 24 and minute < 60 and second < 60;
 }
 
+/** Returns `true` iff the number with magnitude \p magnitude can be stored as \p ty. */
+bool is_in_range(uint64_t magnitude, bool is_negative, const Numeric &ty)
+{
+    return magnitude <= (uint64_t(1) << (ty.size() - 1)) - (is_negative ? 0 : 1);
+}
+
 }
 
 DSVReader::DSVReader(const Table &table, Config cfg, Diagnostic &diag, Scheduler::Transaction *transaction)
@@ -302,15 +308,20 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t i = read_unsigned_int();
+            uint64_t i;
+            const bool is_valid = read_unsigned_int(i);
             if (c != EOF and c != '\n' and c != config().delimiter) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
                 while (c != EOF and c != '\n' and c != config().delimiter) step();
                 return;
             }
-            if (is_neg) i = -i;
-            tup.set(col_idx, i);
+            if (not is_valid or not is_in_range(i, is_neg, ty)) {
+                diag.e(pos) << "WARNING: Invalid integer or integer out of range.\n";
+                tup.null(col_idx);
+                return;
+            }
+            tup.set(col_idx, int64_t(is_neg ? -i : i));
             break;
         }
 
@@ -322,12 +333,16 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t d = read_unsigned_int();
-            // std::cerr << "Read: " << d;
-            d = d * powi(10, scale);
+            const bool has_digits = is_dec(c);
+            uint64_t d;
+            bool is_valid = read_unsigned_int(d) or not has_digits;
+            if (__builtin_mul_overflow(d, uint64_t(powi(10, scale)), &d))
+                is_valid = false;
+            bool has_fraction = false;
             if (accept('.')) {
                 /* Read post dot digits. */
-                int64_t post_dot = 0;
+                uint64_t post_dot = 0;
+                has_fraction = is_dec(c);
                 auto n = scale;
                 while (n > 0 and is_dec(c)) {
                     post_dot = 10 * post_dot + c - '0';
@@ -337,7 +352,8 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 post_dot *= powi(10, n);
                 /* Discard further digits */
                 while (is_dec(c)) { step(); }
-                d += d >= 0 ? post_dot : -post_dot;
+                if (__builtin_add_overflow(d, post_dot, &d))
+                    is_valid = false;
             }
             if (c != EOF and c != '\n' and c != config().delimiter) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
@@ -345,8 +361,12 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 while (c != EOF and c != '\n' and c != config().delimiter) step();
                 return;
             }
-            if (is_neg) d = -d;
-            tup.set(col_idx, d);
+            if (not is_valid or not (has_digits or has_fraction) or not is_in_range(d, is_neg, ty)) {
+                diag.e(pos) << "WARNING: Invalid decimal or decimal out of range.\n";
+                tup.null(col_idx);
+                return;
+            }
+            tup.set(col_idx, int64_t(is_neg ? -d : d));
             break;
         }
 
@@ -369,7 +389,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 d = std::numeric_limits<double>::max();
             } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = std::numeric_limits<double>::lowest();
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
@@ -385,14 +405,16 @@ void DSVReader::operator()(Const<NoneType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<Bitmap>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<FnType>&) { M_unreachable("invalid type"); }
 
-int64_t DSVReader::read_unsigned_int()
+bool DSVReader::read_unsigned_int(uint64_t &i)
 {
-    int64_t i = 0;
+    bool is_valid = is_dec(c);
+    i = 0;
     while (is_dec(c)) {
-        i = 10 * i + c - '0';
+        if (__builtin_mul_overflow(i, uint64_t(10), &i) or __builtin_add_overflow(i, uint64_t(c - '0'), &i))
+            is_valid = false;
         step();
     }
-    return i;
+    return is_valid;
 }
 
 void DSVReader::read_quoted()
-- 
2.43.0


From c535abe9335193fddae90833fb74a8548304abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:04 +0000
Subject: [PATCH 76/92] fix: a character 0xff does not end an imported file

---
 include/mutable/io/Reader.hpp | 16 ++++++++++------
 src/io/DSVReader.cpp          | 34 +++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index 2ec9e14..7c89944 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -70,8 +70,11 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     private:
     Config cfg_;
 
+    ///> the end of the file, distinct from every character
+    static constexpr int EndOfFile = 256;
+
     Position pos;
-    char c;
+    int c;
     std::istream *in = nullptr;
     std::vector<char> buf;
     Tuple tup; ///< intermediate tuple to store values of a row
@@ -107,13 +110,14 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
             case '\n':
                 pos.column = 1;
                 pos.line++;
-            case EOF:
+            case EndOfFile:
                 break;
 
             default:
                 pos.column++;
         }
-        return c = in->get();
+        const int next = in->get();
+        return c = next == std::istream::traits_type::eof() ? EndOfFile : static_cast<char>(next);
     };
 
     void push() { buf.push_back(c); step(); }
@@ -121,10 +125,10 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
 
     /** Discards the characters up to the end of the cell. */
-    void discard_remainder() { while (c != EOF and c != '\n' and c != config().delimiter) { step(); } }
+    void discard_remainder() { while (c != EndOfFile and c != '\n' and c != config().delimiter) { step(); } }
     /** Discards the characters up to the end of the quotation, which must be on the same line. */
     void discard_quoted() {
-        while (c != EOF and c != '\n' and c != config().quote) { step(); }
+        while (c != EndOfFile and c != '\n' and c != config().quote) { step(); }
         accept(config().quote);
     }
     /** Discards an entire cell. */
@@ -135,7 +139,7 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
         }
         discard_remainder();
     }
-    void discard_row() { while (c != EOF and c != '\n') { step(); } }
+    void discard_row() { while (c != EndOfFile and c != '\n') { step(); } }
 
     /** Reads digits into \p i and returns `true` iff there is at least one digit and the number does not overflow. */
     bool read_unsigned_int(uint64_t &i);
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index cc01dc2..28ac232 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -80,7 +80,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
 
     auto read_cell = [&]() -> ThreadSafePooledString {
         buf.clear();
-        while (c != EOF and c != '\n' and c != config().delimiter) {
+        while (c != EndOfFile and c != '\n' and c != config().delimiter) {
             buf.push_back(c);
             step();
         }
@@ -90,7 +90,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
 
     /*----- Handle header information. -------------------------------------------------------------------------------*/
     if (config().has_header and not config().skip_header) {
-        while (c != EOF and c != '\n') {
+        while (c != EndOfFile and c != '\n') {
             auto name = read_cell();
             const Attribute *attr = nullptr;
             try {
@@ -100,7 +100,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             if (c == config().delimiter)
                 step(); // discard delimiter
         }
-        M_insist(c == EOF or c == '\n');
+        M_insist(c == EndOfFile or c == '\n');
         step();
     } else {
         for (auto &attr : table)
@@ -139,7 +139,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and (c == EOF or c == '\n')) or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and (c == EndOfFile or c == '\n')) or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
@@ -150,7 +150,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 discard_cell();
             }
         }
-        if (c != EOF and c != '\n') {
+        if (c != EndOfFile and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
             --idx;
@@ -174,7 +174,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             (*W)(args); // write tuple to store
         }
 end_of_row:
-        M_insist(c == EOF or c == '\n');
+        M_insist(c == EndOfFile or c == '\n');
         step();
     }
 
@@ -185,7 +185,7 @@ end_of_row:
 void DSVReader::operator()(Const<Boolean>&)
 {
     buf.clear();
-    while (c != EOF and c != '\n' and c != config().delimiter) { push(); }
+    while (c != EndOfFile and c != '\n' and c != config().delimiter) { push(); }
     buf.push_back(0);
     if (streq("TRUE", &buf[0]))
         tup.set(col_idx, true);
@@ -207,12 +207,12 @@ void DSVReader::operator()(Const<CharacterSequence>&)
     if (c == config().quote) {
         read_quoted();
     } else {
-        while (c != EOF and c != '\n' and c != config().delimiter) {
+        while (c != EndOfFile and c != '\n' and c != config().delimiter) {
             if (c == config().quote) {
                 diag.e(pos) << "WARNING: Illegal character " << config().quote << " found in unquoted string.\n";
                 /* Entire cell is discarded. */
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (c != EndOfFile and c != '\n' and c != config().delimiter) step();
                 return;
             } else
                 push();
@@ -310,10 +310,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 accept('+');
             uint64_t i;
             const bool is_valid = read_unsigned_int(i);
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (c != EndOfFile and c != '\n' and c != config().delimiter) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (c != EndOfFile and c != '\n' and c != config().delimiter) step();
                 return;
             }
             if (not is_valid or not is_in_range(i, is_neg, ty)) {
@@ -355,10 +355,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 if (__builtin_add_overflow(d, post_dot, &d))
                     is_valid = false;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (c != EndOfFile and c != '\n' and c != config().delimiter) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (c != EndOfFile and c != '\n' and c != config().delimiter) step();
                 return;
             }
             if (not is_valid or not (has_digits or has_fraction) or not is_in_range(d, is_neg, ty)) {
@@ -372,7 +372,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
 
         case Numeric::N_Float: {
             std::string float_str;
-            while(c != EOF and c != '\n' and c != config().delimiter) {
+            while(c != EndOfFile and c != '\n' and c != config().delimiter) {
                 float_str += c;
                 step();
             }
@@ -421,7 +421,7 @@ void DSVReader::read_quoted()
 {
     step(); // opening quote
     if (config().escape == config().quote) { // RFC 4180
-        while (c != EOF) {
+        while (c != EndOfFile) {
             if (c != config().quote) {
                 push();
             } else {
@@ -433,13 +433,13 @@ void DSVReader::read_quoted()
             }
         }
     } else {
-        while (c != EOF) {
+        while (c != EndOfFile) {
             if (c == config().quote) {
                 step();
                 break;
             } else if (c == config().escape) {
                 step();
-                if (c != EOF)
+                if (c != EndOfFile)
                     push();
             } else {
                 push();
-- 
2.43.0


From db6262d5bd0dce4b82ba773486dc50dfa7b4e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 77/92] fix: the first data source is considered once when
 estimating a join of all

---
 src/catalog/CardinalityEstimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 190b395..032a0ce 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -362,7 +362,7 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
             std::cerr << "warning: failed to estimate the join of all data sources in " << to_join << '\n';
         auto ds_it = to_join.begin();
         std::size_t size = as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
-        for (; ds_it != to_join.end(); ++ds_it)
+        for (++ds_it; ds_it != to_join.end(); ++ds_it)
             size *= as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
         return std::make_unique<InjectionCardinalityDataModel>(to_join, size);
     }
-- 
2.43.0


From 14292bde9a3ebbd2f030c0b67950e60f76920a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 78/92] fix: cardinality estimates do not overflow

---
 src/catalog/CardinalityEstimator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 032a0ce..7422c39 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -15,6 +15,7 @@
 #include <mutable/IR/QueryGraph.hpp>
 #include <mutable/Options.hpp>
 #include <mutable/util/Diagnostic.hpp>
+#include <mutable/util/fn.hpp>
 #include <mutable/util/Pool.hpp>
 #include <nlohmann/json.hpp>
 
@@ -113,7 +114,7 @@ CartesianProductEstimator::estimate_join(const QueryGraph&, const DataModel &_le
     auto left = as<const CartesianProductDataModel>(_left);
     auto right = as<const CartesianProductDataModel>(_right);
     auto model = std::make_unique<CartesianProductDataModel>();
-    model->size = left.size * right.size; // this model cannot estimate the effects of a join condition
+    model->size = mul_wo_overflow(left.size, right.size); // this model cannot estimate the effects of a join condition
     return model;
 }
 
@@ -126,7 +127,7 @@ CartesianProductEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, con
     auto model = std::make_unique<CartesianProductDataModel>();
     model->size = 1UL;
     for (auto it = to_join.begin(); it != to_join.end(); ++it)
-        model->size *= as<const CartesianProductDataModel>(*PT[it.as_set()].model).size;
+        model->size = mul_wo_overflow(model->size, as<const CartesianProductDataModel>(*PT[it.as_set()].model).size);
     return model;
 }
 
@@ -326,7 +327,7 @@ InjectionCardinalityEstimator::estimate_join(const QueryGraph &G, const DataMode
     if (auto it = cardinality_table_.find(id); it != cardinality_table_.end()) {
         /* Clamp injected cardinality to at most the cardinality of the cartesian product of the join's children
          * since it cannot produce more tuples than that. */
-        const std::size_t max_cardinality = left.size_ * right.size_;
+        const std::size_t max_cardinality = mul_wo_overflow(left.size_, right.size_);
         return std::make_unique<InjectionCardinalityDataModel>(subproblem, std::min(it->second, max_cardinality));
     } else {
         /* Fallback to CartesianProductEstimator. */
@@ -354,7 +355,8 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
          * since it cannot produce more tuples than that. */
         std::size_t max_cardinality = 1;
         for (auto it = to_join.begin(); it != to_join.end(); ++it)
-            max_cardinality *= as<const InjectionCardinalityDataModel>(*PT[it.as_set()].model).size_;
+            max_cardinality = mul_wo_overflow(max_cardinality,
+                                              as<const InjectionCardinalityDataModel>(*PT[it.as_set()].model).size_);
         return std::make_unique<InjectionCardinalityDataModel>(to_join, std::min(it->second, max_cardinality));
     } else {
         /* Fallback to cartesian product. */
@@ -363,7 +365,7 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
         auto ds_it = to_join.begin();
         std::size_t size = as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
         for (++ds_it; ds_it != to_join.end(); ++ds_it)
-            size *= as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
+            size = mul_wo_overflow(size, as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_);
         return std::make_unique<InjectionCardinalityDataModel>(to_join, size);
     }
 }
-- 
2.43.0


From e543373a7de0b8e5e7493692a492821a5554232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 79/92] fix: malformed injection files are reported

---
 src/catalog/CardinalityEstimator.cpp | 32 ++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 7422c39..c968acb 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -205,29 +205,37 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
     json *database_entry;
     try {
         database_entry = &cardinalities.at(*name_of_database); //throws if key does not exist
-    } catch (json::out_of_range &out_of_range) {
+    } catch (json::exception &exception) {
         diag.w(pos) << "No entry for the db " << name_of_database << " in the file.\n"
                     << "A dummy estimator will be used to do estimations.\n";
         return;
     }
+    if (not database_entry->is_array()) {
+        diag.w(pos) << "The entry for the db " << name_of_database << " in the file is not an array.\n"
+                    << "A dummy estimator will be used to do estimations.\n";
+        return;
+    }
     cardinality_table_.reserve(database_entry->size());
     std::vector<std::string> names;
     for (auto &subproblem_entry : *database_entry) {
-        json* relations_array;
-        json* size;
+        std::size_t size = 0;
+        bool is_valid = false;
         try {
-            relations_array = &subproblem_entry.at("relations");
-            size = &subproblem_entry.at("size");
+            auto &size_entry = subproblem_entry.at("size");
+            is_valid = size_entry.is_number_unsigned();
+            if (is_valid) {
+                names = subproblem_entry.at("relations").get<std::vector<std::string>>();
+                size = size_entry.get<std::size_t>();
+            }
         } catch (json::exception &exception) {
+            is_valid = false;
+        }
+        if (not is_valid) {
             diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
                         << " does not have the required form of {\"relations\": ..., \"size\": ... } "
                         << "and will thus be ignored.\n";
             continue;
         }
-
-        names.clear();
-        for (auto it = relations_array->begin(); it != relations_array->end(); ++it)
-            names.emplace_back(it->get<std::string>());
         std::sort(names.begin(), names.end());
 
         buf_.clear();
@@ -238,8 +246,10 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
         }
         buf_.emplace_back(0);
         ThreadSafePooledString str = C.pool(buf_view());
-        auto res = cardinality_table_.emplace(std::move(str), *size);
-        M_insist(res.second, "insertion must not fail as we do not allow for duplicates in the input file");
+        auto res = cardinality_table_.emplace(std::move(str), size);
+        if (not res.second)
+            diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
+                        << " is a duplicate and will thus be ignored.\n";
     }
 }
 
-- 
2.43.0


From 7772d15e5f24918d2b187cfc8f391c47774687ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:36 +0000
Subject: [PATCH 80/92] fix: minimizing schemas keeps computed expressions and
 results of nested queries

---
 src/IR/Operator.cpp | 61 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 3e34685..d25454d 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -344,6 +344,47 @@ struct SchemaMinimizer : OperatorVisitor
 #undef DECLARE
 
     private:
+    /** Computes the entries of \p provided which are required to evaluate \p expr.  An expression that is already
+     * computed in \p provided is not evaluated again and thus requires nothing but itself. */
+    static Schema required_by(const ast::Expr &expr, const Schema &provided) {
+        Schema res;
+        auto add = [&](const Schema::Identifier &id) -> bool {
+            auto it = std::find_if(provided.cbegin(), provided.cend(), [&](auto &e) { return e.id == id; });
+            if (it == provided.cend())
+                return false;
+            if (not res.has(id)) // avoid duplicates
+                res.add(*it);
+            return true;
+        };
+        if (add(Schema::Identifier(expr))) // expression already computed
+            return res;
+        visit(overloaded {
+            [](auto&) { },
+            [&](const ast::Designator &d) {
+                if (d.type()->is_primitive()) // avoid non-primitive types, e.g. functions
+                    add(Schema::Identifier(d));
+            },
+            [&](const ast::FnApplicationExpr &fn) {
+                if (fn.get_function().is_aggregate()) {
+                    add(Schema::Identifier(fn));
+                    throw visit_skip_subtree{};
+                }
+            },
+            [&](const ast::QueryExpr &q) {
+                add(Schema::Identifier(q.alias(), Catalog::Get().pool("$res"))); // computed by a nested query
+            }
+        }, expr, m::tag<m::ast::ConstPreOrderExprVisitor>());
+        return res;
+    }
+    static Schema required_by(const cnf::CNF &cnf, const Schema &provided) {
+        Schema res;
+        for (auto &clause : cnf) {
+            for (auto &pred : clause)
+                res |= required_by(pred.expr(), provided);
+        }
+        return res;
+    }
+
     /** Add the constraints of entries from \p constraints to matching entries in \p schema except the
      * \p excluded_constraints.  Adapts only the first \p n entries of \p schema. */
     void add_constraints(Schema &schema, const Schema &constraints, std::size_t n,
@@ -397,7 +438,7 @@ void SchemaMinimizer::operator()(FilterOperator &op)
         required = op.schema(); // require everything
         is_top_of_plan_ = false;
     } else {
-        auto required_by_op = op.filter().get_required(); // add what's required to evaluate the filter predicate
+        auto required_by_op = required_by(op.filter(), op.child(0)->schema()); // add what's required to evaluate the filter predicate
         M_insist(required == (required & op.schema()), "required must be subset of operator schema");
         op.schema() = required; // set schema to what is required above
         required |= required_by_op; // add what's required to evaluate the filter predicate
@@ -418,7 +459,9 @@ void SchemaMinimizer::operator()(JoinOperator &op)
         required_from_below = op.schema(); // require everything
         is_top_of_plan_ = false;
     } else {
-        required_from_below = required | op.predicate().get_required(); // what we need and all operators above us
+        required_from_below = required; // what all operators above us need
+        for (auto c : const_cast<const JoinOperator&>(op).children())
+            required_from_below |= required_by(op.predicate(), c->schema()); // and what we need
         M_insist(required == (required & op.schema()), "required must be subset of operator schema");
         op.schema() = required;
     }
@@ -433,6 +476,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
 {
     Schema required_by_op;
     Schema ours;
+    const bool is_leaf = const_cast<const ProjectionOperator&>(op).children().empty();
 
     std::size_t pos_out = 0;
     for (std::size_t pos_in = 0; pos_in != op.projections().size(); ++pos_in) {
@@ -441,7 +485,8 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
         auto &e = op.schema()[pos_in];
 
         if (is_top_of_plan_ or required.has(e.id)) {
-            required_by_op |= proj.first.get().get_required();
+            if (not is_leaf)
+                required_by_op |= required_by(proj.first.get(), op.child(0)->schema());
             op.projections()[pos_out++] = std::move(op.projections()[pos_in]);
             ours.add(e);
         }
@@ -453,7 +498,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
     is_top_of_plan_ = false;
-    if (not const_cast<const ProjectionOperator&>(op).children().empty()) {
+    if (not is_leaf) {
         (*this)(*op.child(0));
         add_constraints(op.schema(), op.child(0)->schema()); // add constraints from child
     }
@@ -474,7 +519,7 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
     auto it = op.schema().cbegin();
     for (auto &[grp, _] : op.group_by()) {
-        required_by_us |= grp.get().get_required();
+        required_by_us |= required_by(grp.get(), op.child(0)->schema());
         ours.add(*it++); // copy grouping keys
     }
 
@@ -491,7 +536,7 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
             if (is_top_of_plan_ or required.has(agg_id)) { // if first, require everything
                 for (auto &arg : agg.get().args)
-                    required_by_us |= arg->get_required();
+                    required_by_us |= required_by(*arg, op.child(0)->schema());
                 op.aggregates()[pos_out++] = std::move(op.aggregates()[pos_in]); // keep aggregate
                 ours.add(op.schema()[agg_id].second);
             }
@@ -528,7 +573,7 @@ void SchemaMinimizer::operator()(AggregationOperator &op)
 
         if (is_top_of_plan_ or required.has(agg_id)) { // if first, require everything
             for (auto &arg : agg.get().args)
-                required_by_op |= arg->get_required();
+                required_by_op |= required_by(*arg, op.child(0)->schema());
             op.aggregates()[pos_out++] = std::move(op.aggregates()[pos_in]); // keep aggregate
             ours.add(op.schema()[agg_id].second);
         }
@@ -552,7 +597,7 @@ void SchemaMinimizer::operator()(SortingOperator &op)
     } else {
         Schema required_by_op;
         for (auto &ord : op.order_by())
-            required_by_op |= ord.first.get().get_required(); // we require *all* expressions to order by
+            required_by_op |= required_by(ord.first.get(), op.child(0)->schema()); // we require *all* expressions to order by
         M_insist(required == (required & op.schema()), "required must be subset of operator schema");
         op.schema() = required; // set schema to what is required above
         required |= required_by_op; // add what we require to compute the order
-- 
2.43.0


From 810bb76552e8e5e10710badafe717d52d3d22230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 81/92] fix: schemas can be minimized repeatedly

---
 src/IR/Operator.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index d25454d..a017bb1 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -492,8 +492,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
         }
     }
     M_insist(pos_out <= op.projections().size());
-    const auto &dummy = op.projections()[0];
-    op.projections().resize(pos_out, dummy);
+    op.projections().erase(op.projections().begin() + pos_out, op.projections().end());
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
@@ -542,8 +541,7 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
             }
         }
         M_insist(pos_out <= op.aggregates().size());
-        const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-        op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
+        op.aggregates().erase(op.aggregates().begin() + pos_out, op.aggregates().end()); // discard unrequired aggregates
     }
 
     op.schema() = std::move(ours);
@@ -555,7 +553,6 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
 void SchemaMinimizer::operator()(AggregationOperator &op)
 {
-    M_insist(not op.aggregates().empty());
     Catalog &C = Catalog::Get();
     std::ostringstream oss;
 
@@ -579,8 +576,7 @@ void SchemaMinimizer::operator()(AggregationOperator &op)
         }
     }
     M_insist(pos_out <= op.aggregates().size());
-    const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-    op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
+    op.aggregates().erase(op.aggregates().begin() + pos_out, op.aggregates().end()); // discard unrequired aggregates
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
-- 
2.43.0


From 05b165f60f486b2e0bfd093e58adc6a62ee86102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:08 +0000
Subject: [PATCH 82/92] fix: the interpreter reads tuples by the schema they
 have

---
 src/backend/Interpreter.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index ea2ac5a..8d05a21 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -746,6 +746,15 @@ struct LimitData : OperatorData
     std::size_t num_tuples = 0;
 };
 
+/** Returns the schema of the tuples which \p op pushes to its parent.  Operators that only select or reorder tuples
+ * forward the tuples of their child as they are, even if fewer attributes are required above. */
+static const Schema & get_pipeline_schema(const Operator &op)
+{
+    if (is<const FilterOperator>(&op) or is<const SortingOperator>(&op) or is<const LimitOperator>(&op))
+        return get_pipeline_schema(*dynamic_cast<const Consumer&>(op).child(0));
+    return op.schema();
+}
+
 struct GroupingData : OperatorData
 {
     Pipeline pipeline;
@@ -755,7 +764,7 @@ struct GroupingData : OperatorData
 
     GroupingData(const GroupingOperator &op)
         : pipeline(op.schema())
-        , compute_key(op.child(0)->schema())
+        , compute_key(get_pipeline_schema(*op.child(0)))
     {
         std::ostringstream oss;
 
@@ -781,7 +790,7 @@ struct GroupingData : OperatorData
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(get_pipeline_schema(*op.child(0)));
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
@@ -818,7 +827,7 @@ struct AggregationData : OperatorData
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(get_pipeline_schema(*op.child(0)));
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
@@ -1082,7 +1091,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->load_build_key(this->schema());
                 data->emit_load_attrs(this->schema());
             }
-            const auto &tuple_schema = op.child(0)->schema();
+            const auto &tuple_schema = this->schema();
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
@@ -1176,7 +1185,7 @@ void Pipeline::operator()(const JoinOperator &op)
             }
         } else {
             /* This is not the right-most child.  Collect its produced tuples in a buffer. */
-            const auto &tuple_schema = op.child(data->active_child)->schema();
+            const auto &tuple_schema = this->schema();
             if (data->buffer_schemas.size() <= data->active_child) {
                 data->buffer_schemas.emplace_back(this->schema()); // save the schema of the current pipeline
                 data->emit_load_attrs(this->schema());
-- 
2.43.0


From 117fa368a541aade623a8483e70d4cdbe2e41e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:16 +0000
Subject: [PATCH 83/92] fix: minimizing schemas admits repeated identifiers

---
 src/IR/Operator.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index a017bb1..86eacfb 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -385,6 +385,11 @@ struct SchemaMinimizer : OperatorVisitor
         return res;
     }
 
+    /** Returns `true` iff an entry with the given \p id is required.  Identifiers need not be unique. */
+    bool is_required(const Schema::Identifier &id) const {
+        return std::any_of(required.cbegin(), required.cend(), [&](auto &e) { return e.id == id; });
+    }
+
     /** Add the constraints of entries from \p constraints to matching entries in \p schema except the
      * \p excluded_constraints.  Adapts only the first \p n entries of \p schema. */
     void add_constraints(Schema &schema, const Schema &constraints, std::size_t n,
@@ -393,9 +398,16 @@ struct SchemaMinimizer : OperatorVisitor
         M_insist(n <= schema.num_entries(), "invalid length");
         for (std::size_t idx = 0; idx < n; ++idx) {
             auto &e = schema[idx];
-            auto it = constraints.find(e.id);
-            if (it != constraints.end())
-                e.constraints |= it->constraints & ~excluded_constraints; // merge constraints except excluded ones
+            bool found = false;
+            auto merged = ~Schema::entry_type::constraints_t{0};
+            for (auto &c : constraints) { // identifiers need not be unique, e.g. those of constants
+                if (c.id == e.id) {
+                    found = true;
+                    merged &= c.constraints;
+                }
+            }
+            if (found)
+                e.constraints |= merged & ~excluded_constraints; // merge constraints except excluded ones
         }
     }
     void add_constraints(Schema &schema, const Schema &constraints,
@@ -484,7 +496,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
         auto &proj = op.projections()[pos_in];
         auto &e = op.schema()[pos_in];
 
-        if (is_top_of_plan_ or required.has(e.id)) {
+        if (is_top_of_plan_ or is_required(e.id)) {
             if (not is_leaf)
                 required_by_op |= required_by(proj.first.get(), op.child(0)->schema());
             op.projections()[pos_out++] = std::move(op.projections()[pos_in]);
-- 
2.43.0


From 06bb476bb62c476d97ca081aba1a7337058b99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:46 +0000
Subject: [PATCH 84/92] fix: constants of nested queries are found by their
 names

---
 src/IR/Optimizer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 04ab886..1bca885 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -271,9 +271,18 @@ std::unique_ptr<Producer*[]> Optimizer::optimize_source_plans(const QueryGraph &
             /* If an alias for the nested query is given, prefix every attribute with the alias. */
             if (Q.alias().has_value()) {
                 M_insist(is<ProjectionOperator>(sub_plan), "only projection may rename attributes");
+                auto &projections = as<ProjectionOperator>(*sub_plan).projections();
+                M_insist(projections.size() == sub_plan->schema().num_entries());
                 Schema S;
-                for (auto &e : sub_plan->schema())
-                    S.add({ Q.alias(), e.id.name }, e.type, e.constraints);
+                std::size_t const_counter = 0;
+                for (std::size_t i = 0; i != projections.size(); ++i) {
+                    auto &e = sub_plan->schema()[i];
+                    auto &[expr, alias] = projections[i];
+                    auto name = e.id.name;
+                    if (not alias.has_value() and expr.get().is_constant()) // constants are named by semantic analysis
+                        name = Catalog::Get().pool(("$const" + std::to_string(const_counter++)).c_str());
+                    S.add({ Q.alias(), name }, e.type, e.constraints);
+                }
                 sub_plan->schema() = S;
             }
 
-- 
2.43.0


From 2dcd6bf9ed5cfb13d106091bd66edde309bcdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:04 +0000
Subject: [PATCH 85/92] fix: repeated expressions can be ordered and limited

---
 src/IR/Optimizer.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 1bca885..d5ef632 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -450,12 +450,27 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     auto additional_projections = Optimizer::compute_projections_required_for_order_by(G.projections(), G.order_by());
-    const bool requires_post_projection = not additional_projections.empty();
+
+    /* Expressions that occur repeatedly without alias share one identifier.  They must be computed only once if they
+     * are referenced later on. */
+    std::vector<projection_type> unique_projections;
+    for (auto &P : G.projections()) {
+        auto pred = [&P](const projection_type &other) {
+            return not other.second.has_value() and other.first.get() == P.first.get();
+        };
+        if (P.second.has_value() or
+            std::find_if(unique_projections.begin(), unique_projections.end(), pred) == unique_projections.end())
+            unique_projections.emplace_back(P);
+    }
+    const bool has_duplicates = unique_projections.size() != G.projections().size();
+    const bool requires_post_projection = not additional_projections.empty() or
+                                          (has_duplicates and (not G.order_by().empty() or G.limit().is_limited));
 
     /* Perform projection. */
     if (not additional_projections.empty() or not G.projections().empty()) {
         /* Merge original projections with additional projections. */
-        additional_projections.insert(additional_projections.end(), G.projections().begin(), G.projections().end());
+        auto &projections = requires_post_projection ? unique_projections : G.projections();
+        additional_projections.insert(additional_projections.end(), projections.begin(), projections.end());
         auto projection = std::make_unique<ProjectionOperator>(std::move(additional_projections));
         projection->add_child(plan.release());
 
-- 
2.43.0


From 7256606ce96e684560a6ea1a0c636446548b2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 86/92] fix: columns of nested queries keep their position

---
 src/IR/QueryGraph.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index c9a14ab..d62fc99 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1607,7 +1607,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     }
 
     ///> holds all nested queries occurring in the `SelectClause` of `stmt`
-    std::vector<std::pair<std::reference_wrapper<const ast::QueryExpr>, ThreadSafePooledOptionalString>> nested_queries_in_select;
+    std::vector<std::reference_wrapper<const ast::QueryExpr>> nested_queries_in_select;
 
     /*----- Process FROM and create data sources. -----*/
     if (stmt.from) {
@@ -1650,9 +1650,8 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     /* Collect nested queries in SELECT clause. */
     for (auto &s : SELECT->select) {
         if (auto query = cast<const ast::QueryExpr>(s.first.get())) // found nested query
-            nested_queries_in_select.emplace_back(*query, s.second.text);
-        else
-            graph_->projections_.emplace_back(*s.first, s.second.text); // add to projections
+            nested_queries_in_select.emplace_back(*query);
+        graph_->projections_.emplace_back(*s.first, s.second.text); // add to projections, in order of the clause
     }
 
     /*----- Process WHERE clause. -----*/
@@ -1843,7 +1842,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
 
     /* Add nested queries in SELECT. */
     /* TODO iterate over expressions in the order nested queries (equi) < nested queries (non-equi) */
-    for (auto [_query, name] : nested_queries_in_select) {
+    for (auto &_query : nested_queries_in_select) {
         auto &query = _query.get();
 
         auto &select = as<ast::SelectStmt>(*query.query);
@@ -1872,7 +1871,6 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
             source->add_join(*J);
         }
         named_sources_.emplace(q_name, Q);
-        graph_->projections_.emplace_back(query, name);
     }
 
     /* Add order by. */
-- 
2.43.0


From ba8f1e04556f52588e574c851b4c3c9348156260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:11 +0000
Subject: [PATCH 87/92] fix: nested queries may be part of expressions that are
 selected

---
 src/IR/QueryGraph.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index d62fc99..ed63858 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1648,9 +1648,16 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
         graph_->projections_.emplace_back(*e, ThreadSafePooledOptionalString{}); // expansions never contain nested queries;
                                                                                  // directly add to projections
     /* Collect nested queries in SELECT clause. */
+    auto collect_nested_queries = overloaded {
+        [](auto&) { },
+        [&](const ast::QueryExpr &query) { nested_queries_in_select.emplace_back(query); }, // found nested query
+        [](const ast::FnApplicationExpr &fn) {
+            if (fn.get_function().is_aggregate())
+                throw visit_skip_subtree{}; // evaluated before the projection
+        }
+    };
     for (auto &s : SELECT->select) {
-        if (auto query = cast<const ast::QueryExpr>(s.first.get())) // found nested query
-            nested_queries_in_select.emplace_back(*query);
+        visit(collect_nested_queries, *s.first, m::tag<m::ast::ConstPreOrderExprVisitor>());
         graph_->projections_.emplace_back(*s.first, s.second.text); // add to projections, in order of the clause
     }
 
-- 
2.43.0


From 9ff96581321b045b07e0c51462ed034051a43b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:58 +0000
Subject: [PATCH 88/92] fix: aliased constants of nested queries keep their
 alias

---
 src/IR/Optimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index d5ef632..30dbb79 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -279,7 +279,8 @@ std::unique_ptr<Producer*[]> Optimizer::optimize_source_plans(const QueryGraph &
                     auto &e = sub_plan->schema()[i];
                     auto &[expr, alias] = projections[i];
                     auto name = e.id.name;
-                    if (not alias.has_value() and expr.get().is_constant()) // constants are named by semantic analysis
+                    if (not alias.has_value() and not is<const ast::Designator>(expr.get()) and
+                        expr.get().is_constant()) // constants without alias are named by semantic analysis
                         name = Catalog::Get().pool(("$const" + std::to_string(const_counter++)).c_str());
                     S.add({ Q.alias(), name }, e.type, e.constraints);
                 }
-- 
2.43.0


From f6a771f44fc6963ff935d761f1cceec952804c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 89/92] fix: nested queries and aliased tables only see visible
 versions

---
 src/catalog/Schema.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index c6e548e..9461cfa 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -160,7 +160,9 @@ void apply_timestamp_filter(QueryGraph &G)
     ast::Token ts_end(pos, C.pool("$ts_end"), TK_IDENTIFIER);
 
     for (auto &ds : G.sources()) {
-        if (auto bt = cast<const BaseTable>(ds.get())) {
+        if (auto query = cast<const Query>(ds.get())) {
+            apply_timestamp_filter(query->query_graph()); // nested queries must only see visible tuples, too
+        } else if (auto bt = cast<const BaseTable>(ds.get())) {
             /* Set timestamp filter */
             auto it = std::find_if(bt->table().cbegin_hidden(),
                                    bt->table().end_hidden(),
@@ -169,7 +171,7 @@ void apply_timestamp_filter(QueryGraph &G)
                                    });
 
             if (it != bt->table().end_hidden()) {
-                ast::Token table_name(pos, bt->table().name(), TK_EOF);
+                ast::Token table_name(pos, bt->name().assert_not_none(), TK_EOF); // the alias, if the table has one
                 /*----- Build AST -----*/
                 // $ts_begin
                 std::unique_ptr<ast::Expr> ts_begin_designator = std::make_unique<ast::Designator>(
-- 
2.43.0


From c8cf230c315e4e7438417a07d8ed6eef90320fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:52 +0000
Subject: [PATCH 90/92] fix: every JSON document of partial plans starts
 without a comma

---
 src/IR/PartialPlanGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IR/PartialPlanGenerator.cpp b/src/IR/PartialPlanGenerator.cpp
index df84594..1f3eb37 100644
--- a/src/IR/PartialPlanGenerator.cpp
+++ b/src/IR/PartialPlanGenerator.cpp
@@ -118,10 +118,10 @@ void PartialPlanGenerator::write_partial_plans_JSON(std::ostream &out, const Que
      *      { A(BC) }   --> [ "@ A @ B C" ]
      *      { (AB)C }   --> [ "@ @ A B C" ]
      */
+    bool is_first = true;  // per document
     auto write_partial_plan = [&](const partial_plan_type &partial_plans) {
         M_insist(not partial_plans.empty());
 
-        static bool is_first = true;
         if (is_first)
             is_first = false;
         else
-- 
2.43.0


From 53d8e7bdb74b919683376853b9bab4094ff6106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:33 +0000
Subject: [PATCH 91/92] fix: a projection keeps the order of the sorted
 attributes and ends it where one is missing

---
 include/mutable/IR/Condition.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/mutable/IR/Condition.hpp b/include/mutable/IR/Condition.hpp
index 5762994..4968533 100644
--- a/include/mutable/IR/Condition.hpp
+++ b/include/mutable/IR/Condition.hpp
@@ -187,7 +187,19 @@ struct Sortedness final : Condition
     }
 
     void project_and_rename(const std::vector<std::pair<Schema::Identifier, Schema::Identifier>> &old2new) override {
-        orders_.project_and_rename(old2new);
+        order_t projected;
+        for (auto &[id, order] : orders_) { // keep the attributes in the order in which the data is sorted
+            bool is_projected = false;
+            for (auto &[old_id, new_id] : old2new) {
+                if (old_id == id) {
+                    projected.add(new_id, order);
+                    is_projected = true;
+                }
+            }
+            if (not is_projected and order != O_UNDEF)
+                break; // data is only sorted on the remaining attributes within equal values of the missing one
+        }
+        orders_ = std::move(projected);
     }
 
     bool operator==(const Condition &o) const override {
-- 
2.43.0


From a628e004f04139f62554915cec1c1c95baadcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:33 +0000
Subject: [PATCH 92/92] fix: an order required on any attributes is not implied
 if others come first

---
 include/mutable/IR/Condition.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mutable/IR/Condition.hpp b/include/mutable/IR/Condition.hpp
index 4968533..db1659e 100644
--- a/include/mutable/IR/Condition.hpp
+++ b/include/mutable/IR/Condition.hpp
@@ -176,8 +176,13 @@ struct Sortedness final : Condition
             const auto other_it = other->orders_.find(this_it->first);
             if (other_it == other->orders_.cend())
                 return false; // attribute not found
-            if (other_it->second == O_UNDEF or this_it->second == O_UNDEF)
+            if (other_it->second == O_UNDEF)
                 continue; // sort order undefined implies attribute order does not matter
+            if (this_it->second == O_UNDEF) {
+                if (std::distance(other->orders_.cbegin(), other_it) >= std::distance(this->orders_.begin(), this->orders_.end()))
+                    return false; // attribute is only sorted within equal values of an attribute that is not required
+                continue; // attribute order does not matter otherwise
+            }
             if (std::distance(this_it, this->orders_.begin()) != std::distance(other_it, other->orders_.cbegin()))
                 return false; // different attribute order
             if (this_it->second != other_it->second)
-- 
2.43.0

