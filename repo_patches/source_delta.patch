From d01c0248b27ef2023bb0d44fafcd607a9789a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 01/40] fix: wait for all submitted tasks of a loop when the
 calling thread fails

An exception thrown on the calling thread, by its own share of the loop or
while submitting the tasks, left execute_loop while the workers were still
using its local variables and the loop's function object.
---
 src/utility/thread_pool.hpp | 41 +++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..0cb014b 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -20,6 +20,7 @@
 #include <exception>
 #include <stdexcept>
 #include <utility>
+#include <cstdint>
 #include <cstddef>
 
 namespace gapp::detail
@@ -49,23 +50,36 @@ namespace gapp::detail
 
             detail::latch remaining_tasks(task_count - 1);
 
-            for (size_t i = 0; i < task_count - 1; i++)
-            {
-                Iter block_last  = std::next(first, step_size + (i < remainder));
-                Iter block_first = std::exchange(first, block_last);
+            size_t submitted_tasks = 0;
 
-                auto task = [&, block_first, block_last]() mutable noexcept
+            /* The submitted tasks refer to the local variables of this function, so it can't be
+             * left before all of them are done, even if there is an exception on this thread. */
+            GAPP_TRY
+            {
+                while (submitted_tasks < task_count - 1)
                 {
-                    GAPP_TRY { while (block_first != block_last) { std::invoke(unary_op, *block_first++); } }
-                    GAPP_CATCH (...) { thread_guard(); }
-                    remaining_tasks.count_down();
-                };
+                    Iter block_last  = std::next(first, step_size + (submitted_tasks < remainder));
+                    Iter block_first = std::exchange(first, block_last);
+
+                    auto task = [&, block_first, block_last]() mutable noexcept
+                    {
+                        GAPP_TRY { while (block_first != block_last) { std::invoke(unary_op, *block_first++); } }
+                        GAPP_CATCH (...) { thread_guard(); }
+                        remaining_tasks.count_down();
+                    };
+
+                    bool success = scheduled_worker_queue().emplace(std::move(task));
+                    if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
+                    submitted_tasks++;
+                }
 
-                bool success = scheduled_worker_queue().emplace(std::move(task));
-                if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
+                while (first != last) { std::invoke(unary_op, *first++); }
+            }
+            GAPP_CATCH (...)
+            {
+                thread_guard();
+                remaining_tasks.count_down(static_cast<std::uint32_t>(task_count - 1 - submitted_tasks));
             }
-
-            while (first != last) { std::invoke(unary_op, *first++); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
@@ -90,6 +104,7 @@ namespace gapp::detail
         {
             reset_scheduler();
             if (count == thread_count()) return;
+
             stop();
             workers_ = std::vector<worker_t>(count - 1);
         }
-- 
2.43.0


From b606d52fb29a0fe990db83417146be359add9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 02/40] fix: don't hang when the worker threads can't be
 created

If creating one of the threads failed, the destructors of the workers created
before it waited forever for threads whose queues were never closed, and the
previous workers were already stopped. Close the queue when a worker is
destroyed, and only replace the workers once all of the new ones exist.
---
 src/utility/thread_pool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 0cb014b..cf2fdef 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -105,8 +105,10 @@ namespace gapp::detail
             reset_scheduler();
             if (count == thread_count()) return;
 
+            /* Keep the current workers until all of the new ones have been created successfully. */
+            std::vector<worker_t> new_workers(count - 1);
             stop();
-            workers_ = std::vector<worker_t>(count - 1);
+            workers_ = std::move(new_workers);
         }
 
         size_t thread_count() const noexcept
@@ -139,6 +141,9 @@ namespace gapp::detail
                 }
             }
 
+            /* The queue must be closed for the thread to be joinable. */
+            ~worker_t() noexcept { task_queue.close(); }
+
             detail::concurrent_queue<task_t> task_queue;
             std::jthread thread{ worker_main, std::ref(task_queue) };
         };
-- 
2.43.0


From b39c020b34cd5b9b390f815d0584d356dfc009e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 03/40] Add an optional simulation hook to the random number
 generator

Only compiled if GAPP_SIM_HOOKS is defined.
---
 src/utility/rng.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..84e38b2 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -36,6 +36,12 @@
 #endif
 
 
+#ifdef GAPP_SIM_HOOKS
+/* Provided by the simulator the library is linked with. Lets it replace outputs of the global generator. */
+extern "C" std::uint64_t sim_rng_filter(std::uint64_t);
+#endif
+
+
 /** Contains the PRNG classes and functions used for generating random numbers. */
 namespace gapp::rng
 {
@@ -239,7 +245,11 @@ namespace gapp::rng
         /** @return The next number of the sequence. Thread-safe. */
         result_type operator()() const noexcept
         {
+#ifdef GAPP_SIM_HOOKS
+            return sim_rng_filter(std::invoke(generator_.instance));
+#else
             return std::invoke(generator_.instance);
+#endif
         }
 
         /** 
-- 
2.43.0


From cdfd09e4d79877baf6101c5711c0d84946347df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 04/40] fix: order the RCU reader announcement with the reads
 it protects

Without a full barrier between the announcement of the reader and its load of
the pointer, and between the writer's exchange of the pointer and its scan of
the readers, the writer could miss a reader that still got the old object, and
delete it while it was being read.
---
 src/utility/rcu.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 2851351..a646426 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -22,7 +22,8 @@ namespace gapp::detail
         static void read_lock() noexcept
         {
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
-            std::ignore = reader.epoch.load(std::memory_order_acquire);
+            /* The announcement of the reader must be visible before anything protected is read. */
+            std::atomic_thread_fence(std::memory_order_seq_cst);
         }
 
         static void read_unlock() noexcept
@@ -32,6 +33,9 @@ namespace gapp::detail
 
         static void synchronize() noexcept
         {
+            /* Either the new value is seen by a reader, or the reader is seen here. */
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+
             uint64_t current = writer_epoch.load(std::memory_order_acquire);
             uint64_t target  = current + 1;
             writer_epoch.compare_exchange_strong(current, target, std::memory_order_release);
-- 
2.43.0


From c30d974a1f273060f1c6aabc1c93fc799218b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 05/40] fix: sampleUnique could return duplicates for huge
 ranges

If the generated number was already selected, the limit is selected instead of
it, but this wasn't recorded, so the limit could have been selected again.
---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 84e38b2..2f3940e 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -477,7 +477,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From d41c3eb94b2f4f62045f123b0f0c402200e45ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 06/40] fix: randomReal generated values outside of [0, 1) for
 single precision

The number of bits to drop from the 64 bit output of the generator depends on
the precision of the type only, not on the number of its exponent bits.
---
 src/utility/rng.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 2f3940e..7f2ee92 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -349,7 +349,10 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        constexpr int precision = std::min(std::numeric_limits<RealType>::digits, 64);
+        constexpr RealType scale = RealType(0.5) / (std::uint64_t(1) << (precision - 1));
+
+        return (rng::prng() >> (64 - precision)) * scale;
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From 914db1cee10ead47a83011b019f7b8154850285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 07/40] fix: randomReal could return the upper bound of its
 half-open interval

The result of the multiplication and the addition may be rounded up to it.
---
 src/utility/rng.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 7f2ee92..93eb25a 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -360,7 +360,10 @@ namespace gapp::rng
     {
         GAPP_ASSERT(lbound <= ubound);
 
-        return lbound + (ubound - lbound) * rng::randomReal();
+        const RealType value = lbound + (ubound - lbound) * rng::randomReal();
+
+        /* The result might be rounded up to the upper bound, which is not part of the interval. */
+        return (value < ubound) ? value : std::nextafter(ubound, lbound);
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From 3e39b33d72adee945db9a7346e7ec900f4089c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 08/40] fix: don't use the fitness cache of a GA with dynamic
 fitness functions

Solving a problem with a dynamic fitness function failed an assertion when the
size of the fitness cache was set, even though the cache is documented to be
unused for dynamic fitness functions.
---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..e3d5356 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From f397741e9a0d36f681664a39f2a9bc0b1c1c6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 09/40] fix: integer mutation never returned for genes with a
 single valid value

---
 src/mutation/integer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..e75914e 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,9 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            /* There is no other value the gene could be changed to. */
+            if (bounds[idx].lower() == bounds[idx].upper()) continue;
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From 70366caa239b6097a56674f84307d27f756cf5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 10/40] fix: out of range access in the shift mutation for
 range_max values of 1

The entire chromosome could be selected as the range to be moved, in which case
2 unique positions were sampled from the only possible one.
---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..2e31c5c 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() <= mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From 339a56ca249bf8861dc84f92379640dd09d26e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 11/40] fix: wrong fitness values when a mutation runs another
 GA

The thread local copy of the candidate that was used to decide whether the mutation
changed the candidate was overwritten by the mutations of a nested run.
---
 src/mutation/mutation_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/mutation_base.impl.hpp b/src/mutation/mutation_base.impl.hpp
index 398e0f6..35a1584 100644
--- a/src/mutation/mutation_base.impl.hpp
+++ b/src/mutation/mutation_base.impl.hpp
@@ -26,7 +26,7 @@ namespace gapp::mutation
             /* If the candidate is already evaluated (happens when the crossover didn't change the candidate),
                its current fitness vector is valid, and we can save a fitness function call when the mutation
                doesn't change the chromosome. */
-            thread_local Candidate<T> old_candidate; old_candidate = candidate;
+            const Candidate<T> old_candidate = candidate;
 
             mutate(ga, candidate, candidate.chromosome);
             candidate.is_evaluated = (candidate == old_candidate);
-- 
2.43.0


From ba5371435e158d018c130ea8850a6f4c669b5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 12/40] fix: derive the default mutation rate from the problem
 in every run

Setting the default mutation rate in the first run cleared the flag used to track that
the default mutation rate should be used, so the subsequent runs of the GA used the
mutation rate that belongs to the problem of the first one.
---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e3d5356..e551488 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -349,7 +349,7 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From 230ac6bddd2eaf23cd9b57473cd3458927c38991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 13/40] fix: remove duplicate solutions from the optimal
 solutions of the initial population

When every optimal solution is kept, a run that ended with the initial population
returned the same solution multiple times.
---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e551488..77ef50e 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -338,7 +338,6 @@ namespace gapp
         population_ = generatePopulation(population_size_, std::move(initial_population));
         detail::parallel_for(population_.begin(), population_.end(), [this](Candidate<T>& sol) { evaluate(sol); });
         fitness_matrix_ = detail::toFitnessMatrix(population_);
-        if (keep_all_optimal_sols_) solutions_ = detail::findParetoFront(population_);
 
         GAPP_ASSERT(isValidEvaluatedPopulation(population_));
         GAPP_ASSERT(fitnessMatrixIsSynced());
@@ -348,6 +347,7 @@ namespace gapp
          * as it might want to use the population's fitness values (fitness_matrix_). */
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
+        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
 
         if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
-- 
2.43.0


From f3747714efb77a18461e69638734facc88233a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 14/40] fix: rank selection computed NaN weights for
 populations of size 1

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..11f4cca 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -99,7 +99,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = i / std::max(weights.size() - 1.0, 1.0);
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From e8464cd75aecaea57eeaabd3205e5b1bd7fbb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 15/40] fix: evaluate both parts of OR stop conditions

The second part of an OR stop condition wasn't evaluated in the generations where the
first part was true, so the state of the second part was wrong when the OR was used as
a part of another stop condition, and the GA wasn't stopped by it.
---
 src/stop_condition/composite.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..9d1e090 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -29,8 +29,12 @@ namespace gapp::stopping::dtl
 
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated, since this might only be a part of another stop condition
+            // (the stop conditions might rely on side effects of operator() to maintain their state).
+            const bool left = std::invoke(left_, ga);
+            const bool right = std::invoke(right_, ga);
+
+            return left || right;
         }
 
         Left left_;
-- 
2.43.0


From 3b8b267ab0a982088ac79b705b83e363aa7c7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 16/40] fix: the fitness value stop condition stopped before
 reaching the threshold

For multi-objective problems, the condition was already satisfied by solutions that are
merely not dominated by the threshold vector, instead of the ones that are equal to or
better than it.
---
 src/stop_condition/stop_condition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 953d0b4..02a9cef 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -48,7 +48,8 @@ namespace gapp::stopping
         return std::any_of(fitness_matrix.begin(), fitness_matrix.end(),
         [&](const auto& fitness_vector) noexcept
         {
-            return !math::paretoCompareLess(fitness_vector, fitness_threshold_);
+            return std::equal(fitness_vector.begin(), fitness_vector.end(), fitness_threshold_.begin(),
+            [](double fitness, double threshold) noexcept { return !math::floatIsLess(fitness, threshold); });
         });
     }
 
-- 
2.43.0


From 64203afeda34581a027d31f8a8c3b4849e4f690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 17/40] fix: assign the random streams of the worker threads in
 a fixed order

The generators were registered when first used by the worker threads, so the
streams of the threads and the results of seeded runs depended on how the
threads were scheduled. The registration also allocated memory in a noexcept
function, so running out of memory terminated the program.
---
 src/utility/rng.hpp         | 95 ++++++++++++++++++++++++++++++++-----
 src/utility/thread_pool.hpp |  8 +++-
 2 files changed, 90 insertions(+), 13 deletions(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 93eb25a..7834cfd 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -18,7 +18,6 @@
 #include <functional>
 #include <ranges>
 #include <array>
-#include <vector>
 #include <span>
 #include <unordered_set>
 #include <bit>
@@ -26,6 +25,7 @@
 #include <limits>
 #include <memory>
 #include <mutex>
+#include <optional>
 #include <cstdint>
 #include <cstddef>
 #include <concepts>
@@ -262,13 +262,18 @@ namespace gapp::rng
             std::scoped_lock _{ tls_generators_->lock };
             global_generator_.seed(seed);
 
-            for (RegisteredGenerator* generator : tls_generators_->list)
+            for (GeneratorSlot* slot = tls_generators_->first; slot; slot = slot->next)
             {
-                generator->instance = global_generator_.jump();
+                slot->stream = global_generator_.jump();
 
-                generator->bool_distribution.reset();
-                generator->normal_distribution.reset();
-                generator->poisson_distribution.reset();
+                if (RegisteredGenerator* generator = slot->generator)
+                {
+                    generator->instance = slot->stream;
+
+                    generator->bool_distribution.reset();
+                    generator->normal_distribution.reset();
+                    generator->poisson_distribution.reset();
+                }
             }
         }
 
@@ -279,21 +284,62 @@ namespace gapp::rng
         static constexpr result_type max() noexcept { return Xoroshiro128p::max(); }
 
     private:
+        struct RegisteredGenerator;
+
+        /* The place of a thread's generator in the list of generators, which determines the random stream of the thread. */
+        struct GeneratorSlot
+        {
+            GeneratorSlot() noexcept
+            {
+                std::scoped_lock _{ tls_generators_->lock };
+                stream = global_generator_.jump();
+                prev = tls_generators_->last;
+                (prev ? prev->next : tls_generators_->first) = this;
+                tls_generators_->last = this;
+            }
+
+            ~GeneratorSlot() noexcept
+            {
+                std::scoped_lock _{ tls_generators_->lock };
+                (prev ? prev->next : tls_generators_->first) = next;
+                (next ? next->prev : tls_generators_->last) = prev;
+            }
+
+            GeneratorSlot(const GeneratorSlot&)            = delete;
+            GeneratorSlot(GeneratorSlot&&)                 = delete;
+            GeneratorSlot& operator=(const GeneratorSlot&) = delete;
+            GeneratorSlot& operator=(GeneratorSlot&&)      = delete;
+
+            Xoroshiro128p stream{ 0 };
+            RegisteredGenerator* generator = nullptr;
+            GeneratorSlot* prev = nullptr;
+            GeneratorSlot* next = nullptr;
+        };
+
         struct RegisteredGenerator
         {
-            RegisteredGenerator() noexcept // NOLINT(*exception-escape)
+            RegisteredGenerator() noexcept :
+                slot(reserved_slot_ ? *reserved_slot_ : own_slot.emplace())
             {
                 std::scoped_lock _{ tls_generators_->lock };
-                instance = global_generator_.jump();
-                tls_generators_->list.push_back(this);
+                instance = slot.stream;
+                slot.generator = this;
             }
 
             ~RegisteredGenerator() noexcept
             {
                 std::scoped_lock _{ tls_generators_->lock };
-                std::erase(tls_generators_->list, this);
+                slot.generator = nullptr;
             }
 
+            RegisteredGenerator(const RegisteredGenerator&)            = delete;
+            RegisteredGenerator(RegisteredGenerator&&)                 = delete;
+            RegisteredGenerator& operator=(const RegisteredGenerator&) = delete;
+            RegisteredGenerator& operator=(RegisteredGenerator&&)      = delete;
+
+            std::optional<GeneratorSlot> own_slot;
+            GeneratorSlot& slot;
+
             Xoroshiro128p instance{ 0 };
 
             detail::uniform_bool_distribution bool_distribution;
@@ -303,8 +349,11 @@ namespace gapp::rng
 
         struct GeneratorList
         {
+            constexpr GeneratorList() noexcept : first(nullptr), last(nullptr) {}
+
             detail::spinlock lock;
-            std::vector<RegisteredGenerator*> list;
+            GeneratorSlot* first;
+            GeneratorSlot* last;
         };
 
         friend bool randomBool() noexcept;
@@ -313,7 +362,31 @@ namespace gapp::rng
 
         GAPP_API inline static constinit Xoroshiro128p global_generator_{ GAPP_SEED };
         GAPP_API inline static detail::Indestructible<GeneratorList> tls_generators_;
+        inline static constinit thread_local GeneratorSlot* reserved_slot_ = nullptr;
         alignas(128) inline static thread_local RegisteredGenerator generator_;
+
+    public:
+        /* Used for reserving the random stream of a thread before the thread is started. The streams of threads
+         * created this way only depend on the order of the reservations, and not on how the threads are scheduled. */
+        class ReservedStream
+        {
+        public:
+            ReservedStream() noexcept :
+                slot_(reserve())
+            {}
+
+            /* Must be called by the thread the stream is reserved for, before it would use the generator. */
+            void acquire() noexcept { reserved_slot_ = &slot_; }
+
+        private:
+            static GeneratorSlot reserve() noexcept
+            {
+                static_cast<void>(generator_.instance); // the stream of the calling thread must come first
+                return GeneratorSlot{};
+            }
+
+            GeneratorSlot slot_;
+        };
     };
 
 
diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index cf2fdef..4749f7d 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -8,6 +8,7 @@
 #include "functional.hpp"
 #include "iterators.hpp"
 #include "latch.hpp"
+#include "rng.hpp"
 #include "utility.hpp"
 #include <algorithm>
 #include <type_traits>
@@ -131,8 +132,10 @@ namespace gapp::detail
 
         struct alignas(128) worker_t
         {
-            static void worker_main(detail::concurrent_queue<task_t>& task_queue) noexcept
+            static void worker_main(detail::concurrent_queue<task_t>& task_queue, rng::ConcurrentXoroshiro128p::ReservedStream& random_stream) noexcept
             {
+                random_stream.acquire();
+
                 while (true)
                 {
                     auto task = task_queue.take();
@@ -144,8 +147,9 @@ namespace gapp::detail
             /* The queue must be closed for the thread to be joinable. */
             ~worker_t() noexcept { task_queue.close(); }
 
+            rng::ConcurrentXoroshiro128p::ReservedStream random_stream;
             detail::concurrent_queue<task_t> task_queue;
-            std::jthread thread{ worker_main, std::ref(task_queue) };
+            std::jthread thread{ worker_main, std::ref(task_queue), std::ref(random_stream) };
         };
 
         auto scheduled_worker_queue() noexcept -> detail::concurrent_queue<task_t>&
-- 
2.43.0


From db1452e80f9a016b2febb978148f1b54c48b1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 18/40] fix: dangling buffer after a failed allocation in
 circular_buffer

---
 src/utility/circular_buffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..f7ed433 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -278,7 +278,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
@@ -299,7 +299,8 @@ namespace gapp::detail
         {
             clear();
             if (new_capacity == capacity_) return;
-            if (buffer_) detail::deallocate(alloc_, buffer_, capacity_);
+            /* The buffer must be left empty if the allocation fails. */
+            if (buffer_) detail::deallocate(alloc_, std::exchange(buffer_, nullptr), std::exchange(capacity_, 0));
             buffer_ = detail::allocate<T>(alloc_, new_capacity).data;
             capacity_ = new_capacity;
         }
-- 
2.43.0


From 8efecec3368c03538e0fd5671ca556a4b4fcfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 19/40] fix: small_vector::pop_back destroyed the wrong element

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..b993b91 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
-- 
2.43.0


From 53c7c14731909ef83da3e59751c2c6ff940df196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 20/40] fix: small_vector::insert inserted multiple elements at
 the wrong position

---
 src/utility/small_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index b993b91..6bee4a6 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -804,17 +804,20 @@ namespace gapp
                 const difference_type offset = std::distance(cbegin(), pos);
                 const difference_type src_size = difference_type(count);
 
+                detail::allocator_managed<T, A> new_elem(alloc_, value); // the value might be an element of the vector
+
                 const auto middle = first_ + std::max(ssize() - src_size, offset);
                 const auto moved_size = last_ - middle;
                 const auto old_last   = last_;
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
 
-                detail::construct_range(alloc_, last_, new_middle, value);
+                detail::construct_range(alloc_, last_, new_middle, *new_elem);
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, *new_elem);
 
                 return first_ + offset;
             }
@@ -841,7 +844,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, src_first);
 
                 return first_ + offset;
             }
@@ -967,10 +971,10 @@ namespace gapp
 
             detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, new_capacity);
             detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
+            detail::construct_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size, value); // the value might be an element of the vector
+            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
             detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
-            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
-            detail::construct_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size, value);
-            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::relocate_range_weak(alloc_, first_ + offset, last_, alloc_result.data + offset + src_size);
             { guard1.release(); guard2.release(); guard3.release(); }
             detail::destroy_range(alloc_, first_, last_);
-- 
2.43.0


From 0c8c0d50ee08fc722726e89019cf09ff53fed8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 21/40] fix: constructing a small_vector from a range of
 another type copied bytes

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 6bee4a6..5998786 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -196,7 +196,7 @@ namespace gapp::detail
     {
         using R = std::iter_reference_t<Iter>;
 
-        if constexpr (std::contiguous_iterator<Iter> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
+        if constexpr (std::contiguous_iterator<Iter> && std::is_same_v<std::remove_cvref_t<R>, T> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
         {
             if (!std::is_constant_evaluated())
             {
-- 
2.43.0


From eee396c8206f76998eb081f169bb1557f8c030a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 22/40] fix: leak when constructing a small_vector from input
 iterators fails

---
 src/utility/small_vector.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 5998786..5de0962 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -406,10 +406,7 @@ namespace gapp
 
         template<std::input_iterator Iter>
         constexpr small_vector(Iter src_first, Iter src_last, const A& allocator = A()) :
-            first_(buffer_.begin()),
-            last_(buffer_.begin()),
-            last_alloc_(buffer_.end()),
-            alloc_(allocator)
+            small_vector(allocator)
         {
             while (src_first != src_last) emplace_back(*src_first++);
         }
-- 
2.43.0


From 7b5a855c499d30c4a35ea76e0c36654cba350356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 23/40] fix: wrong values in dynamic_bitset after growing it,
 and in empty bitsets

---
 src/utility/dynamic_bitset.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..cff07cd 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -119,14 +119,13 @@ namespace gapp::detail
 
         constexpr void resize(size_type new_size, bool value = false)
         {
-            blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
-
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size() != 0)
             {
                 blocks_.back() &= partial_block_mask();
                 blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
+            blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
             size_ = new_size;
         }
 
@@ -245,7 +244,7 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
-            return blocks_.back() & partial_block_mask();
+            return blocks_.empty() ? zeros<block_type> : (blocks_.back() & partial_block_mask());
         }
     };
 
-- 
2.43.0


From 917287d2bf483061c3a2c9017e409fb09f87bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 24/40] fix: exceptions of the elements terminated the program
 in circular_buffer

---
 src/utility/circular_buffer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f7ed433..74068fc 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -188,28 +188,28 @@ namespace gapp::detail
         //-----------------------------------//
 
         constexpr void push_back(const value_type& value)
-        noexcept(std::is_nothrow_copy_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_back(value);
         }
 
         constexpr void push_back(value_type&& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_back(std::move(value));
         }
 
         constexpr void push_front(const value_type& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(value);
         }
 
         constexpr void push_front(value_type&& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(std::move(value));
@@ -217,7 +217,7 @@ namespace gapp::detail
 
         template<typename... Args>
         constexpr reference emplace_back(Args&&... args)
-        noexcept(std::is_nothrow_constructible_v<T, Args&&...>)
+        noexcept(std::is_nothrow_constructible_v<T, Args&&...> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
 
@@ -237,7 +237,7 @@ namespace gapp::detail
 
         template<typename... Args>
         constexpr reference emplace_front(Args&&... args)
-        noexcept(std::is_nothrow_constructible_v<T, Args&&...>)
+        noexcept(std::is_nothrow_constructible_v<T, Args&&...> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
 
-- 
2.43.0


From 8a75422175480c29e14949559b6055e0373a2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 25/40] fix: wrong hypervolumes after the reference point
 changes in AutoHypervolume

---
 src/metrics/distribution_metrics.cpp | 11 ++++++++++-
 src/metrics/distribution_metrics.hpp |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..76bdb5b 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -54,6 +54,8 @@ namespace gapp::metrics
         ideal_points_.clear();
         ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
 
+        fitness_history_.clear();
+
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
 
@@ -69,7 +71,13 @@ namespace gapp::metrics
 
         if (worst_point_ != prev_worst_point)
         {
-            for (size_t i = 0; i < data_.size(); i++)
+            /* The ideal points are only enough for updating the hypervolumes in 1 or 2 dimensions. */
+            for (size_t i = 0; i < fitness_history_.size(); i++)
+            {
+                data_[i] = detail::hypervolume(fitness_history_[i], worst_point_);
+            }
+
+            for (size_t i = fitness_history_.size(); i < data_.size(); i++)
             {
                 const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
                 const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
@@ -80,6 +88,7 @@ namespace gapp::metrics
 
         data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
         ideal_points_.append_row(std::move(ideal_point));
+        if (ga.num_objectives() > 2) fitness_history_.push_back(fitness_matrix);
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..2e574b1 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -6,6 +6,7 @@
 #include "monitor.hpp"
 #include "../core/candidate.hpp"
 #include <span>
+#include <vector>
 
 namespace gapp::metrics
 {
@@ -80,6 +81,7 @@ namespace gapp::metrics
 
         FitnessVector worst_point_;
         FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> fitness_history_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From 87acfdb446d90be3cd54f5566a72ca942ec86785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 26/40] fix: running out of memory in the first read of a
 thread terminated the program in RCU

---
 src/utility/rcu.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index a646426..c4cb5b3 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -10,7 +10,8 @@
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
-#include <vector>
+#include <limits>
+#include <utility>
 #include <cstdint>
 #include <cstddef>
 
@@ -42,7 +43,7 @@ namespace gapp::detail
 
             std::shared_lock _{ tls_readers->lock };
 
-            for (const registered_reader* tls_reader : tls_readers->list)
+            for (const registered_reader* tls_reader = tls_readers->first; tls_reader; tls_reader = tls_reader->next)
             {
                 while (tls_reader->epoch.load(std::memory_order_acquire) < target) GAPP_PAUSE();
             }
@@ -51,25 +52,36 @@ namespace gapp::detail
     private:
         struct registered_reader
         {
-            registered_reader() noexcept // NOLINT(*exception-escape)
+            registered_reader() noexcept
             {
                 std::unique_lock _{ tls_readers->lock };
-                tls_readers->list.push_back(this);
+                next = std::exchange(tls_readers->first, this);
+                if (next) next->prev = this;
             }
 
             ~registered_reader() noexcept
             {
                 std::unique_lock _{ tls_readers->lock };
-                std::erase(tls_readers->list, this);
+                (prev ? prev->next : tls_readers->first) = next;
+                if (next) next->prev = prev;
             }
 
+            registered_reader(const registered_reader&)            = delete;
+            registered_reader(registered_reader&&)                 = delete;
+            registered_reader& operator=(const registered_reader&) = delete;
+            registered_reader& operator=(registered_reader&&)      = delete;
+
             std::atomic<uint64_t> epoch = NOT_READING;
+            registered_reader* prev = nullptr;
+            registered_reader* next = nullptr;
         };
 
         struct tls_reader_list
         {
+            constexpr tls_reader_list() noexcept : first(nullptr) {}
+
             detail::shared_spinlock lock;
-            std::vector<registered_reader*> list;
+            registered_reader* first;
         };
 
         static constexpr uint64_t NOT_READING = std::numeric_limits<uint64_t>::max();
-- 
2.43.0


From 6d0d11d0bf0f0d19ea013652237a2a477908148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 27/40] fix: select the nearest unselected candidates of the
 partial front in NSGA-III

---
 src/algorithm/nsga3.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..fd6f6df 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -281,10 +281,17 @@ namespace gapp::algorithm
 
     FrontElement& NSGA3::Impl::findClosestAssociated(std::span<FrontElement> pareto_fronts, size_t ref) const noexcept
     {
-        return *detail::min_element(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+        FrontElement* closest = nullptr;
+
+        for (FrontElement& sol : pareto_fronts)
         {
-            return (refIndexOf(sol) == ref) ? refDistOf(sol) : math::inf<double>;
-        });
+            if (refIndexOf(sol) != ref) continue;
+            if (!closest || refDistOf(sol) < refDistOf(*closest)) closest = &sol;
+        }
+
+        GAPP_ASSERT(closest);
+
+        return *closest;
     }
 
     void NSGA3::Impl::incrementNicheCount(std::vector<size_t>& refs, size_t ref)
@@ -365,6 +372,9 @@ namespace gapp::algorithm
         /* Move the best elements to the front of the partial front. */
         for (size_t i = 0; i < popsize - (partial_front.begin() - pareto_fronts.begin()); i++)
         {
+            /* The candidates of the partial front that haven't been selected yet. */
+            const std::span<FrontElement> remaining = { partial_front.begin() + i, partial_front.end() };
+
             const size_t min_niche_count = pimpl_->niche_counts_[ref_indices.front()];
             const auto last_minimal_ref = std::find_if(ref_indices.begin(), ref_indices.end(), [&](size_t idx)
             {
@@ -374,12 +384,12 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            const size_t associated_sol_count = std::count_if(remaining.begin(), remaining.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From 8ff09033aafdeaaa43a83ffde7f9b1c4c2ebbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 28/40] fix: dangling reference while building cone trees with
 identical points

---
 src/utility/cone_tree.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..b35aae5 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -159,11 +159,12 @@ namespace gapp::detail
                 Node left_child{ .first = node.first, .last = middle_idx };
                 Node right_child{ .first = middle_idx, .last = node.last };
 
+                node.left = nodes_.size();
+                node.right = nodes_.size() + 1;
+
+                /* The reference to the current node may be invalidated by these. */
                 nodes_.push_back(left_child);
                 nodes_.push_back(right_child);
-
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
             }
         }
     }
-- 
2.43.0


From 5bb134330cfbb3f2f77da3e1ea7d1cbc053c5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 29/40] fix: crowding distances of the wrong solutions are used
 in the NSGA-II selection

---
 src/algorithm/nsga2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..baa0087 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,7 +100,7 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
+        const std::vector<double> dists = crowdingDistances(fmat, pareto_fronts.fronts());
         dists_.resize(popsize);
 
         small_vector<size_t> new_pop(popsize);
@@ -108,6 +108,7 @@ namespace gapp::algorithm
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = dists[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From 13d6b6154e2e648bacb3f7e858408fbba64de186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 30/40] fix: the scale parameter of the sigma selection has no
 effect

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 11f4cca..6283f21 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,7 +117,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From 98b6cd45258c5b51402901e3b4d6c5aace3a7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 31/40] fix: resizing a small_vector with one of its own
 elements

---
 src/utility/small_vector.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 5de0962..18f6eb7 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,13 @@ namespace gapp
         constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
-        constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
+        constexpr void resize(size_type count, const T& value)
+        {
+            if (count <= capacity()) return resize_impl(count, value);
+
+            detail::allocator_managed<T, A> new_elem(alloc_, value); // the value might be an element of the vector
+            resize_impl(count, std::as_const(*new_elem));
+        }
 
         constexpr iterator insert(const_iterator pos, const T& value) { return emplace(pos, value); }
         constexpr iterator insert(const_iterator pos, T&& value) { return emplace(pos, std::move(value)); }
-- 
2.43.0


From c99d641b06d46af646e8c871872b27f08f125be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 32/40] fix: events with a probability of zero never happen

The permutation mutations and the exact binomial draws used u <= p with u in
[0, 1), so an event with the probability 0 happened when u was exactly 0.
They use u < p now, like the crossovers, Inversion and randomBool.
---
 src/mutation/permutation.cpp | 8 ++++----
 src/utility/rng.hpp          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 2e31c5c..d97b0b8 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -36,7 +36,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 2_sz);
 
@@ -49,7 +49,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 3) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);
 
@@ -65,7 +65,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 2;
             const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);
@@ -84,7 +84,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
             const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 7834cfd..293b36a 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -505,7 +505,7 @@ namespace gapp::rng
         GAPP_ASSERT(0.0 <= p && p <= 1.0);
 
         IntType res = 0;
-        while (n--) { res += (randomReal() <= p); }
+        while (n--) { res += (randomReal() < p); }
         return res;
     }
 
-- 
2.43.0


From a5f32afa0fcd95f0f1c5a210ac45b4e2afd8509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 33/40] fix: the default algorithm is not deduced when a
 nullptr is passed to the constructor

---
 src/core/ga_base.impl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 77ef50e..0312f5b 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
-- 
2.43.0


From 5ab8e3c58c10ae84f3d6f4e54d0410e761fdc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 34/40] fix: the algorithm is not deduced when the operators
 are passed to the constructor by value

---
 src/core/ga_base.impl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 0312f5b..c6759ca 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -82,7 +82,6 @@ namespace gapp
              std::derived_from<StoppingType, stopping::StopCondition>
     GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover, MutationType mutation, StoppingType stop_condition) :
         GA(population_size,
-           std::make_unique<algorithm::SingleObjective>(),
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-- 
2.43.0


From 5b54d91f577f63a6a4738f27652778ac7675c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 35/40] fix: overflow in the sigma scaling selection

The difference between the fitness of a candidate and the mean (or the
scaled standard deviation) isn't always representable as a double even if
all of the fitness values are finite, which made the selection ignore the
weights of the candidates.
---
 src/algorithm/soga_selection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 6283f21..8b2eabf 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,13 +117,13 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
+        const long double sdiv = std::max(static_cast<long double>(scale_) * fdev, static_cast<long double>(math::small<double>));
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-            const double weight = 1.0 + (f - fmean) * idiv;
+            const long double weight = 1.0L + (static_cast<long double>(f) - fmean) / sdiv; // the difference could overflow a double
 
-            return std::clamp(weight, 0.0, math::large<double>);  /* If ( fitness < (f_mean - scale * SD) ) the weight could be negative. */
+            return std::clamp(static_cast<double>(weight), 0.0, math::large<double>);  /* If ( fitness < (f_mean - scale * SD) ) the weight could be negative. */
         });
 
         cdf_ = weightsToCdf(fvec);
-- 
2.43.0


From 923a51bef7f011032aa4f2a3d5607c4f24f9d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 36/40] fix: shift mutation never moves the last range to the
 left

---
 src/mutation/permutation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index d97b0b8..505c253 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -90,9 +90,13 @@ namespace gapp::mutation::perm
             const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
-            const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-            const auto src_first  = chromosome.begin() + ptrdiff_t(idxs[0]);
-            const auto dest_first = chromosome.begin() + ptrdiff_t(idxs[1]);
+            /* The destination has to be different from the source, but every other position is equally likely. */
+            const size_t src_pos  = rng::randomInt(0_sz, chrom_len - range_len);
+            const size_t rand_pos = rng::randomInt(0_sz, chrom_len - range_len - 1);
+            const size_t dest_pos = rand_pos + (rand_pos >= src_pos);
+
+            const auto src_first  = chromosome.begin() + ptrdiff_t(src_pos);
+            const auto dest_first = chromosome.begin() + ptrdiff_t(dest_pos);
 
             const auto [first, middle, last] = (dest_first < src_first) ?
                 std::tuple(dest_first, src_first, src_first + range_len) :
-- 
2.43.0


From 6865ca8af3c593102d3a85338939c500cd3f2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 37/40] fix: the difference of two stable iterators is negative
 if the left one comes first

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..46cc443 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return (lhs.idx_ >= rhs.idx_) ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From 35ca8ef9839df8edc04fabe985eb9fcab1f47a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 38/40] fix: the generation counter is that of the current
 generation in metrics and in the generation callback

The counter was incremented after the metrics and the callback of a generation,
so the callbacks of the first two generations both saw 0, and the one shown for
every later generation was too low by one.
---
 src/core/ga_base.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index c6759ca..ab7f031 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -527,10 +527,11 @@ namespace gapp
         updatePopulation(std::move(children));
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
+        generation_cntr_++;
+
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From c59001636fd93b1142b54532e0d50b4a09deb95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 39/40] fix: candidates are sorted by a non-transitive
 comparison in the replacement methods

---
 src/algorithm/soga_replacement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/soga_replacement.cpp b/src/algorithm/soga_replacement.cpp
index 710ef58..7ba9764 100644
--- a/src/algorithm/soga_replacement.cpp
+++ b/src/algorithm/soga_replacement.cpp
@@ -26,7 +26,7 @@ namespace gapp::replacement
         const auto sorted_parent_indices = detail::partial_argsort(fmat.begin(), fmat.begin() + elite_count, fmat.begin() + ga.population_size(),
         [](const auto& lhs, const auto& rhs) noexcept
         {
-            return math::paretoCompareLess(rhs, lhs); // descending
+            return lhs[0] > rhs[0]; // descending, exact comparison as a tolerance isn't transitive
         });
 
         small_vector<size_t> indices(ga.population_size());
@@ -43,7 +43,7 @@ namespace gapp::replacement
         auto sorted_indices = detail::partial_argsort(fmat.begin(), fmat.begin() + ga.population_size(), fmat.end(),
         [](const auto& lhs, const auto& rhs) noexcept
         {
-            return math::paretoCompareLess(rhs, lhs); // descending
+            return lhs[0] > rhs[0]; // descending, exact comparison as a tolerance isn't transitive
         });
         sorted_indices.resize(ga.population_size());
 
-- 
2.43.0


From df9e2e4c0e54d9493255827c183dee39da240983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 40/40] fix: the hypervolume calculation takes exponential time
 for points that are equal within the tolerances

---
 src/metrics/pop_stats.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/metrics/pop_stats.cpp b/src/metrics/pop_stats.cpp
index 47b86c5..dbb861d 100644
--- a/src/metrics/pop_stats.cpp
+++ b/src/metrics/pop_stats.cpp
@@ -123,14 +123,24 @@ namespace gapp::detail
 
     static inline FitnessMatrix uniqueSortedParetoFront(const FitnessMatrix& fmat)
     {
-        const auto optimal_indices = detail::findParetoFrontSort(fmat);
+        /* The comparisons must be exact here: points that are only equal within the tolerances would all be kept, and
+         * the hypervolume calculation would take exponential time, as limiting them doesn't make any of them dominated. */
+        const auto indices = detail::argsort(fmat.begin(), fmat.end(), [](const auto& lhs, const auto& rhs) noexcept
+        {
+            return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end()); // descending
+        });
 
         FitnessMatrix front;
-        front.reserve(optimal_indices.size(), fmat.ncols());
+        front.reserve(fmat.nrows(), fmat.ncols());
 
-        for (size_t optimal_idx : optimal_indices)
+        for (size_t idx : indices)
         {
-            if (front.empty() || fmat[optimal_idx] != front.back()) front.append_row(fmat[optimal_idx]);
+            const auto point = fmat[idx];
+            const bool dominated = std::any_of(front.begin(), front.end(), [&](const auto& other) noexcept
+            {
+                return std::equal(point.begin(), point.end(), other.begin(), std::less_equal{});
+            });
+            if (!dominated) front.append_row(point);
         }
 
         return front;
-- 
2.43.0

