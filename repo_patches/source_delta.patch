From 4607acc9a726632a7c1b04f0af49c2e072485f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 01/28] fix: make the queue mutex mutable so that the const
 emptiness query compiles

ThreadSafeQueue::IsEmpty() const locks mutex_, which is not possible on a
const object: the member cannot be instantiated, and clang rejects the header
outright.
---
 src/parallel/thread/thread_safe_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/thread/thread_safe_queue.h b/src/parallel/thread/thread_safe_queue.h
index abe5930..1597d56 100644
--- a/src/parallel/thread/thread_safe_queue.h
+++ b/src/parallel/thread/thread_safe_queue.h
@@ -35,7 +35,7 @@ public:
 
 private:
     std::queue<TElement> queue_;
-    boost::mutex mutex_;
+    mutable boost::mutex mutex_;
     boost::condition_variable condition_variable_;
 
     DISALLOW_COPY_AND_ASSIGN(ThreadSafeQueue);
-- 
2.43.0


From 782f3db33a522997cd6bc6fc6b0fca9fe4454062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/28] fix: report a failed task as done so that the batch
 fails instead of waiting forever

---
 src/parallel/thread/thread_worker_pool.cpp |  9 +++++++++
 src/parallel/thread/worker.h               | 22 ++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..593c721 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -28,6 +28,15 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<results.size(); i++)
+    {
+        if(!results[i])
+        {
+            throw std::runtime_error("Task was not performed successfully.");
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index be96347..2372ea3 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -60,7 +60,25 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             //boost::this_thread::disable_interruption di;
             TTask to_do;
             tasks_to_do->WaitAndPop(to_do);
-            to_do.DoTask();
+
+            try
+            {
+                to_do.DoTask();
+            }
+            catch(boost::thread_interrupted&)
+            {
+                throw;
+            }
+            catch(const std::exception& ex)
+            {
+                std::cout << "Incorrect task: " << ex.what() <<std::endl;
+            }
+            catch(...)
+            {
+                std::cout << "Incorrect task: unknown exception." << std::endl;
+            }
+
+            //Failed task is done too, otherwise the one waiting for it would wait forever
             done_tasks->Push(to_do);
         }
         catch(boost::thread_interrupted&)
@@ -70,7 +88,7 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
         }
         catch(const std::exception& ex)
         {
-            std::cout << "Incorrect task: " << ex.what() <<std::endl;
+            std::cout << "Worker error: " << ex.what() <<std::endl;
         }
 
         try
-- 
2.43.0


From 020cb19284bb26402ac36c41b3615099879f9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 03/28] fix: stop the workers already started when a pool
 cannot start all of them

---
 .../thread/thread_worker_pool_templated.h     | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..120e27c 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -99,9 +99,29 @@ void ThreadWorkerPoolTemplated<TTask>::Initialize()
 
     workers_ = new Worker<TTask> [number_of_workers_];
 
-    for(int i=0; i<number_of_workers_; i++)
+    int started = 0;
+    try
+    {
+        for(; started<number_of_workers_; started++)
+        {
+            workers_[started].Start(&tasks_to_do_, &done_tasks_);
+        }
+    }
+    catch(...)
     {
-        workers_[i].Start(&tasks_to_do_, &done_tasks_);
+        //Workers that are running already use the queues of this pool, so they should finish first
+        for(int i=0; i<started; i++)
+        {
+            workers_[i].Stop();
+        }
+
+        for(int i=0; i<started; i++)
+        {
+            workers_[i].Join();
+        }
+
+        delete [] workers_;
+        throw;
     }
 }
 
-- 
2.43.0


From 68bb5d91594a842e2274321918056046a37e96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 04/28] fix: throw standard exceptions instead of string
 literals from the continuous wavelet

---
 include/k52/dsp/wavelet.h | 3 ++-
 src/dsp/wavelet.cpp       | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/k52/dsp/wavelet.h b/include/k52/dsp/wavelet.h
index 69da850..33b6d9d 100644
--- a/include/k52/dsp/wavelet.h
+++ b/include/k52/dsp/wavelet.h
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 #include <k52/common/disallow_copy_and_assign.h>
@@ -70,7 +71,7 @@ std::vector<T> Wavelet::transform(typename std::vector<T>::const_iterator data_b
     if(real_part_.empty() || imaj_part_.empty() || scale_.empty())
     {
         std::cerr << "Try to call CreateWavelet before transformation" << std::endl;
-        throw "Wavelet isn't ready";
+        throw std::logic_error("Wavelet isn't ready");
     }
 
     std::vector<T> result(count_);
diff --git a/src/dsp/wavelet.cpp b/src/dsp/wavelet.cpp
index 0962d16..105c3ee 100644
--- a/src/dsp/wavelet.cpp
+++ b/src/dsp/wavelet.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <cmath>
 #include <numeric>
+#include <stdexcept>
 #include <iostream>
 
 namespace k52
@@ -40,7 +41,7 @@ void Wavelet::createWavelet(ScaleType type)
     if(!base_function_)
     {
         std::cerr << "The base function has been never set for the wavelet\n";
-        throw "The base function has been never set for the wavelet\n";
+        throw std::logic_error("The base function has been never set for the wavelet");
     }
 
     // prepare real part vector
@@ -100,7 +101,7 @@ void Wavelet::createScale(ScaleType type)
         } break;
         default:
         {
-            throw "Should never be reached\n";
+            throw std::invalid_argument("Unknown scale type");
         }
     }
 }
-- 
2.43.0


From 71f132492f176f7e09b790f962a5062c7d97e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 05/28] fix: a setting that cannot be stored no longer leaves
 an empty property behind

---
 include/k52/common/settings_manager.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k52/common/settings_manager.inl b/include/k52/common/settings_manager.inl
index 85c03d9..b7c8925 100644
--- a/include/k52/common/settings_manager.inl
+++ b/include/k52/common/settings_manager.inl
@@ -33,7 +33,10 @@ template <class PropertyType>
 bool SettingsManager::put(const std::string& property_name, const PropertyType& property_value)
 try
 {
-    property_tree_.put(property_name, property_value);
+    // Convert before touching the tree: a failed conversion must not leave an empty property behind
+    boost::property_tree::ptree converted_value;
+    converted_value.put_value(property_value);
+    property_tree_.put(property_name, converted_value.data());
     return true;
 }
 catch (...)
-- 
2.43.0


From 4d6e4280d221764496c5201ba30eb9b881348d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 06/28] fix: cache lookups no longer insert an empty record for
 an unknown key

---
 include/k52/common/cache.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..7b47c88 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -75,18 +75,19 @@ typename Cache<TKey, TValue>::shared_ptr Cache<TKey, TValue>::Create(double data
 template <typename TKey, typename TValue>
 bool Cache<TKey, TValue>::IsCached(const TKey& key)
 {
-    StoredValue<TValue> stored_value = cache_map_[key];
-    return stored_value.has_value();
+    //operator[] would insert an empty record for an unknown key
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    return it != cache_map_.end() && it->second.has_value();
 }
 
 template <typename TKey, typename TValue>
 TValue Cache<TKey, TValue>::GetCachedValue(const TKey& key)
 {
-    StoredValue<TValue>& stored_value = cache_map_[key];
-    if (stored_value.has_value())
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    if (it != cache_map_.end() && it->second.has_value())
     {
-        stored_value.IncrementUsage();
-        return stored_value.get_value();
+        it->second.IncrementUsage();
+        return it->second.get_value();
     }
     else
     {
-- 
2.43.0


From cdafef82a87ec42c4b2860e46b2095b8df529ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 07/28] fix: refuse a number of initial parameters that differs
 from the population size

---
 .../genetic_algorithm/genetic_algorithm.cpp            | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..76befd5 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,13 +144,19 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
+    if (initial_parameters.size() != population_size_)
+    {
+        throw std::invalid_argument("Initial parameters must have same size as population.");
+    }
+
+    std::vector<IDiscreteParameters::shared_ptr> clones(population_size_);
 
     for (std::size_t i = 0; i < population_size_; ++i)
     {
-        initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
+        clones[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
 
+    initial_parameters_ = clones;
     were_initial_parameters_set_ = true;
 }
 
-- 
2.43.0


From b908e3b561b8ea61f0702bde2289a3a7704eb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 08/28] fix: check the kind of task results before using them

---
 .../objective_function_counter.cpp            |  5 +++++
 .../optimization_parameters_processor.cpp     | 22 ++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..c7ae9fb 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -121,6 +121,11 @@ vector< ObjectiveFunctionTaskResult::shared_ptr > ObjectiveFunctionCounter::Coun
     for(size_t i = 0; i<raw_results.size(); i++)
     {
         results[i] = boost::dynamic_pointer_cast<ObjectiveFunctionTaskResult>(raw_results[i]);
+
+        if(!results[i])
+        {
+            throw std::logic_error("An objective function task must produce an objective function task result");
+        }
     }
     return results;
 }
diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..c397ada 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -46,13 +46,20 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
         = worker_pool_->DoTasks(task_pointers);
 
     //TODO FIX COPYPASTE AND REFACTOR ARCHITECTURE TO COUNT PARALLEL
+    std::vector<IParameters::shared_ptr> optimal_parameters(parameters.size());
     std::vector<double> values(parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
     {
-        values[i] = function_to_optimize(
-            boost::dynamic_pointer_cast<OptimizationTaskResult>(task_results[i])
-                ->get_optimal_parameters().get()
-        );
+        OptimizationTaskResult::shared_ptr result
+            = boost::dynamic_pointer_cast<OptimizationTaskResult>(task_results[i]);
+
+        if(!result)
+        {
+            throw std::logic_error("An optimization task must produce an optimization task result");
+        }
+
+        optimal_parameters[i] = result->get_optimal_parameters();
+        values[i] = function_to_optimize(optimal_parameters[i].get());
     }
 
     size_t index = 0;
@@ -70,12 +77,7 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
         }
     }
 
-    //TODO FIX
-    return boost::dynamic_pointer_cast<IParameters>(
-        boost::dynamic_pointer_cast<OptimizationTaskResult>(
-            task_results[index]
-        )->get_optimal_parameters()
-    );
+    return optimal_parameters[index];
 }
 
 }/* namespace optimization */
-- 
2.43.0


From d7107d6cc374cb11ab0ad8ca3e5e859867d90e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 09/28] fix: choose the best of several candidates also among
 ties and NaN, and refuse an empty list

---
 src/optimization/optimization_parameters_processor.cpp | 8 ++++++--
 src/optimization/simple_parameters_processor.cpp       | 3 +--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index c397ada..a8b6104 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,11 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
+
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
@@ -67,8 +72,7 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = values[i] > value;
-        condition = maximize ? condition : (!condition);
+        bool condition = maximize ? values[i] > value : values[i] < value;
 
         if(condition)
         {
diff --git a/src/optimization/simple_parameters_processor.cpp b/src/optimization/simple_parameters_processor.cpp
index 954b664..8962da5 100644
--- a/src/optimization/simple_parameters_processor.cpp
+++ b/src/optimization/simple_parameters_processor.cpp
@@ -29,8 +29,7 @@ IParameters::shared_ptr SimpleParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = values[i] > value;
-        condition = maximize ? condition : (!condition);
+        bool condition = maximize ? values[i] > value : values[i] < value;
 
         if(condition)
         {
-- 
2.43.0


From ee3b6cd9f78748d10f755e6edfdd7139637548ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 10/28] fix: refuse construction arguments whose conversion to
 int overflows or whose bounds are reversed

---
 .../genetic_algorithm/flip_bit_mutator.cpp             |  8 ++++++--
 src/optimization/params/double_parameter.cpp           | 10 +++++++---
 src/optimization/params/int_parameter.cpp              |  9 +++++++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
index 9819cde..ee20ec0 100644
--- a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
+++ b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
@@ -2,6 +2,7 @@
 #include <k52/common/random.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 using ::k52::common::Random;
@@ -15,13 +16,16 @@ FlipBitMutator::FlipBitMutator(double gen_mutation_probability)
 {
     mutation_probability_ = gen_mutation_probability;
 
-    max_number_of_skipped_gens_ = (int)std::floor(1 / mutation_probability_) - 1;
+    double max_number_of_skipped_gens = std::floor(1 / mutation_probability_) - 1;
 
-    if (max_number_of_skipped_gens_ <= 0)
+    //Too small probability gives a number which cannot be represented as int
+    if (!(max_number_of_skipped_gens > 0 && max_number_of_skipped_gens < std::numeric_limits<int>::max()))
     {
         throw std::invalid_argument("gen_mutation_probability was set incorrectly");
     }
 
+    max_number_of_skipped_gens_ = (int)max_number_of_skipped_gens;
+
     SetGensToSkipNow();
 }
 
diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..188bdaf 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -2,6 +2,7 @@
 #include <k52/optimization/params/double_parameter.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 namespace k52
@@ -118,12 +119,15 @@ double DoubleParameter::get_actual_precision() const
 
 int DoubleParameter::GetMaxInt(double min_value, double max_value, double precision)
 {
-    int max_int = (int)std::ceil((max_value - min_value)/precision);
-    if(max_int < 1)
+    //CountBestMaxInt needs a power of two which is not less than max_int and is representable as int
+    const double limit = 1 << (std::numeric_limits<int>::digits - 1);
+
+    double max_int = std::ceil((max_value - min_value)/precision);
+    if(!(max_int >= 1 && max_int <= limit))
     {
         throw std::invalid_argument("minValue maxValue or precision were set incorrect");
     }
-    return max_int;
+    return (int)max_int;
 }
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..6c8a07b 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -78,6 +78,11 @@ void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chromo
 
 void IntParameter::Initialize(int value, int min_value, int max_value)
 {
+    if(max_value < min_value)
+    {
+        throw std::invalid_argument("max_value < min_value");
+    }
+
     SetConstChromosomeSize( CountChromosomeSize(min_value, max_value) );
 
     value_ = value;
@@ -87,8 +92,8 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
-    int target = max_value - min_value;
+    long long x = 1;
+    long long target = (long long)max_value - min_value;
     size_t power = 0;
     while(target>x)
     {
-- 
2.43.0


From 3df1be22a953c17ebf956665edf79714bc91bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 11/28] fix: give parameters enough bits to encode their
 largest value

---
 src/optimization/params/double_parameter.cpp | 5 +++--
 src/optimization/params/int_parameter.cpp    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index 188bdaf..487b22a 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -119,7 +119,7 @@ double DoubleParameter::get_actual_precision() const
 
 int DoubleParameter::GetMaxInt(double min_value, double max_value, double precision)
 {
-    //CountBestMaxInt needs a power of two which is not less than max_int and is representable as int
+    //CountBestMaxInt needs 2^n - 1 which is not less than max_int and is representable as int
     const double limit = 1 << (std::numeric_limits<int>::digits - 1);
 
     double max_int = std::ceil((max_value - min_value)/precision);
@@ -132,11 +132,12 @@ int DoubleParameter::GetMaxInt(double min_value, double max_value, double precis
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
 {
+    //2^n - 1 is used so that every value fits in n bits and every n bits are a valid value
     int best_max_int = 1;
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        best_max_int = best_max_int * 2 + 1;
     }
 
     return best_max_int;
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 6c8a07b..905f107 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -95,7 +95,7 @@ size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
     long long x = 1;
     long long target = (long long)max_value - min_value;
     size_t power = 0;
-    while(target>x)
+    while(target>=x)
     {
         x*=2;
         power++;
-- 
2.43.0


From 698749dd4f9410c406057a17c0c35315cb1e7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 12/28] fix: give every scalar member a value in the
 constructors

---
 include/k52/optimization/continuous_optimizer.h     | 3 +++
 include/k52/optimization/i_mutator.h                | 3 +++
 src/optimization/objective_function_task_result.cpp | 9 +++++++++
 src/optimization/objective_function_task_result.h   | 2 ++
 src/optimization/optimization_task.cpp              | 1 +
 src/parallel/mpi/mpi_worker_pool.cpp                | 3 +++
 6 files changed, 21 insertions(+)

diff --git a/include/k52/optimization/continuous_optimizer.h b/include/k52/optimization/continuous_optimizer.h
index c92d3db..1cfe8c9 100644
--- a/include/k52/optimization/continuous_optimizer.h
+++ b/include/k52/optimization/continuous_optimizer.h
@@ -14,6 +14,9 @@ class ContinuousOptimizer : public IOptimizer
 public:
     typedef boost::shared_ptr<ContinuousOptimizer> shared_ptr;
 
+    ContinuousOptimizer()
+        : function_to_optimize_(0), parameters_to_optimize_(0), maximize_(false) {}
+
     ///Virtual destructor for correct deallocation of resources in derived classes
     virtual ~ContinuousOptimizer() {}
 
diff --git a/include/k52/optimization/i_mutator.h b/include/k52/optimization/i_mutator.h
index c607f97..03102e0 100644
--- a/include/k52/optimization/i_mutator.h
+++ b/include/k52/optimization/i_mutator.h
@@ -13,6 +13,9 @@ namespace optimization
 struct MutationContext
 {
 public:
+    MutationContext()
+        : current_generation(0), max_number_of_generations(0) {}
+
     int current_generation;
     int max_number_of_generations;
 };
diff --git a/src/optimization/objective_function_task_result.cpp b/src/optimization/objective_function_task_result.cpp
index a450105..6cbdb94 100644
--- a/src/optimization/objective_function_task_result.cpp
+++ b/src/optimization/objective_function_task_result.cpp
@@ -13,6 +13,15 @@ namespace k52
 namespace optimization
 {
 
+ObjectiveFunctionTaskResult::ObjectiveFunctionTaskResult()
+    :
+#ifdef BUILD_WITH_MPI
+      communicator_(0), source_(0),
+#endif
+      objective_function_value_(0)
+{
+}
+
 double ObjectiveFunctionTaskResult::get_objective_function_value() const
 {
     return objective_function_value_;
diff --git a/src/optimization/objective_function_task_result.h b/src/optimization/objective_function_task_result.h
index ee273a4..74661f9 100644
--- a/src/optimization/objective_function_task_result.h
+++ b/src/optimization/objective_function_task_result.h
@@ -24,6 +24,8 @@ class ObjectiveFunctionTaskResult:
 public:
     typedef boost::shared_ptr<ObjectiveFunctionTaskResult> shared_ptr;
 
+    ObjectiveFunctionTaskResult();
+
     virtual ~ObjectiveFunctionTaskResult() {}
 
     double get_objective_function_value() const;
diff --git a/src/optimization/optimization_task.cpp b/src/optimization/optimization_task.cpp
index ab279bb..4f2924e 100644
--- a/src/optimization/optimization_task.cpp
+++ b/src/optimization/optimization_task.cpp
@@ -21,6 +21,7 @@ namespace optimization
 {
 
 OptimizationTask::OptimizationTask()
+    : maximize_(false)
 {
 #ifdef BUILD_WITH_MPI
     //TODO remove temporary fix
diff --git a/src/parallel/mpi/mpi_worker_pool.cpp b/src/parallel/mpi/mpi_worker_pool.cpp
index 2eaaae2..f3286c5 100644
--- a/src/parallel/mpi/mpi_worker_pool.cpp
+++ b/src/parallel/mpi/mpi_worker_pool.cpp
@@ -19,6 +19,9 @@ namespace mpi
 
 struct ResultExpectation
 {
+    ResultExpectation()
+        : worker_rank(0) {}
+
     int worker_rank;
     AsyncCallChain::shared_ptr asyncCallChain;
 };
-- 
2.43.0


From f422d306dea70d0092b37e7b9f53aa33c782df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 13/28] fix: leave an object unchanged when an update of it is
 rejected

---
 .../params/composite_discrete_parameters.h    |  4 +-
 .../genetic_algorithm/individual.cpp          | 20 ++++++----
 .../params/composite_discrete_parameters.cpp  | 38 +++++++++++--------
 .../params/double_parameters_array.cpp        |  2 +
 4 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/include/k52/optimization/params/composite_discrete_parameters.h b/include/k52/optimization/params/composite_discrete_parameters.h
index 198a9a6..fad4a1c 100644
--- a/include/k52/optimization/params/composite_discrete_parameters.h
+++ b/include/k52/optimization/params/composite_discrete_parameters.h
@@ -35,7 +35,9 @@ public:
     const IDiscreteParameters::shared_ptr GetParameter(size_t index) const;
 
 private:
-    size_t CountTotalChromosomeSize() const;
+    void SetParametersSet(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set);
+
+    size_t CountTotalChromosomeSize(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set) const;
 
     std::vector<IDiscreteParameters::shared_ptr> parameters_set_;
     InitializationChecker initialization_checker_;
diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..3a7743f 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -61,14 +61,17 @@ Individual& Individual::operator=(const Individual & a)
 
 void Individual::Initialize(const IDiscreteParameters* const parameters)
 {
-    parameters_ = IDiscreteParameters::shared_ptr(parameters->Clone());
-    chromosome_ = ChromosomeType ( parameters_->GetChromosomeSize() );
-    parameters->SetChromosome(chromosome_.begin(), chromosome_.end());
+    IDiscreteParameters::shared_ptr clone(parameters->Clone());
+    ChromosomeType chromosome( clone->GetChromosomeSize() );
+    parameters->SetChromosome(chromosome.begin(), chromosome.end());
 
+    //Another initialization is rejected here, before anything is changed
+    initialization_checker_.SetInitialized();
+
+    parameters_ = clone;
+    chromosome_ = chromosome;
     has_fitness_ = false;
     times_chosen_for_crossover_ = 0;
-
-    initialization_checker_.SetInitialized();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
@@ -117,13 +120,14 @@ int Individual::SetRandomChromosome()
 bool Individual::Crossover(Individual* another)
 {
     initialization_checker_.InitializationCheck();
+    another->initialization_checker_.InitializationCheck();
+
+    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
 
     //TODO check if Individual has changed
     another->has_fitness_ = false;
     this->has_fitness_ = false;
 
-    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
-
     this->SetParametersAccordingToChromosome();
     another->SetParametersAccordingToChromosome();
 
@@ -297,8 +301,8 @@ std::istream& operator>> (std::istream& in, Individual& individual)
         }
     }
 
-    individual.chromosome_ = new_chromosome;
     individual.set_fitness(fitness);
+    individual.chromosome_ = new_chromosome;
     individual.SetParametersAccordingToChromosome();
 
     return in;
diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..4d0f64c 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -81,30 +81,26 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(parameters.size());
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
+    SetParametersSet(parameters_set);
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(number_of_parameters);
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
+    SetParametersSet(parameters_set);
 }
 
 size_t CompositeDiscreteParameters::GetNumberOfParameters() const
@@ -126,12 +122,24 @@ const IDiscreteParameters::shared_ptr CompositeDiscreteParameters::GetParameter(
     return parameters_set_[index];
 }
 
-size_t CompositeDiscreteParameters::CountTotalChromosomeSize() const
+void CompositeDiscreteParameters::SetParametersSet(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set)
+{
+    size_t total_chromosome_size = CountTotalChromosomeSize(parameters_set);
+
+    //Another initialization is rejected here, before anything is changed
+    initialization_checker_.SetInitialized();
+
+    parameters_set_ = parameters_set;
+    this->SetConstChromosomeSize(total_chromosome_size);
+}
+
+size_t CompositeDiscreteParameters::CountTotalChromosomeSize(
+    const std::vector<IDiscreteParameters::shared_ptr>& parameters_set) const
 {
     size_t total_chromosome_size = 0;
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        total_chromosome_size += parameters_set_[i]->GetChromosomeSize();
+        total_chromosome_size += parameters_set[i]->GetChromosomeSize();
     }
     return total_chromosome_size;
 }
diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..337109d 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -102,10 +102,12 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
+    std::vector<double> previous_values = values_;
     values_ = values;
 
     if (!CheckConstraints())
     {
+        values_.swap(previous_values);
         throw std::invalid_argument("One of the values does not satisfy constraints.");
     }
 }
-- 
2.43.0


From 612641728e99798f5b03f4cbc343301acdd99ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 14/28] fix: BoundedNelderMead returns its best vertex and
 keeps vertex values current

The simplex is ordered by values to be minimised, so the best vertex is the one with the smallest value; the
largest one was returned. After a reduction every vertex but the best has moved, and the values must follow.
---
 src/optimization/bounded_nelder_mead.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..f382678 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -147,6 +147,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 if (contraction_point_value > highest_value)
                 {
                     Reduction(&polygon, min_index);
+                    function_values = CountObjectiveFunctionValues(polygon);
                     continue;
                 }
                 else
@@ -161,7 +162,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From 0d2ca4ff8cf51716442ce51e32cd867be06d7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 15/28] fix: BoundedNelderMead starts every run with an empty
 polygon history

A second run on the same object found its first polygon in the history of the previous run and stopped at once
with the initial point.
---
 src/optimization/bounded_nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index f382678..e622692 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -71,6 +71,9 @@ void BoundedNelderMead::Receive(boost::mpi::communicator* communicator, int sour
 
 std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<double>& initial_parameters)
 {
+    //Polygons of an earlier run say nothing about a loop in this one
+    previous_polygons_.clear();
+
     //Iteration index
     size_t r = 0;
 
-- 
2.43.0


From b4fd0087f5ee0ac8cc39763c9c59f6c28fe0ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:30 +0000
Subject: [PATCH 16/28] fix: the genetic algorithm starts every run with an
 empty fitness cache

---
 include/k52/common/cache.h                               | 8 ++++++++
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++++
 src/optimization/objective_function_counter.cpp          | 8 ++++++++
 src/optimization/objective_function_counter.h            | 2 ++
 4 files changed, 23 insertions(+)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index 7b47c88..e9b3147 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -43,6 +43,8 @@ public:
 
     void AddValues(const std::vector<CacheRecord>& value_records);
 
+    void Clear();
+
 protected:
     void ClearCacheUpToLimit();
     bool IsSizeLimitExceeded();
@@ -118,6 +120,12 @@ void Cache<TKey, TValue>::AddValues(const std::vector<CacheRecord>& value_record
     }
 }
 
+template <typename TKey, typename TValue>
+void Cache<TKey, TValue>::Clear()
+{
+    cache_map_.clear();
+}
+
 template <typename TKey, typename TValue>
 void Cache<TKey, TValue>::ClearCacheUpToLimit()
 {
diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 76befd5..7e0b76e 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -192,6 +192,11 @@ void GeneticAlgorithm::Initialize(const IDiscreteParameters* parameters_to_optim
     population_ = vector<Individual::shared_ptr>(population_size_);
     population_statistics_ = vector<IndividualStatistics>(population_size_);
 
+    //Cached values belong to the objective function of the previous run
+    fitness_counter_->ResetCache();
+    fitness_counter_->ResetCacheHits();
+    invalid_chromosomes_ = 0;
+
     if (were_initial_parameters_set_)
     {
         ValidateInitialParameters(parameters_to_optimize);
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index c7ae9fb..81ca801 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -65,6 +65,14 @@ vector<double> ObjectiveFunctionCounter::CountObjectiveFunctionValues(
     return counted_values;
 }
 
+void ObjectiveFunctionCounter::ResetCache()
+{
+    if (cache_)
+    {
+        cache_->Clear();
+    }
+}
+
 void ObjectiveFunctionCounter::ResetCacheHits()
 {
     cache_hits_ = 0;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..b5890e8 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -37,6 +37,8 @@ public:
         const std::vector<const IParameters*>& parameters_to_count,
         const IObjectiveFunction& objective_function);
 
+    //Forgets values of the objective function counted so far
+    void ResetCache();
     void ResetCacheHits();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
-- 
2.43.0


From b549e0b3e7b9eb21bb8744e05caf0c670da0b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 17/28] fix: RandomSearch evaluates only points that satisfy
 the constraints

---
 src/optimization/random_search.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/random_search.cpp b/src/optimization/random_search.cpp
index ec883b3..6fdec95 100644
--- a/src/optimization/random_search.cpp
+++ b/src/optimization/random_search.cpp
@@ -46,7 +46,12 @@ vector<double> RandomSearch::FindOptimalParameters(const vector<double>& initial
     for(size_t i=0; i<number_of_random_points_; i++)
     {
         IContinuousParameters::shared_ptr tmp = IContinuousParameters::shared_ptr(get_parameters_to_optimize()->Clone());
-        tmp->SetValues(Random::Instance().GenerateRandomVector(vector_size, lower_bound_, upper_bound_));
+        //The objective function must not be evaluated at points that do not satisfy constraints
+        do
+        {
+            tmp->SetValues(Random::Instance().GenerateRandomVector(vector_size, lower_bound_, upper_bound_));
+        }
+        while(!tmp->CheckConstraints());
         random_parameters[i] = tmp;
     }
 
-- 
2.43.0


From 8baebc39fa84ddd3e3fafb9f54622073ded401ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:30 +0000
Subject: [PATCH 18/28] fix: the genetic algorithm refuses initial parameters
 that do not satisfy the constraints

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 7e0b76e..194ac6d 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -244,6 +244,11 @@ void GeneticAlgorithm::ValidateInitialParameters(const IDiscreteParameters* para
             throw std::invalid_argument("Initial parameters have defferent chromosome representation. "
                 "Check if their meta-parameters are equal to parameters_to_optimeze's.");
         }
+
+        if (!initial_parameters_[i]->CheckConstraints())
+        {
+            throw std::invalid_argument("Initial parameters do not satisfy constraints.");
+        }
     }
 }
 
-- 
2.43.0


From 768378fcde9df53f1c827948779c6c3cdb810393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 19/28] fix: DoubleParameter restores a value it has produced
 instead of the next smaller one

---
 src/optimization/params/double_parameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index 487b22a..9280a0e 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -98,7 +98,8 @@ double DoubleParameter::GetValue() const
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
+    //The nearest representable value is used, so that a value which was got from here is restored exactly
+    int int_value = (int)std::floor((value - min_value_)/precision_ + 0.5);
     base_int_parameter_->set_value(int_value);
 }
 
-- 
2.43.0


From 8fe6b1188fe6ac7c29c926684f90322d4d534f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:56 +0000
Subject: [PATCH 20/28] fix: NaN is not accepted as a probability

---
 src/common/random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..57badc1 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -19,7 +19,7 @@ Random& Random::Instance()
 
 void Random::ValidateProbability(double probability)
 {
-    if ( probability < 0 || probability > 1 )
+    if ( !(probability >= 0 && probability <= 1) )
     {
         throw std::invalid_argument("Invalid probability value");
     }
-- 
2.43.0


From 71cf0d17a77c16482c4d49d047c30241f34fc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:56 +0000
Subject: [PATCH 21/28] fix: NaN is not accepted as a wavelet scale

A NaN scale broke the ordering of the filter cache's keys.
---
 src/dsp/transform/wavelet/fast_wavelet_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/transform/wavelet/fast_wavelet_transform.cpp b/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
index 82976f4..51f2f6c 100644
--- a/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
+++ b/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
@@ -69,7 +69,7 @@ vector< vector< complex< double > > > FastWaveletTransform::Transform(
 std::vector< std::complex< double > > FastWaveletTransform::TransformOneScale(
         const std::vector< std::complex< double > > &sequence, IWavelet::shared_ptr wavelet, double scale) const
 {
-    if (scale <= 0)
+    if (!(scale > 0))
     {
         throw invalid_argument("scale <= 0");
     }
-- 
2.43.0


From 832298cbb84701bd11e342ca331a08be531a880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:56 +0000
Subject: [PATCH 22/28] fix: NaN is not accepted as a bound of a linear scale

---
 src/dsp/transform/wavelet/linear_scale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/transform/wavelet/linear_scale.cpp b/src/dsp/transform/wavelet/linear_scale.cpp
index 45a3a41..c463c74 100644
--- a/src/dsp/transform/wavelet/linear_scale.cpp
+++ b/src/dsp/transform/wavelet/linear_scale.cpp
@@ -12,12 +12,12 @@ namespace dsp
 LinearScale::LinearScale(double min_scale, double max_scale, size_t scale_count)
         : min_scale_(min_scale), max_scale_(max_scale), scale_count_(scale_count)
 {
-    if(min_scale <= 0)
+    if(!(min_scale > 0))
     {
         throw invalid_argument("min_scale <= 0");
     }
 
-    if(max_scale <= 0)
+    if(!(max_scale > 0))
     {
         throw invalid_argument("max_scale <= 0");
     }
-- 
2.43.0


From 8b5a0cecc83616fe2804fac8a6ca371a5e6b5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:56 +0000
Subject: [PATCH 23/28] fix: NaN is not accepted as a fitness

Individuals with a NaN fitness cannot be ordered, and no parent can be selected among them.
---
 src/optimization/genetic_algorithm/individual.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 3a7743f..72488cd 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -194,7 +194,7 @@ double Individual::get_fitness() const
 
 void Individual::set_fitness(double fitness)
 {
-    if(fitness < 0)
+    if(!(fitness >= 0))
     {
         throw std::logic_error("Currently fitness must be >= 0!");
     }
-- 
2.43.0


From 13fc1e5aecf654dd1c7723c6788ffbdab86aed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:32 +0000
Subject: [PATCH 24/28] fix: a conjugate gradient iteration limit of 0 or 1 is
 a limit too

---
 src/optimization/conjugate_gradient_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 0dee546..3a999e0 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -106,7 +106,7 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
         exit = sqrt(exit);
 
         iteration++;
-        if (iteration == number_of_iterations_)
+        if (iteration >= number_of_iterations_)
         {
             std::cout << "Solution not found" << std::endl;
             break;
-- 
2.43.0


From fe7d1044796ada72a2ad19456d8522ec8f89297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:32 +0000
Subject: [PATCH 25/28] fix: a steepest descent iteration limit of 0 is a limit
 too

---
 src/optimization/steepest_descent_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ac7352b..074a2d6 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -89,7 +89,7 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
         }
 
     } while (!IsExitCriteriaFulfilled(next_step_parameters) 
-        && !(counter == max_iteration_number_));
+        && counter < max_iteration_number_);
 
     return parameters;
 }
-- 
2.43.0


From 3c33685671acc8219f8c2972c22685bef9a25ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:32 +0000
Subject: [PATCH 26/28] fix: Hooke-Jeeves keeps its iteration limit between
 pattern moves

---
 src/optimization/hooke_jeeves_method.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 5d8b562..c1a5fa8 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -80,6 +80,7 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
 
     do
     {
+        iteration++;
         arguments_after_search = CoordinatewiseSearch(arguments, steps_array);
         if (common::FloatingPoint::AreEqual(arguments, arguments_after_search))
         {
@@ -111,13 +112,13 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
 
             iteration++;
             // Check number of iterations
-            if (iteration == max_iteration_number_)
+            if (iteration >= max_iteration_number_)
             {
                 std::cout << "Solution not found" << std::endl;
                 return arguments_after_search;
             }
         }
-    } while (!IsExitCriteriaFulfilled(steps_array));
+    } while (!IsExitCriteriaFulfilled(steps_array) && iteration < max_iteration_number_);
     return arguments_after_search;
 }
 
-- 
2.43.0


From e45f5314ec4254723a49c0a5cad77596cdbc856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:40 +0000
Subject: [PATCH 27/28] fix: a neighbour as good as the current point is
 accepted at temperature zero too

---
 src/optimization/simulated_annealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/simulated_annealing.cpp b/src/optimization/simulated_annealing.cpp
index b0ea560..cec148c 100644
--- a/src/optimization/simulated_annealing.cpp
+++ b/src/optimization/simulated_annealing.cpp
@@ -77,7 +77,7 @@ double SimulatedAnnealing::CountAcceptanceProbability(double current_value, doub
         throw std::runtime_error("Negative temperature");
     }
 
-    if (new_value < current_value)
+    if (new_value <= current_value)
     {
         return 1;
     }
-- 
2.43.0


From 5b17444c8e401bb181c72d1722a173508f9672bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:40 +0000
Subject: [PATCH 28/28] fix: the mutation probability of the first and last
 generation is the configured one

---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..0afb3cc 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -25,6 +25,15 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
+    //The ends are exact: rounding could leave the range of probabilities, a single generation would mean 0/0
+    if (current <= 0)
+    {
+        return start_mutation_value_;
+    }
+    if (current >= max)
+    {
+        return end_mutation_value_;
+    }
     return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
 }
 }/* namespace optimization */
-- 
2.43.0

