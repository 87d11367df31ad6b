From fc629e4f3697ff261049ebb33b0a3fbd3482e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:28 +0000
Subject: [PATCH 01/20] fix: contain exceptions thrown during training and
 inference

An exception thrown by a listener, a step or the creation of a worker while
the worker pool was running terminated the process (std::terminate) or left
queued documents and results behind for the next call.
---
 include/ldaplusplus/LDA.hpp |   9 ++
 src/ldaplusplus/LDA.cpp     | 159 ++++++++++++++++++++++++------------
 2 files changed, 114 insertions(+), 54 deletions(-)

diff --git a/include/ldaplusplus/LDA.hpp b/include/ldaplusplus/LDA.hpp
index e36782a..6a29007 100644
--- a/include/ldaplusplus/LDA.hpp
+++ b/include/ldaplusplus/LDA.hpp
@@ -3,6 +3,7 @@
 
 
 #include <condition_variable>
+#include <exception>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -207,6 +208,12 @@ class LDA
          */
         void destroy_worker_pool();
 
+        /**
+         * Stop the workers and forget everything that is queued. Used when a
+         * pass over a corpus cannot be completed because something threw.
+         */
+        void abort_worker_pool();
+
         /**
          * Forward the events generated in the worker threads to this event
          * dispatcher in this thread.
@@ -269,6 +276,8 @@ class LDA
         std::mutex queue_out_mutex_;
         std::condition_variable queue_out_cv_;
         std::list<std::tuple<std::shared_ptr<parameters::Parameters>, size_t> > queue_out_;
+        // set (guarded by queue_out_mutex_) when a worker stopped by throwing
+        std::exception_ptr worker_exception_;
 
         // An event dispatcher that we will use to communicate with the
         // external components
diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 606e8b0..13e56af 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -92,31 +92,36 @@ void LDA<Scalar>::partial_fit(std::shared_ptr<corpus::Corpus> corpus) {
     // Shuffle the documents for a randomized pass through
     corpus->shuffle();
 
-    // Queue all the documents
-    for (size_t i=0; i<corpus->size(); i++) {
-        queue_in_.emplace_back(corpus, i);
-    }
+    try {
+        // Queue all the documents
+        for (size_t i=0; i<corpus->size(); i++) {
+            queue_in_.emplace_back(corpus, i);
+        }
 
-    // create the thread pool
-    create_worker_pool();
+        // create the thread pool
+        create_worker_pool();
 
-    // Extract variational parameters and calculate the doc_m_step
-    for (size_t i=0; i<corpus->size(); i++) {
-        std::shared_ptr<parameters::Parameters> variational_parameters;
-        size_t index;
+        // Extract variational parameters and calculate the doc_m_step
+        for (size_t i=0; i<corpus->size(); i++) {
+            std::shared_ptr<parameters::Parameters> variational_parameters;
+            size_t index;
 
-        std::tie(variational_parameters, index) = extract_vp_from_queue();
+            std::tie(variational_parameters, index) = extract_vp_from_queue();
 
-        // tell the thread safe event dispatcher to process the events from the
-        // workers
-        process_worker_events();
+            // tell the thread safe event dispatcher to process the events from
+            // the workers
+            process_worker_events();
 
-        // perform the online part of m step
-        m_step_->doc_m_step(
-            corpus->at(index),
-            variational_parameters,
-            model_parameters_  // output
-        );
+            // perform the online part of m step
+            m_step_->doc_m_step(
+                corpus->at(index),
+                variational_parameters,
+                model_parameters_  // output
+            );
+        }
+    } catch (...) {
+        abort_worker_pool();
+        throw;
     }
 
     // destroy the thread pool
@@ -148,25 +153,30 @@ typename LDA<Scalar>::MatrixX LDA<Scalar>::transform(const Eigen::MatrixXi& X) {
     // make a corpus to use
     auto corpus = get_corpus(X);
 
-    // Queue all the documents
-    for (size_t i=0; i<corpus->size(); i++) {
-        queue_in_.emplace_back(corpus, i);
-    }
+    try {
+        // Queue all the documents
+        for (size_t i=0; i<corpus->size(); i++) {
+            queue_in_.emplace_back(corpus, i);
+        }
 
-    // create the thread pool
-    create_worker_pool();
+        // create the thread pool
+        create_worker_pool();
 
-    // Extract variational parameters and calculate the doc_e_step
-    for (size_t i=0; i<corpus->size(); i++) {
-        std::shared_ptr<parameters::Parameters> vp;
-        size_t index;
+        // Extract variational parameters and calculate the doc_e_step
+        for (size_t i=0; i<corpus->size(); i++) {
+            std::shared_ptr<parameters::Parameters> vp;
+            size_t index;
 
-        std::tie(vp, index) = extract_vp_from_queue();
-        gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;
+            std::tie(vp, index) = extract_vp_from_queue();
+            gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;
 
-        // tell the thread safe event dispatcher to process the events from the
-        // workers
-        process_worker_events();
+            // tell the thread safe event dispatcher to process the events from
+            // the workers
+            process_worker_events();
+        }
+    } catch (...) {
+        abort_worker_pool();
+        throw;
     }
 
     // destroy the thread pool
@@ -247,33 +257,69 @@ void LDA<Scalar>::destroy_worker_pool() {
 }
 
 
+template <typename Scalar>
+void LDA<Scalar>::abort_worker_pool() {
+    // leave the workers nothing more to do
+    {
+        std::lock_guard<std::mutex> lock(queue_in_mutex_);
+        queue_in_.clear();
+    }
+    for (auto & t : workers_) {
+        if (t.joinable())
+            t.join();
+    }
+
+    // drop the results nobody is going to ask for
+    queue_out_.clear();
+    worker_exception_ = nullptr;
+
+    // and deliver the events of the documents that did finish so that they
+    // are not mistaken for events of a later call
+    try {
+        process_worker_events();
+    } catch (...) {
+        // something else is already being reported
+    }
+}
+
+
 template <typename Scalar>
 void LDA<Scalar>::doc_e_step_worker() {
     std::shared_ptr<corpus::Corpus> corpus;
     size_t index;
 
-    while (true) {
-        // extract a job
-        {
-            std::lock_guard<std::mutex> lock(queue_in_mutex_);
-            if (queue_in_.empty())
-                break;
-            std::tie(corpus, index) = queue_in_.front();
-            queue_in_.pop_front();
+    try {
+        while (true) {
+            // extract a job
+            {
+                std::lock_guard<std::mutex> lock(queue_in_mutex_);
+                if (queue_in_.empty())
+                    break;
+                std::tie(corpus, index) = queue_in_.front();
+                queue_in_.pop_front();
+            }
+
+            // do said job
+            auto vp = e_step_->doc_e_step(
+                corpus->at(index),
+                model_parameters_
+            );
+
+            // show some results
+            {
+                std::lock_guard<std::mutex> lock(queue_out_mutex_);
+                queue_out_.emplace_back(vp, index);
+            }
+            // talk about those results
+            queue_out_cv_.notify_one();
         }
-
-        // do said job
-        auto vp = e_step_->doc_e_step(
-            corpus->at(index),
-            model_parameters_
-        );
-
-        // show some results
+    } catch (...) {
+        // hand the problem to the thread that waits for the result
         {
             std::lock_guard<std::mutex> lock(queue_out_mutex_);
-            queue_out_.emplace_back(vp, index);
+            if (!worker_exception_)
+                worker_exception_ = std::current_exception();
         }
-        // talk about those results
         queue_out_cv_.notify_one();
     }
 }
@@ -282,7 +328,12 @@ void LDA<Scalar>::doc_e_step_worker() {
 template <typename Scalar>
 std::tuple<std::shared_ptr<parameters::Parameters>, size_t> LDA<Scalar>::extract_vp_from_queue() {
     std::unique_lock<std::mutex> lock(queue_out_mutex_);
-    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });
+    queue_out_cv_.wait(lock, [this](){
+        return !queue_out_.empty() || worker_exception_;
+    });
+
+    if (worker_exception_)
+        std::rethrow_exception(worker_exception_);
 
     auto f = queue_out_.front();
     queue_out_.pop_front();
-- 
2.43.0


From e7982c0b44ac6b6ed819deefa1b8560942dc0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:45 +0000
Subject: [PATCH 02/20] fix: use at least one worker

With zero workers requested, or hardware_concurrency() reporting 0, training
and inference waited forever for results nobody computes.
---
 src/ldaplusplus/LDA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 13e56af..32d8d4a 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -21,7 +21,7 @@ LDA<Scalar>::LDA(
     e_step_(e_step),
     m_step_(m_step),
     iterations_(iterations),
-    workers_(workers),
+    workers_(std::max<size_t>(workers, 1)),  // without any nobody does the work
     event_dispatcher_(std::make_shared<events::SameThreadEventDispatcher>())
 {
     set_up_event_dispatcher();
-- 
2.43.0


From dbe08d468c607c2ddd07697d3d16f01b6c2bcaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:13 +0000
Subject: [PATCH 03/20] fix: removing a listener takes effect at once

Removals were queued and applied at the start of the next process_events(), so
a listener removed and added again was lost, and a listener removed between
that point and the copying of the list received events dispatched after its
removal had completed. The plain dispatcher traversed the live list while its
listeners may change it.
---
 include/ldaplusplus/events/Events.hpp |  4 ----
 src/ldaplusplus/events/Events.cpp     | 29 +++++++--------------------
 2 files changed, 7 insertions(+), 26 deletions(-)

diff --git a/include/ldaplusplus/events/Events.hpp b/include/ldaplusplus/events/Events.hpp
index bcaa96b..9e0bb8a 100644
--- a/include/ldaplusplus/events/Events.hpp
+++ b/include/ldaplusplus/events/Events.hpp
@@ -6,7 +6,6 @@
 #include <memory>
 #include <mutex>
 #include <thread>
-#include <unordered_set>
 
 namespace ldaplusplus {
 namespace events {
@@ -223,9 +222,6 @@ class ThreadSafeEventDispatcher : public EventDispatcherInterface
         std::mutex listeners_mutex_;
         std::list<std::shared_ptr<EventListenerInterface> > listeners_;
 
-        std::mutex deleted_listeners_mutex_;
-        std::unordered_set<std::shared_ptr<EventListenerInterface> > deleted_listeners_;
-
         std::mutex events_mutex_;
         std::list<std::shared_ptr<Event> > events_;
 };
diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..42bf392 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -40,7 +40,9 @@ void EventDispatcher::remove_listener(std::shared_ptr<EventListenerInterface> li
 
 
 void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
-    for (auto l : listeners_) {
+    // the listeners may add or remove listeners so traverse a copy
+    auto listeners = listeners_;
+    for (auto l : listeners) {
         l->on_event(event);
     }
 }
@@ -57,9 +59,9 @@ void ThreadSafeEventDispatcher::add_listener(
 void ThreadSafeEventDispatcher::remove_listener(
     std::shared_ptr<EventListenerInterface> listener
 ) {
-    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);
+    std::lock_guard<std::mutex> l(listeners_mutex_);
 
-    deleted_listeners_.insert(listener);
+    listeners_.remove(listener);
 }
 
 void ThreadSafeEventDispatcher::dispatch(std::shared_ptr<Event> event) {
@@ -69,24 +71,6 @@ void ThreadSafeEventDispatcher::dispatch(std::shared_ptr<Event> event) {
 }
 
 void ThreadSafeEventDispatcher::process_events() {
-    // first lock the queue and the deleted listeners together and delete the
-    // listeners in the deleted list
-    {
-        std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
-        std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);
-
-        std::lock(l1, l2);
-
-        for (auto l=listeners_.begin(); l!=listeners_.end(); l++) {
-            if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
-                l = listeners_.erase(l);
-                l--;
-            }
-        }
-
-        deleted_listeners_.clear();
-    }
-
     // copy the event list
     std::list<std::shared_ptr<Event> > events;
     {
@@ -95,7 +79,8 @@ void ThreadSafeEventDispatcher::process_events() {
         events_.clear();
     }
 
-    // copy the listeners list
+    // copy the listeners list (after taking the events so that every listener
+    // added before an event was dispatched gets it and none removed before does)
     std::list<std::shared_ptr<EventListenerInterface> > listeners;
     {
         std::lock_guard<std::mutex> l(listeners_mutex_);
-- 
2.43.0


From 5d7c53af3945aa4037b520319d92327adc81e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:13 +0000
Subject: [PATCH 04/20] fix: convert arrays of the other byte order

swap_endianess() swapped a copy of every element and threw it away, so arrays
saved with the other byte order were read as garbage.
---
 include/ldaplusplus/NumpyFormat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..c52d1b5 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,7 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From a9de4475d36430f204acbcdd8008520e826257b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:26 +0000
Subject: [PATCH 05/20] fix: report arrays that cannot be read or written
 completely

Truncated, missing, foreign or unreadable files were returned as zero filled
or garbage arrays, and errors while writing a file were ignored.
---
 include/ldaplusplus/NumpyFormat.hpp | 51 +++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index c52d1b5..6ffbbbe 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -5,6 +5,8 @@
 #include <cstdint>
 #include <fstream>
 #include <memory>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -235,7 +237,7 @@ namespace numpy_format {
             template <int Rows, int Cols, int Options>
             operator Eigen::Matrix<Scalar, Rows, Cols, Options>() const {
                 // get the needed rows, cols
-                int rows = shape_[0];
+                int rows = shape_.empty() ? 1 : shape_[0];
                 int cols = 1;
                 for (size_t i=1; i<shape_.size(); i++) {
                     cols *= shape_[i];
@@ -278,11 +280,6 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
-                    throw std::runtime_error(
-                        "Only version 1 of the numpy format is supported"
-                    );
-                }
 
                 // if the file is empty (aka we read nothing) just throw a
                 // runtime error
@@ -291,9 +288,19 @@ namespace numpy_format {
                         "The file is empty and cannot be read"
                     );
                 }
+                if (!is || std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY") {
+                    throw std::runtime_error(
+                        "The data are not in the numpy format"
+                    );
+                }
+                if (MAGIC_AND_VERSION[6] != 1) {
+                    throw std::runtime_error(
+                        "Only version 1 of the numpy format is supported"
+                    );
+                }
 
                 // read the header len
-                uint16_t header_len;
+                uint16_t header_len = 0;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
                 if (is_big_endian()) {
                     swap_endianess(&header_len, 1);
@@ -304,6 +311,16 @@ namespace numpy_format {
                 is.read(&buffer[0], header_len);
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
+                if (
+                    !is ||
+                    header.size() < 35 ||
+                    header.find('(') == std::string::npos ||
+                    header.find(')') == std::string::npos
+                ) {
+                    throw std::runtime_error(
+                        "The header of the array cannot be read"
+                    );
+                }
 
                 // we can parse the header efficiently using the fact that the
                 // specification requires the dictionary to be passed by
@@ -342,18 +359,26 @@ namespace numpy_format {
                 }
 
                 // compute the total size of the data
-                int N = 1;
+                size_t N = 1;
                 for (auto c : data.shape_) {
+                    if (c != 0 && N > data.data_.max_size() / c) {
+                        throw std::runtime_error("The array is too large");
+                    }
                     N *= c;
                 }
 
                 // read the data
                 data.data_.resize(N);
-                is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                is.read(reinterpret_cast<char *>(data.data_.data()), N*sizeof(Scalar));
+                if (!is) {
+                    throw std::runtime_error(
+                        "The data of the array are incomplete"
+                    );
+                }
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-                    swap_endianess(&data.data_[0], N);
+                    swap_endianess(data.data_.data(), N);
                 }
 
                 return is;
@@ -385,6 +410,12 @@ namespace numpy_format {
         );
 
         save(out_stream, matrix);
+
+        // the data may still be in the buffer so errors show up here the latest
+        out_stream.close();
+        if (!out_stream) {
+            throw std::runtime_error("Cannot write " + save_path);
+        }
     }
 
 
-- 
2.43.0


From 09c6656dddcfe377cbb0fee021e65dacb7f44202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 06/20] fix: report models that cannot be written

save_lda() ignored every error, so a console application ended with success
although the model was missing or incomplete. A failed snapshot is reported on
stderr and training goes on.
---
 src/applications/SnapshotEvery.cpp | 10 +++++++++-
 src/applications/lda_io.cpp        |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/applications/SnapshotEvery.cpp b/src/applications/SnapshotEvery.cpp
index 3071e7b..e195a85 100644
--- a/src/applications/SnapshotEvery.cpp
+++ b/src/applications/SnapshotEvery.cpp
@@ -1,3 +1,6 @@
+#include <exception>
+#include <iostream>
+
 #include "ldaplusplus/events/ProgressEvents.hpp"
 
 #include "applications/lda_io.hpp"
@@ -18,7 +21,12 @@ void SnapshotEvery::snapshot(
     actual_path.width(3);
     actual_path << seen_so_far_;
 
-    io::save_lda(actual_path.str(), parameters);
+    // training is worth more than any single snapshot
+    try {
+        io::save_lda(actual_path.str(), parameters);
+    } catch (const std::exception & e) {
+        std::cerr << "Snapshot failed: " << e.what() << std::endl;
+    }
 }
 
 void SnapshotEvery::on_event(std::shared_ptr<events::Event> event) {
diff --git a/src/applications/lda_io.cpp b/src/applications/lda_io.cpp
index 4b66a23..373c5b9 100644
--- a/src/applications/lda_io.cpp
+++ b/src/applications/lda_io.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 
 #include "ldaplusplus/NumpyFormat.hpp"
 
@@ -68,6 +69,12 @@ void save_lda(
     model << numpy_format::NumpyOutput<double>(model_parameters->alpha);
     model << numpy_format::NumpyOutput<double>(model_parameters->beta);
     model << numpy_format::NumpyOutput<double>(model_parameters->eta);
+
+    // the data may still be in the buffer so errors show up here the latest
+    model.close();
+    if (!model) {
+        throw std::runtime_error("Cannot write the model to " + model_path);
+    }
 }
 
 std::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda(
-- 
2.43.0


From 11a65f97ccbf20e6e875b9bd3e78545829141885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 07/20] fix: --continue_from_unsupervised loads the model it
 names

slda and fslda looked for the file under --continue, which is not given in
that case, and died.
---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From 4c91e594f111b21a4d1b4c999da79bc4bf4c04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 08/20] fix: multinomial E step converges by its tolerance

The fraction of documents to compute the likelihood for was used as the
convergence tolerance, so monitoring changed the trained model.
---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From a73d1f28b45eb82ef11d70268dc2eeaf274f6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 09/20] fix: unlabelled documents do not count in the class
 priors

Negative labels, which mark unlabelled documents for semi-supervised training,
wrote outside the vector of priors.
---
 src/ldaplusplus/Document.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..b490ddf 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -101,7 +101,9 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        // documents without a class have negative labels
+        if (y_[i] >= 0)
+            priors_[y_[i]] ++;
     }
     priors_.array() /= priors_.sum();
 }
-- 
2.43.0


From 670772fde7a1e32152b5dce2fdddc29ec102cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 10/20] fix: empty documents do not turn the class parameters
 into NaN

The supervised and the online maximisation divided by the number of words of
the document, so that one empty document made eta NaN for good. Do as
FastSupervisedMStep does.
---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 5 ++++-
 src/ldaplusplus/em/SupervisedMStep.cpp           | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..61f0000 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -74,7 +74,10 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    Scalar words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0) {
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
+    }
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..6b2852f 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/optimization/GradientDescent.hpp"
 #include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
@@ -24,7 +26,8 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // Get the words from the doc
     const Eigen::VectorXi & X = doc->get_words();
-    int N = X.sum();
+    // an empty document has no topics, do not divide by zero
+    int N = std::max(X.sum(), 1);
 
     // Cast Parameters to VariationalParameters in order to have access to gamma and phi
     const VectorX &gamma = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(v_parameters)->gamma;
-- 
2.43.0


From e660d7c0a7f6fbf88c38c3cd4e979ea5516b309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 11/20] fix: the online maximisation uses its class weights

The weights were stored and never used, so fslda online_train ignored the
class balancing it computes.
---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 61f0000..1ad83af 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -115,6 +115,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From e1c4367a1fcfc3e253a6c7b8bb683a611b07bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 12/20] fix: no integer overflow for documents of more than
 46340 words

The square of the number of words was computed with ints, giving a negative
or wildly wrong variance of the topics of a long document.
---
 src/ldaplusplus/em/SupervisedMStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 6b2852f..76c1f24 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -60,7 +60,7 @@ void SupervisedMStep<Scalar>::doc_m_step(
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+    variance_z_bar_[docs_] *= 1.0 / N / N;
 
     docs_ += 1;
 }
-- 
2.43.0


From eedb02373117357333e7506d7bf876d4540ddc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 13/20] fix: supervised inference of an empty document

The ratio of each word is NaN for a document without words. It was looked up
in the table of the exponential function, which crashed, and the likelihood
was computed from the word with index -1.
---
 src/ldaplusplus/e_step_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..ab06853 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -87,6 +87,9 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    // an empty document tells nothing about its class
+    if (n < 0)
+        return likelihood;
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
@@ -230,6 +233,9 @@ void compute_supervised_phi_gamma(
 
     // Compute the products that will allow us to compute and update h
     for (int n=0; n<X.rows(); n++) {
+        if (X[n] == 0)
+            continue;
+
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
         //exp_eta_scaled = (eta * X_ratio[n]).array().exp();
         products.array() *= (exp_eta_scaled.transpose() * phi.col(n)).array();
-- 
2.43.0


From 99a143e6fdf28ce90746e23115dd6aff20b743b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:05 +0000
Subject: [PATCH 14/20] fix: supervised inference with words no topic can
 generate

Dividing by a sum of zero made gamma NaN, which is then looked up in the table
of the exponential function and crashes. It happens when training continues on
documents with words the previous documents did not have.
---
 src/ldaplusplus/e_step_utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index ab06853..0316d7a 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -267,7 +267,13 @@ void compute_supervised_phi_gamma(
             //    psi_gamma + X_ratio[n]*eta.col(y) - h * t
             //).array().exp();
 
-            phi.col(n).array() /= phi.col(n).sum();
+            // no topic can generate this word, leave it as it is
+            Scalar phi_sum = phi.col(n).sum();
+            if (!(phi_sum > 0)) {
+                phi.col(n) = old_phi_n;
+                break;
+            }
+            phi.col(n).array() /= phi_sum;
         }
 
         // Recompute the products with the updated phi
-- 
2.43.0


From c25656112a5c35586529db615c5ddef81ab4daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:36 +0000
Subject: [PATCH 15/20] fix: a topic no word was assigned to keeps its
 distribution

Its row of beta became NaN (0/0), and the next inference looked the NaN up in
the table of the exponential function and crashed, or all zero. It happens to
topics whose weight underflows and when a pass sees no known word.
---
 .../em/CorrespondenceSupervisedMStep.cpp           |  6 +++++-
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp   | 14 ++++++++++----
 src/ldaplusplus/em/MultinomialSupervisedMStep.cpp  |  6 +++++-
 src/ldaplusplus/em/UnsupervisedMStep.cpp           | 11 ++++++++---
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
index 484c175..bfcc3b0 100644
--- a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
@@ -12,7 +12,11 @@ void CorrespondenceSupervisedMStep<Scalar>::m_step(
 ) {
     // Normalize according to the statistics
     auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters);
-    model->beta = b_;
+    // topics that no word was assigned to stay as they are
+    for (int k=0; k<b_.rows(); k++) {
+        if (b_.row(k).sum() > 0)
+            model->beta.row(k) = b_.row(k);
+    }
     model->eta = h_.array() + mu_ - 1;
     math_utils::normalize_rows(model->beta);
     math_utils::normalize_rows(model->eta);
diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 1ad83af..1928526 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -106,10 +106,16 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     // update the topic distributions
     // TODO: Change the update to something more formal like the online update
     //       of Hoffman et al.
-    beta.array() = (
-        beta_weight_ * beta.array() +
-        (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
-    );
+    for (int k=0; k<b_.rows(); k++) {
+        // topics that no word was assigned to stay as they are
+        Scalar s = b_.row(k).sum();
+        if (s > 0) {
+            beta.row(k) = (
+                beta_weight_ * beta.row(k) +
+                (1-beta_weight_) * (b_.row(k) / s)
+            );
+        }
+    }
 
     // update the eta
     optimization::MultinomialLogisticRegression<Scalar> mlr(
diff --git a/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
index 7fdadec..ef66381 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
@@ -12,7 +12,11 @@ void MultinomialSupervisedMStep<Scalar>::m_step(
 ) {
     // Normalize according to the statistics
     auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters);
-    model->beta = b_;
+    // topics that no word was assigned to stay as they are
+    for (int k=0; k<b_.rows(); k++) {
+        if (b_.row(k).sum() > 0)
+            model->beta.row(k) = b_.row(k);
+    }
     model->eta = h_.array() + mu_ - 1;
     math_utils::normalize_rows(model->beta);
     math_utils::normalize_rows(model->eta);
diff --git a/src/ldaplusplus/em/UnsupervisedMStep.cpp b/src/ldaplusplus/em/UnsupervisedMStep.cpp
index 37d6832..3b90a38 100644
--- a/src/ldaplusplus/em/UnsupervisedMStep.cpp
+++ b/src/ldaplusplus/em/UnsupervisedMStep.cpp
@@ -8,9 +8,14 @@ template <typename Scalar>
 void UnsupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
-    // we maximized w.r.t \beta during each doc_m_step
-    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta = 
-        b_.array().colwise() / b_.array().rowwise().sum();
+    // we maximized w.r.t \beta during each doc_m_step, the topics that no word
+    // was assigned to stay as they are
+    MatrixX & beta = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta;
+    for (int k=0; k<b_.rows(); k++) {
+        Scalar s = b_.row(k).sum();
+        if (s > 0)
+            beta.row(k) = b_.row(k) / s;
+    }
 
     b_.fill(0);
 }
-- 
2.43.0


From e8588d2e87a53656ecb2e1828b53d7b94b24ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:08 +0000
Subject: [PATCH 16/20] fix: a failed delivery does not leave its events to the
 next call

---
 src/ldaplusplus/events/Events.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index 42bf392..e7625a4 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -71,12 +71,12 @@ void ThreadSafeEventDispatcher::dispatch(std::shared_ptr<Event> event) {
 }
 
 void ThreadSafeEventDispatcher::process_events() {
-    // copy the event list
+    // take the event list (without allocating, failing half way would leave
+    // the events to whoever processes next)
     std::list<std::shared_ptr<Event> > events;
     {
         std::lock_guard<std::mutex> l(events_mutex_);
-        events = events_;
-        events_.clear();
+        events.swap(events_);
     }
 
     // copy the listeners list (after taking the events so that every listener
-- 
2.43.0


From 8f3746d5a8df0d4414503a583a49769e68a11679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 17/20] fix: failing to grow the statistics does not leave them
 out of step

---
 src/ldaplusplus/em/SupervisedMStep.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 76c1f24..bc3a260 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -40,14 +40,15 @@ void SupervisedMStep<Scalar>::doc_m_step(
     // is being called. In case of y_ simple add one at the end. In case of
     // expected_z_bar add an extra column of size topicsx1
     if (docs_ >= expected_z_bar_.cols()) {
+        // Add an extra matrix in variance_z_bar_
+        variance_z_bar_.resize(docs_+1);
+
         // Add an extra row in y_
         y_.conservativeResize(docs_+1);
         
-        // Add an extra column in expected_z_bar_
+        // Add an extra column in expected_z_bar_ (last because its size is
+        // what we check, the rest must not be smaller if allocating fails)
         expected_z_bar_.conservativeResize(num_topics, docs_+1);
-
-        // Add an extra matrix in variance_z_bar_
-        variance_z_bar_.resize(docs_+1);
     }
 
     // get the class
-- 
2.43.0


From 78b5e5a30ba13777ae68e80561a98072153f766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:14 +0000
Subject: [PATCH 18/20] fix: a throwing listener does not make the class
 statistics count twice

---
 .../em/CorrespondenceSupervisedMStep.cpp            | 13 +++++++------
 src/ldaplusplus/em/MultinomialSupervisedMStep.cpp   | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
index bfcc3b0..f8ec3e3 100644
--- a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
@@ -21,15 +21,16 @@ void CorrespondenceSupervisedMStep<Scalar>::m_step(
     math_utils::normalize_rows(model->beta);
     math_utils::normalize_rows(model->eta);
 
-    // Report the log_py
-    this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Scalar> >(
-        log_py_
-    );
-
-    // Reset the statistics buffers
+    // Reset the statistics buffers (before reporting, a listener may throw)
+    Scalar log_py = log_py_;
     b_.fill(0);
     h_.fill(0);
     log_py_ = 0;
+
+    // Report the log_py
+    this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Scalar> >(
+        log_py
+    );
 }
 
 template <typename Scalar>
diff --git a/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
index ef66381..11cc30e 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedMStep.cpp
@@ -21,15 +21,16 @@ void MultinomialSupervisedMStep<Scalar>::m_step(
     math_utils::normalize_rows(model->beta);
     math_utils::normalize_rows(model->eta);
 
-    // Report the log_py
-    this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Scalar> >(
-        log_py_
-    );
-
-    // Reset the statistics buffers
+    // Reset the statistics buffers (before reporting, a listener may throw)
+    Scalar log_py = log_py_;
     b_.fill(0);
     h_.fill(0);
     log_py_ = 0;
+
+    // Report the log_py
+    this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Scalar> >(
+        log_py
+    );
 }
 
 template <typename Scalar>
-- 
2.43.0


From 741a0fba13ceda811ffefccdfc40a47af0e5e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:18 +0000
Subject: [PATCH 19/20] fix: the supervised likelihood without any iteration
 does not use uninitialised memory

---
 src/ldaplusplus/em/SupervisedEStep.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..214c0b2 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -46,8 +46,10 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
     MatrixX phi = MatrixX::Constant(num_topics, voc_size, 1.0/num_topics);
     VectorX gamma = alpha.array() + static_cast<Scalar>(num_words)/num_topics;
 
-    // allocate memory for helper variables
+    // allocate memory for helper variables (h is also needed if we stop before
+    // the first iteration)
     VectorX h(num_topics);
+    e_step_utils::compute_h<Scalar>(X, X_ratio, eta, phi, h);
 
     // to check for convergence
     VectorX gamma_old = VectorX::Zero(num_topics);
-- 
2.43.0


From b14d5cfdca27226d4378279675fe8dea616cde9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:48 +0000
Subject: [PATCH 20/20] fix: the objectives of the class parameters do not
 overflow or vanish

---
 .../optimization/MultinomialLogisticRegression.cpp   | 12 ++++++------
 .../SecondOrderLogisticRegressionApproximation.cpp   | 12 ++++++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
index 6dc9d2c..6cd6be8 100644
--- a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
+++ b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
@@ -45,11 +45,10 @@ Scalar MultinomialLogisticRegression<Scalar>::value(const MatrixX &eta) const {
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(t.array().exp().sum());
-
-        // This will be used in case we have overflow issues
-        //Scalar a = t.maxCoeff();
-        //likelihood -= a + std::log((t.array() - a).exp().sum());
+        // subtract the maximum so that the exponentials neither overflow nor
+        // all vanish
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log((t.array() - a).exp().sum()));
     }
     
     // Add suitable normalization to the final likelihood
@@ -68,7 +67,8 @@ void MultinomialLogisticRegression<Scalar>::gradient(const MatrixX &eta, Eigen::
     for (int d=0; d<y_.rows(); d++) {
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
-        t = (eta.transpose() * X_.col(d)).array().exp();
+        t = eta.transpose() * X_.col(d);
+        t = (t.array() - t.maxCoeff()).exp().eval();
         grad += Cy_[y_[d]] * (X_.col(d) * t.transpose()) / t.sum();
     }
 
diff --git a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
index 0b20155..277f205 100644
--- a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
+++ b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
@@ -47,9 +47,12 @@ Scalar SecondOrderLogisticRegressionApproximation<Scalar>::value(const MatrixX &
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(
-            (t.array().exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
-        );
+        // subtract the maximum so that the exponentials neither overflow nor
+        // all vanish
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log(
+            ((t.array() - a).exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
+        ));
     }
     
     // Add suitable normalization to the final likelihood
@@ -73,7 +76,8 @@ void SecondOrderLogisticRegressionApproximation<Scalar>::gradient(const MatrixX
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
         // compute everything needed to assemble the gradients
-        eta_Ez = (eta.transpose() * X_.col(d)).array().exp();
+        eta_Ez = eta.transpose() * X_.col(d);
+        eta_Ez = (eta_Ez.array() - eta_Ez.maxCoeff()).exp().eval();
         eta_Vz = eta.transpose() * X_var_[d];
         eta_Vz_eta = (eta_Vz * eta).diagonal();
         eta_Vz += eta.transpose() * X_var_[d].transpose();
-- 
2.43.0

