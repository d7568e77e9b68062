From 651cb35892bb4487445f8816fe5618cf98648573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 01/21] fix: deliver an exception thrown by a thread pool task
 through its future

A task that threw let the exception escape the worker thread, which terminated
the process. The caller waiting on the future (e.g. the safe-mode retry of the
binary subprogram) never got to handle it.
---
 src/core_thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index 16387c2..b3ef5ba 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -104,7 +104,13 @@ public:
 
         enqueue_internal([fn, promised_result, args...]
         {
-            promised_result->set_value(fn(args...));
+            try {
+                promised_result->set_value(fn(args...));
+            }
+            catch (...)
+            {
+                promised_result->set_exception(std::current_exception());
+            }
         });
         return promised_result->get_future();
     }
-- 
2.43.0


From 8144708e0d67ab55897daa6014a3e6ecbf5da248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 02/21] fix: do not lose the wake-up when a thread pool is
 stopped

The stop flag was set and notified without holding the mutex, so a worker that
had just found the flag unset and was about to wait missed the notification:
stop_all, restart and the destructor then waited for that worker forever.
---
 src/core_thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index b3ef5ba..ebc7211 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -85,7 +85,10 @@ public:
     {
         if (! stop)
         {
-            stop = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex);
+                stop = true;
+            }
             condition.notify_all();
 
             for (auto& thread : threads)
-- 
2.43.0


From 249894aaa67072a5bce05b48d3efda4989b9c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 03/21] fix: iterating an empty access pattern must visit no
 element

Partitions of an array over more threads than it has rows are empty, but
iterating them visited the row they start at: mara::evaluate_on then wrote
those elements from two threads at once.
---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 5e37083..d06596c 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -716,7 +716,7 @@ public:
 
 
     //=========================================================================
-    iterator begin() const { return { *this, start }; }
+    iterator begin() const { return { *this, empty() ? final : start }; }
     iterator end() const { return { *this, final }; }
 
 
-- 
2.43.0


From 817c90d89561c76353df0808fc07dcd980e4abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 04/21] fix: receive the message that was probed

recv and irecv sized their buffer from a probe and then received with the
caller's wildcards, which may match a message from another source: it was
truncated, or delivered with the wrong size.
---
 src/core_mpi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 8e85c13..4dc7bf6 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -535,7 +535,7 @@ public:
         auto status = probe(source, tag);
         auto buf = std::string(status.count(), 0);
 
-        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, MPI_STATUS_IGNORE);
+        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, MPI_STATUS_IGNORE);
         return buf;
     }
 
@@ -558,7 +558,7 @@ public:
         auto buf = std::string(status.count(), 0);
 
         MPI_Request request;
-        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, &request);
+        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, &request);
 
         Request res;
         res.buffer = std::move(buf);
-- 
2.43.0


From 34413dd76031bb02d8139fb8b66b86bbeb7de32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 05/21] fix: keep the buffer of a pending MPI request at one
 address

A short std::string keeps its characters inside the object, so moving the
request (or returning it from isend and irecv) moved the buffer away from
under the pending operation.
---
 src/core_mpi.hpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 4dc7bf6..7c51002 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -27,6 +27,7 @@
 
 
 #include <string>
+#include <memory>
 #include <numeric>
 #include <vector>
 #include <fstream>
@@ -130,7 +131,7 @@ public:
      */
     Request(Request&& other)
     {
-        buffer = std::move(other.buffer);
+        std::swap(buffer, other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
     }
@@ -160,7 +161,7 @@ public:
     Request& operator=(Request&& other)
     {
         cancel();
-        buffer = std::move(other.buffer);
+        std::swap(buffer, other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
         return *this;        
@@ -233,7 +234,7 @@ public:
     {
         wait();
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
-        return buffer;
+        return *buffer;
     }
 
 
@@ -245,7 +246,7 @@ public:
     {
         static_assert(std::is_trivially_copyable<T>::value, "type is not trivially copyable");
 
-        if (buffer.size() != sizeof(T))
+        if (buffer->size() != sizeof(T))
         {
             throw std::logic_error("received message has wrong size for data type");   
         }
@@ -255,7 +256,7 @@ public:
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
 
         auto value = T();
-        std::memcpy(&value, &buffer[0], sizeof(T));
+        std::memcpy(&value, buffer->data(), sizeof(T));
         return value;
     }
 
@@ -264,7 +265,9 @@ private:
     // ========================================================================
     friend class Communicator;
     MPI_Request request = MPI_REQUEST_NULL;
-    std::string buffer;
+
+    /** On the heap, because MPI holds its address while the request moves. */
+    std::unique_ptr<std::string> buffer = std::make_unique<std::string>();
 };
 
 
@@ -555,14 +558,9 @@ public:
         {
             return Request();
         }
-        auto buf = std::string(status.count(), 0);
-
-        MPI_Request request;
-        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        res.buffer->assign(status.count(), 0);
+        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, status.source(), status.tag(), comm, &res.request);
         return res;
     }
 
@@ -593,12 +591,9 @@ public:
      */
     Request isend(std::string buf, int rank, int tag=0) const
     {
-        MPI_Request request;
-        MPI_Isend(&buf[0], buf.size(), MPI_CHAR, rank, tag, comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        *res.buffer = std::move(buf);
+        MPI_Isend(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, rank, tag, comm, &res.request);
         return res;
     }
 
-- 
2.43.0


From 046ce6402763e49951053aba272b39a77b28075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 06/21] fix: complete a cancelled MPI request before its buffer
 is freed

MPI_Request_free leaves an operation that could not be cancelled running,
while the buffer it reads or writes is about to be destroyed.
---
 src/core_mpi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 7c51002..3e3c660 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -176,7 +176,7 @@ public:
         if (! is_null())
         {
             MPI_Cancel(&request);
-            MPI_Request_free(&request);
+            MPI_Wait(&request, MPI_STATUS_IGNORE);
         }
     }
 
-- 
2.43.0


From e5babc0d390af11f65b25fc43ddab89f3ef555d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 07/21] fix: assigning an MPI communicator to itself must not
 close it

---
 src/core_mpi.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 3e3c660..c2e35e7 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -409,6 +409,10 @@ public:
      */
     Communicator& operator=(const Communicator& other)
     {
+        if (this == &other)
+        {
+            return *this;
+        }
         close();
 
         if (! other.is_null())
@@ -424,6 +428,10 @@ public:
      */
     Communicator& operator=(Communicator&& other)
     {
+        if (this == &other)
+        {
+            return *this;
+        }
         close();
 
         comm = other.comm;
-- 
2.43.0


From c236eb82321df6c06a28e682e9229ba2a08d6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 08/21] fix: report a failure to flush an HDF5 object when it
 is closed

---
 src/core_hdf5.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dcaf458..cac5277 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -27,6 +27,7 @@
 
 
 #pragma once
+#include <exception>
 #include <stdexcept>
 #include <string>
 #include <tuple>
@@ -537,13 +538,22 @@ private:
     {
         if (id != -1)
         {
+            auto result = herr_t(0);
+
             switch (object)
             {
-                case Object::file   : H5Fclose(id); break;
-                case Object::group  : H5Gclose(id); break;
-                case Object::dataset: H5Dclose(id); break;
+                case Object::file   : result = H5Fclose(id); break;
+                case Object::group  : result = H5Gclose(id); break;
+                case Object::dataset: result = H5Dclose(id); break;
             }
             id = -1;
+
+            // Buffered data is written on close, so a failure here is data
+            // loss. It is only ignored if another error is on its way.
+            if (! std::uncaught_exceptions())
+            {
+                detail::check(result);
+            }
         }
     }
 
@@ -664,7 +674,7 @@ class h5::Dataset final
 public:
 
     //=========================================================================
-    ~Dataset() { close(); }
+    ~Dataset() noexcept(false) { close(); }
     Dataset() {}
     Dataset(Dataset&& other) : link(std::move(other.link)) {}
     Dataset(const Dataset&) = delete;
@@ -902,7 +912,7 @@ class h5::Group final : public Location<Group, Dataset>
 public:
 
     //=========================================================================
-    ~Group() { close(); }
+    ~Group() noexcept(false) { close(); }
     Group() {}
     Group(const Group&) = delete;
     Group(Group&& other) : Location(std::move(other.link)) {}
@@ -934,7 +944,7 @@ public:
     }
 
     //=========================================================================
-    ~File() { close(); }
+    ~File() noexcept(false) { close(); }
     File() {}
     File(const File&) = delete;
     File(File&& other) : Location(std::move(other.link)) {}
-- 
2.43.0


From ca43f8d7f0259df4f67d5baf1fb309239c3c12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 09/21] fix: announce an output file only after it has been
 closed

---
 src/subprog_binary.cpp      | 2 ++
 src/subprog_boilerplate.cpp | 4 +++-
 src/subprog_cloud.cpp       | 8 ++++++--
 src/subprog_sedov.cpp       | 8 ++++++--
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/subprog_binary.cpp b/src/subprog_binary.cpp
index 59ac654..56c3dbe 100644
--- a/src/subprog_binary.cpp
+++ b/src/subprog_binary.cpp
@@ -336,6 +336,7 @@ auto binary::run_tasks(const state_t& state, const solver_data_t& solver_data)
         auto group  = h5::File(fname, "w").open_group("/");
         auto next_state = mara::complete_task_in(state, "write_checkpoint");
         mara::write(group, "/", next_state);
+        group.close();
         std::printf("write checkpoint: %s\n", fname.data());
         return next_state;
     };
@@ -349,6 +350,7 @@ auto binary::run_tasks(const state_t& state, const solver_data_t& solver_data)
         auto fname  = mara::filesystem::join(outdir, mara::create_numbered_filename("diagnostics", count, "h5"));
         auto group  = h5::File(fname, "w").open_group("/");
         mara::write(group, "/", diagnostic_fields(state.solution, state.run_config));
+        group.close();
         std::printf("write diagnostics: %s\n", fname.data());
         return mara::complete_task_in(state, "write_diagnostics");
     };
diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index c8092ac..1c5542c 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -206,7 +206,9 @@ static void write_checkpoint(const app_state_t& state)
     mara::write_schedule(file.require_group("schedule"), state.schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
-    std::printf("write checkpoint: %s\n", file.filename().data());
+    auto filename = file.filename();
+    file.close();
+    std::printf("write checkpoint: %s\n", filename.data());
 }
 
 static auto create_app_state(mara::config_t run_config)
diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index e2d9a96..5e29ed1 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -763,7 +763,9 @@ void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir
     mara::write_schedule(file.require_group("schedule"), state.schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
-    std::printf("write checkpoint: %s\n", file.filename().data());
+    auto filename = file.filename();
+    file.close();
+    std::printf("write checkpoint: %s\n", filename.data());
 }
 
 void CloudProblem::write_diagnostics(const app_state_t& state, std::string outdir)
@@ -795,7 +797,9 @@ void CloudProblem::write_diagnostics(const app_state_t& state, std::string outdi
     file.write("postshock_flow_power32",  diagnostics.postshock_flow_power32);
     file.write("postshock_flow_power64",  diagnostics.postshock_flow_power64);
     file.write("postshock_flow_power_max",  diagnostics.postshock_flow_power_max);
-    std::printf("write diagnostics: %s\n", file.filename().data());
+    auto filename = file.filename();
+    file.close();
+    std::printf("write diagnostics: %s\n", filename.data());
 }
 
 void CloudProblem::write_time_series(const app_state_t& state, std::string outdir)
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 47b921a..553b0f6 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -491,7 +491,9 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     mara::write_schedule(file.require_group("schedule"), state.schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
-    std::printf("write checkpoint: %s\n", file.filename().data());
+    auto filename = file.filename();
+    file.close();
+    std::printf("write checkpoint: %s\n", filename.data());
 }
 
 template<typename HydroSystem>
@@ -511,7 +513,9 @@ void SedovProblem<HydroSystem>::write_diagnostics(const app_state_t& state, std:
     {
         file.write(item.first, item.second);
     }
-    std::printf("write diagnostics: %s\n", file.filename().data());
+    auto filename = file.filename();
+    file.close();
+    std::printf("write diagnostics: %s\n", filename.data());
 }
 
 template<typename HydroSystem>
-- 
2.43.0


From 4dd3628074a72c991a63e9ec69fb49e5d6bd12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 10/21] fix: write the sedov run config where a restart reads
 it

---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 553b0f6..4c2e5fd 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -489,7 +489,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
     mara::write_schedule(file.require_group("schedule"), state.schedule);
-    mara::write_config(file.require_group("config"), state.run_config);
+    mara::write_config(file.require_group("run_config"), state.run_config);
 
     auto filename = file.filename();
     file.close();
-- 
2.43.0


From c9c5327c1281617c89935c8a7f388d63b59e9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 11/21] fix: record the tasks performed with a checkpoint in
 its schedule

---
 src/subprog_boilerplate.cpp |  2 +-
 src/subprog_cloud.cpp       | 12 ++++++------
 src/subprog_sedov.cpp       | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index 1c5542c..8935197 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -203,7 +203,7 @@ static void write_checkpoint(const app_state_t& state)
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::create_numbered_filename("chkpt", count, "h5"), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     auto filename = file.filename();
diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index 5e29ed1..55b552c 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -760,7 +760,7 @@ void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     auto filename = file.filename();
@@ -835,11 +835,6 @@ auto CloudProblem::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -850,6 +845,11 @@ auto CloudProblem::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 4c2e5fd..6eb7b7f 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -488,7 +488,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     auto filename = file.filename();
@@ -566,11 +566,6 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -581,6 +576,11 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
-- 
2.43.0


From db8c7af17a607b634331bcdd87a3430f40ad8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 12/21] fix: do not take an HDF5 group that cannot be listed
 for an empty one

---
 src/core_hdf5.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index cac5277..df9c00d 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -561,16 +561,16 @@ private:
     {
         auto op = [] (auto, auto, auto, auto) { return 0; };
         auto idx = hsize_t(0);
-        H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, &idx, op, nullptr);
+        detail::check(H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, &idx, op, nullptr));
         return idx;
     }
 
     bool contains(const std::string& name, Object object) const
     {
-        if (H5Lexists(id, name.data(), H5P_DEFAULT))
+        if (detail::check(H5Lexists(id, name.data(), H5P_DEFAULT)))
         {
             H5O_info_t info;
-            H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT);
+            detail::check(H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT));
 
             switch (object)
             {
@@ -631,8 +631,8 @@ private:
         {
             static char name[1024];
 
-            if (H5Lget_name_by_idx(id, ".",
-                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) > 1024)
+            if (detail::check(H5Lget_name_by_idx(id, ".",
+                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT)) > 1024)
             {
                 throw std::overflow_error("object names longer than 1024 are not supported");
             }
-- 
2.43.0


From b6707f2e4f99d05644b0a73befa992f316a085d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 13/21] fix: do not replace a config item that cannot be read
 by its default

---
 src/app_serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index a5ecfc8..51c3eab 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -116,7 +116,7 @@ auto mara::read_config(h5::Group&& group)
         }
         catch (const std::exception& e)
         {
-            std::printf("%s: %s\n", e.what(), item_name.data());
+            throw std::runtime_error("cannot read config item " + item_name + ": " + e.what());
         }
     }
     return config;
-- 
2.43.0


From 6c521e58e6e6d01705e61ee331a86f7b363288f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 14/21] fix: read trees of any rank

---
 src/app_serialize_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 6fb2f7c..23d0d06 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -138,7 +138,7 @@ void mara::read_tree(h5::Group&& group, arithmetic_binary_tree_t<ValueType, Rank
     for (auto dataset : group)
     {
         auto value = group.read<ValueType>(dataset);
-        tree = std::move(tree).insert(mara::read_tree_index<2>(dataset), value);
+        tree = std::move(tree).insert(mara::read_tree_index<Rank>(dataset), value);
     }
 }
 
-- 
2.43.0


From 5fd1ba214ee4620ed72b378e91b7e748abad862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 15/21] fix: compute the time step in runs that conserve
 angular momentum

---
 src/subprog_binary_scheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 9bbf3a1..263af0f 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -1111,7 +1111,7 @@ double binary::maximum_timestep(const solution_t& solution,
     auto binary = mara::compute_two_body_state(solution.orbital_elements, solution.time.value);
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
 
-    return solution.conserved_u.indexes().map([&] (auto index)
+    return primitive.indexes().map([&] (auto index)
     {
         auto xc = solver_data.cell_centers.at(index);
         auto pc = primitive.at(index);
-- 
2.43.0


From 3363f0b1e3aee1ddcdcb968cf896d40d33f4c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:22 +0000
Subject: [PATCH 16/21] fix: announce an amrsand output file only after it has
 been closed

---
 src/subprog_amrsand.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subprog_amrsand.cpp b/src/subprog_amrsand.cpp
index 23008a7..b399813 100644
--- a/src/subprog_amrsand.cpp
+++ b/src/subprog_amrsand.cpp
@@ -218,7 +218,9 @@ void AmrSandbox::write_diagnostics(const app_state_t& state)
     auto count = state.schedule.num_times_performed("write_diagnostics");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("diagnostics", count, "h5")), "w");
     create_diagnostics(state).write(file.open_group("."));
-    std::printf("write diagnostics: %s\n", file.filename().data());
+    auto filename = file.filename();
+    file.close();
+    std::printf("write diagnostics: %s\n", filename.data());
 }
 
 bool AmrSandbox::simulation_should_continue(const app_state_t& state)
-- 
2.43.0


From 59c9cd038c4867ef56d6e8a04658b81bdf82b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:22 +0000
Subject: [PATCH 17/21] fix: read an empty string back as an empty string

---
 src/app_serialize.hpp | 4 ++++
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index 51c3eab..467cf3a 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -323,6 +323,10 @@ struct h5::hdf5_type_info<mara::config_parameter_t>
     }
     static auto finalize(mara::config_parameter_t&& value)
     {
+        if (value.index() == 2)
+        {
+            value = hdf5_type_info<std::string>::finalize(std::get<2>(std::move(value)));
+        }
         return std::move(value);
     }
     static auto get_address(mara::config_parameter_t& value) -> void*
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index df9c00d..a640307 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -479,7 +479,7 @@ struct h5::hdf5_type_info<std::string>
     static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
     static auto convert_to_writable(const native_type& value) { return value; }
     static auto prepare(const Datatype& type, const Dataspace&) { return native_type(type.size(), 0); }
-    static auto finalize(native_type&& value) { return std::move(value); }
+    static auto finalize(native_type&& value) { value.erase(value.find_last_not_of('\0') + 1); return std::move(value); }
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
 };
-- 
2.43.0


From 8c99637464274bfa4bbfb895980d199dc4c15093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:22 +0000
Subject: [PATCH 18/21] fix: create absolute output directories where asked, or
 fail

---
 src/app_filesystem.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f7a952e..a2af269 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -136,13 +136,17 @@ std::string mara::filesystem::parent(std::string path)
 
 void mara::filesystem::require_dir(std::string path)
 {
-    auto partial = std::string(".");
+    auto partial = std::string(path.substr(0, 1) == "/" ? "" : ".");
 
     for (auto dir : split(path))
     {
         partial += "/" + dir;
         mkdir(partial.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
     }
+    if (! isdir(partial))
+    {
+        throw std::runtime_error("could not create the directory " + path);
+    }
 }
 
 int mara::filesystem::remove_file(std::string path)
-- 
2.43.0


From af7ae978d530c12657603e857bb43e8979c476de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:22 +0000
Subject: [PATCH 19/21] fix: remove symbolic links instead of what they point
 to

---
 src/app_filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index a2af269..f70e936 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -189,7 +189,7 @@ int mara::filesystem::remove_recurse(std::string path)
             std::snprintf(&buf[0], buf.size(), "%s/%s", path.data(), p->d_name);
             struct stat statbuf;
 
-            if (! stat(buf.data(), &statbuf))
+            if (! lstat(buf.data(), &statbuf))
             {
                 if (S_ISDIR(statbuf.st_mode))
                 {
-- 
2.43.0


From e17d65b8da57dbdce142e463a404802b24e1475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:15 +0000
Subject: [PATCH 20/21] fix: do not read outside the array when the sedov shock
 is at its edge

---
 src/subprog_sedov.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 6eb7b7f..da12432 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -291,6 +291,10 @@ auto SedovProblem<HydroSystem>::compute_time_series_data(const solution_state_t&
 
     auto find_vertex = [rc, vc] (auto i)
     {
+        if (i == 0 || i + 1 >= rc.size())
+        {
+            return rc(i);
+        }
         return mara::parabola_vertex(
             rc(i - 1), rc(i), rc(i + 1),
             vc(i - 1), vc(i), vc(i + 1)).first;
-- 
2.43.0


From 4be62ff92c7f076253fe5b35cb5d2379c179062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:39 +0000
Subject: [PATCH 21/21] fix: close the HDF5 object a handle held before it is
 assigned another

---
 src/core_hdf5.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index a640307..17dd4fd 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -680,7 +680,11 @@ public:
     Dataset(const Dataset&) = delete;
     Dataset& operator=(Dataset&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
     void close() { link.close(Object::dataset); }
@@ -918,7 +922,11 @@ public:
     Group(Group&& other) : Location(std::move(other.link)) {}
     Group& operator=(Group&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
     void close() { link.close(Object::group); }
@@ -971,7 +979,11 @@ public:
 
     File& operator=(File&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
 
-- 
2.43.0

