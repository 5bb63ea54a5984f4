From 5e9b17c30893d5c4808810799b5db1263c4a9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 01/25] fix: when_any of void futures ran the continuation with
 its guard held

---
 include/stlab/concurrency/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..8536fb8 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1156,8 +1156,8 @@ struct when_any_shared<S, void> {
 
     void failure(const std::exception_ptr& error) {
         auto run{false};
-        std::unique_lock<std::mutex> lock{_guard};
         {
+            std::unique_lock<std::mutex> lock{_guard};
             if (--_remaining == 0) {
                 _exception = error;
                 run = true;
-- 
2.43.0


From ac2af52e308980901707b3b725c4ef6e98d7cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 02/25] fix: when_all and when_any released the cancelled
 futures with their guard held

---
 include/stlab/concurrency/future.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 8536fb8..db3f15d 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1087,10 +1087,10 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
+            std::array<future<void>, std::tuple_size_v<Args>> cancel; // released without the lock
             std::unique_lock<std::mutex> lock{_guard};
             if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
+                cancel = std::move(_holds);
                 _exception = error;
                 run = true;
             }
@@ -1425,10 +1425,11 @@ struct single_trigger {
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
         {
+            std::vector<future<void>> cancel(context._holds.size()); // released without the lock
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
                 for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
+                    if (i != index) swap(cancel[i], context._holds[i]);
                 }
                 context._single_event = true;
                 context.apply(std::forward<F>(f), index);
-- 
2.43.0


From a8da7edff5cf2807b952b99f76f9bc3e061acc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 03/25] fix: assigning to a packaged_task left the future of
 the overwritten task unresolved

---
 include/stlab/concurrency/future.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index db3f15d..0111a15 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -581,7 +581,11 @@ public:
     }
 
     promise(promise&&) noexcept = default;
-    auto operator=(promise&&) noexcept -> promise& = default;
+    auto operator=(promise&& x) noexcept -> promise& {
+        auto tmp{std::move(x)};
+        _p.swap(tmp._p); // tmp breaks the promise that was held
+        return *this;
+    }
 
     promise(const promise&) = delete;
     auto operator=(const promise&) -> promise& = delete;
@@ -665,7 +669,11 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        auto tmp{std::move(x)};
+        _p.swap(tmp._p); // tmp breaks the promise that was held
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From 29dcf0c1efe92c722027781fbcc91fea67d90594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 04/25] fix: the executor returned by execute_at could be used
 only once

---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From c6c018668ac3df1731a5530748016db5060b3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 05/25] fix: self move assignment and self swap of a task used
 the destroyed callable

---
 include/stlab/concurrency/task.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..cc972a8 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -224,6 +224,7 @@ public:
     auto operator=(const task_&) -> task_& = delete;
 
     auto operator=(task_&& x) noexcept -> task_& {
+        if (this == &x) return *this;
         _vtable_ptr->dtor(&_model);
         _vtable_ptr = x._vtable_ptr;
         _invoke = x._invoke;
-- 
2.43.0


From 67bc5494e277a2c83174db81a02e193216374fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 06/25] fix: annotations added to an annotated process were
 lost

---
 include/stlab/concurrency/channel.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..156958f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1372,7 +1372,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From 39f44d7ea8d5b0bdf9378c184caf5432852fe47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 07/25] fix: a process passed by reference was closed by an
 error that it handles

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 156958f..0170b44 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -887,7 +887,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-- 
2.43.0


From c18ed920a691babc4d78eeaac7a230d1acb32265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 08/25] fix: reverse_append linked the end of the range instead
 of its nodes

---
 include/stlab/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..8b68749 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -32,7 +32,7 @@ namespace unsafe {
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
     while (first != last) {
-        I prior(end);
+        I prior(first);
         ++first;
         stlab::unsafe::set_next(prior, end);
         end = prior;
-- 
2.43.0


From 795c8b8d5eb2b19f49f53342d0802b9e8ffed977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 09/25] fix: blocking_get_for did not return its result

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From cd19b452054c3779bc10743cef48a056e62ebca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 10/25] fix: assigning to a tracked task did not drop the task
 that it replaces

---
 include/stlab/concurrency/progress.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..31d160c 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -52,15 +52,16 @@ struct tracker_client {
     }
 
     tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
-        auto p = _p.lock();
-        if (p) p->add_task();
-        return *this;
+        return *this = tracker_client(x);
     }
 
     tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) {
+        auto tmp = std::move(x); // drops the task that was tracked
+        std::swap(_f, tmp._f);
+        _p.swap(tmp._p);
+        return *this;
+    }
 
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
-- 
2.43.0


From 934b01a29930f4c7ff410070cd9113bcaafd7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 11/25] fix: a process was told to close whenever its queue ran
 empty

---
 include/stlab/concurrency/channel.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 0170b44..18a90dc 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -893,8 +893,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
-- 
2.43.0


From 5e701608c1badfb2ef61b081d04f6ef2b96e90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 12/25] fix: assigning to a receiver, or copying a ready one,
 left the process waiting for it

---
 include/stlab/concurrency/channel.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 18a90dc..8e68d2c 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1474,7 +1474,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver();
     }
 
     receiver(receiver&&) noexcept = default;
@@ -1485,7 +1485,12 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        auto tmp{std::move(x)};
+        std::swap(_p, tmp._p); // tmp removes the receiver that was held
+        std::swap(_ready, tmp._ready);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
-- 
2.43.0


From 25d03e3a0ae6ec231b93c3cd43b2a0b5ec8dafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 13/25] fix: assigning to a sender left the channel open

---
 include/stlab/concurrency/channel.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 8e68d2c..ff8426d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1588,7 +1588,11 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        auto tmp{std::move(x)};
+        _p.swap(tmp._p); // tmp removes the sender that was held
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
@@ -1646,7 +1650,11 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        auto tmp{std::move(x)};
+        _p.swap(tmp._p); // tmp removes the sender that was held
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
-- 
2.43.0


From 4efabfff9ea2882c72c1633d2d1c81eb61ab6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 14/25] fix: free_buffer of an overfull queue was reported as
 huge

---
 include/stlab/concurrency/channel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ff8426d..68b8d72 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -630,10 +630,10 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t buffer_size = _shared_process._process_buffer_size;
+        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        const std::size_t size = _shared_process._queue.template queue_size<I>();
+        return size < buffer_size ? buffer_size - size : 0; // senders can exceed the buffer
     }
 };
 
-- 
2.43.0


From 059df7b8d49a19dd741c2196030ce7fc8ea345c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 15/25] fix: a process of move-only results stalled without a
 live downstream process

---
 include/stlab/concurrency/channel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 68b8d72..ca5d3e2 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -678,7 +678,7 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         return std::accumulate(_data.cbegin(), _data.cend(),
                                std::numeric_limits<std::size_t>::max(),
                                [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
+                                   return std::min(val, e.free_buffer().value_or(val));
                                });
     }
 };
@@ -695,7 +695,7 @@ struct downstream<R,
 
     void clear() { _data = std::nullopt; }
 
-    [[nodiscard]] auto size() const -> std::size_t { return 1; }
+    [[nodiscard]] auto size() const -> std::size_t { return _data ? 1 : 0; }
 
     template <typename... Args>
     void send(std::size_t, Args&&... args) {
@@ -703,8 +703,8 @@ struct downstream<R,
     }
 
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
+        if (!_data) return 0;
+        return _data->free_buffer().value_or(std::numeric_limits<std::size_t>::max());
     }
 };
 
-- 
2.43.0


From c95a141d723bc3c2095cda744d5618ed98941239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 16/25] fix: a final process closed its downstream processes
 with a mutex held

---
 include/stlab/concurrency/channel.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ca5d3e2..aca231d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -818,8 +818,12 @@ struct shared_process
         // I met him on a Monday and my heart stood still
         if (do_run) run();
         if (do_final) {
-            std::unique_lock<std::mutex> lock(_downstream_mutex);
-            _downstream.clear(); // This will propagate the close to anything downstream
+            downstream<result_t> closed; // closed, and the process destructed, without the lock
+            {
+                std::unique_lock<std::mutex> lock(_downstream_mutex);
+                std::swap(closed, _downstream);
+            }
+            closed.clear(); // This will propagate the close to anything downstream
             _process = std::nullopt;
         }
     }
-- 
2.43.0


From 69f4aaff45c059d5f11258f80d4ddafe55eb112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 17/25] fix: a function process stalled after it received an
 error

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index aca231d..32f28e8 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1108,7 +1108,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                do_close = true;
+                task_done();
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From 78733b9f96f6585f61866dc3b0dab513f293a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 18/25] fix: a process that yields in response to close never
 closed its downstream processes

---
 include/stlab/concurrency/channel.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 32f28e8..051d36c 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1161,8 +1161,19 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        bool final;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            final = _process_final;
+        }
+        if (!final) {
+            clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
+                             // immediately by 1
+        } else if (get_process_state(_process).first == process_state::yield) {
+            run(); // a closed process ignores clear_to_send() and continues on its own
+        } else {
+            task_done();
+        }
     }
 
     void map(sender<result_t> f) override {
-- 
2.43.0


From efc279e9aaa93115215e1457ec5976f4acc587a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 19/25] fix: a thread added while the task system was joined
 was never joined

---
 include/stlab/concurrency/default_executor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 351b622..753584b 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -384,8 +384,16 @@ public:
             e.done();
         for (auto& e : _waiters)
             e.done();
-        for (auto& e : _threads)
-            e.join();
+        // A running task can still add a thread, don't hold the mutex while joining.
+        for (std::size_t n = 0;; ++n) {
+            std::thread thread;
+            {
+                lock_t lock{_mutex};
+                if (n == _threads.size()) break;
+                thread = std::move(_threads[n]);
+            }
+            thread.join();
+        }
 
         _q.clear();
     }
-- 
2.43.0


From 45423f21523dea33a7a551d54c146c24662ac759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 20/25] fix: when_any of void futures gave every input after
 the first a moved-from executor

---
 include/stlab/concurrency/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 0111a15..dc14c96 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1241,7 +1241,7 @@ void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
 template <class E, class P, class... Ts, std::size_t... I>
 void attach_when_args_(std::index_sequence<I...>, E&& executor, std::shared_ptr<P>& p, Ts... a) {
     (void)std::initializer_list<int>{
-        (attach_when_arg_<I>(std::forward<E>(executor), p, std::move(a)), 0)...};
+        (attach_when_arg_<I>(executor, p, std::move(a)), 0)...}; // used once for each argument
 }
 
 template <class E, class P, class... Ts>
-- 
2.43.0


From c4bfbb1d1fb23bd2961a20f9e5a58b5aab6ae33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:42 +0000
Subject: [PATCH 21/25] fix: copying a non-constant task compiled and recursed
 endlessly

---
 include/stlab/concurrency/task.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index cc972a8..ac39676 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -204,6 +204,7 @@ public:
     }
 
     template <class F,
+              std::enable_if_t<!std::is_same_v<std::decay_t<F>, task_>, bool> = true,
               std::enable_if_t<!NoExcept || std::is_nothrow_invocable_v<F, Args...>, bool> = true>
     task_(F&& f) {
         using small_t = model<std::decay_t<F>, true>;
@@ -234,7 +235,7 @@ public:
 
     auto operator=(std::nullptr_t) noexcept -> task_& { return *this = task_(); }
 
-    template <class F>
+    template <class F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, task_>, bool> = true>
     auto operator=(F&& f)
         -> std::enable_if_t<!NoExcept || std::is_nothrow_invocable_v<decltype(f), Args...>,
                             task_&> {
-- 
2.43.0


From a0a370235b64b66fdebb66f363a423f178c82415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:23 +0000
Subject: [PATCH 22/25] fix: forest::reverse corrupted the forest if a sibling
 follows the range

---
 include/stlab/forest.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1474226..080ab8e 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -1095,10 +1095,19 @@ auto forest<T>::insert_parent(child_iterator first, child_iterator last, const T
 
 template <class T>
 void forest<T>::reverse(child_iterator first, child_iterator last) {
-    iterator prior(first.base());
-    --prior;
-    first = unsafe::reverse_nodes(first, last);
-    unsafe::set_next(prior, first.base());
+    /*
+        NOTE : The nodes are not relinked one by one (as reverse_nodes() would) because the edges
+        can't be determined while the links of the node at last are inconsistent.
+    */
+
+    if (first == last) return;
+
+    iterator front(first.base());
+    ++first;
+    while (first != last) {
+        child_iterator i(first++);
+        front = splice(front, *this, i, first);
+    }
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From be29b22c8a89545c91f7df5396050c9d7f7e9171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:23 +0000
Subject: [PATCH 23/25] fix: reverse_fullorder_iterator compared an edge that
 it no longer had

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 080ab8e..d33c693 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -361,7 +361,11 @@ struct reverse_fullorder_iterator {
     reverse_fullorder_iterator(const reverse_fullorder_iterator<U>& x) :
         _base(--x.base()), _edge(pivot(_base.edge())) {}
 
-    [[nodiscard]] auto base() const -> iterator_type { return std::next(_base); }
+    [[nodiscard]] auto base() const -> iterator_type {
+        iterator_type result(_base);
+        result.edge() = pivot(_edge); // the edge may have been changed by edge()
+        return ++result;
+    }
 
     [[nodiscard]] auto edge() const -> forest_edge { return _edge; }
     auto edge() -> forest_edge& { return _edge; }
@@ -417,7 +421,7 @@ private:
     [[nodiscard]] auto dereference() const -> reference { return *_base; }
 
     [[nodiscard]] auto equal(const reverse_fullorder_iterator& y) const -> bool {
-        return (_base == y._base) && (_edge == y._edge);
+        return _base.equal_node(y._base) && (_edge == y._edge);
     }
 };
 
-- 
2.43.0


From a136b57e763ccb473bdea8dc2cef0a0c24e0e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:23 +0000
Subject: [PATCH 24/25] fix: copying a forest leaked nodes if a copy of a value
 threw

---
 include/stlab/forest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index d33c693..051bc99 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -799,7 +799,7 @@ public:
     forest() = default;
     ~forest() { clear(); }
 
-    forest(const forest& x) {
+    forest(const forest& x) : forest() { // delegates so that the destructor runs if insert throws
         insert(end(), const_child_iterator(x.begin()), const_child_iterator(x.end()));
     }
     forest(forest&& x) noexcept : forest() { splice(end(), x); }
-- 
2.43.0


From 7c7cc5ac0e880eb8f4f302dccaf25579ed55eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:49 +0000
Subject: [PATCH 25/25] fix: equal_shape was true if the first forest is a
 prefix of the second and a size is not known

---
 include/stlab/forest_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..c035ccf 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -26,7 +26,7 @@ auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
         if (first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == y.end();
 }
 
 /**************************************************************************************************/
-- 
2.43.0

