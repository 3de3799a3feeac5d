From d3b00878234bd3be9f8757ad6d7c12cbc2755652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:14 +0000
Subject: [PATCH 01/14] fix: keep the reference result of a function run by
 async

The wrapper around function and arguments returned by value, so that
async with a function returning a reference did not compile.
---
 portable_concurrency/bits/async.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/async.h b/portable_concurrency/bits/async.h
index 1097b4c..27d9736 100644
--- a/portable_concurrency/bits/async.h
+++ b/portable_concurrency/bits/async.h
@@ -24,10 +24,12 @@ public:
   task(F &&f, A &&...a)
       : func_(std::forward<F>(f)), args_(std::forward<A>(a)...) {}
 
-  auto operator()() { return run(std::make_index_sequence<sizeof...(A)>()); }
+  decltype(auto) operator()() {
+    return run(std::make_index_sequence<sizeof...(A)>());
+  }
 
 private:
-  template <size_t... I> auto run(std::index_sequence<I...>) {
+  template <size_t... I> decltype(auto) run(std::index_sequence<I...>) {
     return this_ns::invoke(std::move(func_), std::move(std::get<I>(args_))...);
   }
 
-- 
2.43.0


From 3b33fa24dfb341e029a7bdc34a15c96e6e4686b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:55 +0000
Subject: [PATCH 02/14] fix: latch::count_down must not touch the latch after
 releasing its waiters

The last count_down notified the condition variable after unlocking the
mutex. A thread whose wait() returned in between could destroy the latch,
so that the notification used a destroyed condition variable.
---
 .../bits/portable_concurrency.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..db42370 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -117,14 +117,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
+  // Notify while the lock is still held: a waiter released by this call is
+  // allowed to destroy the latch as soon as it gets the lock.
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ > 0)
+    return;
   cv_.notify_all();
 }
 
-- 
2.43.0


From 847aa7613e468282681705a949590105b45db2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:02 +0000
Subject: [PATCH 03/14] fix: release a pool task as soon as it has finished

process_queue kept the finished task until closable_queue::pop replaced it
while holding the queue mutex. A destructor of a captured object which posts
to the same pool deadlocked, and captured objects of the last task stayed
alive while the worker was idle.
---
 portable_concurrency/bits/portable_concurrency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index db42370..4a1eaf9 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -89,8 +89,12 @@ void process_queue(
   const std::atomic<bool> &stopped
 ) noexcept {
   unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
     task();
+    // Destroy the task here and not inside of the next pop where the queue is
+    // locked and which may block for an unlimited time.
+    task = unique_function<void()>{};
+  }
 }
 
 } // namespace
-- 
2.43.0


From ce109a13c8e080268aa3d48635d54b076516db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:33 +0000
Subject: [PATCH 04/14] fix: static_thread_pool::wait must wait for attached
 threads

wait() joined only the threads started by the pool. Without such threads it
returned while threads which called attach() were still executing tasks.
---
 portable_concurrency/bits/portable_concurrency.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 4a1eaf9..7ec1f74 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -193,10 +193,10 @@ void static_thread_pool::attach() {
   process_queue(queue_, stopped_);
   {
     std::unique_lock<std::mutex> lock{mutex_};
-    --attached_threads_;
+    if (--attached_threads_ == 0)
+      cv_.notify_all();
     cv_.wait(lock, [&] { return attached_threads_ == 0; });
   }
-  cv_.notify_all();
 }
 
 void static_thread_pool::stop() { 
@@ -211,6 +211,9 @@ void static_thread_pool::wait() {
       thread.join();
   }
   threads_.clear();
+  // Threads which joined the pool via attach() are not in threads_.
+  std::unique_lock<std::mutex> lock{mutex_};
+  cv_.wait(lock, [&] { return attached_threads_ == 0; });
 }
 
 } // namespace cxx14_v1
-- 
2.43.0


From 0e2f79315aece646a053ca2c2a64f34dd93b5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:39 +0000
Subject: [PATCH 05/14] fix: join started workers when static_thread_pool can
 not start another one

An exception from std::thread left the constructor with joinable threads in
threads_ and called std::terminate instead of reporting the error.
---
 portable_concurrency/bits/portable_concurrency.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7ec1f74..38330cf 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -176,8 +176,15 @@ future<when_any_result<std::tuple<>>> when_any() {
 
 static_thread_pool::static_thread_pool(std::size_t num_threads) {
   threads_.reserve(num_threads);
-  while (num_threads-- > 0)
-    threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  try {
+    while (num_threads-- > 0)
+      threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  } catch (...) {
+    // The destructor is not going to be called: join what is already running.
+    stop();
+    wait();
+    throw;
+  }
 }
 
 static_thread_pool::~static_thread_pool() {
-- 
2.43.0


From 10b643972a8104a8f1b99777441ee64ef0115b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:45 +0000
Subject: [PATCH 06/14] fix: notify all continuations although one of them
 throws

continuations_stack::execute stopped at the first continuation which exits
via exception and dropped the rest: other waiters stayed blocked forever and
other continuations were lost.
---
 .../bits/portable_concurrency.cpp                 | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 38330cf..54ca347 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -34,8 +34,19 @@ void continuations_stack::push(continuation &&cnt) {
 
 void continuations_stack::execute() {
   auto continuations = stack_.consume();
-  for (auto &cnt : continuations)
-    cnt();
+  // An exception from one continuation (user provided notification or executor)
+  // must not prevent the others, including blocked waiters, from being notified.
+  std::exception_ptr error;
+  for (auto &cnt : continuations) {
+    try {
+      cnt();
+    } catch (...) {
+      if (!error)
+        error = std::current_exception();
+    }
+  }
+  if (error)
+    std::rethrow_exception(error);
 }
 
 bool continuations_stack::executed() const { return stack_.is_consumed(); }
-- 
2.43.0


From 89808244aafbf9389ff96eb4f3455252f6fe6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:01 +0000
Subject: [PATCH 07/14] fix: unique_function returns references unchanged from
 a callable stored on the heap

---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From c80c23e2dac44ae8b7d20fedb6c4b6a9f3f673a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:10 +0000
Subject: [PATCH 08/14] fix: make the outer future ready if subscribing to the
 inner one fails

shared_state::unwrap stored the inner state before subscribing to it. If the
subscription throws (bad_alloc) the outer future never became ready, or storing
the error failed with promise_already_satisfied and terminated the program when
it happened in a continuation.
---
 portable_concurrency/bits/shared_state.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..3e1cb7d 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -100,10 +100,18 @@ public:
       return;
     }
     self->storage_.emplace(in_place_index_t<2>{}, val);
-    val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
-      if (auto self = wself.lock())
-        self->continuations().execute();
-    });
+    try {
+      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
+        if (auto self = wself.lock())
+          self->continuations().execute();
+      });
+    } catch (...) {
+      // Without subscription nobody is going to make this state ready: let the
+      // caller store the error instead.
+      if (!self->continuations().executed())
+        self->storage_.clean();
+      throw;
+    }
   }
 
   static void unwrap(std::shared_ptr<shared_state> &self, future<T> &&val) {
-- 
2.43.0


From 9b253fb9b35fc0005b3d2e9a6ca0f7c30aeacc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:35 +0000
Subject: [PATCH 09/14] fix: store the error if the result of a task or
 continuation can't be stored

An exception thrown while the returned value is moved into the shared state left
the future of a packaged_task without it and terminated the program when the
function was a continuation. An exception of an observer notified about an
unwrapped void or reference result was replaced by promise_already_satisfied.
---
 portable_concurrency/bits/utils.h | 34 +++++++++++++------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..b73791e 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -9,19 +9,24 @@ namespace portable_concurrency {
 inline namespace cxx14_v1 {
 namespace detail {
 
+// Must be called from an exception handler. Stores current exception in the
+// state unless the result is already there and the exception was thrown by one
+// of those who were notified about it.
+template <typename R> void set_state_error(shared_state<R> &state) {
+  if (state.continuations().executed())
+    throw;
+  state.set_exception(std::current_exception());
+}
+
 template <typename R, typename F, typename... A>
 void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    executed = true;
     shared_state<R>::unwrap(state, std::move(res));
   } catch (...) {
-    if (executed)
-      throw;
-    state->set_exception(std::current_exception());
+    set_state_error(*state);
   }
 }
 
@@ -29,16 +34,12 @@ template <typename R, typename F, typename... A>
 std::enable_if_t<!is_future<invoke_result_t<F, A...>>::value>
 set_state_value(std::shared_ptr<shared_state<R &>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     R &res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    executed = true;
     shared_state<R &>::unwrap(state, res);
   } catch (...) {
-    if (executed)
-      throw;
-    state->set_exception(std::current_exception());
+    set_state_error(*state);
   }
 }
 
@@ -50,38 +51,31 @@ set_state_value(std::shared_ptr<shared_state<R &>> &state, F &&f,
                             ::portable_concurrency::cxx14_v1::detail::invoke(
                                 std::forward<F>(f), std::forward<A>(a)...));
 } catch (...) {
-  state->set_exception(std::current_exception());
+  set_state_error(*state);
 }
 
 template <typename F, typename... A>
 std::enable_if_t<std::is_void<invoke_result_t<F, A...>>::value>
 set_state_value(std::shared_ptr<shared_state<void>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     ::portable_concurrency::cxx14_v1::detail::invoke(std::forward<F>(f),
                                                      std::forward<A>(a)...);
-    executed = true;
     state->emplace();
   } catch (...) {
-    if (executed)
-      throw;
-    state->set_exception(std::current_exception());
+    set_state_error(*state);
   }
 }
 
 template <typename F, typename... A>
 std::enable_if_t<!std::is_void<invoke_result_t<F, A...>>::value>
 set_state_value(std::shared_ptr<shared_state<void>> &state, F &&f, A &&...a) {
-  bool executed = false;
   try {
     shared_state<void>::unwrap(
         state, state_of(::portable_concurrency::cxx14_v1::detail::invoke(
                    std::forward<F>(f), std::forward<A>(a)...)));
   } catch (...) {
-    if (executed)
-      throw;
-    state->set_exception(std::current_exception());
+    set_state_error(*state);
   }
 }
 
-- 
2.43.0


From 73b638260cd1d02e0fe3584d4fc27c0027476c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:31 +0000
Subject: [PATCH 10/14] fix: store the error if a continuation function can't
 be moved

cnt_state::run is noexcept: an exception thrown by the move constructor of the
continuation function terminated the program although the function may throw.
---
 portable_concurrency/bits/then.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..470dfaf 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -206,12 +206,20 @@ template <typename R, typename F, typename E> struct cnt_state {
     std::shared_ptr<cnt_state> self = wself.lock();
     if (!self)
       return;
-    F func = std::move(self->action.get(in_place_index_t<1>{}));
+    either<detail::monostate, F> func;
+    try {
+      func.emplace(in_place_index_t<1>{},
+                   std::move(self->action.get(in_place_index_t<1>{})));
+    } catch (...) {
+      self->action.clean();
+      self->state.set_exception(std::current_exception());
+      return;
+    }
     self->action.clean();
     shared_state<R> *state = &self->state;
     std::shared_ptr<shared_state<R>> state_sp{std::exchange(self, nullptr),
                                               state};
-    func(std::move(state_sp));
+    func.get(in_place_index_t<1>{})(std::move(state_sp));
   }
 
   static void schedule(std::weak_ptr<cnt_state> wself) {
-- 
2.43.0


From f0250b149dd24a644bac0fa8c29aaa8fc6e847ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:35 +0000
Subject: [PATCH 11/14] fix: report lack of memory while breaking a promise
 through the future

Creating the broken_promise exception may throw std::bad_alloc, and promises
are abandoned in destructors, so the program was terminated.
---
 portable_concurrency/bits/portable_concurrency.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 54ca347..41cdb35 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -80,8 +80,14 @@ template class closable_queue<unique_function<void()>>;
 }
 
 std::exception_ptr make_broken_promise() {
-  return std::make_exception_ptr(
-      std::future_error{std::future_errc::broken_promise});
+  try {
+    return std::make_exception_ptr(
+        std::future_error{std::future_errc::broken_promise});
+  } catch (...) {
+    // Promises are abandoned in destructors: report the lack of memory through
+    // the future instead of terminating the program.
+    return std::current_exception();
+  }
 }
 
 void future_state_base::push(continuation &&cnt) {
-- 
2.43.0


From 17ef3a0c8d74f51087d9e4581cc2d6715f363095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:18 +0000
Subject: [PATCH 12/14] fix: break the promise of a posted continuation
 overwritten by assignment

An executor may keep tasks by their own type, which is documented to be
MoveAssignable. The future of the overwritten continuation was never ready.
---
 portable_concurrency/bits/then.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index 470dfaf..cdb30bb 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,7 +184,10 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
-    wdata = std::move(rhs.wdata);
+    if (this != &rhs) {
+      // Task which is being overwritten is never going to be executed.
+      cnt_action overwritten{std::exchange(wdata, std::move(rhs.wdata))};
+    }
     return *this;
   }
 
-- 
2.43.0


From 35dcd6c41c81e90d4be2787d116bc2c38dc5569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:56 +0000
Subject: [PATCH 13/14] fix: ignore operator new of stored values and callables

Values of futures and callables are constructed in preallocated storage
with unqualified placement new, which does not compile for a class having
its own operator new.
---
 portable_concurrency/bits/either.h                  | 3 ++-
 portable_concurrency/bits/small_unique_function.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/portable_concurrency/bits/either.h b/portable_concurrency/bits/either.h
index c820655..79dc9b0 100644
--- a/portable_concurrency/bits/either.h
+++ b/portable_concurrency/bits/either.h
@@ -84,7 +84,8 @@ public:
   void emplace(in_place_index_t<I>, A &&...a) {
     static_assert(I != empty_state, "Can't emplace construct monostate");
     clean();
-    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);
+    ::new (static_cast<void *>(&storage_))
+        at_t<I - 1, T...>(std::forward<A>(a)...);
     state_ = I;
   }
 
diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index 0aadd0a..ad8f16d 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -40,7 +40,8 @@ const callable_vtbl<R, A...> &get_callable_vtbl() {
   static const callable_vtbl<R, A...> res = {
       [](small_buffer &buf) { reinterpret_cast<F &>(buf).~F(); },
       [](small_buffer &src, small_buffer &dst) {
-        new (&dst) F{std::move(reinterpret_cast<F &>(src))};
+        ::new (static_cast<void *>(&dst))
+            F{std::move(reinterpret_cast<F &>(src))};
       },
       [](small_buffer &buf, A... a) -> R {
 #if !defined(_MSC_VER)
@@ -102,7 +103,7 @@ small_unique_function<R(A...)>::small_unique_function(F &&f) {
                 "Can't embed object into small_unique_function");
   if (detail::is_null(f))
     return;
-  new (&buffer_) std::decay_t<F>{std::forward<F>(f)};
+  ::new (static_cast<void *>(&buffer_)) std::decay_t<F>{std::forward<F>(f)};
   vtbl_ = &detail::get_callable_vtbl<std::decay_t<F>, R, A...>();
 }
 
-- 
2.43.0


From df214dce52249a70ddc4184ce63c4a5dd286b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:47 +0000
Subject: [PATCH 14/14] fix: copy and move callables with parentheses

With braces a callable whose class has an initializer_list or a catch-all
constructor is wrapped into a new one instead of being moved or copied.
---
 portable_concurrency/bits/promise.h                 | 4 ++--
 portable_concurrency/bits/small_unique_function.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/promise.h b/portable_concurrency/bits/promise.h
index c732d5c..265e321 100644
--- a/portable_concurrency/bits/promise.h
+++ b/portable_concurrency/bits/promise.h
@@ -27,9 +27,9 @@ public:
   }
 
   cancellable_state(const F &action)
-      : shared_state<T>{}, cancel_action{action} {}
+      : shared_state<T>{}, cancel_action(action) {}
   cancellable_state(F &&action)
-      : shared_state<T>{}, cancel_action{std::move(action)} {}
+      : shared_state<T>{}, cancel_action(std::move(action)) {}
 
 private:
   F cancel_action;
diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index ad8f16d..f9cf5c6 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -41,7 +41,7 @@ const callable_vtbl<R, A...> &get_callable_vtbl() {
       [](small_buffer &buf) { reinterpret_cast<F &>(buf).~F(); },
       [](small_buffer &src, small_buffer &dst) {
         ::new (static_cast<void *>(&dst))
-            F{std::move(reinterpret_cast<F &>(src))};
+            F(std::move(reinterpret_cast<F &>(src)));
       },
       [](small_buffer &buf, A... a) -> R {
 #if !defined(_MSC_VER)
@@ -103,7 +103,7 @@ small_unique_function<R(A...)>::small_unique_function(F &&f) {
                 "Can't embed object into small_unique_function");
   if (detail::is_null(f))
     return;
-  ::new (static_cast<void *>(&buffer_)) std::decay_t<F>{std::forward<F>(f)};
+  ::new (static_cast<void *>(&buffer_)) std::decay_t<F>(std::forward<F>(f));
   vtbl_ = &detail::get_callable_vtbl<std::decay_t<F>, R, A...>();
 }
 
-- 
2.43.0

