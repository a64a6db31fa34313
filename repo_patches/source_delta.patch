From 3b732adf4b69d698353d19bcfbdfc507a66ace5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:49 +0000
Subject: [PATCH 01/25] fix: concat loses an observable emitted while the queue
 is found empty

on_next could observe the stage as busy and push the observable into the queue
after drain() had already seen this queue as empty, so nobody ever subscribed
to that observable and the sequence never completed. Take both decisions under
the queue's lock.
---
 src/rpp/rpp/operators/concat.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 0537253..13b1f63 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -58,7 +58,6 @@ namespace rpp::operators::details
                 const auto observable = get_observable();
                 if (!observable)
                 {
-                    stage().store(ConcatStage::None, std::memory_order::relaxed);
                     refcounted.dispose();
                     if (m_disposable->is_disposed())
                         get_observer()->on_completed();
@@ -95,7 +94,11 @@ namespace rpp::operators::details
         {
             auto queue = get_queue();
             if (queue->empty())
+            {
+                // under the queue's lock: next observable is either in the queue already or its on_next would see `None`
+                stage().store(ConcatStage::None, std::memory_order::relaxed);
                 return std::nullopt;
+            }
             auto observable = queue->front();
             queue->pop();
             return observable;
@@ -174,11 +177,16 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            ConcatStage current = ConcatStage::None;
-            if (base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
-                base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
-            else
-                base::state->get_queue()->push(std::forward<T>(v));
+            {
+                auto        queue   = base::state->get_queue();
+                ConcatStage current = ConcatStage::None;
+                if (!base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+                {
+                    queue->push(std::forward<T>(v));
+                    return;
+                }
+            }
+            base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
         }
 
         void on_completed() const
-- 
2.43.0


From c1e3d0ac86e27e86d4d6d706a69bd3655ebcbe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 02/25] fix: switch_on_next delivers events of replaced
 observable

Inner observable could check it is not disposed, wait for the observer's lock
and be replaced by newer observable meanwhile: its event was delivered after
values of the newer one. Check it again under the lock.
---
 src/rpp/rpp/operators/switch_on_next.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/switch_on_next.hpp b/src/rpp/rpp/operators/switch_on_next.hpp
index 5a578b0..b1b76e7 100644
--- a/src/rpp/rpp/operators/switch_on_next.hpp
+++ b/src/rpp/rpp/operators/switch_on_next.hpp
@@ -57,12 +57,15 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            m_state->get_observer()->on_next(std::forward<T>(v));
+            // newer observable could replace this one while waiting for the lock
+            if (auto observer = m_state->get_observer(); !m_refcounted.is_disposed())
+                observer->on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            m_state->get_observer()->on_error(err);
+            if (auto observer = m_state->get_observer(); !m_refcounted.is_disposed())
+                observer->on_error(err);
         }
 
         void on_completed() const
-- 
2.43.0


From 626395d14b9fb18f51c90883beedfe219529b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 03/25] fix: observe_on forwards an error concurrently with a
 value

on_error was forwarded from the source's thread while the worker could be inside
of on_next of the same observer. If an emission is in progress, let the active
drain forward this error right after it.
---
 src/rpp/rpp/operators/delay.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 612df5c..4333ee1 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -53,6 +53,7 @@ namespace rpp::operators::details
         std::mutex              mutex{};
         std::queue<emission<T>> queue;
         bool                    is_active{};
+        bool                    is_emitting{};
     };
 
     template<rpp::constraint::observer Observer, typename Worker>
@@ -116,7 +117,10 @@ namespace rpp::operators::details
             if constexpr (ClearOnError && rpp::constraint::decayed_same_as<std::exception_ptr, TT>)
             {
                 state->queue = std::queue<emission<rpp::utils::extract_observer_type_t<Observer>>>{};
-                state->observer.on_error(std::forward<TT>(item));
+                if (state->is_emitting) // observer is busy now: active drain forwards this error right after it
+                    state->queue.emplace(std::forward<TT>(item), state->worker.now());
+                else
+                    state->observer.on_error(std::forward<TT>(item));
                 return std::nullopt;
             }
             else
@@ -137,6 +141,7 @@ namespace rpp::operators::details
             while (true)
             {
                 std::unique_lock lock{state->mutex};
+                state->is_emitting = false;
                 if (state->queue.empty())
                 {
                     state->is_active = false;
@@ -149,6 +154,7 @@ namespace rpp::operators::details
 
                 auto item = std::move(top.value);
                 state->queue.pop();
+                state->is_emitting = true;
                 lock.unlock();
 
                 std::visit(rpp::utils::overloaded{[&](rpp::utils::extract_observer_type_t<Observer>&& v) { state->observer.on_next(std::move(v)); },
-- 
2.43.0


From 8c6dd49f4aedfdfee66a6926f72124a89c928705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:52 +0000
Subject: [PATCH 04/25] fix: subscribing to a subject from inside of its
 emission invalidates the iteration

on_next iterates over shared deque of observers while on_subscribe (called from
a callback or another thread) emplaces into the same deque: once its map gets
reallocated the iteration reads freed memory. Extend a copy if somebody uses
current observers.
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 12969ff..3710657 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -85,14 +85,15 @@ namespace rpp::subjects::details
                 [&](const shared_observers& observers) {
                     auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
                     auto ptr = d.lock();
-                    if (!observers)
+                    if (!observers || observers.use_count() > 1) // emission is iterating over these observers now: they have to stay untouched
                     {
-                        auto new_observers = std::make_shared<subject_state::observers>();
+                        auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
                         new_observers->emplace_back(ptr);
                         m_state = std::move(new_observers);
                     }
                     else
                     {
+                        std::atomic_thread_fence(std::memory_order::acquire); // pairs with release of observers by the last emission
                         observers->emplace_back(ptr);
                     }
 
-- 
2.43.0


From d7c0ad69d4ba753b05a910f65883b52fa5fb9d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 05/25] fix: unsubscribing from a subject deadlocks while
 another observer is being unsubscribed

---
 src/rpp/rpp/subjects/details/subject_state.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 3710657..25512b1 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -55,9 +55,12 @@ namespace rpp::subjects::details
             {
                 if (const auto shared = m_state.lock())
                 {
+                    shared_observers old_observers{}; // has to be destroyed after unlock: disposing of the last-owned observers locks the mutex again
+
                     std::unique_lock lock{shared->m_mutex};
                     process_state_unsafe(shared->m_state,
                                          [&](const shared_observers& observers) {
+                                             old_observers   = observers;
                                              shared->m_state = cleanup_observers(observers, this);
                                          });
                 }
-- 
2.43.0


From aa65d5a8b0628eb895053d5ada07c476dd2376d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:18 +0000
Subject: [PATCH 06/25] fix: clear and remove of composite disposable lock up
 when child uses the composite while being disposed

---
 .../rpp/disposables/composite_disposable.hpp   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 25b05d9..d612448 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -97,6 +97,9 @@ namespace rpp
 
         void remove(const disposable_wrapper& disposable) override
         {
+            // if it is last owner, then disposable is disposed during destruction and can use this disposable -> should happen when state is released
+            const auto keep_alive = disposable.lock();
+
             while (true)
             {
                 State expected{State::None};
@@ -130,18 +133,13 @@ namespace rpp
                 // need to acquire possible disposables state changing from other `add` or `remove`
                 if (m_current_state.compare_exchange_strong(expected, State::Edit, std::memory_order::seq_cst))
                 {
-                    try
-                    {
-                        m_disposables.dispose();
-                        m_disposables.clear();
-                    }
-                    catch (...)
-                    {
-                        m_current_state.store(State::None, std::memory_order::seq_cst);
-                        throw;
-                    }
+                    Container disposables{std::move(m_disposables)};
+                    m_disposables.clear();
                     // need to propogate disposables state changing to others
                     m_current_state.store(State::None, std::memory_order::seq_cst);
+
+                    // disposed when state is released: any of them can use this disposable while being disposed
+                    disposables.dispose();
                     return;
                 }
 
-- 
2.43.0


From 00adaacfc7de8cf289e2c87755fb4ec287b281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:57 +0000
Subject: [PATCH 07/25] fix: disposed reference of refcount disposable stays
 owned by its source

---
 src/rpp/rpp/disposables/disposable_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 26477d7..4f35243 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -134,9 +134,9 @@ namespace rpp
         {
             const auto ptr      = std::make_shared<details::auto_dispose_wrapper<TTarget>>(std::forward<TArgs>(args)...);
             auto       base_ptr = std::shared_ptr<TDisposable>{ptr, static_cast<TDisposable*>(ptr->get())};
-            if constexpr (rpp::utils::is_base_of_v<TDisposable, rpp::details::enable_wrapper_from_this>)
+            if constexpr (rpp::utils::is_base_of_v<TTarget, rpp::details::enable_wrapper_from_this>)
             {
-                base_ptr->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
+                ptr->get()->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
             }
             return disposable_wrapper_impl{std::static_pointer_cast<interface_disposable>(std::move(base_ptr))};
         }
-- 
2.43.0


From b41d3ccb2de197557674f30b4d78e6da78dc9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 08/25] fix: a subscriber of ref_count arriving while the last
 one leaves is never connected

---
 .../rpp/observables/connectable_observable.hpp    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 557699e..6466938 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -53,10 +53,19 @@ namespace rpp::details
         {
             std::unique_lock lock(m_state->mutex);
             if (!m_state->disposable.is_disposed())
-                return {m_state->disposable.lock()->add_ref(), composite_disposable_wrapper::empty()};
+            {
+                if (auto ref = m_state->disposable.lock()->add_ref(); !ref.is_disposed())
+                    return {std::move(ref), composite_disposable_wrapper::empty()};
+            }
+
+            // last reference can be already released, but disposing is not done yet (by other thread)
+            const auto old      = std::exchange(m_state->disposable, disposable_wrapper_impl<rpp::refcount_disposable>::make());
+            const auto upstream = m_state->disposable;
+            auto       ref      = upstream.lock()->add_ref();
+            lock.unlock();
 
-            m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
-            return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+            old.dispose();
+            return {std::move(ref), upstream};
         }
     };
 } // namespace rpp::details
-- 
2.43.0


From 15a95403150209b6e8a8617f7865889d4c170f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:27 +0000
Subject: [PATCH 09/25] fix: window_toggle completed a closed window while
 another thread could still be emitting to it

---
 src/rpp/rpp/operators/window_toggle.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index c51d918..9dc73a9 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -98,11 +98,16 @@ namespace rpp::operators::details
         {
             disposable->remove(this_disposable);
 
+            // detach window first: no one else can emit to it after that
+            decltype(TState::state_t::observers) closed_window{};
+            {
+                auto  locked_state = state->get_state_under_lock();
+                auto& observers    = locked_state->observers;
+                closed_window.splice(closed_window.cend(), observers, itr);
+            }
+
             itr->on_completed();
             this_disposable.dispose();
-
-            auto locked_state = state->get_state_under_lock();
-            locked_state->observers.erase(itr);
         }
 
         void set_upstream(const disposable_wrapper& d) const { this_disposable.add(d); }
-- 
2.43.0


From 845dcecb4e20e29f044b52ab46730bdfccf90e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:27 +0000
Subject: [PATCH 10/25] fix: current_thread lost the time point of a task
 rescheduled relative to its own time point while the queue was empty

---
 src/rpp/rpp/schedulers/current_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index bf2c9ef..f4d5ca2 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -126,7 +126,8 @@ namespace rpp::schedulers
                                 }
                                 else
                                 {
-                                    details::sleep_until(top->handle_advanced_call(res.value()));
+                                    top->set_timepoint(top->handle_advanced_call(res.value()));
+                                    details::sleep_until(top->get_timepoint());
                                 }
                                 continue;
                             }
-- 
2.43.0


From e470fac04695ee6ee92665a11c00766fcd35b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:33 +0000
Subject: [PATCH 11/25] fix: new_thread ran a task late when it came after, but
 is due before, the task the thread was waiting for

---
 src/rpp/rpp/schedulers/new_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 5cefa7e..d02e580 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -87,7 +87,7 @@ namespace rpp::schedulers
                     {
                         if (const auto now = worker_strategy::now(); now < state->queue.top()->get_timepoint())
                         {
-                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now, [&] { return state->queue.top()->is_disposed() || worker_strategy::now() >= state->queue.top()->get_timepoint(); });
+                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now); // any notification can mean another top
                             continue;
                         }
                     }
-- 
2.43.0


From eca12e4557778176771821fe3cbc10d35b95c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 12/25] fix: new_thread ran a task asking to be repeated at
 once before a task scheduled earlier from its own thread via current_thread

---
 src/rpp/rpp/schedulers/details/queue.hpp | 5 +++++
 src/rpp/rpp/schedulers/new_thread.hpp    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index d2578e4..596e039 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -19,6 +19,7 @@
 
 #include "rpp/utils/functors.hpp"
 
+#include <atomic>
 #include <condition_variable>
 #include <exception>
 #include <memory>
@@ -199,6 +200,7 @@ namespace rpp::schedulers::details
     {
         std::condition_variable_any cv{};
         std::recursive_mutex        mutex{};
+        std::atomic_bool            has_fresh_data{false};
     };
 
     template<typename NowStrategy>
@@ -259,6 +261,9 @@ namespace rpp::schedulers::details
             optional_mutex<std::recursive_mutex> mutex{s ? &s->mutex : nullptr};
             std::lock_guard                      lock{mutex};
 
+            if (s)
+                s->has_fresh_data.store(true);
+
             if (!m_head || schedulable->get_timepoint() < m_head->get_timepoint())
             {
                 schedulable->set_next(std::move(m_head));
diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index d02e580..7f1c290 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -51,7 +51,6 @@ namespace rpp::schedulers
             void defer_to(time_point time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 m_state->queue.emplace(time_point, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-                m_state->has_fresh_data.store(true);
             }
 
         private:
@@ -59,7 +58,6 @@ namespace rpp::schedulers
             {
                 details::schedulables_queue<current_thread::worker_strategy> queue{};
                 bool                                                         is_stoping{};
-                std::atomic_bool                                             has_fresh_data{false};
             };
 
             static void data_thread(std::shared_ptr<queue_data> state)
-- 
2.43.0


From 3abaf27d9c2796a245836a8e3ceed532de774e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 13/25] fix: current_thread ran a task which was disposed while
 its thread was sleeping until its time point

---
 src/rpp/rpp/schedulers/current_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index f4d5ca2..6889e7b 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -112,7 +112,7 @@ namespace rpp::schedulers
 
                 details::sleep_until(top->get_timepoint());
 
-                while (true)
+                while (!top->is_disposed()) // can be disposed while thread was sleeping
                 {
                     if (const auto res = top->make_advanced_call())
                     {
-- 
2.43.0


From e2f694a89a8c4a5803c5923adab65a0e25da6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:29 +0000
Subject: [PATCH 14/25] fix: run_loop dispatch polled the queue without a pause
 instead of waiting until the next task is due

---
 src/rpp/rpp/schedulers/run_loop.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/run_loop.hpp b/src/rpp/rpp/schedulers/run_loop.hpp
index b8fa1ff..dd8ed55 100644
--- a/src/rpp/rpp/schedulers/run_loop.hpp
+++ b/src/rpp/rpp/schedulers/run_loop.hpp
@@ -46,7 +46,7 @@ namespace rpp::schedulers
                     std::lock_guard lock{m_mutex};
                     m_queue.emplace(timepoint, std::forward<Args>(args)...);
                 }
-                m_cv.notify_one();
+                m_cv.notify_all();
             }
 
             std::shared_ptr<details::schedulable_base> pop(bool wait)
@@ -66,7 +66,7 @@ namespace rpp::schedulers
                     if (!wait)
                         break;
 
-                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now, [&]() { return is_disposed() || !m_queue.is_empty() || m_queue.top()->get_timepoint() <= worker_strategy::now(); });
+                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now);
                 }
                 return {};
             }
-- 
2.43.0


From 9261822e00079a3f55f8c2330d1841f17ba9be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:07 +0000
Subject: [PATCH 15/25] fix: rppgrpc: keep error status of writer if there are
 not written messages yet

base_writer finished stream with Status::OK if on_error obtained while some write
was in progress: remember final status and use it when last write is done.
---
 .../rppgrpc/rppgrpc/details/base.hpp          | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index c5e73fa..7984c4f 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -20,6 +20,7 @@
 
 #include <deque>
 #include <mutex>
+#include <optional>
 
 namespace rppgrpc::details
 {
@@ -57,9 +58,9 @@ namespace rppgrpc::details
             {
                 start_write(m_write.front());
             }
-            else if (m_finished)
+            else if (m_final_status)
             {
-                finish_writes(grpc::Status::OK);
+                finish_writes(*m_final_status);
             }
         }
 
@@ -79,18 +80,18 @@ namespace rppgrpc::details
             void on_error(const std::exception_ptr&) const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_final_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
+                    owner.get().finish_writes(*owner.get().m_final_status);
             }
             void on_completed() const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_final_status = grpc::Status::OK;
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status::OK);
+                    owner.get().finish_writes(*owner.get().m_final_status);
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -100,9 +101,9 @@ namespace rppgrpc::details
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
-        std::mutex        m_write_mutex{};
-        std::deque<TData> m_write{};
-        bool              m_finished{};
+        std::mutex                  m_write_mutex{};
+        std::deque<TData>           m_write{};
+        std::optional<grpc::Status> m_final_status{};
     };
 
     template<rpp::constraint::decayed_type TData>
-- 
2.43.0


From 997b9fbfeefa60c766229ff11747f693b4d5a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:26 +0000
Subject: [PATCH 16/25] fix: rppgrpc: finish server stream only once and write
 nothing after it

OnCancel and OnWriteDone(false) called Finish even if stream was finished already (by
on_completed/on_error of observer or by each other) and write completed after it could
start next write: grpc aborts whole process in such cases.
---
 .../rppgrpc/rppgrpc/details/base.hpp          | 31 +++++++++++++++++--
 .../rppgrpc/rppgrpc/server_reactor.hpp        |  6 ++--
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 7984c4f..8adb285 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -21,6 +21,7 @@
 #include <deque>
 #include <mutex>
 #include <optional>
+#include <utility>
 
 namespace rppgrpc::details
 {
@@ -54,16 +55,28 @@ namespace rppgrpc::details
             std::lock_guard lock{m_write_mutex};
             m_write.pop_front();
 
+            if (m_finish_called)
+                return;
+
             if (!m_write.empty())
             {
                 start_write(m_write.front());
             }
             else if (m_final_status)
             {
-                finish_writes(*m_final_status);
+                finish_once(*m_final_status);
             }
         }
 
+        /**
+         * @brief Finishes stream right now (if it is not finished yet) without waiting for not written messages
+         */
+        void finish_immediately(const grpc::Status& status)
+        {
+            std::lock_guard lock{m_write_mutex};
+            finish_once(status);
+        }
+
         struct observer_strategy
         {
             std::reference_wrapper<base_writer> owner{};
@@ -72,6 +85,9 @@ namespace rppgrpc::details
             void on_next(T&& message) const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
+                if (owner.get().m_finish_called)
+                    return;
+
                 owner.get().m_write.push_back(std::forward<T>(message));
                 if (owner.get().m_write.size() == 1)
                     owner.get().start_write(owner.get().m_write.front());
@@ -83,7 +99,7 @@ namespace rppgrpc::details
                 owner.get().m_final_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(*owner.get().m_final_status);
+                    owner.get().finish_once(*owner.get().m_final_status);
             }
             void on_completed() const
             {
@@ -91,19 +107,28 @@ namespace rppgrpc::details
                 owner.get().m_final_status = grpc::Status::OK;
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(*owner.get().m_final_status);
+                    owner.get().finish_once(*owner.get().m_final_status);
             }
 
             static constexpr bool is_disposed() { return false; }
             static constexpr void set_upstream(const rpp::disposable_wrapper&) {}
         };
 
+    private:
+        // expected to be called under m_write_mutex
+        void finish_once(const grpc::Status& status)
+        {
+            if (!std::exchange(m_finish_called, true))
+                finish_writes(status);
+        }
+
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
         std::mutex                  m_write_mutex{};
         std::deque<TData>           m_write{};
         std::optional<grpc::Status> m_final_status{};
+        bool                        m_finish_called{};
     };
 
     template<rpp::constraint::decayed_type TData>
diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index 956ab6d..cf29701 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -95,7 +95,7 @@ namespace rppgrpc
             details::base_writer<Response>::handle_on_done();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::finish_immediately(grpc::Status::CANCELLED);
         }
     };
 
@@ -144,7 +144,7 @@ namespace rppgrpc
         {
             if (!ok)
             {
-                Base::Finish(grpc::Status::OK);
+                details::base_writer<Response>::finish_immediately(grpc::Status::OK);
                 return;
             }
 
@@ -164,7 +164,7 @@ namespace rppgrpc
             details::base_writer<Response>::handle_on_done();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::finish_immediately(grpc::Status::CANCELLED);
         }
     };
 
-- 
2.43.0


From ffa5db155d618fb30014fdf73c360a140bcd6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:46 +0000
Subject: [PATCH 17/25] fix: rppgrpc: detach observer from reactor when reactor
 is done

Reactor deletes itself in OnDone while other thread still can be inside of observer
(obtained via get_observer()): at least to unlock mutex of the reactor after Finish.
Keep mutex and link to reactor in the state shared with observer.
---
 .../rppgrpc/rppgrpc/details/base.hpp          | 67 +++++++++++++------
 .../rppgrpc/rppgrpc/server_reactor.hpp        |  4 +-
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 8adb285..71db140 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -19,6 +19,7 @@
 #include "rpp/subjects/publish_subject.hpp"
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <optional>
 #include <utility>
@@ -31,7 +32,8 @@ namespace rppgrpc::details
     public:
         base_writer()
         {
-            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{*this});
+            m_owner->writer = this;
+            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{m_owner});
         }
 
         virtual ~base_writer() noexcept = default;
@@ -45,14 +47,23 @@ namespace rppgrpc::details
         virtual void start_write(const TData& v)               = 0;
         virtual void finish_writes(const grpc::Status& status) = 0;
 
+        void handle_on_cancel()
+        {
+            m_subject.get_disposable().dispose();
+        }
+
         void handle_on_done()
         {
             m_subject.get_disposable().dispose();
+
+            // reactor would be destroyed now, but some thread still can be inside of observer: waiting for it and detaching observer from reactor
+            std::lock_guard lock{m_owner->mutex};
+            m_owner->writer = nullptr;
         }
 
         void handle_write_done()
         {
-            std::lock_guard lock{m_write_mutex};
+            std::lock_guard lock{m_owner->mutex};
             m_write.pop_front();
 
             if (m_finish_called)
@@ -73,49 +84,63 @@ namespace rppgrpc::details
          */
         void finish_immediately(const grpc::Status& status)
         {
-            std::lock_guard lock{m_write_mutex};
+            std::lock_guard lock{m_owner->mutex};
             finish_once(status);
         }
 
+        // link to reactor shared with observer: observer can outlive reactor
+        struct owner_t
+        {
+            std::mutex   mutex{};
+            base_writer* writer{};
+        };
+
         struct observer_strategy
         {
-            std::reference_wrapper<base_writer> owner{};
+            std::shared_ptr<owner_t> owner{};
 
             template<rpp::constraint::decayed_same_as<TData> T>
             void on_next(T&& message) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                if (owner.get().m_finish_called)
+                std::lock_guard lock{owner->mutex};
+                if (!owner->writer || owner->writer->m_finish_called)
                     return;
 
-                owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1)
-                    owner.get().start_write(owner.get().m_write.front());
+                auto& writer = *owner->writer;
+                writer.m_write.push_back(std::forward<T>(message));
+                if (writer.m_write.size() == 1)
+                    writer.start_write(writer.m_write.front());
             }
 
             void on_error(const std::exception_ptr&) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_final_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_once(*owner.get().m_final_status);
+                set_final_status(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
             }
             void on_completed() const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_final_status = grpc::Status::OK;
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_once(*owner.get().m_final_status);
+                set_final_status(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
             static constexpr void set_upstream(const rpp::disposable_wrapper&) {}
+
+        private:
+            void set_final_status(const grpc::Status& status) const
+            {
+                std::lock_guard lock{owner->mutex};
+                if (!owner->writer)
+                    return;
+
+                auto& writer          = *owner->writer;
+                writer.m_final_status = status;
+
+                if (writer.m_write.size() == 0)
+                    writer.finish_once(status);
+            }
         };
 
     private:
-        // expected to be called under m_write_mutex
+        // expected to be called under m_owner->mutex
         void finish_once(const grpc::Status& status)
         {
             if (!std::exchange(m_finish_called, true))
@@ -125,7 +150,7 @@ namespace rppgrpc::details
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
-        std::mutex                  m_write_mutex{};
+        std::shared_ptr<owner_t>    m_owner = std::make_shared<owner_t>();
         std::deque<TData>           m_write{};
         std::optional<grpc::Status> m_final_status{};
         bool                        m_finish_called{};
diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index cf29701..6457786 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -92,7 +92,7 @@ namespace rppgrpc
 
         void OnCancel() override
         {
-            details::base_writer<Response>::handle_on_done();
+            details::base_writer<Response>::handle_on_cancel();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
             details::base_writer<Response>::finish_immediately(grpc::Status::CANCELLED);
@@ -161,7 +161,7 @@ namespace rppgrpc
 
         void OnCancel() override
         {
-            details::base_writer<Response>::handle_on_done();
+            details::base_writer<Response>::handle_on_cancel();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
             details::base_writer<Response>::finish_immediately(grpc::Status::CANCELLED);
-- 
2.43.0


From 9078295ebc0328f68d50877b5f609f911f2dd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:15 +0000
Subject: [PATCH 18/25] fix: rppgrpc: serialize emissions of reader's
 observable

grpc calls reactions concurrently: on_error from OnCancel was emitted while on_next from
OnReadDone is in progress.
---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 71db140..10689d7 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -187,8 +187,9 @@ namespace rppgrpc::details
         }
 
     private:
-        rpp::subjects::publish_subject<TData> m_observer;
-        RPP_NO_UNIQUE_ADDRESS TData           m_data{};
+        // serialized: OnCancel can be called while OnReadDone is in progress
+        rpp::subjects::serialized_publish_subject<TData> m_observer;
+        RPP_NO_UNIQUE_ADDRESS TData                      m_data{};
     };
 
 } // namespace rppgrpc::details
-- 
2.43.0


From 034efd010670ed27e04a40d46e789cf2577462c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:28 +0000
Subject: [PATCH 19/25] fix: rppgrpc: request first reading before start of the
 client call

init() started the call and only after that requested reading. Call without outstanding operations could be finished in between: OnDone destroys reactor while init() is still using it.
---
 src/extensions/rppgrpc/rppgrpc/client_reactor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 3f62d68..4fd6871 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -44,8 +44,9 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // reading has to be requested before start of the call: otherwise call can be finished (and reactor destroyed) in between
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_writer<Request>::get_observer;
@@ -182,8 +183,9 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // reading has to be requested before start of the call: otherwise call can be finished (and reactor destroyed) in between
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_reader<Response>::get_observable;
-- 
2.43.0


From ee75377884d09b718a3cbc743a226efaf8f9e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 20/25] fix: don't run schedulables of Qt's
 main_thread_scheduler before their time

---
 src/extensions/rppqt/rppqt/schedulers/main_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9a379e1..222834c 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -44,7 +44,8 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                // rounding up and precise timer: schedulable shouldn't be executed before its time
+                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
                         invoke(std::move(fn), std::move(handler), std::move(args)...);
                 });
-- 
2.43.0


From d528f881d026f22da907c6dccadb19c490e3dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 21/25] fix: run delayed schedulables of Qt's
 main_thread_scheduler submitted from other threads

---
 .../rppqt/rppqt/schedulers/main_thread.hpp        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 222834c..94f9dc5 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -18,6 +18,8 @@
 #include "rpp/schedulers/fwd.hpp"
 
 #include <QCoreApplication>
+#include <QMetaObject>
+#include <QThread>
 #include <QTimer>
 #include <chrono>
 #include <concepts>
@@ -44,6 +46,19 @@ namespace rppqt::schedulers
                     return;
                 }
 
+                if (duration > rpp::schedulers::duration::zero() && QThread::currentThread() != application->thread())
+                {
+                    // timer can't be started from thread without event loop -> starting it from thread of application
+                    QMetaObject::invokeMethod(
+                        application,
+                        [time_point = now() + duration, fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                            if (!handler.is_disposed())
+                                defer_for(time_point - now(), std::move(fn), std::move(handler), std::move(args)...);
+                        },
+                        Qt::QueuedConnection);
+                    return;
+                }
+
                 // rounding up and precise timer: schedulable shouldn't be executed before its time
                 QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
-- 
2.43.0


From d84cc337ebfe569addcc789be63321a443a9eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:41 +0000
Subject: [PATCH 22/25] fix: debounce lost its last value when completion raced
 with the timer

---
 src/rpp/rpp/operators/debounce.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 0bb9c12..6583a04 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -71,12 +71,14 @@ namespace rpp::operators::details
             m_worker.schedule(
                 m_time_when_value_should_be_emitted.value(),
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
-                    auto value_or_duration = handler.state->extract_value_or_time();
+                    // value has to be extracted and emitted under same lock, else on_completed can get ahead of extracted value
+                    const auto observer          = handler.state->get_observer_under_lock();
+                    auto       value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
                         return schedulers::optional_delay_to{*timepoint};
 
                     if (auto* value = std::get_if<T>(&value_or_duration))
-                        handler.state->get_observer_under_lock()->on_next(std::move(*value));
+                        observer->on_next(std::move(*value));
 
                     return std::nullopt;
                 },
-- 
2.43.0


From c82507fe1e51c11c9f0aa78c125bb97276ee8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:41 +0000
Subject: [PATCH 23/25] fix: debounce deadlocked over schedulers which run the
 task in place (immediate, current_thread, zero period)

---
 src/rpp/rpp/operators/debounce.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 6583a04..7271f1b 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -47,14 +47,15 @@ namespace rpp::operators::details
         template<typename TT>
         void emplace_safe(TT&& v)
         {
-            std::lock_guard lock{m_mutex};
-            m_value_to_be_emitted.emplace(std::forward<TT>(v));
-            const bool need_to_scheduled        = !m_time_when_value_should_be_emitted.has_value();
-            m_time_when_value_should_be_emitted = m_worker.now() + m_period;
-            if (need_to_scheduled)
+            const auto time_to_emit = m_worker.now() + m_period;
             {
-                schedule();
+                std::lock_guard lock{m_mutex};
+                m_value_to_be_emitted.emplace(std::forward<TT>(v));
+                if (std::exchange(m_time_when_value_should_be_emitted, time_to_emit).has_value())
+                    return;
             }
+            // not under lock: worker can execute schedulable right in place
+            schedule(time_to_emit);
         }
 
         std::optional<T> extract_value()
@@ -66,10 +67,10 @@ namespace rpp::operators::details
         rpp::utils::pointer_under_lock<Observer> get_observer_under_lock() { return m_observer; }
 
     private:
-        void schedule()
+        void schedule(schedulers::time_point time_to_emit)
         {
             m_worker.schedule(
-                m_time_when_value_should_be_emitted.value(),
+                time_to_emit,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
                     // value has to be extracted and emitted under same lock, else on_completed can get ahead of extracted value
                     const auto observer          = handler.state->get_observer_under_lock();
-- 
2.43.0


From 83d51da67bf8b0ea049ca173c53d9d7f1927999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:03 +0000
Subject: [PATCH 24/25] fix: timeout passed a value to the observer it had
 already given to the fallback

---
 src/rpp/rpp/operators/timeout.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4d2ce27..923e560 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -82,6 +82,9 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             auto obs_with_timeout = disposable->get_observer_with_timeout_under_lock();
+            if (disposable->is_disposed()) // timeout happened while waiting for the lock: observer is given away to the fallback
+                return;
+
             obs_with_timeout->observer.on_next(std::forward<T>(v));
             obs_with_timeout->timeout = rpp::schedulers::utils::get_worker_t<TScheduler>::now() + disposable->get_period();
         }
-- 
2.43.0


From fc9b4bd1e08bd958566402f36f0fc887b34322e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:46 +0000
Subject: [PATCH 25/25] fix: data race between threads creating workers of
 thread_pool

---
 src/rpp/rpp/schedulers/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/thread_pool.hpp b/src/rpp/rpp/schedulers/thread_pool.hpp
index 906733d..691b9b1 100644
--- a/src/rpp/rpp/schedulers/thread_pool.hpp
+++ b/src/rpp/rpp/schedulers/thread_pool.hpp
@@ -14,6 +14,7 @@
 
 #include <rpp/schedulers/new_thread.hpp>
 
+#include <atomic>
 #include <vector>
 
 namespace rpp::schedulers
@@ -84,7 +85,7 @@ namespace rpp::schedulers
 
         private:
             std::vector<original_worker> m_workers{};
-            size_t                       m_index{};
+            std::atomic<size_t>          m_index{}; // workers can be created from different threads
         };
 
         std::shared_ptr<state> m_state{};
-- 
2.43.0

